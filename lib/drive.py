"""Drive the real model and record what it did as events for CircuitTrace."""
import itertools
import random

import circ
from vlib import RNG, THOROUGH, guarded, load_torch, run_tlc, setup_paths

setup_paths()
torch = load_torch()

CFG = "SPECIFICATION Spec\nINVARIANT Conforms\n"


def spread(x, n, chance=0.3):
    """Now and then the rows of x (n of them) are put at random places of a much larger batch of
    repetitions.  Returns the batch and the places of the rows."""
    if n < 2 or RNG.random() > chance:
        return x, list(range(n))
    sizes = [t for t in (33, 65, 130, 257, 520, 1030, 2050, 4100) if t >= n]
    if not sizes:
        return x, list(range(n))
    T = RNG.choice(sizes)
    idx = list(range(n)) + [RNG.randrange(n) for _ in range(T - n)]
    RNG.shuffle(idx)
    at = [[] for _ in range(n)]
    for j, k in enumerate(idx):
        at[k].append(j)
    return x[torch.tensor(idx)], [RNG.choice(a) for a in at]


class Rec:
    def __init__(self, ck, insts, prefix=""):
        self.ck = ck
        self.insts = insts
        self.models = [i.m for i in insts]
        self.events = []
        self.idx = {id(inst): j + 1 for j, inst in enumerate(insts)}

    def ev(self, inst, k, tag, err="", **kw):
        kw.update(k=k, m=self.idx[id(inst)], tag=f"{tag} [{inst.name}]", err=err)
        self.events.append(kw)
        self.ck.sample(dict(instance=inst.name, **{a: kw[a] for a in kw if a not in ("m",)}))

    def wf(self, inst):
        self.ev(inst, "wf", "well-formed")

    def flags(self, inst, tag, **obs):
        self.ev(inst, "flags", tag, obs={k: bool(v) for k, v in obs.items()})

    # -------------------------------------------------------------- likelihoods
    def dens(self, inst, xs, tag="forward", x_real=None, spec_xs=None, **kw):
        x = circ.encode(inst, xs) if x_real is None else x_real
        x, at = spread(x, len(xs))
        ll, err = guarded(lambda: inst.model(x, **kw))
        spec_xs = spec_xs or xs
        if not err and tuple(ll.shape) != (len(x), inst.cfg["num_classes"]):
            err = f"shape {tuple(ll.shape)}"
        if not err:
            ll = ll[at]
        if err:
            self.ev(inst, "dens", tag, err=err, x=spec_xs[0], obs=[])
            return None
        for sx, o in zip(spec_xs, circ.scaled(inst, ll)):
            self.ev(inst, "dens", tag, x=sx, obs=o)
        return ll

    def post(self, inst, xs, tag="posterior", x_real=None):
        x = circ.encode(inst, xs) if x_real is None else x_real
        x, at = spread(x, len(xs))
        p, err = guarded(lambda: inst.model.posterior(x))
        if not err and tuple(p.shape) != (len(x), inst.cfg["num_classes"]):
            err = f"shape {tuple(p.shape)}"
        if not err:
            p = p[at]
        if err:
            self.ev(inst, "post", tag, err=err, x=xs[0], obs=[])
            return
        q = (p.detach().double().exp() * 1e6)
        q = torch.where(torch.isfinite(q), q, torch.full_like(q, -1e6)).round().clamp(-2e6, 2e6).long().tolist()
        for sx, o in zip(xs, q):
            self.ev(inst, "post", tag, x=sx, obs=o)

    # -------------------------------------------------------------- sampling
    def any_(self, inst):
        return [[-1] * inst.F for _ in range(inst.CH)]

    def cells(self, inst, x):
        return [[c + 1, f + 1] for c in range(inst.CH) for f in range(inst.F) if x[c][f] == -1]

    def hist(self, inst, y, x, cls, tag, ids=None, emit="value", ts="1", tl="1", cap=800):
        """y: decoded outcomes [N, CH, F] (value 9 / -9: not a domain value).  If there are
        too many outcomes, the joint distribution of a random choice of cells is recorded."""
        V = inst.V if ids is None else ids
        x = x or self.any_(inst)
        cells = self.cells(inst, x) if emit != "leaf" else self.cells(inst, self.any_(inst))
        while len(cells) > 1 and V ** len(cells) > cap:
            cells.remove(RNG.choice(cells))
        N = y.shape[0]
        idx = torch.zeros(N, dtype=torch.long)
        bad = torch.zeros(N, dtype=torch.bool)
        for c, f in cells:
            v = y[:, c - 1, f - 1]
            bad |= (v < 0) | (v >= V)
            idx = idx * V + v.clamp(0, V - 1)
        bad |= ((y < 0) | (y >= V)).flatten(1).any(1)
        if emit != "leaf":
            for c in range(inst.CH):
                for f in range(inst.F):
                    if x[c][f] != -1:
                        bad |= y[:, c, f] != x[c][f]
        n_out = V ** len(cells)
        cnt = torch.bincount(idx[~bad], minlength=n_out).tolist()
        self.ev(inst, "hist", tag, x=x, cells=cells, V=V, obs=cnt, other=int(bad.sum()), N=N, cls=cls, emit=emit, ts=ts,
                tl=tl)

    def sample(self, inst, N, x=None, cls=0, tag="sample", emit="value", ts="1", tl="1", pairs=False, real_cls=None,
               **kw):
        """Unconditional (or class conditional) samples."""
        args = dict(kw)
        if real_cls is not None:
            args["class_index"] = real_cls
        s, err = guarded(lambda: inst.model.sample(num_samples=N, **args))
        if not err and tuple(s.shape) != (N, inst.CH, inst.F):
            err = f"shape {tuple(s.shape)}"
        if err:
            self.ev(inst, "hist", tag, err=err, obs=[], x=self.any_(inst))
            return None
        y = circ.decode(inst, s)
        self.hist(inst, y, None, cls, tag, emit=emit, ts=ts, tl=tl)
        if pairs:
            n, h = N // 2, N // 2
            self.pairs(inst, y[0::2][:n], y[1::2][:n], None, cls, tag + " rows n, n+1")
            self.pairs(inst, y[:h], y[h:2 * h], None, cls, tag + " rows n, n+N/2")
        return s

    def pairs(self, inst, a, b, x, cls, tag):
        """a[j], b[j]: decoded samples that should be independent."""
        x = x or self.any_(inst)
        c, f = RNG.choice(self.cells(inst, x))
        a, b = (v[:, c - 1, f - 1].clamp(0, inst.V - 1) for v in (a, b))
        cnt = torch.bincount(a * inst.V + b, minlength=inst.V**2).view(inst.V, inst.V).tolist()
        self.ev(inst, "pairs", tag, x=x, cell=[c, f], V=inst.V, N=len(a), obs=cnt, cls=cls)

    def dispersion(self, inst, calls, n, cls=0, x=None, tag="dispersion", **kw):
        """Many calls of n rows: in every call the number of rows with a certain property is a
        sum of n independent choices, no more and no less even than that."""
        q = self.cells(inst, x or self.any_(inst))
        c, f = RNG.choice(q)
        K, R = inst.cfg["num_leaves"], inst.cfg["num_repetitions"]
        sets = [[v for v in range(inst.V) if v % R == r] for r in range(R) if R > 1]
        sets += [[v for v in range(inst.V) if v // R == k] for k in range(K) if K > 1] + [[v] for v in range(inst.V)]
        ys = []
        for _ in range(calls):
            if x is None:
                s, err = guarded(lambda: inst.model.sample(num_samples=n, **kw))
            else:
                s, err = guarded(lambda: inst.model.sample(evidence=circ.encode(inst, [x] * n), **kw))
            if not err and tuple(s.shape) != (n, inst.CH, inst.F):
                err = f"shape {tuple(s.shape)}"
            if err:
                return self.ev(inst, "disp", tag, err=err, obs=[])
            ys.append(circ.decode(inst, s)[:, c - 1, f - 1])
        y = torch.stack(ys)
        for vs in sets:
            k = (y.unsqueeze(-1) == torch.tensor(vs)).any(-1).sum(1)
            self.ev(inst, "disp", tag, x=x or self.any_(inst), cell=[c, f], set=vs, N=n, J=calls, cls=cls,
                    obs=torch.bincount(k, minlength=n + 1).tolist())

    def twin(self, inst, tag, a, b, err=""):
        """Two samples (vectors of outcome numbers) of the same distribution."""
        if err:
            return self.ev(inst, "twin", tag, err=err, a=[], b=[])
        u, w = torch.cat([a, b]).unique(return_inverse=True)
        self.ev(inst, "twin", tag, outcomes=len(u), a=torch.bincount(w[:len(a)], minlength=len(u)).tolist(),
                b=torch.bincount(w[len(a):], minlength=len(u)).tolist())

    def small_calls(self, inst, calls, xs=None, cls=0, tag="small calls", n=2, **kw):
        """Many calls of few rows; rows of a call and rows of successive calls are independent.
        xs: evidence, two rows of each pattern in every call (n rows without evidence)."""
        got = []
        err = ""
        if xs:
            order = [j for j in range(len(xs)) for _ in range(2)]
            RNG.shuffle(order)
            ev = circ.encode(inst, [xs[j] for j in order])
        for _ in range(calls):
            s, err = guarded(lambda: inst.model.sample(evidence=ev, **kw) if xs else inst.model.sample(num_samples=n, **kw))
            if not err and tuple(s.shape) != (len(order) if xs else n, inst.CH, inst.F):
                err = f"shape {tuple(s.shape)}"
            if err:
                return self.ev(inst, "hist", tag, err=err, obs=[], x=self.any_(inst))
            got.append(s.detach())
        y = circ.decode(inst, torch.cat(got)).view(calls, -1, inst.CH, inst.F)
        for j, x in enumerate(xs or [None]):
            rows = [k for k, o in enumerate(order) if o == j] if xs else list(range(n))
            self.hist(inst, y[:, rows].reshape(-1, inst.CH, inst.F), x, cls, tag)
            if x is None or self.cells(inst, x):
                if len(rows) > 1:
                    self.pairs(inst, y[:, rows[0]], y[:, rows[1]], x, cls, tag + ": rows of a call")
                h = calls // 2
                self.pairs(inst, y[0:2 * h:2, rows[0]], y[1:2 * h:2, rows[-1]], x, cls, tag + ": successive calls")

    def conditional(self, inst, xs, N, tag="conditional", layout=None, emit="value", call=None, via="nan", **kw):
        """One batch in which the evidence rows xs alternate, N copies of each; every
        pattern's completions are one histogram.
        via: 'nan', or 'list': the missing features (which must be the same in all rows and
        channels) are passed as marginalized_scopes and hold arbitrary values."""
        P = len(xs)
        order = list(range(P)) * N
        rows = circ.encode(inst, xs)
        args = dict(kw)
        if via in ("list", "both", "tensor"):
            miss = [f for f in range(inst.F) if xs[0][0][f] == -1]
            junk = circ.encode(inst, [[[RNG.randrange(inst.V) for _ in range(inst.F)] for _ in range(inst.CH)]
                                      for _ in xs])
            listed = miss if via != "both" else miss[::2]
            keep = [f for f in range(inst.F) if f in listed]
            rows[:, :, keep] = junk[:, :, keep]
            args["marginalized_scopes"] = torch.tensor(listed) if via == "tensor" else shuffled(listed)
        ev = rows.repeat(N, 1, 1)
        if layout == "2d":
            ev = ev[:, 0]
        elif layout == "4d":
            h = next(h for h in range(int(inst.F**0.5), 0, -1) if inst.F % h == 0)
            ev = ev.view(P * N, inst.CH, h, inst.F // h)
        elif layout == "4dt":  # not contiguous
            h = next(h for h in range(int(inst.F**0.5), 0, -1) if inst.F % h == 0)
            ev = ev.view(P * N, inst.CH, h, inst.F // h).permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        f = call or (lambda e, **a: inst.model.sample(evidence=e, **a))
        s, err = guarded(lambda: f(ev, **args))
        if not err and emit != "leaf" and tuple(s.shape) != tuple(ev.shape):
            err = f"shape {tuple(s.shape)}, evidence {tuple(ev.shape)}"
        if err:
            self.ev(inst, "hist", tag, err=err, obs=[], x=xs[0])
            return None
        if emit == "leaf":
            return s
        y = circ.decode(inst, s.reshape(P * N, inst.CH, inst.F)).view(N, P, inst.CH, inst.F)
        for p, x in enumerate(xs):
            self.hist(inst, y[:, p], x, 0, tag, emit=emit)
        return s

    def mpe(self, inst, s, xs, tag, cls=0, ids=False):
        y = s.tolist()
        for x, o in zip(xs, y):
            self.ev(inst, "mpe", tag, x=x, obs=o, cls=cls, ids=ids)

    # -------------------------------------------------------------- judging
    def run(self, timeout=800, **kw):
        if not self.events:
            return
        r = run_tlc("CircuitTrace", CFG, dict(models=self.models, events=self.events), extra=["-continue"],
                    timeout=timeout, **kw)
        self.ck.traces += len(self.events)
        self.ck.judge(self.events, r, lambda ev: ev["tag"], "CircuitTrace")
        return r


UNIT = 2**20


def units(t):
    t = t.detach().double()
    t = torch.where(t.isfinite(), t, torch.full_like(t, 900.0)).clamp(-900, 900)
    return (t * UNIT).round().long().tolist()


def gradient(inst, x, c):
    """The gradient of the log-likelihood of x given class c, for a "grad" event."""
    m = inst.model
    bl = circ.base_leaf(m)
    leafp = bl.logits if inst.leaf in ("cat", "ind", "path") else None
    m.zero_grad(set_to_none=True)
    m(circ.encode(inst, [x]))[0, c].backward()
    z = lambda p: p.grad if p.grad is not None else torch.zeros_like(p)  # noqa: E731
    lay = [units(z(q.logits)) if getattr(q, "logits", None) is not None else [] for q in m.layers]
    mix = units(z(m.mixing.logits)[0]) if inst.cfg["num_repetitions"] > 1 else []
    leaf = units(z(leafp)[0]) if leafp is not None else []
    fin = all(p.grad is None or bool(p.grad.isfinite().all()) for p in m.parameters())
    m.zero_grad(set_to_none=True)
    return dict(layers=lay, mix=mix, leaf=leaf, finite=fin)


def shuffled(scopes):
    """The same scopes in any order, now and then as numpy integers."""
    import numpy as np

    out = RNG.sample(list(scopes), len(scopes))
    return [np.int64(f) for f in out] if RNG.random() < 0.3 else out


def evidence_rows(inst, rng, n, max_holes=None, min_holes=1, same=False, cap=300):
    """Evidence of positive probability: drawn from the model, then some entries removed."""
    mh = max_holes or inst.F * inst.CH
    while inst.V**mh > cap and mh > 1:
        mh -= 1
    c = 0
    cls = inst.cfg["num_classes"]
    base = sample_spec(inst, rng, n)
    out = []
    feats = None
    for b in base:
        if same:
            if feats is None:
                k = rng.randrange(min_holes, max(min_holes, mh // inst.CH) + 1)
                feats = rng.sample(range(inst.F), min(k, inst.F))
            holes = [(ch, f) for ch in range(inst.CH) for f in feats]
        else:
            allc = [(ch, f) for ch in range(inst.CH) for f in range(inst.F)]
            holes = rng.sample(allc, rng.randrange(min_holes, mh + 1))
        x = [list(row) for row in b]
        for ch, f in holes:
            x[ch][f] = -1
        out.append(x)
    return out


def sample_spec(inst, rng, n):
    """Draw assignments from the circuit itself (independent of the code under test)."""
    m = inst.m
    out = []

    def pick(ws):
        return rng.choices(range(len(ws)), weights=ws)[0]

    for _ in range(n):
        c = rng.randrange(m["C"])
        r = pick(m["mix"][c]) if m["R"] > 1 else 0
        sel = {0: c} if m["layers"][-1]["t"] != "prod" else {}
        if not sel:
            sel = {0: c}
        for L in reversed(m["layers"]):
            nxt = {}
            w = L["w"]
            for f, o in sel.items():
                if L["t"] == "prod":
                    for g in range(L["fi"]):
                        nxt[g] = o
                elif L["t"] == "pool":
                    for g in L["grp"][f]:
                        nxt[g - 1] = o
                elif L["t"] == "cross":
                    nxt[2 * f] = o // L["si"]
                    if 2 * f + 1 < L["fi"]:
                        nxt[2 * f + 1] = o % L["si"]
                elif L["t"] == "sum":
                    nxt[f] = pick([w[f][i][o][r] for i in range(L["si"])])
                elif L["t"] == "linsum":
                    i = pick([w[f][i][o][r] for i in range(L["si"])])
                    nxt[2 * f] = i
                    if 2 * f + 1 < L["fi"]:
                        nxt[2 * f + 1] = i
                elif L["t"] == "linsum2":
                    for g in (2 * f, 2 * f + 1):
                        if g < L["fi"]:
                            nxt[g] = pick([w[g][i][o][r] for i in range(L["si"])])
                else:
                    q = pick([v for row in w[f][o][r] for v in row])
                    nxt[2 * f], nxt[2 * f + 1] = q // L["si"], q % L["si"]
            sel = nxt
        x = [[0] * inst.F for _ in range(inst.CH)]
        for g, k in sel.items():
            for f in m["reg"][r][g]:
                for ch in range(inst.CH):
                    x[ch][f - 1] = pick(m["leaf"][ch][f - 1][k][r])
        out.append(x)
    return out


def leaf_ids(inst, params):
    """Map returned leaf parameters [N, CH, F, P] to leaf numbers k + K * r (-9: no such leaf)."""
    bl = circ.base_leaf(inst.model)
    P = bl.get_params().detach()
    if P.dim() == 5:
        P = P.unsqueeze(-1)
    P = P[0]                                            # CH, F, K, R, P
    K, R = inst.cfg["num_leaves"], inst.cfg["num_repetitions"]
    N = params.shape[0]
    table = P.permute(0, 1, 3, 2, 4).reshape(inst.CH, inst.F, R * K, -1)    # index r*K + k
    d = params.detach().reshape(N, inst.CH, inst.F, 1, -1) - table.unsqueeze(0)
    best, ix = (d.abs() / (1e-5 * (1 + table.abs()))).amax(-1).min(-1)
    return torch.where(best <= 1, ix, torch.full_like(ix, -9))
