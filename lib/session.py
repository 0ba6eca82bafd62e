"""Replay histories of operations (from SessionGen) on real models and record the results
for SessionTrace.  Freshly built objects with the same parameters serve as the reference."""
import copy
import io
import pickle
import random

import numpy as np

import drive
from vlib import RNG, SEED, MachineryError, guarded, run_tlc, time_limit

torch = drive.torch


class Boom(Exception):
    pass


class BaseBoom(BaseException):
    """An interruption that is no Exception (like KeyboardInterrupt)."""


SKIP = ("rng_state", "manual_seed", "get_state", "set_state", "seed", "grad_enabled", "grad_mode", "inference_mode")


class Faulty(torch.overrides.TorchFunctionMode):
    """Raises at the n-th torch operation (n = 0: only counts them)."""

    def __init__(self, n, exc=Boom):
        super().__init__()
        self.n, self.c, self.exc, self.fired = n, 0, exc, False

    def __torch_function__(self, func, types, args=(), kwargs=None):
        name = getattr(func, "__name__", "")
        if not any(s in name for s in SKIP):
            self.c += 1
            if self.c == self.n and not self.fired:
                self.fired = True
                raise self.exc("injected fault")
        return func(*args, **(kwargs or {}))


class Subject:
    """A kind of model: how to build it and what to call."""

    def __init__(self, name, mk, F, CH, domain, C=1, drop=False, caps=("cache", "post", "diff"), hw=None, nan=True, seed=5,
                 raw=None):
        self.name, self.mk, self.F, self.CH, self.C, self.drop, self.caps, self.hw = name, mk, F, CH, C, drop, set(caps), hw
        self.seed = seed
        self.raw = raw or mk                # a model that was just constructed
        rng = torch.Generator().manual_seed(77)
        n = 8
        if isinstance(domain, int):
            x = torch.randint(0, domain, (n, CH, F), generator=rng).float()
        else:
            x = torch.randn(n, CH, F, generator=rng)
            x[2] *= 60                      # rows that are extremely unlikely
            x[5] += 40
        y = x.clone()
        if nan:
            hole = torch.rand(n, CH, F, generator=rng) < 0.5
            hole[:, 0, 0] |= ~hole.flatten(1).any(1)
            hole[0] = True
            y[hole] = float("nan")
        self.pool = torch.cat([x, y])       # row ids 1..16, the last eight have holes
        self.n = n
        self.values = {}
        self.rngs = {}
        self.oracles = {}
        self.counts = {}
        self.buffers = {}

    # ------------------------------------------------------------- objects
    def build(self, leaf=0, sm=0, mk=None):
        import numpy as np

        st = torch.get_rng_state(), np.random.get_state(), random.getstate()
        torch.manual_seed(self.seed), np.random.seed(self.seed), random.seed(self.seed)
        try:
            m = (mk or self.mk)()
        finally:
            torch.set_rng_state(st[0]), np.random.set_state(st[1]), random.setstate(st[2])
        m.eval()
        self.assign(m, "leaf", leaf)
        self.assign(m, "sum", sm)
        return m

    def assign(self, m, part, v, style=0):
        g = torch.Generator().manual_seed(1000 * v + (1 if part == "leaf" else 2))
        for name, p in m.named_parameters():
            if not p.requires_grad:
                continue
            if ("leaf" in name) != (part == "leaf"):
                continue
            new = torch.randn(p.shape, generator=g) * 0.8
            if style == 0:
                p.data.copy_(new)
            elif style == 1:
                with torch.no_grad():
                    p.copy_(new)
            else:
                p.data = new

    # ------------------------------------------------------------- values
    ci_map = None       # the real cache indices (default: 0, 1, ...)

    def vid(self, kind, t, exact=False):
        """A number that identifies equal results."""
        t = t.detach().double().cpu().numpy()
        nan = np.isnan(t)
        a = np.nan_to_num(t, nan=0.0, posinf=9e9, neginf=-9e9)
        L = self.values.setdefault((kind, t.shape), [])
        for k, b, bn in L:
            d = np.abs(a - b)
            if not (d > (0 if exact else 2e-6 + 2e-5 * np.abs(b))).any() and (nan == bn).all():
                return k
        self.nv = getattr(self, "nv", 0) + 1
        L.append((self.nv, a, nan))
        return self.nv

    def rid(self):
        s = torch.get_rng_state().numpy().tobytes()
        return self.rngs.setdefault(s, len(self.rngs) + 1)

    # ------------------------------------------------------------- calls
    def batch(self, rows, layout):
        x = self.pool[[r - 1 for r in rows]].clone()
        N = len(rows)
        if layout == "2d" and self.CH == 1 and not self.hw:
            return x[:, 0]
        h, w = self.hw or next((h, self.F // h) for h in range(int(self.F**0.5), 0, -1) if self.F % h == 0)
        if layout == "4d" or self.hw and layout in ("3d", "2d"):
            return x.view(N, self.CH, h, w)
        if layout == "4dt":
            return x.view(N, self.CH, h, w).permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        if layout == "strided":
            z = torch.zeros(N, self.CH, 2 * self.F)
            z[:, :, ::2] = x
            z = z[:, :, ::2]
            return z.reshape(N, self.CH, h, w) if self.hw else z
        return x

    MG = [None, [0], [1, 3]]

    def sample_args(self, a):
        """Argument lists of sampling calls (numbered)."""
        n = self.n
        ev = self.batch(list(range(n + 1, 2 * n + 1)) * 6, "3d")
        A = [dict(num_samples=48), dict(evidence=ev), dict(evidence=self.batch([1, 2, 3, 4] * 8, "3d"), marginalized_scopes=[0, 2])]
        if self.C > 1:
            A[0] = dict(num_samples=48, class_index=self.C - 1)
            A += [dict(num_samples=48), dict(class_index=[j % self.C for j in range(48)])]
        A += [dict(evidence=ev, temperature_sums=0.5), dict(evidence=ev, mpe_at_leaves=True)]
        if "diff" in self.caps:
            A += [dict(A[0], is_differentiable=True), dict(evidence=ev, is_differentiable=True)]
        if "params" in self.caps:
            A += [dict(A[0], return_leaf_params=True)]
        return A[a % len(A)]

    def call(self, m, op):
        """Perform the call; returns (list of (kind, tensor, exact), args touched)."""
        k = op["k"]
        mg = self.MG[op.get("mg", 0)]
        mgl = None if mg is None else list(mg)
        rest = [] if mgl is None else [mgl]
        if k in ("fwd", "post", "grad", "mpe"):
            x = self.batch(op["rows"], op.get("layout", "3d")) if op["rows"] != [0] else None
            if x is not None and op.get("buf"):   # the caller writes new data into the same tensor
                key = (tuple(x.shape), x.stride())
                x = self.buffers.setdefault(key, torch.empty_like(x)).copy_(x)
            x0 = None if x is None else x.clone()
        if k == "fwd":
            kw = {"cache_index": self.ci_map[op["ci"] - 1] if self.ci_map else op["ci"] - 1} if op["ci"] else {}
            with torch.set_grad_enabled(bool(op.get("g"))):
                ll = m(x, *rest, **kw)
            out = [("fwd", r, False) for r in ll.reshape(ll.shape[0], -1)]
        elif k == "post":
            with torch.no_grad():
                ll = m.posterior(x)
            out = [("post", r, False) for r in ll]
        elif k == "grad":
            m.zero_grad(set_to_none=True)
            ll = m(x, *rest)
            ll.sum().backward()
            g = torch.cat([p.grad.flatten() for p in m.parameters() if p.grad is not None])
            m.zero_grad(set_to_none=True)
            out = [("grad", g, False)]
        elif k == "mpe":
            kw = {"is_differentiable": True} if op["v"] else {}
            if mgl is not None:
                kw["marginalized_scopes"] = mgl
            if x is None:
                y = m.sample(num_samples=3, is_mpe=True, **kw)
                out = [("mpe", y[0].reshape(-1), False)]
                if not torch.equal(y[0], y[1]):
                    out = [("mpe", y.reshape(-1), False)]
            else:
                y = m.mpe(evidence=x, **kw) if hasattr(m, "mpe") else m.sample(evidence=x, is_mpe=True, **kw)
                out = [("mpe", r, False) for r in y.reshape(y.shape[0], -1)]
                if tuple(y.shape) != tuple(x.shape):
                    out = [("mpe-shape", y, False)]
        elif k == "smp":
            kw = self.sample_args(op["a"])
            kw0 = {q: (v.clone() if torch.is_tensor(v) else copy.copy(v)) for q, v in kw.items()}
            if op["seed"]:
                kw["seed"] = op["seed"] - 1 if op["seed"] > 0 else op["seed"]
            y = m.sample(**kw)
            same = all(torch.equal(torch.nan_to_num(kw[q], -7.5), torch.nan_to_num(v, -7.5)) if torch.is_tensor(v) else kw[q] == v
                       for q, v in kw0.items())
            return [(f"smp{op['a']}", y, True)], not same
        touched = x is not None and not torch.equal(torch.nan_to_num(x, -7.5), torch.nan_to_num(x0, -7.5))
        touched |= mgl is not None and mgl != mg
        return out, touched

    def fail(self, m, op):
        """A call that should raise."""
        a = op["a"]
        seed = {"seed": op["seed"] - 1} if op["seed"] else {}
        if a == 0:
            m(torch.zeros(3, self.CH, self.F + 1))
        elif a == 1:
            m.sample(evidence=torch.full((3, self.CH, self.F + 3), float("nan")), **seed)
        elif a == 2:
            m.sample(evidence=self.batch([9, 10], "3d"), marginalized_scopes=[self.F + 5], **seed)
        else:
            self.inject(m, op, op.get("n", 0), seed)

    INJ = ["smp-ev", "mpe", "smp", "fwd", "smp-ev-diff", "post"]

    def inject(self, m, op, n, seed):
        kind = self.INJ[(op["a"] - 3) % len(self.INJ)]
        ev = self.batch([10, 11, 12], "3d")

        def go(mm):
            if kind == "smp-ev":
                mm.sample(evidence=ev, **seed)
            elif kind == "mpe":
                mm.sample(evidence=ev, is_mpe=True)
            elif kind == "smp":
                mm.sample(num_samples=4, **seed)
            elif kind == "smp-ev-diff" and "diff" in self.caps:
                mm.sample(evidence=ev, is_differentiable=True, **seed)
            elif kind == "post" and "post" in self.caps:
                mm.posterior(ev)
            else:
                mm(ev)

        key = (kind, bool(seed))
        if key not in self.counts:
            st = torch.get_rng_state()
            fresh = self.build()
            with Faulty(0) as f:
                go(fresh)
            torch.set_rng_state(st)
            self.counts[key] = f.c
        total = self.counts[key]
        n = n % total + 1
        with Faulty(n, BaseBoom if op.get("base") else Boom):
            go(m)

    def n_inject(self, a, seeded):
        kind = self.INJ[(a - 3) % len(self.INJ)]
        return self.counts.get((kind, bool(seeded)), 0)


class Replay:
    NC = 2

    def __init__(self, ck):
        self.ck = ck
        self.traces = []
        self.replayed = 0

    def run_history(self, sj, ops, rng, oracle=True):
        events = []
        objs = {1: sj.build()}
        mirror = {1: dict(leaf=0, sum=0, cache=[None] * self.NC, train=False, slot=(0, 0))}
        ckpt = [dumped(objs[1])]

        def record(o, op, err, touched, r0, r1, res, distinct=True):
            if not torch.is_grad_enabled():  # a global mode was left behind
                touched = True
                torch.set_grad_enabled(True)
            e = dict(o=o, op=op, err=err, touched=touched, rng0=r0, rng1=r1, res=res, distinct=distinct)
            events.append(e)
            return e

        def observe(o, op):
            m = objs[o]
            r0 = sj.rid()
            (got, err) = guarded(sj.call, m, op, limit=120)
            r1 = sj.rid()
            if err:
                return record(o, op, err, False, r0, r1, [])
            out, touched = got
            if sj.drop and m.training and op["k"] in ("fwd", "post", "mpe") and len(out) > 1:
                out = [("all-" + op["k"], torch.stack([t for _, t, _ in out]), False)]
            elif sj.drop and m.training:
                out = [("all-" + q, t, ex) for q, t, ex in out]
            return record(o, op, "", bool(touched), r0, r1, [sj.vid(k, t, ex) for k, t, ex in out],
                          distinct=not any(w in str(op.get("args")) for w in ("mpe_at",)))

        def reference(op, st, r0state):
            """The same facts on a fresh object."""
            leaf, sm, op2 = st["leaf"], st["sum"], dict(op)
            if op["k"] == "fwd" and op["ci"]:
                ent = st["cache"][op["ci"] - 1]
                if ent:
                    leaf, op2["rows"], op2["mg"] = ent
                op2["ci"] = 0
                op2["args"] = args_of(op2)
            op2["layout"] = "3d"
            stoch = (op["k"] == "smp" and op["seed"] == 0) or (sj.drop and st["train"])
            key = (op2["args"], tuple(op2.get("rows", ())), op2.get("mg", 0), op2.get("seed", 0), leaf, sm, st["train"],
                   r0state.numpy().tobytes() if stoch else 0)
            if key not in sj.oracles:
                keep = torch.get_rng_state()
                obj = sj.build(leaf, sm)
                if st["train"]:
                    obj.train()
                torch.set_rng_state(r0state)
                ev0 = len(events)
                objs[2] = obj
                e = observe(2, op2)
                events.pop()
                assert len(events) == ev0
                torch.set_rng_state(keep)
                sj.oracles[key] = e
            r = sj.rid()
            record(2, dict(k="fresh", leaf=leaf, sum=sm), "", False, r, r, [])
            if st["train"]:
                record(2, dict(k="train"), "", False, r, r, [])
            events.append(sj.oracles[key])

        for op in ops:
            op = dict(op)
            o = 1
            st = mirror[o]
            k = op["k"]
            op["args"] = args_of(op)
            if k in ("fwd", "post", "mpe", "grad", "smp"):
                before = torch.get_rng_state()
                e = observe(o, op)
                if oracle and not e["err"]:
                    reference(op, st, before)
                if k == "fwd" and op["ci"] and st["cache"][op["ci"] - 1] is None:
                    st["cache"][op["ci"] - 1] = (st["leaf"], op["rows"], op["mg"])
            elif k == "fail":
                r0 = sj.rid()
                err = ""
                try:
                    with time_limit(120):
                        sj.fail(objs[o], op)
                except (Exception, BaseBoom) as ex:  # noqa: BLE001
                    err = f"{type(ex).__name__}: {ex}"[:200]
                if err:  # (calls may complete if the fault lies behind their end)
                    record(o, op, err, False, r0, sj.rid(), [])
            else:
                m = objs[o]
                r0 = sj.rid()
                err = ""
                if k == "leaf" or k == "sum":
                    sj.assign(m, k, op["v"], op.get("style", 0))
                    st[k] = op["v"]
                elif k == "reset":
                    m.reset_cache()
                    st["cache"] = [None] * self.NC
                elif k in ("train", "eval"):
                    getattr(m, k)()
                    st["train"] = k == "train"
                elif k == "rng":
                    torch.manual_seed(op["v"])
                elif k == "copy":
                    new, err = guarded(copied, sj, m, op["via"])
                    if not err:
                        objs[1] = new
                        sj.assign(m, "leaf", 21)  # the original goes its own way
                        sj.assign(m, "sum", 21)
                        old_buffers(m)
                    op["src"] = 1
                    st["cache"] = [None] * self.NC
                    if op["via"] == "load":
                        st["train"] = False
                elif k == "ckpt":
                    ckpt[0] = dumped(m)
                    st["slot"] = (st["leaf"], st["sum"])
                elif k == "back":
                    _, err = guarded(lambda: m.load_state_dict(torch.load(io.BytesIO(ckpt[0]), weights_only=True)))
                    st["leaf"], st["sum"] = st["slot"]
                record(o, op, err, False, r0, sj.rid(), [])
                if err:
                    break
        self.traces.append(dict(subject=sj.name, drop=sj.drop, nobj=2, events=events))
        self.replayed += 1

    def run(self, timeout=800):
        keep = ("k", "rows", "mg", "ci", "v", "a", "seed", "leaf", "sum", "via", "src", "args")

        def lean(e):
            return dict(e, op={q: e["op"][q] for q in keep if q in e["op"]})

        data = dict(ncache=self.NC, traces=[dict(t, events=[lean(e) for e in t["events"]]) for t in self.traces])
        r = run_tlc("SessionTrace", "SPECIFICATION Spec\nINVARIANT Conforms\n", data, extra=["-continue"], timeout=timeout)
        self.ck.add_tlc(r)
        self.ck.traces += len(self.traces)
        self.ck.evals += sum(len(t["events"]) for t in self.traces)
        if self.traces:
            t = self.traces[len(self.traces) // 2]
            self.ck.sample(dict(subject=t["subject"], ops=[lean(e)["op"] for e in t["events"] if e["o"] == 1][:12]))
        if r.rc != 0 and not r.bad:
            raise MachineryError(r.out[-3000:])
        seen = set()
        for b in r.bad:
            if (b["t"], b["i"]) in seen:
                continue
            seen.add((b["t"], b["i"]))
            t = self.traces[b["t"] - 1]
            e = t["events"][b["i"] - 1]
            why = b["why"] if not b["why"].startswith("raised") else "raised " + b["why"].split(":")[1].strip()
            self.ck.violation(f"{e['op']['k']}: {why} [{t['subject']}]",
                              dict(why=b["why"], event=e, history=[x["op"] for x in t["events"][:b["i"]] if x["o"] == 1]))


def dumped(m):
    b = io.BytesIO()
    torch.save(m.state_dict(), b)
    return b.getvalue()


def old_buffers(m):
    """Overwrite what a discarded original shares with its copy, if anything."""
    for _, b in m.named_buffers():
        b.zero_()


def args_of(op):
    k = op["k"]
    if k == "smp":
        return f"smp{op['a']}"
    return f"{k} {op.get('rows')} {op.get('mg', 0)} {op.get('v', 0)}"


def copied(sj, m, via):
    new = copied_(sj, m, via)
    if hasattr(new, "reset_cache"):
        new.reset_cache()  # whether a copy takes cached values along is left open
    return new


def copied_(sj, m, via):
    if via == "deepcopy":
        return copy.deepcopy(m)
    if via == "pickle":
        return pickle.loads(pickle.dumps(m))
    if via == "save":
        b = io.BytesIO()
        torch.save(m, b)
        b.seek(0)
        return torch.load(b, weights_only=False)
    b = io.BytesIO(dumped(m))
    old, sj.seed = sj.seed, sj.seed + 1234
    try:
        new = sj.build(9, 9, mk=sj.raw)
    finally:
        sj.seed = old
    new.load_state_dict(torch.load(b, weights_only=True))
    return new


# ----------------------------------------------------------------- generation
def histories(ck, alphabet, length, simulate=None, laws=True, timeout=300, cap=None):
    """Histories over the alphabet enumerated (or drawn) by TLC."""
    cfg = "SPECIFICATION Spec\nINVARIANT Emit\n"
    if laws:
        cfg += "INVARIANT Functional\nINVARIANT SumsCurrent\nPROPERTY CacheSticky\nPROPERTY CacheIndependent\n"
    ops = [dict(op, args=args_of(op)) for op in alphabet]
    extra, kw = [], {}
    if simulate:
        kw = dict(simulate=f"num={simulate}")
        extra = ["-depth", str(length + 1), "-seed", str(SEED * 31 + 7)]
    r = run_tlc("SessionGen", cfg, dict(ops=ops, len=length, ncache=Replay.NC), extra=extra, timeout=timeout,
                workers=1 if simulate else 8, **kw)
    if r.rc != 0:
        raise MachineryError(f"the session specification violates {r.violated}\n" + r.out[-3000:])
    ck.add_tlc(r)
    out = sorted({tuple(h) for h in r.emitted})
    if simulate:  # the runs' last steps are emitted in all variants
        one = {}
        for h in out:
            one.setdefault(h[:-1], []).append(h)
        out = [RNG.choice(v) for v in one.values()]
    ck.extra["histories_generated"] = ck.extra.get("histories_generated", 0) + len(out)
    if cap and len(out) > cap:
        out = RNG.sample(out, cap)
    return [[alphabet[j - 1] for j in h] for h in out]


# ----------------------------------------------------------------- subjects
def subjects():
    from simple_einet.conv_pc import ConvPc, ConvPcConfig
    from simple_einet.data import Shape
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
    from simple_einet.layers.distributions.normal import Normal, RatNormal
    from simple_einet.mixture import Mixture

    def einet(leaf, kw, F, CH=1, R=1, C=1, depth=2, layer="linsum", structure="top-down", drop=0.0):
        c = EinetConfig(num_features=F, num_channels=CH, num_sums=3, num_leaves=3, num_repetitions=R, num_classes=C,
                        depth=depth, leaf_type=leaf, leaf_kwargs=kw, layer_type=layer, structure=structure, dropout=drop)
        return lambda: Einet(c)

    def conv(structure, order, size=4):
        c = ConvPcConfig(channels=[3, 2], kernel_size=2, num_channels=1, leaf_type=Categorical, leaf_kwargs={"num_bins": 3},
                         structure=structure, order=order)
        return lambda: ConvPc(c, Shape(channels=1, height=size, width=size))

    def mix(CH=1, C=2, init=True, n=3):
        c = EinetConfig(num_features=5, num_channels=CH, num_sums=2, num_leaves=2, num_repetitions=2, num_classes=C, depth=1,
                        leaf_type=Normal)
        m = Mixture(n, c)
        g = torch.Generator().manual_seed(3)
        if init:
            m.initialize(torch.cat([torch.randn(20 - 8 * j, CH, 5, generator=g) * 0.3 + 1.2 * (j - 1) for j in range(n)]))
        return m

    multi = {"scopes_to_dist": [([0, 4, 2], Categorical, {"num_bins": 3}), ([3, 1], Binomial, {"total_count": 2})]}
    full = ("cache", "post", "diff", "params")
    return [
        Subject("td-linsum-cat-R3-C3", einet(Categorical, {"num_bins": 3}, 6, CH=2, R=3, C=3), 6, 2, 3, C=3, caps=full),
        Subject("bu-normal-R2", einet(Normal, {}, 5, R=2, structure="bottom-up"), 5, 1, None, caps=("cache", "diff")),
        Subject("td-einsum-multi-C2", einet(MultiDistributionLayer, multi, 5, C=2, layer="einsum"), 5, 1, 3, C=2,
                caps=("cache", "post", "diff")),
        Subject("td-linsum2-ratnormal-drop", einet(RatNormal, {"min_sigma": 0.3, "max_sigma": 1.5}, 6, R=2, layer="linsum2",
                                                   drop=0.3), 6, 1, None, drop=True, caps=("diff", "params")),
        Subject("td-depth0-binom-R2-C2", einet(Binomial, {"total_count": 3}, 4, R=2, C=2, depth=0), 4, 1, 4, C=2, caps=full),
        Subject("td-linsum-normal-drop-C2", einet(Normal, {}, 5, R=2, C=2, drop=0.4), 5, 1, None, C=2, drop=True,
                caps=("post", "diff", "params")),
        Subject("td-einsum-normal-R2-C2", einet(Normal, {}, 5, R=2, C=2, layer="einsum"), 5, 1, None, C=2, caps=full),
        Subject("convpc-bottom-up", conv("bottom-up", "sum-prod"), 16, 1, 3, caps=(), hw=(4, 4)),
        Subject("convpc-top-down", conv("top-down", "prod-sum"), 16, 1, 3, caps=(), hw=(4, 4)),
        Subject("mixture-C2", mix, 5, 1, None, C=2, caps=(), raw=lambda: mix(init=False)),
        Subject("mixture-2-ch2", lambda: mix(2, 1, n=2), 5, 2, None, caps=(), raw=lambda: mix(2, 1, init=False, n=2)),
    ]


def alphabet(sj, rng, parts):
    """Operations for the generator; parts: which groups."""
    n = sj.n
    A = []

    def rows(holes=None):
        k = rng.choice([1, 2, 3, 5])
        lo, hi = (1, 2 * n) if holes is None else ((n + 1, 2 * n) if holes else (1, n))
        return [rng.randint(lo, hi) for _ in range(k)]

    lay = ["3d", "2d", "4d", "4dt", "strided"]
    if "fwd" in parts:
        A += [dict(k="fwd", rows=rows(), mg=0, ci=0, layout=rng.choice(lay)), dict(k="fwd", rows=rows(), mg=rng.randint(1, 2), ci=0, g=1)]
    if "layout" in parts:
        R = rows()
        A += [dict(k="fwd", rows=rows(), mg=0, ci=0, layout=L) for L in lay]
        A += [dict(k="fwd", rows=R + rows(), mg=1, ci=0, layout="4dt"), dict(k="fwd", rows=R[::-1], mg=1, ci=0, layout="4d")]
        A += [dict(k="mpe", rows=rows(True), mg=0, v=0, layout=L) for L in lay]
        A += [dict(k="mpe", rows=rows(), mg=2, v=0, layout=L) for L in lay[1:4]]
        if "post" in sj.caps:
            A += [dict(k="post", rows=rows(), layout=L) for L in lay]
    if "det" in parts:
        if "post" in sj.caps:
            A += [dict(k="post", rows=rows())]
        A += [dict(k="mpe", rows=rows(True), mg=0, v=0), dict(k="mpe", rows=rows(), mg=1, v=0), dict(k="mpe", rows=[0], mg=0, v=0)]
        if "diff" in sj.caps:
            A += [dict(k="mpe", rows=rows(True), mg=0, v=1)]
        A += [dict(k="grad", rows=rows(), mg=0)]
    if "buf" in parts:
        R = rows()
        for q in range(2):
            other = [rng.randint(1, 2 * n) for _ in R]
            A += [dict(k="fwd", rows=other, mg=0, ci=0, buf=1)]
            if "post" in sj.caps:
                A += [dict(k="post", rows=R if q else other, buf=1)]
            A += [dict(k="mpe", rows=[n + (r - 1) % n + 1 for r in other], mg=0, v=0, buf=1)]
    if "cache" in parts and not sj.drop and "cache" in sj.caps:
        for ci in (1, 2):
            A += [dict(k="fwd", rows=rows(), mg=0, ci=ci), dict(k="fwd", rows=rows(), mg=0, ci=ci, g=1)]
        A += [dict(k="reset")]
    if "cachex" in parts and "cache" in sj.caps:
        R = rows()
        A += [dict(k="fwd", rows=R, mg=0, ci=1), dict(k="fwd", rows=R, mg=0, ci=0), dict(k="fwd", rows=rows(), mg=1, ci=2, g=1),
              dict(k="fwd", rows=rows(), mg=0, ci=2), dict(k="reset")]
    if "smp" in parts:
        A += [dict(k="smp", a=a, seed=0) for a in rng.sample(range(8), 3)]
    if "seed" in parts:
        A += [dict(k="smp", a=a, seed=s) for a in range(8) for s in (1, 2)]
    if "fail" in parts:
        A += [dict(k="fail", a=a, seed=s) for a in (1, 2) for s in (0, 3)] + [dict(k="fail", a=0, seed=0)]
    if "fault" in parts:
        A += [dict(k="fail", a=3 + a, seed=rng.choice([0, 2]) if a in (0, 2, 4) else 0, n=rng.randrange(10**6), base=rng.random() < 0.3)
              for a in range(6)]
    if "set" in parts:
        A += [dict(k="leaf", v=v, style=rng.randrange(3)) for v in (0, 1)] + [dict(k="sum", v=v, style=rng.randrange(3)) for v in (0, 1)]
    if "mode" in parts:
        A += [dict(k="train"), dict(k="eval")]
    if "rng" in parts:
        A += [dict(k="rng", v=v) for v in (4, 5)]
    if "copy" in parts:
        A += [dict(k="copy", via=v, src=1) for v in ("deepcopy", "pickle", "save", "load")]
    if "ckpt" in parts:
        A += [dict(k="ckpt"), dict(k="back")]
    return A
