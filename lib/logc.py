"""Instances of LogCircuit: real models of any size with arbitrary (rounded) logits, and the
recording of their results in units of 1/1000 nat."""
import itertools
import math
import random

import circ
import drive
from vlib import RNG, THOROUGH, guarded, load_torch, run_tlc, setup_paths

setup_paths()
torch = load_torch()
CFG = "SPECIFICATION Spec\nINVARIANT Conforms\n"
NOVAL = 99999


class LInst:
    def __init__(self, cfg, leaf, V, spread, lspread, mspread, name, seed,
                 parts=None, form=list):
        self.cfg, self.leaf, self.V, self.name = cfg, leaf, V, name
        self.spread, self.lspread, self.mspread = spread, lspread, mspread
        self.F, self.CH = cfg["num_features"], cfg.get("num_channels", 1)
        self.seed = seed
        self.parts = parts      # [(features, family, domain size)] of a multi-distribution leaf
        self.form = form        # how the features are passed
        self.off = 0            # centre of the means


def ints(rng, shape, spread):
    """Logits in 1/1000 nat: mostly moderate, now and then far apart."""
    t = torch.empty(shape)
    flat = t.view(-1)
    for i in range(flat.numel()):
        s = spread if rng.random() < 0.7 else 1.5
        flat[i] = rng.randrange(-int(1000 * s), 1) if s > 0 else 0
    return t


def build(inst):
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
    from simple_einet.layers.distributions.normal import Normal

    rng = random.Random(inst.seed)
    torch.manual_seed(inst.seed)
    import numpy as np

    np.random.seed(inst.seed % 2**31)
    c = inst.cfg
    F = inst.F
    parts = inst.parts or [(list(range(F)), inst.leaf, inst.V)]
    kinds = {"norm": (Normal, lambda V: {}), "cat": (Categorical, lambda V: {"num_bins": V}),
             "bern": (Bernoulli, lambda V: {}), "binom": (Binomial, lambda V: {"total_count": V - 1})}
    if inst.parts:
        lt = MultiDistributionLayer
        kw = {"scopes_to_dist": [(inst.form(sc), kinds[fam][0], kinds[fam][1](V)) for sc, fam, V in parts]}
    else:
        lt, kw = kinds[inst.leaf][0], kinds[inst.leaf][1](inst.V)
    return install(inst, Einet(EinetConfig(leaf_type=lt, leaf_kwargs=kw, **c)).eval(), rng, parts)


def install(inst, model, rng, parts=None):
    """Give a model random parameters that the specification can name, and record them."""
    inst.model = model
    c = inst.cfg
    R, C = c["num_repetitions"], c["num_classes"]
    m = install_leaf(inst, rng, parts)
    m["reg"] = circ.wiring(model, inst)
    layers = []
    nfeat = len(m["reg"][0])
    for layer in model.layers:
        lg = getattr(layer, "logits", None)
        kind = type(layer).__name__
        if lg is None:
            layers.append(dict(t="prod", fi=nfeat, fo=1, so=layers[-1]["so"], si=layers[-1]["so"], w=[]))
            nfeat = 1
            continue
        t_ = {"LinsumLayer": "linsum", "LinsumLayer2": "linsum2", "EinsumLayer": "einsum", "SumLayer": "sum"}[kind]
        w = ints(rng, tuple(lg.shape), inst.spread)
        lg.data.copy_(w / 1000)
        if t_ == "einsum":
            fo, so, _, si, _ = lg.shape
        else:
            fx, si, so, _ = lg.shape
            fo = (fx + 1) // 2 if t_ == "linsum2" else fx
        layers.append(dict(t=t_, fi=nfeat, fo=fo, so=so, si=si, w=w.long().tolist()))
        nfeat = fo
    m["layers"] = layers
    if R > 1:
        w = ints(rng, tuple(model.mixing.logits.shape)[1:], inst.spread)
        model.mixing.logits.data[0] = w / 1000
        m["mix"] = w.long().tolist()
    else:
        m["mix"] = [[0]] * C
    inst.m = m
    return inst


def install_leaf(inst, rng, parts=None):
    """Random leaf parameters for the specification's leaves."""
    c = inst.cfg
    F, CH, K, R = inst.F, inst.CH, c["num_leaves"], c["num_repetitions"]
    C = c["num_classes"]
    parts = parts or [(list(range(F)), inst.leaf, inst.V)]
    bl = circ.base_leaf(inst.model)
    m = dict(F=F, CH=CH, K=K, R=R, C=C, fam=[None] * F)
    inst.dom = [0] * F
    blank = lambda v: [[[[v] * R for _ in range(K)] for _ in range(F)] for _ in range(CH)]  # noqa: E731
    off = inst.off
    m["mu"], m["sg"], m["lg"] = blank(0), blank(0), blank([0])
    for p, (sc, fam, V) in enumerate(parts):
        d = bl.dists[p] if inst.parts else bl
        for f in sc:
            m["fam"][f] = "norm" if fam == "norm" else "cat"
            inst.dom[f] = None if fam == "norm" else V
        for ch, (j, f), k, r in itertools.product(range(CH), list(enumerate(sc)), range(K), range(R)):
            if fam == "norm":
                mu, sg = off + rng.randrange(-inst.mspread, inst.mspread + 1), rng.choice([-1, 0, 0, 1])
                d.means.data[0, ch, j, k, r] = mu
                d.logvar.data[0, ch, j, k, r] = 2 * sg * math.log(2)
                m["mu"][ch][f][k][r], m["sg"][ch][f][k][r] = mu, sg
            elif fam == "cat":
                lg = ints(rng, (V,), inst.lspread)
                d.logits.data[0, ch, j, k, r] = lg / 1000
                m["lg"][ch][f][k][r] = lg.long().tolist()
            else:
                lo = rng.randrange(-min(15000, int(1000 * inst.lspread)), min(15000, int(1000 * inst.lspread)) + 1)
                (d.probs if fam == "bern" else d.logits).data[0, ch, j, k, r] = lo / 1000
                n = V - 1
                m["lg"][ch][f][k][r] = [round(1000 * math.log(math.comb(n, v))) + v * lo for v in range(V)]
    return m


SHAPES = [
    # F, depth, R, C, K, S, CH, layer, structure
    (2, 1, 1, 1, 2, 2, 1, "einsum", "top-down"), (2, 1, 1, 2, 2, 2, 1, "linsum", "top-down"),
    (2, 1, 2, 1, 2, 2, 1, "linsum2", "top-down"), (4, 2, 1, 1, 2, 2, 1, "einsum", "top-down"),
    (5, 2, 2, 2, 3, 3, 1, "einsum", "top-down"), (8, 3, 2, 2, 3, 4, 1, "linsum", "top-down"),
    (9, 3, 2, 2, 3, 3, 1, "linsum2", "top-down"), (16, 4, 2, 1, 3, 3, 1, "einsum", "top-down"),
    (17, 4, 3, 3, 4, 5, 1, "linsum", "top-down"), (12, 2, 4, 2, 4, 3, 2, "linsum2", "top-down"),
    (20, 4, 1, 1, 2, 2, 1, "linsum2", "top-down"), (7, 0, 3, 2, 4, 1, 2, "linsum", "top-down"),
    (13, 3, 2, 2, 3, 4, 1, "linsum", "bottom-up"), (16, 4, 2, 1, 3, 3, 1, "linsum", "bottom-up"),
    (6, 1, 3, 2, 4, 3, 2, "linsum", "bottom-up"), (10, 1, 1, 3, 5, 2, 1, "einsum", "top-down"),
    (32, 5, 1, 1, 2, 2, 1, "linsum", "top-down"), (3, 1, 5, 1, 6, 2, 3, "linsum", "top-down"),
    # bottom-up with padding in several layers, many repetitions
    (11, 3, 3, 1, 2, 3, 1, "linsum", "bottom-up"), (5, 1, 6, 4, 3, 3, 1, "einsum", "top-down"),
    # wide: many leaves, sums, repetitions, classes, features
    (4, 1, 1, 1, 18, 2, 1, "einsum", "top-down"), (4, 2, 1, 1, 2, 17, 1, "einsum", "top-down"),
    (4, 2, 2, 1, 21, 14, 1, "linsum", "top-down"), (3, 1, 13, 3, 2, 2, 1, "linsum", "top-down"),
    (3, 1, 1, 12, 11, 2, 1, "linsum2", "top-down"), (67, 6, 1, 1, 2, 2, 1, "linsum", "top-down"),
    (3, 1, 18, 2, 2, 2, 1, "linsum", "bottom-up"), (3, 0, 11, 11, 3, 1, 1, "linsum", "top-down"),
    # many features below each leaf group of several repetitions
    (40, 1, 2, 2, 2, 2, 1, "einsum", "top-down"), (72, 0, 3, 1, 2, 1, 1, "linsum", "top-down"),
]


def insts(ck, n_random=0, kinds=("mild", "extreme"), seed0=0):
    out = []
    shapes = list(SHAPES)
    for _ in range(n_random):
        bu = RNG.random() < 0.3
        d = RNG.randrange(1 if bu else 0, 5)
        F = RNG.randrange(max(2, 2**d), 2**d + 12)
        shapes.append((F, d, RNG.randrange(1, 5), RNG.randrange(1, 4), RNG.randrange(1, 6), RNG.randrange(1, 5),
                       RNG.choice([1, 1, 2]), "linsum" if bu else RNG.choice(["linsum", "linsum2", "einsum"]),
                       "bottom-up" if bu else "top-down"))
    for i, (F, d, R, C, K, S, CH, layer, st) in enumerate(shapes):
        for kind in kinds:
            leaf = "norm" if (i + (kind == "extreme")) % 2 else "cat"
            if kind == "mild":
                spread, lsp, msp = 2, 3, 6
            else:
                # einsum adds weights in the linear domain: below 2^-149 they are lost (known finding)
                spread = 30 if layer == "einsum" else RNG.choice([60, 400])
                lsp, msp = RNG.choice([25, 200]), 40
            inst = LInst(circ.cfg(F, d, R, C, K, S, CH, layer, st), leaf, 2 if leaf == "norm" else 3, spread, lsp, msp,
                         f"log{i}-{kind}-{st[:3]}-{layer}-d{d}-F{F}-R{R}-C{C}-K{K}-S{S}-CH{CH}-{leaf}",
                         seed0 * 1000 + 17 * i + (kind == "extreme") + 10**5 * RNG.randrange(100))
            inst.off = RNG.choice([0, 0, 1001, -3001])
            got, err = guarded(build, inst)
            if err:
                ck.violation(f"build {inst.name}", {"config": str(inst.cfg), "error": err})
            else:
                out.append(inst)
    return out


class LogRec:
    def __init__(self, ck, insts):
        self.ck, self.insts, self.events = ck, insts, []
        self.idx = {id(i): j + 1 for j, i in enumerate(insts)}

    def ev(self, inst, k, tag, err="", **kw):
        kw.update(k=k, m=self.idx[id(inst)], tag=f"{tag} [{inst.name}]", err=err)
        self.events.append(kw)
        self.ck.sample(dict(instance=inst.name, **{a: kw[a] for a in kw if a != "m"}))

    # inputs: integer rows [CH][F], NOVAL for missing
    def rows(self, inst, n, pmiss=0.0, tails=True):
        out = []
        mu = inst.m.get("mu")
        for j in range(n):
            far = set()
            if "norm" in inst.m["fam"] and tails:
                k = [0, 1, 2, inst.F // 2][j % 4]
                far = {(RNG.randrange(inst.CH), RNG.randrange(inst.F)) for _ in range(k)}
            x = [[0] * inst.F for _ in range(inst.CH)]
            for c in range(inst.CH):
                for f in range(inst.F):
                    if RNG.random() < pmiss:
                        x[c][f] = NOVAL
                    elif inst.dom[f]:
                        x[c][f] = RNG.randrange(inst.dom[f])
                    else:
                        base = RNG.choice(RNG.choice(mu[c][f]))
                        x[c][f] = base + RNG.randrange(-2, 3) + (RNG.choice([-1, 1]) * RNG.choice([20, 60, 100])
                                                                 if (c, f) in far else 0)
            out.append(x)
        return out

    def encode(self, inst, rows):
        a = torch.tensor(rows, dtype=torch.float32).view(-1, inst.CH, inst.F)
        a[a == NOVAL] = float("nan")
        return a

    def milli(self, t):
        q = t.detach().double() * 1000
        bad = ~torch.isfinite(q)
        q = torch.where(bad, torch.full_like(q, 5e8), q).clamp(-1.9e9, 5e8)
        return q.round().long().tolist()

    def ll(self, inst, rows, tag="forward", x_real=None, **kw):
        x = self.encode(inst, rows) if x_real is None else x_real
        x, at = drive.spread(x, len(rows))
        v, err = guarded(lambda: inst.model(x, **kw))
        if not err and tuple(v.shape) != (len(x), inst.cfg["num_classes"]):
            err = f"shape {tuple(v.shape)}"
        if err:
            return self.ev(inst, "ll", tag, err=err, x=rows[0], obs=[])
        for x, o in zip(rows, self.milli(v[at])):
            self.ev(inst, "ll", tag, x=x, obs=o)

    def post(self, inst, rows, tag="posterior"):
        x, at = drive.spread(self.encode(inst, rows), len(rows))
        v, err = guarded(lambda: inst.model.posterior(x))
        if not err and tuple(v.shape) != (len(x), inst.cfg["num_classes"]):
            err = f"shape {tuple(v.shape)}"
        if err:
            return self.ev(inst, "post", tag, err=err, x=rows[0], obs=[])
        for x, o in zip(rows, self.milli(v[at])):
            self.ev(inst, "post", tag, x=x, obs=o)

    def use(self, inst, rows, cls, tag="usage of Gaussian leaves"):
        """Rows lie a quarter beside the means' grid."""
        mdl = inst.model
        bl = circ.base_leaf(mdl)
        mu, lv = bl.means.detach()[0].double(), bl.logvar.detach()[0].double()
        for row in rows:
            x = self.encode(inst, [row]) + 0.25

            def grads():
                mdl.zero_grad(set_to_none=True)
                mdl(x)[0, cls].backward()
                return bl.means.grad[0].double(), bl.logvar.grad[0].double()
            g, err = guarded(grads)
            if err:
                self.ev(inst, "use", tag, err=err, x=row)
                continue
            miss = x[0].isnan()[:, :, None, None].expand_as(mu)
            d = x[0].double()[:, :, None, None] - mu
            v = lv.exp()
            a = torch.where(miss, g[0] * 1e4, g[0] * v / d)
            b = torch.where(miss, g[1] * 1e4, 2 * g[1] / (d * d / v - 1))
            q = [[[self.milli(10 * t[c, f].flatten()) for f in range(inst.F)] for c in range(inst.CH)] for t in (a, b)]
            self.ev(inst, "use", tag, x=row, mean=q[0], var=q[1])

    def reach(self, inst, rows, s, tag, err="", slack=0, cls=0):
        if not err and tuple(s.shape) != (len(rows), inst.CH, inst.F):
            err = f"shape {tuple(s.shape)}"
        if err:
            return self.ev(inst, "reach", tag, err=err, x=rows[0], obs=[])
        q = s.detach().double() * 100
        q = torch.where(torch.isfinite(q), q, torch.full_like(q, 1e8)).clamp(-1e8, 1e8).round().long().tolist()
        for x, o in zip(rows, q):
            self.ev(inst, "reach", tag, x=x, obs=o, slack=slack, cls=cls)

    def flags(self, inst, tag, **obs):
        self.ev(inst, "flags", tag, obs={k: bool(v) for k, v in obs.items()})

    def run(self, timeout=800, **kw):
        if not self.events:
            return None
        r = run_tlc("LogTrace", CFG, dict(models=[i.m for i in self.insts], events=self.events), extra=["-continue"],
                    timeout=timeout, **kw)
        self.ck.traces += len(self.events)
        self.ck.judge(self.events, r, lambda ev: ev["tag"], "LogTrace")
        return r
