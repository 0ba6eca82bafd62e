"""Circuit instances: build a real Einet whose weights are small integer fractions and
export the same circuit (weights + the wiring the real object drew) to the specification."""
import itertools
import math
import random
from dataclasses import dataclass, field

from vlib import RNG, guarded

torch = None
PEAK_LOGVAR = -math.log(2 * math.pi)  # Normal with density 1 at its mean
STEP = 64.0                           # distance of the means of indicator Gaussians


def _t():
    global torch
    if torch is None:
        import torch as _torch

        torch = _torch
    return torch


class BuildError(Exception):
    pass


def int_rows(rng, n, den, zero_ok=False):
    """n non-negative integers with sum den (positive unless zero_ok)."""
    lo = 0 if zero_ok else 1
    while True:
        w = [lo] * n
        for _ in range(den - lo * n):
            w[rng.randrange(n)] += 1
        if not zero_ok or any(w):
            return w


@dataclass
class Inst:
    """One circuit instance."""
    cfg: dict
    leaf: str = "cat"           # leaf family
    V: int = 2                  # domain size
    wden: int = 4               # denominators of inner weights
    leafden: int = 4
    square: bool = False        # weights that are permutations of (1,4) / (1,4,4): perfect squares
    name: str = ""
    model: object = None
    m: dict = field(default_factory=dict)   # record for the specification
    enc: object = None          # value -> float
    log_unit: float = 0.0
    multi: list = None          # [(features, family)] of a multi-distribution leaf
    tie: bool = False           # the two largest weights of every row are almost equal
    same_r: bool = False        # indicator leaves of all features and repetitions are alike
    form: object = list         # how the features are passed

    @property
    def F(self):
        return self.cfg["num_features"]

    @property
    def CH(self):
        return self.cfg.get("num_channels", 1)


def leaf_setup(inst):
    """(leaf class, kwargs, cardinality-like info) for the leaf family of the instance."""
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    if inst.leaf in ("cat", "ind", "path"):
        return Categorical, {"num_bins": inst.V}
    if inst.leaf == "bern":
        return Bernoulli, {}
    if inst.leaf == "binom":
        return Binomial, {"total_count": inst.V - 1}
    if inst.leaf == "norm":
        return Normal, {}
    if inst.leaf == "ratnorm":
        s = math.sqrt(1 / (2 * math.pi))
        return RatNormal, {"min_sigma": s - 0.15, "max_sigma": s + 0.15}
    if inst.leaf == "multi":
        if inst.multi is None:
            idx = list(range(inst.F))
            random.Random(inst.F * 31 + 7).shuffle(idx)
            inst.multi = [(idx[: inst.F // 2], "cat"), (idx[inst.F // 2:], "binom")]
        kinds = {"cat": (Categorical, {"num_bins": inst.V}), "binom": (Binomial, {"total_count": inst.V - 1}),
                 "bern": (Bernoulli, {})}
        return MultiDistributionLayer, {"scopes_to_dist": [(inst.form(a), *kinds[k]) for a, k in inst.multi]}
    raise ValueError(inst.leaf)


def base_leaf(model):
    leaf = model.leaf
    return getattr(leaf, "base_leaf", leaf)


def log_w(w):
    t = _t()
    return t.log(t.clamp(t.as_tensor(w, dtype=t.float64), min=1e-35)).float()


def set_leaf(inst, rng):
    """Draw integer leaf weights, install them in the real leaf; returns leaf[ch][f][k][r][v]."""
    t = _t()
    c = inst.cfg
    F, CH, K, R, V = inst.F, inst.CH, c["num_leaves"], c["num_repetitions"], inst.V
    bl = base_leaf(inst.model)
    fam = inst.leaf
    den = inst.leafden
    W = [[[[None] * R for _ in range(K)] for _ in range(F)] for _ in range(CH)]
    peaks = {}

    def set_binary(bl2, feats, mode):
        for ch in range(CH):
            for j, f in enumerate(feats):
                for k in range(K):
                    for r in range(R):
                        if mode == "binom":
                            n = V - 1
                            b = round(den ** (1.0 / n))
                            assert b**n == den, (den, n)
                            a = rng.randrange(1, b)
                            W[ch][f][k][r] = [math.comb(n, v) * a**v * (b - a) ** (n - v) for v in range(n + 1)]
                            bl2.logits.data[0, ch, j, k, r] = math.log(a / (b - a))
                        elif mode == "bern":
                            a = rng.randrange(1, den)
                            W[ch][f][k][r] = [den - a, a]
                            bl2.probs.data[0, ch, j, k, r] = math.log(a / (den - a))
                        elif mode == "cat":
                            w = node_row(inst, rng, V, den)
                            W[ch][f][k][r] = w
                            bl2.logits.data[0, ch, j, k, r] = log_w(w) + rng.uniform(-2, 2)

    if fam in ("cat", "bern", "binom"):
        set_binary(bl, range(F), fam)
    elif fam == "multi":
        for d, (feats, kind) in zip(bl.dists, inst.multi):
            set_binary(d, feats, kind)
    elif fam == "path":             # the value tells which leaf of which repetition it came from
        assert V == K * R and den == 1
        for ch, f, k, r in itertools.product(range(CH), range(F), range(K), range(R)):
            W[ch][f][k][r] = [1 if u == k * R + r else 0 for u in range(V)]
            bl.logits.data[0, ch, f, k, r] = t.tensor([0.0 if u == k * R + r else -80.0 for u in range(V)])
    elif fam in ("ind", "norm", "ratnorm"):
        assert K <= V and den == 1
        for f in range(F):
            for r in range(R):
                if f + r == 0 or not inst.same_r:
                    perm = list(range(V))
                    rng.shuffle(perm)
                for k in range(K):
                    for ch in range(CH):
                        v = (perm[k] + ch) % V if ch else perm[k]
                        W[ch][f][k][r] = [1 if u == v else 0 for u in range(V)]
                        if fam == "ind":
                            # the same ratio as a far-away mean: exp(-80) for the other values
                            bl.logits.data[0, ch, f, k, r] = t.tensor([0.0 if u == v else -80.0 for u in range(V)])
                        else:
                            bl.means.data[0, ch, f, k, r] = STEP * v
                            if fam == "norm":
                                bl.logvar.data[0, ch, f, k, r] = PEAK_LOGVAR
                            else:
                                bl.stds.data[0, ch, f, k, r] = 0.0
    else:
        raise ValueError(fam)
    return W


def leaf_param_decoder(inst):
    """Map returned leaf parameters back to the value an indicator leaf stands for."""
    if inst.leaf == "ind":
        return lambda p: p.argmax(-1)                       # logits
    if inst.leaf in ("norm", "ratnorm"):
        return lambda p: (p[..., 0] / STEP).round().long()  # mean
    raise ValueError


def wiring(model, inst):
    """reg[r] = list of leaf regions (1-based features), read from the model's own buffers."""
    R, F = inst.cfg["num_repetitions"], inst.F
    sd = {k: v for k, v in model.state_dict().items()}
    if inst.cfg.get("structure", "top-down") == "bottom-up":
        perm = sd["permutation"].tolist()
        return [[[perm[r][i] + 1] for i in range(F)] for r in range(R)]
    if "leaf.scopes" in sd:
        sc = sd["leaf.scopes"]
        return [[[f + 1 for f in range(F) if float(sc[f, o, r]) == 1.0] for o in range(sc.shape[1])] for r in range(R)]
    perm = sd["leaf.permutation"].tolist()
    fo = max(1, 2 ** inst.cfg["depth"])
    card = len(perm) // fo
    return [[[p + 1 for p in perm[o * card:(o + 1) * card] if p < F] for o in range(fo)]]


def node_row(inst, rng, n, den):
    if inst.tie and n > 1:
        s = den // 8
        row = [s] * (n - 2)
        top = den - sum(row)
        row += [top // 2 + 1, top - top // 2 - 1]
        rng.shuffle(row)
        return row
    if inst.square:
        base = {1: [1], 2: [1, 4], 3: [1, 4, 4], 4: [1, 4, 4, 16], 9: [1] * 4 + [4] * 5}[n]
        rng.shuffle(base)
        return base
    return int_rows(rng, n, den)


def build(inst, seed):
    """Build the real model and the specification record."""
    t = _t()
    from simple_einet.einet import Einet, EinetConfig

    rng = random.Random(seed)
    t.manual_seed(seed)
    import numpy as np

    np.random.seed(seed % 2**31)
    leaf_type, leaf_kwargs = leaf_setup(inst)
    inst.model = Einet(EinetConfig(leaf_type=leaf_type, leaf_kwargs=leaf_kwargs, **inst.cfg))
    inst.model.eval()
    c = inst.cfg
    R, C, K = c["num_repetitions"], c["num_classes"], c["num_leaves"]
    m = dict(F=inst.F, CH=inst.CH, K=K, R=R, C=C, leafDen=inst.leafden)
    m["V"] = [[inst.V] * inst.F for _ in range(inst.CH)]
    m["leaf"] = set_leaf(inst, rng)
    m["reg"] = wiring(inst.model, inst)
    layers = []
    nfeat = len(m["reg"][0])
    for layer in inst.model.layers:
        lg = getattr(layer, "logits", None)
        kind = type(layer).__name__
        if lg is None:
            layers.append(dict(t="prod", fi=nfeat, fo=1, so=layers[-1]["so"], si=layers[-1]["so"], den=1, w=[]))
            nfeat = 1
            continue
        t_ = {"LinsumLayer": "linsum", "LinsumLayer2": "linsum2", "EinsumLayer": "einsum", "SumLayer": "sum"}[kind]
        sh = list(lg.shape)
        w = t.zeros(sh)
        if t_ == "einsum":
            fo, so, _, si, _ = sh
            den = None
            for idx in itertools.product(range(fo), range(so), range(R)):
                row = node_row(inst, rng, si * si, max(inst.wden, si * si + (2 if si > 1 else 0)))
                den = sum(row)
                w[idx] = t.tensor(row, dtype=t.float32).view(si, si)
        else:
            fx, si, so, _ = sh
            den = None
            for f, o, r in itertools.product(range(fx), range(so), range(R)):
                row = node_row(inst, rng, si, inst.wden if si > 1 else 1)
                den = sum(row)
                w[f, :, o, r] = t.tensor(row, dtype=t.float32)
            fo = (fx + 1) // 2 if t_ == "linsum2" else fx
        layer.logits.data.copy_(log_w(w) + rng.uniform(-1, 1))
        layers.append(dict(t=t_, fi=nfeat, fo=fo, so=so, si=si, den=int(den), w=w.long().tolist()))
        nfeat = fo
    m["layers"] = layers
    if R > 1:
        rows = [node_row(inst, rng, R, max(inst.wden, R + 1)) for _ in range(C)]
        inst.model.mixing.logits.data.copy_(log_w([rows]))
        m["mix"], m["mixDen"] = rows, sum(rows[0])
    else:
        m["mix"], m["mixDen"] = [[1]] * C, 1
    den = inst.leafden ** (inst.F * inst.CH) * m["mixDen"]
    for L in layers:
        den *= L["den"] ** (L["fi"] if L["t"] == "linsum2" else L["fo"])
    inst.den = den
    # recorded real numbers are scaled by den * sc
    m["sc"] = max(1, 2**28 // den)
    if den * m["sc"] > 2**29:
        raise BuildError(f"denominator too large: {den}")
    m["den"] = den
    inst.m = m
    return inst


# ---------------------------------------------------------------- values
def encode(inst, x):
    """spec value rows [N][CH][F] (-1 = missing) -> float tensor [N, CH, F]"""
    t = _t()
    a = t.tensor(x, dtype=t.float32).view(-1, inst.CH, inst.F)
    if inst.leaf in ("norm", "ratnorm"):
        v = a * STEP
    else:
        v = a.clone()
    v[a < 0] = float("nan")
    return v


def decode(inst, y):
    """sampled tensor -> integer values; 9 where the value is not (near) a domain value"""
    t = _t()
    y = y.detach().reshape(-1, inst.CH, inst.F).double()
    if inst.leaf in ("norm", "ratnorm"):
        v = (y / STEP).round()
        bad = (y / STEP - v).abs() > 0.12
    else:
        v = y.round()
        bad = (y - v).abs() > 1e-4
    bad |= ~t.isfinite(y) | (v < 0) | (v >= inst.V)
    v = t.where(bad, t.full_like(v, 9), v)
    return v.long()


def histogram(inst, y):
    """counts of outcomes: list of {"x": [ch][f], "c": count}"""
    t = _t()
    v = decode(inst, y).reshape(-1, inst.CH * inst.F)
    u, cnt = t.unique(v, dim=0, return_counts=True)
    return [{"x": row.view(inst.CH, inst.F).tolist(), "c": int(n)} for row, n in zip(u, cnt)]


def all_inputs(inst, missing=True):
    vals = list(range(-1 if missing else 0, inst.V))
    n = inst.F * inst.CH
    for combo in itertools.product(vals, repeat=n):
        yield [list(combo[c * inst.F:(c + 1) * inst.F]) for c in range(inst.CH)]


def n_inputs(inst, missing=True):
    return (inst.V + (1 if missing else 0)) ** (inst.F * inst.CH)


def rand_input(inst, rng, pmiss):
    return [[-1 if rng.random() < pmiss else rng.randrange(inst.V) for _ in range(inst.F)] for _ in range(inst.CH)]


def scaled(inst, ll):
    """exp(ll) * den * sc rounded, per entry; -1 for NaN/inf, capped."""
    t = _t()
    p = ll.detach().double().exp() * (inst.den * inst.m["sc"])
    bad = ~t.isfinite(ll.detach().double()) & ~(ll.detach() == -float("inf"))
    p = p.clamp(max=2**30).round()
    p = t.where(bad, t.full_like(p, -1), p)
    return p.long().tolist()


def cfg(F, depth, R=1, C=1, K=2, S=2, CH=1, layer="linsum", structure="top-down", **kw):
    d = dict(num_features=F, num_channels=CH, num_sums=S, num_leaves=K, num_repetitions=R, num_classes=C, depth=depth,
             layer_type=layer, structure=structure)
    d.update(kw)
    return d


def grid(which="all"):
    """The instances used by the circuit checks: every structure, layer type and leaf family,
    with and without repetitions, classes, channels, padding and group sizes above one."""
    G = [
        Inst(cfg(3, 0, R=1, C=1), "cat", V=2, name="td-depth0-r1"),
        Inst(cfg(3, 0, R=3, C=2, K=2), "cat", V=2, name="td-depth0-r3-c2"),
        Inst(cfg(4, 1, R=1, C=1, K=2), "cat", V=3, wden=3, leafden=4, name="td-linsum-d1-r1"),
        Inst(cfg(5, 2, R=1, C=2, K=2, S=2), "ind", V=2, leafden=1, name="td-linsum-d2-r1-c2-pad"),
        Inst(cfg(5, 2, R=2, C=2, K=2, S=2), "ind", V=2, leafden=1, name="td-linsum-d2-r2-c2"),
        Inst(cfg(4, 2, R=2, C=1, K=2, S=2), "cat", V=2, wden=3, leafden=3, name="td-linsum-d2-r2-full"),
        Inst(cfg(4, 2, R=3, C=2, K=2, S=3), "ind", V=2, leafden=1, name="td-linsum-d2-r3-full-c2"),
        Inst(cfg(5, 1, R=2, C=1, K=2, layer="linsum2"), "bern", V=2, wden=3, leafden=3, name="td-linsum2-d1-r2"),
        Inst(cfg(6, 2, R=1, C=2, K=3, S=2, layer="linsum2"), "ind", V=3, leafden=1, wden=4, name="td-linsum2-d2-r1-c2"),
        Inst(cfg(5, 1, R=1, C=2, K=2, layer="einsum"), "cat", V=2, leafden=3, name="td-einsum-d1-r1-c2"),
        Inst(cfg(6, 2, R=2, C=2, K=2, S=2, layer="einsum"), "ind", V=2, leafden=1, name="td-einsum-d2-r2-c2"),
        Inst(cfg(5, 1, R=2, C=2, K=2, S=2, structure="bottom-up"), "ind", V=2, leafden=1, wden=3, name="bu-d1-r2-c2-odd"),
        Inst(cfg(7, 2, R=1, C=1, K=2, S=2, structure="bottom-up"), "ind", V=2, leafden=1, wden=3, name="bu-d2-r1-odd"),
        Inst(cfg(4, 1, R=2, C=1, K=2, S=2, structure="bottom-up"), "cat", V=2, leafden=3, wden=3, name="bu-d1-r2"),
        Inst(cfg(6, 2, R=3, C=2, K=2, S=3, structure="bottom-up"), "ind", V=2, leafden=1, wden=4, name="bu-d2-r3-c2"),
        Inst(cfg(3, 1, R=2, C=1, K=2, CH=2), "bern", V=2, leafden=3, name="td-linsum-ch2"),
        Inst(cfg(3, 1, R=1, C=2, K=2, CH=2), "ind", V=3, leafden=1, name="td-linsum-ch2-r1-c2"),
        Inst(cfg(4, 1, R=2, C=1, K=2), "binom", V=3, leafden=4, wden=3, name="td-linsum-binom"),
        Inst(cfg(5, 2, R=2, C=1, K=3, S=2), "norm", V=3, leafden=1, wden=4, name="td-linsum-normal"),
        Inst(cfg(6, 1, R=1, C=1, K=2, layer="einsum"), "norm", V=2, leafden=1, name="td-einsum-normal-r1"),
        Inst(cfg(5, 2, R=2, C=2, K=2), "ratnorm", V=2, leafden=1, name="td-linsum-ratnormal-c2"),
        Inst(cfg(5, 1, R=2, C=1, K=2), "multi", V=2, leafden=3, wden=3, name="td-linsum-multi"),
        Inst(cfg(5, 1, R=1, C=2, K=2, layer="einsum"), "multi", V=2, leafden=3, name="td-einsum-multi-r1"),
        Inst(cfg(8, 3, R=2, C=1, K=2, S=2), "ind", V=2, leafden=1, wden=3, name="td-linsum-d3-r2"),
        Inst(cfg(8, 3, R=1, C=1, K=2, S=2, layer="einsum"), "ind", V=2, leafden=1, wden=4, name="td-einsum-d3-r1"),
        Inst(cfg(9, 3, R=1, C=1, K=2, S=2, layer="linsum"), "norm", V=2, leafden=1, wden=3, name="td-linsum-d3-r1-pad"),
        Inst(cfg(3, 0, R=2, C=2, K=2, structure="bottom-up"), "cat", V=2, leafden=3, wden=3, name="bu-d0-r2-c2"),
        Inst(cfg(4, 1, R=1, C=3, K=4, S=3), "ind", V=4, leafden=1, wden=6, name="td-linsum-k4-c3-r1"),
        Inst(cfg(4, 2, R=2, C=1, K=3, S=5), "ind", V=3, leafden=1, wden=7, name="td-linsum-s5-r2"),
        Inst(cfg(7, 2, R=4, C=1, K=1, S=2, layer="linsum2"), "cat", V=2, leafden=2, wden=3, name="td-linsum2-k1-r4"),
        Inst(cfg(2, 1, R=2, C=2, K=2, CH=3), "bern", V=2, leafden=3, name="td-linsum-ch3-f2"),
    ]
    return G


def rand_insts(n, rng=None, prefix=""):
    rng = rng or random.Random(RNG.random())
    return [rand_inst(rng, i) for i in range(n)]


def rand_inst(rng, i):
    """A random configuration small enough for exact evaluation."""
    for _ in range(1000):
        structure = rng.choice(["top-down", "top-down", "bottom-up"])
        layer = "linsum" if structure == "bottom-up" else rng.choice(["linsum", "linsum2", "einsum"])
        depth = rng.choice([1, 1, 2, 2, 3]) if structure == "bottom-up" else rng.choice([0, 1, 1, 2, 2, 3])
        lo = max(2, 2**depth)
        F = rng.randrange(lo, min(9, lo + 5) + 1)
        R, C = rng.choice([1, 1, 2, 2, 3]), rng.choice([1, 1, 2, 3])
        K, S = rng.choice([1, 2, 2, 3]), rng.choice([1, 2, 2, 3])
        CH = rng.choice([1, 1, 1, 2])
        fam = rng.choice(["cat", "ind", "ind", "bern", "binom", "norm", "ratnorm", "multi"])
        V = 2 if fam in ("bern", "multi") else max(K if fam in ("ind", "norm", "ratnorm") else 2, rng.choice([2, 2, 3]))
        leafden = 1 if fam in ("ind", "norm", "ratnorm") else rng.choice([2, 3, 4])
        if fam == "cat":
            leafden = max(leafden, V)
        if fam == "bern" or fam == "multi":
            leafden = max(leafden, 2)
        if fam == "binom":
            leafden = {2: rng.choice([2, 3, 4]), 3: 4}[V]
        wden = rng.choice([3, 4])
        inst = Inst(cfg(F, depth, R, C, K, S, CH, layer, structure), fam, V=V, leafden=leafden, wden=max(wden, S, K),
                    name=f"rand{i}-{structure[:3]}-{layer}-d{depth}-F{F}-R{R}-C{C}-K{K}-S{S}-CH{CH}-{fam}")
        if (V + 1) ** (F * CH) > 3000000:
            continue
        est = leafden ** (F * CH)
        n = 0
        f = F if structure == "bottom-up" else 2**depth
        for _d in range(depth):
            n += f if layer == "linsum2" else (f + 1) // 2
            f = (f + 1) // 2
        if structure == "bottom-up":
            n += f
        if depth == 0:
            n = 1
        est *= max(inst.wden, S * S + 2, K * K + 2 if layer == "einsum" else 0) ** n * 4
        if est > 2**24:
            continue
        return inst
    raise RuntimeError


def tie_insts(ck):
    """Circuits whose best branches are better by as little as the specification can tell."""
    out = []
    for layer, st in (("linsum", "top-down"), ("linsum2", "top-down"), ("einsum", "top-down"), ("linsum", "bottom-up")):
        for R, C, K in ((1, 1, 2), (1, 2, 3), (2, 1, 1), (3, 2, 2)):
            for e in range(14, 5, -1):
                inst = Inst(cfg(2, 1, R=R, C=C, K=K, layer=layer, structure=st), "path", V=K * R, leafden=1, wden=2**e,
                            tie=True, name=f"tie-{st[:3]}-{layer}-R{R}-C{C}-K{K}-2^{e}")
                got, err = guarded(build, inst, 50 + len(out))
                if err and not err.startswith("BuildError"):
                    ck.violation(f"build {inst.name}", {"config": str(inst.cfg), "error": err})
                if not err:
                    out.append(inst)
                if not err or not err.startswith("BuildError"):
                    break
    for R, C in ((1, 1), (1, 2)):
        out += make([Inst(cfg(2, 0, R=R, C=C, K=2), "cat", V=3, leafden=2**10, wden=2**6, tie=True, name=f"tie-leaf-R{R}-C{C}"),
                     Inst(cfg(2, 0, R=R, C=C, K=1), "cat", V=2, leafden=2**14 if R * C == 1 else 2**13, wden=2, tie=True,
                          name=f"tie-leaf-k1-R{R}-C{C}")], ck, seed0=60)
    return out


def make(insts, ck, prop_key="build", seed0=1):
    """Build all instances; a failing construction is a violation."""
    ok = []
    for i, inst in enumerate(insts):
        got, err = guarded(build, inst, seed0 * 1000 + i)
        if err:
            if err.startswith("BuildError"):
                continue
            ck.violation(f"build {inst.name}", {"config": str(inst.cfg), "error": err})
            continue
        ok.append(inst)
    return ok
