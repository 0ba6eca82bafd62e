"""Circuits whose inner layers are stacked by hand from the library's layers (products of any
group size, cross products, sums, linsum, linsum2, einsum, root product) instead of the stacks the
two structures use.  A bottom-up Einet is the host: its leaf, permutation, repetition mixing and
class root stay, its inner layers are replaced.  The specification's layers are derived from the
plan, not read from the real layers."""
import itertools
import random

import circ
import logc
from vlib import RNG, load_torch, setup_paths

setup_paths()
torch = load_torch()


def shapes(F, K, plan):
    """The layers of a plan with the sizes of their inputs and outputs, bottom to top."""
    out = []
    fi, si = F, K
    for kind, *arg in plan:
        L = dict(kind=kind, fi=fi, si=si, grp=[])
        if kind == "product":
            L.update(t="pool", fo=-(-fi // arg[0]), so=si, card=arg[0])
            L["grp"] = [list(range(j * arg[0] + 1, min((j + 1) * arg[0], fi) + 1)) for j in range(L["fo"])]
        elif kind == "cross":
            L.update(t="cross", fo=(fi + 1) // 2, so=si * si)
        elif kind == "root":
            L.update(t="prod", fo=1, so=si)
        elif kind == "sum":
            L.update(t="sum", fo=fi, so=arg[0])
        else:
            L.update(t=kind, fo=(fi + 1) // 2, so=arg[0])
        out.append(L)
        fi, si = L["fo"], L["so"]
    return out


def real_layer(L, R):
    from simple_einet.layers.einsum import EinsumLayer
    from simple_einet.layers.linsum import LinsumLayer, LinsumLayer2
    from simple_einet.layers.product import CrossProductLayer, ProductLayer, RootProductLayer
    from simple_einet.layers.sum import SumLayer

    fi, si, so = L["fi"], L["si"], L["so"]
    if L["kind"] == "product":
        return ProductLayer(in_features=fi, cardinality=L["card"], num_repetitions=R)
    if L["kind"] == "cross":
        return CrossProductLayer(in_features=fi, in_channels=si, num_repetitions=R)
    if L["kind"] == "root":
        return RootProductLayer(num_features=fi, num_repetitions=R)
    if L["kind"] == "sum":
        return SumLayer(num_sums_in=si, num_features=fi, num_sums_out=so, num_repetitions=R)
    cls = {"linsum": LinsumLayer, "linsum2": LinsumLayer2, "einsum": EinsumLayer}[L["kind"]]
    return cls(num_features=fi, num_sums_in=si, num_sums_out=so, num_repetitions=R)


def host(cfg, leaf_type, leaf_kwargs, plan):
    from simple_einet.einet import Einet, EinetConfig

    model = Einet(EinetConfig(leaf_type=leaf_type, leaf_kwargs=leaf_kwargs, **cfg))
    pl = shapes(cfg["num_features"], cfg["num_leaves"], plan)
    assert pl[-1]["fo"] == 1 and pl[-1]["so"] == cfg["num_classes"], plan
    model.layers = torch.nn.ModuleList([real_layer(L, cfg["num_repetitions"]) for L in pl])
    return model.eval(), pl


def weight_shape(L, R):
    if L["t"] == "einsum":
        return L["fo"], L["so"], R, L["si"], L["si"]
    return (L["fi"] if L["t"] == "linsum2" else L["fo"]), L["si"], L["so"], R


def build(inst, seed):
    rng = random.Random(seed)
    torch.manual_seed(seed)
    lt, kw = circ.leaf_setup(inst)
    c = inst.cfg
    R, C, K = c["num_repetitions"], c["num_classes"], c["num_leaves"]
    inst.model, pl = host(c, lt, kw, inst.plan)
    m = dict(F=inst.F, CH=inst.CH, K=K, R=R, C=C, leafDen=inst.leafden, V=[[inst.V] * inst.F for _ in range(inst.CH)])
    m["leaf"] = circ.set_leaf(inst, rng)
    m["reg"] = circ.wiring(inst.model, inst)
    layers = []
    den = inst.leafden ** (inst.F * inst.CH)
    for L, real in zip(pl, inst.model.layers):
        rec = dict(t=L["t"], fi=L["fi"], fo=L["fo"], si=L["si"], so=L["so"], grp=L["grp"], den=1, w=[])
        if L["t"] not in ("pool", "cross", "prod"):
            sh = weight_shape(L, R)
            if tuple(real.logits.shape) != sh:
                raise ValueError(f"logits of shape {tuple(real.logits.shape)} where the plan has {sh}")
            n = L["si"] ** 2 if L["t"] == "einsum" else L["si"]
            d = 1 if n == 1 else max(inst.wden, n) if sh[0] <= 4 else 2      # many sums: zero, one half or one
            w = torch.zeros(sh)
            if L["t"] == "einsum":
                for idx in itertools.product(*map(range, sh[:3])):
                    w[idx] = torch.tensor(circ.int_rows(rng, n, d, zero_ok=sh[0] > 4), dtype=torch.float32).view(sh[3:])
            else:
                for f, o, r in itertools.product(range(sh[0]), range(sh[2]), range(R)):
                    w[f, :, o, r] = torch.tensor(circ.int_rows(rng, n, d, zero_ok=sh[0] > 4), dtype=torch.float32)
            real.logits.data.copy_(circ.log_w(w) + rng.uniform(-1, 1))
            rec.update(den=d, w=w.long().tolist())
            den *= d ** sh[0]
        layers.append(rec)
    m["layers"] = layers
    if R > 1:
        rows = [circ.int_rows(rng, R, max(inst.wden, R + 1)) for _ in range(C)]
        inst.model.mixing.logits.data.copy_(circ.log_w([rows]))
        m["mix"], m["mixDen"] = rows, sum(rows[0])
    else:
        m["mix"], m["mixDen"] = [[1]] * C, 1
    den *= m["mixDen"]
    inst.den = m["den"] = den
    m["sc"] = max(1, 2**28 // den)
    if den * m["sc"] > 2**29:
        raise circ.BuildError(f"denominator too large: {den}")
    inst.m = m
    return inst


def log_build(li):
    rng = random.Random(li.seed)
    torch.manual_seed(li.seed)
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal

    lt, kw = (Normal, {}) if li.leaf == "norm" else (Categorical, {"num_bins": li.V})
    R, C = li.cfg["num_repetitions"], li.cfg["num_classes"]
    li.model, pl = host(li.cfg, lt, kw, li.plan)
    m = logc.install_leaf(li, rng)
    m["reg"] = circ.wiring(li.model, li)
    layers = []
    for L, real in zip(pl, li.model.layers):
        rec = dict(t=L["t"], fi=L["fi"], fo=L["fo"], si=L["si"], so=L["so"], grp=L["grp"], w=[])
        if L["t"] not in ("pool", "cross", "prod"):
            w = logc.ints(rng, weight_shape(L, R), li.spread)
            real.logits.data.copy_(w / 1000)
            rec["w"] = w.long().tolist()
        layers.append(rec)
    m["layers"] = layers
    if R > 1:
        w = logc.ints(rng, (C, R), li.spread)
        li.model.mixing.logits.data[0] = w / 1000
        m["mix"] = w.long().tolist()
    else:
        m["mix"] = [[0]] * C
    li.m = m
    return li


def text(plan):
    return ".".join(k + "".join(map(str, a)) for k, *a in plan)


def differentiable(plan):
    """Cross products have no differentiable sampling."""
    return all(k != "cross" for k, *_ in plan)


# (features, leaves, repetitions, classes, channels, plan)
PLANS = [
    # products of groups, with and without padding, all at once, single
    (6, 2, 1, 1, 1, [("product", 2), ("sum", 2), ("product", 3), ("sum", 1)]),
    (7, 2, 2, 2, 1, [("product", 3), ("sum", 3), ("product", 3), ("sum", 2)]),
    (5, 2, 2, 1, 1, [("product", 2), ("sum", 2), ("product", 2), ("sum", 2), ("product", 2), ("sum", 1)]),
    (5, 3, 1, 2, 1, [("product", 5), ("sum", 2)]),
    (5, 2, 3, 1, 1, [("product", 4), ("sum", 2), ("product", 2), ("sum", 1)]),
    (4, 2, 1, 2, 1, [("product", 1), ("sum", 3), ("product", 4), ("sum", 2)]),
    (3, 2, 2, 2, 2, [("product", 2), ("sum", 2), ("product", 2), ("sum", 2)]),
    (8, 2, 1, 1, 1, [("product", 3), ("product", 2), ("sum", 2), ("product", 2), ("sum", 1)]),
    # the root product below the last sum
    (4, 3, 2, 2, 1, [("product", 2), ("sum", 2), ("root",), ("sum", 2)]),
    (5, 2, 1, 3, 1, [("sum", 3), ("root",), ("sum", 3)]),
    # cross products
    (4, 2, 1, 1, 1, [("cross",), ("sum", 2), ("cross",), ("sum", 1)]),
    (4, 2, 2, 2, 1, [("cross",), ("sum", 2), ("cross",), ("sum", 2)]),
    (5, 2, 2, 1, 1, [("cross",), ("sum", 2), ("cross",), ("sum", 2), ("cross",), ("sum", 1)]),
    (3, 3, 1, 2, 1, [("cross",), ("sum", 2), ("cross",), ("sum", 2)]),
    (7, 2, 1, 1, 1, [("cross",), ("sum", 2), ("cross",), ("sum", 2), ("cross",), ("sum", 1)]),
    (4, 2, 2, 1, 1, [("cross",), ("cross",), ("sum", 1)]),
    (2, 2, 1, 4, 2, [("cross",)]),
    (4, 3, 1, 1, 1, [("cross",), ("sum", 2), ("root",), ("sum", 1)]),
    # mixtures of kinds
    (6, 2, 2, 1, 1, [("product", 3), ("sum", 3), ("cross",), ("sum", 1)]),
    (6, 2, 1, 2, 1, [("linsum", 3), ("product", 2), ("sum", 2), ("cross",), ("sum", 2)]),
    (5, 2, 2, 2, 1, [("linsum2", 2), ("cross",), ("sum", 2), ("linsum", 2)]),
    (4, 2, 2, 1, 1, [("linsum2", 3), ("linsum", 1)]),
    (5, 2, 1, 2, 1, [("linsum", 2), ("sum", 3), ("linsum2", 2), ("linsum", 2)]),
    (4, 2, 2, 2, 1, [("einsum", 2), ("product", 2), ("sum", 2)]),
    (4, 2, 1, 1, 1, [("sum", 2), ("einsum", 2), ("einsum", 1)]),
    (6, 2, 2, 1, 1, [("product", 3), ("einsum", 1)]),
    (5, 3, 1, 1, 2, [("linsum", 2), ("linsum", 2), ("product", 2), ("sum", 2), ("sum", 1)]),
    (2, 3, 3, 2, 1, [("linsum", 4), ("sum", 2)]),
]


def inst(F, K, R, C, CH, plan, leaf, i=0):
    V = max(K, 2)
    kind, V, leafden = {"ind": ("ind", V, 1), "norm": ("norm", V, 1), "ratnorm": ("ratnorm", V, 1), "cat": ("cat", 2, 3),
                        "bern": ("bern", 2, 2), "path": ("path", K * R, 1)}[leaf]
    out = circ.Inst(circ.cfg(F, 1, R, C, K, 2, CH, structure="bottom-up"), kind, V=V, leafden=leafden, wden=3,
                    name=f"stack{i}-{text(plan)}-F{F}-K{K}-R{R}-C{C}-CH{CH}-{leaf}")
    out.plan = plan
    return out


def rand_plan(rng):
    F, K = rng.randrange(2, 8), rng.choice([1, 2, 2, 3])
    R, C = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    plan, f, s = [], F, K
    while f > 1:
        kind = rng.choice(["product", "cross", "linsum", "linsum2", "einsum", "sum", "root"])
        if kind == "sum" and plan and plan[-1][0] == "sum" or kind == "cross" and s > 3 or kind == "einsum" and (f % 2 or s > 3):
            continue
        if kind == "root" and rng.random() < 0.6:
            continue
        arg = {"product": (rng.randrange(1, f + 1),), "cross": (), "root": ()}.get(kind, (rng.choice([1, 2, 2, 3]),))
        plan.append((kind, *arg))
        L = shapes(f, s, plan[-1:])[0]
        f, s = L["fo"], L["so"]
        if len(plan) > 7:
            return rand_plan(rng)
    if s != C or plan[-1][0] not in ("sum", "linsum", "linsum2", "einsum") or rng.random() < 0.3:
        plan.append(("sum", C))
    return F, K, R, C, rng.choice([1, 1, 1, 2]), plan


def grid(n_random, rng=None):
    rng = rng or random.Random(RNG.random())
    out = []
    for i, p in enumerate(PLANS):
        leaves = ["cat", "ind", "norm", "bern"] if p[0] * p[4] <= 4 else ["ind", "norm", "path"]
        out.append(inst(*p, leaves[i % len(leaves)], i))
        if p[0] * p[4] > 4 and p[1] * p[2] <= 6:
            out.append(inst(*p, "path", i))
    j = 0
    while j < n_random:
        p = rand_plan(rng)
        out.append(inst(*p, rng.choice(["ind", "norm", "ratnorm"] + (["cat", "bern"] if p[0] * p[4] <= 4 else [])), 100 + j))
        j += 1
    return out


def log_insts(n_random=0, seed0=0):
    shp = [(9, 3, 2, 2, 1, [("product", 4), ("sum", 3), ("cross",), ("sum", 4), ("linsum", 2)]),
           (16, 2, 1, 3, 1, [("cross",), ("sum", 2), ("cross",), ("sum", 3), ("product", 4), ("sum", 3)]),
           (17, 3, 3, 1, 2, [("linsum", 4), ("product", 3), ("sum", 2), ("cross",), ("sum", 2), ("cross",), ("sum", 1)]),
           (12, 4, 2, 2, 1, [("einsum", 3), ("product", 3), ("einsum", 2)]),
           (11, 2, 2, 1, 1, [("cross",), ("sum", 3), ("cross",), ("sum", 3), ("cross",), ("sum", 3), ("cross",), ("sum", 1)]),
           (13, 3, 1, 2, 1, [("linsum2", 3), ("linsum2", 2), ("cross",), ("sum", 4), ("root",), ("sum", 2)])]
    shp += [rand_plan(RNG) for _ in range(n_random)]
    out = []
    for i, (F, K, R, C, CH, plan) in enumerate(shp):
        for kind in ("mild", "extreme"):
            leaf = "norm" if (i + (kind == "extreme")) % 2 else "cat"
            spread, lsp, msp = (2, 3, 6) if kind == "mild" else (60 if all(k != "einsum" for k, *_ in plan) else 30, 25, 40)
            li = logc.LInst(circ.cfg(F, 1, R, C, K, 2, CH, structure="bottom-up"), leaf, 3, spread, lsp, msp,
                            f"logstack{i}-{kind}-{text(plan)}-F{F}-K{K}-R{R}-C{C}-CH{CH}-{leaf}",
                            seed0 * 1000 + 13 * i + (kind == "extreme") + 10**5 * RNG.randrange(100))
            li.plan = plan
            out.append(li)
    return out
