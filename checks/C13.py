"""C13: a configuration is accepted exactly when it is valid, and then works."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc, setup_paths  # noqa: E402


def I(v, t="int"):
    return {"t": t, "v": v}


def base(nf=6, ch=1, s=2, k=3, r=2, c=2, d=2, p=0, leaf="normal", layer="linsum", struct="top-down", card=1):
    return dict(nf=I(nf), ch=I(ch), s=I(s), k=I(k), r=I(r), c=I(c), d=I(d), p=I(p, "float"), leaf=leaf, layer=layer,
                struct=struct, card=card)


CNT = [I(-1), I(0), I(1), I(2), I(3), I(0, "none"), I(2, "float"), I(2, "str"), I(2, "npint"), I(2, "npint32"), I(3, "tint"), I(2, "npfloat"), I(0, "npint32")]
DOMS = dict(
    nf=[I(-2), I(0), I(1), I(2), I(3), I(5), I(8), I(9), I(0, "none"), I(4, "float"), I(5, "npint"), I(5, "npint32"), I(6, "tint"), I(1, "npint")],
    ch=CNT, s=CNT, k=CNT, r=CNT, c=CNT,
    d=[I(-1), I(0), I(1), I(2), I(3), I(4), I(7), I(0, "none"), I(1, "float"), I(1, "npint"), I(1, "npint32"), I(1, "tint"), I(7, "npint32")],
    p=[I(-100, "float"), I(-1, "float"), I(0, "float"), I(300, "float"), I(999, "float"), I(1000, "float"),
       I(1500, "float"), I(0, "str"), I(250, "npfloat"), I(500, "npfloat64"), I(1000, "npfloat"), I(125, "tfloat"),
       I(-125, "tfloat")],
    leaf=["normal", "ratnormal", "bernoulli", "binomial", "categorical", "multi", "none", "int", "instance", "module"],
    layer=["linsum", "linsum2", "einsum", "sum", "", "none"],
    struct=["top-down", "bottom-up", "poon-domingos", "", "none"],
)


def value(x):
    import numpy as np

    return {"int": lambda v: v, "npint": np.int64, "npint32": np.int32, "tint": torch_scalar, "float": lambda v: float(v),
            "npfloat": np.float32, "none": lambda v: None, "str": lambda v: str(v)}[x["t"]](x["v"])


def torch_scalar(v):
    import torch

    return torch.tensor(v)


def fraction(x):
    import numpy as np

    if x["t"] == "str":
        return "0"
    return {"float": float, "npfloat": np.float32, "npfloat64": np.float64, "tfloat": torch_scalar}[x["t"]](x["v"] / 1000)


def make_config(c):
    from torch import nn

    from simple_einet.einet import EinetConfig
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    leaf, kw = c["leaf"], {}
    nf = c["nf"]["v"]
    if leaf == "ratnormal":
        kw = dict(min_sigma=0.2, max_sigma=1.2)
    if leaf == "binomial":
        kw = dict(total_count=3)
    if leaf == "categorical":
        kw = dict(num_bins=3)
    if leaf == "mvn":
        kw = dict(cardinality=c["card"])
    if leaf == "multi":
        kw = dict(scopes_to_dist=[(list(range(1, max(nf, 1), 2)), Normal, {}),
                                  (list(range(0, max(nf, 1), 2)), Bernoulli, {})])
    lt = dict(normal=Normal, ratnormal=RatNormal, bernoulli=Bernoulli, binomial=Binomial, categorical=Categorical,
              mvn=MultivariateNormal, multi=MultiDistributionLayer, none=None, int=int, module=nn.Linear).get(leaf)
    if leaf == "instance":
        lt = Normal(num_features=2, num_channels=1, num_leaves=1)
    nn_ = lambda s: None if s == "none" else s  # noqa: E731
    return EinetConfig(num_features=value(c["nf"]), num_channels=value(c["ch"]), num_sums=value(c["s"]),
                       num_leaves=value(c["k"]), num_repetitions=value(c["r"]), num_classes=value(c["c"]),
                       depth=value(c["d"]), dropout=fraction(c["p"]),
                       leaf_type=lt, leaf_kwargs=kw, layer_type=nn_(c["layer"]), structure=nn_(c["struct"]))


def observe(torch, c):
    """Build the model and call it; returns the event."""
    import circ
    from simple_einet.einet import Einet

    torch.manual_seed(RNG.randrange(2**31))
    m, err = guarded(lambda: Einet(make_config(c)))
    e = dict(c=c, accepted=not err, err=err, layers=[], mixing=False, regions=0, shapes=[], n=3, finite=True)
    if err:
        return e
    C, CH, D = c["c"]["v"], c["ch"]["v"], c["nf"]["v"]
    layers = []
    for la in m.layers:
        t = {"LinsumLayer": "linsum", "LinsumLayer2": "linsum2", "EinsumLayer": "einsum", "SumLayer": "sum"}.get(
            type(la).__name__, "prod")
        if t == "prod":
            layers.append(dict(t=t, fi=int(layers[-1]["fo"]), fo=1, si=layers[-1]["so"], so=layers[-1]["so"]))
            continue
        sh = list(la.logits.shape)
        if t == "einsum":
            fo, so, _, si, si2 = sh
            layers.append(dict(t=t, fi=2 * fo, fo=fo, si=si, so=so))
        elif t == "linsum":
            layers.append(dict(t=t, fi=int(la.num_features), fo=sh[0], si=sh[1], so=sh[2]))
        elif t == "linsum2":
            layers.append(dict(t=t, fi=sh[0], fo=sh[0] // 2, si=sh[1], so=sh[2]))
        else:
            layers.append(dict(t=t, fi=sh[0], fo=sh[0], si=sh[1], so=sh[2]))
    e["layers"] = [{k: (v if k == "t" else int(v)) for k, v in la.items()} for la in layers]
    e["mixing"] = hasattr(m, "mixing")
    e["regions"] = int(getattr(m.leaf, "num_features_out", D))
    if c["struct"] == "bottom-up":
        e["regions"] = D
    calls = []
    x = torch.randint(0, 2, (3, CH, D)).float()
    xm = x.clone()
    xm[torch.rand(x.shape) < 0.5] = float("nan")
    mvn = c["leaf"] == "mvn"           # cannot marginalise (documented)
    for mode in ("train", "eval"):
        getattr(m, mode)()
        calls += [("forward", lambda: m(x)), ("forward one row", lambda: m(x[:1]))]
        if not mvn:
            calls += [("forward", lambda: m(xm))]
        for what, f in calls:
            y, er = guarded(f)
            e["shapes"].append(dict(what=what, shape=list(y.shape) if not er else [-1], err=er))
            if not er:
                e["finite"] = e["finite"] and bool(y.isfinite().all())
        calls = []
    calls = [("default sample", lambda: m.sample()), ("sample", lambda: m.sample(num_samples=3))]
    if C > 1:
        calls += [("class sample", lambda: m.sample(num_samples=3, class_index=C - 1)),
                  ("class sample", lambda: m.sample(class_index=[0, C - 1, 0])), ("posterior", lambda: m.posterior(x))]
    if not mvn:
        calls += [("conditional", lambda: m.sample(evidence=xm)), ("mpe", lambda: m.mpe(evidence=xm)),
                  ("conditional", lambda: m.sample(evidence=x, marginalized_scopes=[0])),
                  ("differentiable", lambda: m.sample(num_samples=3, is_differentiable=True)),
                  ("differentiable", lambda: m.sample(evidence=xm, is_differentiable=True)),
                  ("default mpe", lambda: m.mpe())]
    for what, f in calls:
        y, er = guarded(f)
        e["shapes"].append(dict(what=what, shape=list(y.shape) if not er else [-1], err=er))
        if not er:
            e["finite"] = e["finite"] and bool(y.isfinite().all())
    return e


def run(ck):
    setup_paths()
    torch = load_torch()
    bases = [base(), base(nf=7, layer="einsum", r=1, leaf="categorical"), base(struct="bottom-up", d=1, nf=5),
             base(layer="linsum2", leaf="binomial", c=1, p=300, ch=2), base(nf=4, d=0, leaf="multi", r=1, c=1),
             base(nf=8, d=3, leaf="bernoulli", ch=2, c=3, k=1), base(nf=2, d=1, layer="einsum", c=1, r=3)]
    mv = [base(nf=8, d=2, leaf="mvn", card=2, r=1), base(nf=6, d=1, leaf="mvn", card=3, layer="einsum"),
          base(nf=4, d=0, leaf="mvn", card=2, c=1), base(nf=8, d=2, leaf="mvn", card=1, struct="bottom-up")]
    mvdoms = {k: DOMS[k] for k in ("r", "c", "k", "ch", "layer", "struct", "p")}
    mvdoms.update(d=[I(0), I(1), I(2), I(3), I(4)], nf=[I(4), I(6), I(8), I(7)], card=[1, 2, 3, 4])
    cfg = "SPECIFICATION Spec\nVIEW View\nINVARIANT LayersFit\nINVARIANT Inhabited\nINVARIANT Emit\n"
    confs = []
    for b, doms in ((bases, DOMS), (mv, mvdoms)):
        r = run_tlc("Config", cfg, dict(bases=b, steps=2, doms=doms, events=[]), timeout=600)
        if r.rc != 0:
            raise MachineryError("Config: " + r.out[-2000:])
        ck.add_tlc(r)
        seen = {}
        for c in r.emitted:
            seen[str(sorted((k, str(v)) for k, v in c.items()))] = c
        one = [c for c in seen.values()]
        confs.append(one)
    ck.extra["configurations_enumerated"] = sum(map(len, confs))
    events = []
    for group, cap in zip(confs, (6000, 1200) if THOROUGH else (1600, 250)):
        group.sort(key=str)
        # every configuration with one change, a sample of the others
        near = [c for c in group if min(sum(c[k] != b[k] for k in b) for b in bases + mv) <= 1]
        rest = [c for c in group if c not in near] if len(group) < 3000 else [c for c in group]
        for c in near + RNG.sample(rest, min(cap, len(rest))):
            if c["leaf"] == "multi" and c["nf"]["t"] in ("int", "npint", "npint32", "tint") and c["nf"]["v"] < 2:
                continue
            events.append(observe(torch, c))
    # long walks, and large counts
    for _ in range(1500 if THOROUGH else 200):
        b = dict(RNG.choice(bases))
        for f in RNG.sample(list(DOMS), RNG.randrange(2, 9)):
            ok = [v for v in DOMS[f] if not isinstance(v, dict) or (v["t"] == "int" and v["v"] >= (0 if f == "d" else 1))
                  or (f == "p" and v["t"] == "float" and 0 <= v["v"] < 1000)]
            b[f] = RNG.choice(ok)
        if b["nf"]["v"] >= 2:
            events.append(observe(torch, b))
    big = [64, 65, 80, 100, 129, 257]
    for f in ("s", "k", "r", "c", "ch"):
        for v in big if THOROUGH else RNG.sample(big, 3) + [257]:
            events.append(observe(torch, base(**{"nf": 4, "d": RNG.choice([1, 2]), "struct": "top-down", f: v})))
            events.append(observe(torch, base(**{"nf": 4, "d": 1, "struct": RNG.choice(["top-down", "bottom-up"]), "r": 1, f: v,
                                                 "leaf": RNG.choice(["bernoulli", "categorical", "ratnormal"])})))
            if f in ("s", "r", "c", "ch"):
                events.append(observe(torch, base(nf=4, d=2, layer=RNG.choice(["linsum2", "einsum"]), **{f: min(v, 80) if f == "s" else v})))
    for v in (100, 257, 1000):
        events.append(observe(torch, base(nf=v, d=RNG.choice([1, 3, 5]))))
        events.append(observe(torch, base(nf=v, d=RNG.choice([1, 3, 5]), struct="bottom-up", r=1, leaf="bernoulli")))
    for c in (base(nf=64, d=6, s=5, k=5), base(nf=33, d=5, layer="einsum"), base(nf=65, d=6, struct="bottom-up"),
              base(nf=40, d=0, r=7), base(nf=16, d=4, layer="linsum2", c=10, s=20, k=20)):
        events.append(observe(torch, c))
    ck.extra["accepted"] = sum(e["accepted"] for e in events)
    ck.extra["rejected"] = sum(not e["accepted"] for e in events)
    r = run_tlc("ConfigTrace", "SPECIFICATION TSpec\nINVARIANT Conforms\n",
                dict(bases=[], steps=0, doms={"x": []}, events=events), extra=["-continue"], timeout=700)
    ck.traces += len(events)
    for e in events[:3]:
        ck.sample(e)

    def key(e):
        c = e["c"]
        if c["leaf"] == "mvn" and e["accepted"] and c["nf"]["v"] % c["card"]:
            return "mvn with num_features not divisible by cardinality"
        show = {k: (f"{v['t']}:{v['v']}" if isinstance(v, dict) else v) for k, v in c.items()}
        return f"accepted={e['accepted']} {show} {e['err'][:80]}"

    ck.judge(events, r, key, "ConfigTrace")


main("C13", run)
