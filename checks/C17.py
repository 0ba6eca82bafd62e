"""C17: temperatures of sums and leaves."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def square_insts(circ):
    I, c = circ.Inst, circ.cfg
    out = []
    for layer, st in (("linsum", "top-down"), ("linsum2", "top-down"), ("einsum", "top-down"), ("linsum", "bottom-up")):
        for depth, F in ((1, 3), (2, 5)):
            for R in (1, 2):
                if layer == "einsum" and depth == 2:
                    S, K = 2, 2
                else:
                    S, K = 2, RNG.choice([2, 3])
                if layer == "einsum":
                    K = 2
                out.append(I(c(F, depth, R=R, C=RNG.choice([1, 2]), K=K, S=S, layer=layer, structure=st), "ind", V=K,
                             leafden=1, square=True, name=f"sq-{layer}-{st}-d{depth}-R{R}"))
    out.append(I(c(3, 0, R=1, C=1, K=3), "ind", V=3, leafden=1, square=True, name="sq-d0-r1"))
    out.append(I(c(3, 0, R=3, C=2, K=2), "norm", V=2, leafden=1, square=True, name="sq-d0-r3-norm"))
    for R in (1, 2):
        out.append(I(c(2, 1, R=R, C=1, K=2), "cat", V=2, leafden=5, square=True, name=f"sq-cat2-R{R}"))
        out.append(I(c(3, 1, R=R, C=2, K=2, layer="einsum"), "cat", V=2, leafden=5, square=True, name=f"sq-cat-ein-R{R}"))
        out.append(I(c(3, 1, R=R, C=1, K=2, structure="bottom-up"), "cat", V=2, leafden=5, square=True,
                     name=f"sq-cat-bu-R{R}"))
        out.append(I(c(2, 1, R=R, C=1, K=2, CH=2), "cat", V=2, leafden=5, square=True, name=f"sq-cat-ch2-R{R}"))
    out.append(I(c(2, 1, R=1, C=1, K=2), "cat", V=3, leafden=9, square=True, name="sq-cat3"))
    return out


def squared_den(inst):
    """Common denominator after squaring all weights."""
    def row(ws):
        return sum(v * v for v in ws)

    m = inst.m
    d = row(m["leaf"][0][0][0][0]) ** (inst.F * inst.CH) * (row(m["mix"][0]) if m["R"] > 1 else 1)
    for L in m["layers"]:
        if L["t"] == "einsum":
            d *= row([v for r in L["w"][0][0][0] for v in r]) ** L["fo"]
        elif L["t"] != "prod":
            d *= row([a[0][0] for a in L["w"][0]]) ** len(L["w"])
    return d


def run(ck):
    import circ
    import dist
    import drive

    torch = drive.torch
    insts = circ.make(square_insts(circ), ck)
    rec = drive.Rec(ck, insts)
    N = 100000 if THOROUGH else 30000
    real = {"2": 2.0, "1/2": 0.5, "1": 1.0}
    for inst in insts:
        C = inst.cfg["num_classes"]
        cls = C if C > 1 else 1
        rc = C - 1 if C > 1 else None
        cat = inst.leaf == "cat"
        temps = ["2", "1"] + (["1/2"] if squared_den(inst) < 2**28 else [])
        for ts in temps:
            for diff in (False, True):
                n = N // 3 if diff else N
                kw = dict(is_differentiable=True) if diff else {}
                d = " (differentiable)" if diff else ""
                rec.sample(inst, n, cls=cls, real_cls=rc, ts=ts, tag=f"temperature_sums={ts}{d}",
                           temperature_sums=real[ts], **kw)
                if cat:
                    rec.sample(inst, n, cls=cls, real_cls=rc, tl=ts, tag=f"temperature_leaves={ts}{d}",
                               temperature_leaves=real[ts], **kw)
        if cat:
            if "1/2" in temps:
                rec.sample(inst, N, cls=cls, real_cls=rc, ts="2", tl="1/2", tag="both temperatures",
                           temperature_sums=2.0, temperature_leaves=0.5)
        # sums untouched by the temperature of the leaves
        if inst.leaf == "ind" or inst.leaf == "norm":
            rec.sample(inst, N, cls=cls, real_cls=rc, tag="temperature_leaves leaves sums alone", temperature_leaves=2.0)
        # temperature 1 given evidence
        rec.conditional(inst, drive.evidence_rows(inst, RNG, 2, cap=60), N // 4, "temperature 1 with evidence",
                        temperature_sums=1.0, temperature_leaves=1.0)
        # leaf draws given evidence
        if cat:
            xs = drive.evidence_rows(inst, RNG, 2)
            s, err = guarded(lambda: inst.model.sample(evidence=circ.encode(inst, xs).repeat(N // 4, 1, 1),
                                                       temperature_leaves=2.0))
            if err:
                rec.ev(inst, "hist", "temperature_leaves with evidence", err=err, obs=[])
            else:
                y = circ.decode(inst, s).view(N // 4, 2, inst.CH, inst.F)
                for j, x in enumerate(xs):
                    rec.hist(inst, y[:, j], x, 0, "temperature_leaves with evidence", tl="2")
        # a temperature does not stick
        s = None
        g = torch.get_rng_state()
        a, e1 = guarded(lambda: inst.model.sample(num_samples=50, class_index=rc))
        _, e2 = guarded(lambda: inst.model.sample(num_samples=50, class_index=rc, temperature_sums=3.0, temperature_leaves=2.0))
        torch.set_rng_state(g)
        b, e3 = guarded(lambda: inst.model.sample(num_samples=50, class_index=rc))
        torch.set_rng_state(g)
        c, e4 = guarded(lambda: inst.model.sample(num_samples=50, class_index=rc, temperature_sums=1.0, temperature_leaves=1.0))
        rec.flags(inst, "temperature 1 is no temperature", ok=not (e1 or e2 or e3 or e4) and torch.equal(a, b)
                  and torch.equal(a, c))
    # any temperature: weights w^T (up to a factor) at temperature T are the weights w
    import copy

    for inst in insts:
        C = inst.cfg["num_classes"]
        cls = RNG.randrange(C)
        kw = dict(class_index=cls) if C > 1 else {}
        for T in (0.01, 0.07, 0.3, 7.0, 150.0):
            what = RNG.choice(["sums", "leaves"] if inst.leaf == "cat" else ["sums"])
            keep = copy.deepcopy(inst.model.state_dict())
            bl = circ.base_leaf(inst.model)
            with torch.no_grad():
                if what == "leaves":
                    bl.logits.mul_(T)
                else:
                    leafy = {id(p) for p in inst.model.leaf.parameters()}
                    for p in inst.model.parameters():
                        if id(p) not in leafy and p.requires_grad:
                            p.mul_(T)
            for diff in (False, True):
                k2 = dict(kw, is_differentiable=True) if diff else kw
                rec.sample(inst, N // 3, cls=cls + 1, tag=f"temperature {T} of {what} diff={diff}", **{f"temperature_{what}": T}, **k2)
            inst.model.load_state_dict(keep)
    # Gaussian leaves: temperature T scales the variance by T (quantile frequencies)
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    drec = dist.DistRec(ck)
    for cls, kw in ((Normal, {}), (RatNormal, {"min_sigma": 0.5, "max_sigma": 1.5})):
        for R in (1, 2):
            for diff in (False, True):
                m = Einet(EinetConfig(num_features=2, num_sums=1, num_leaves=1, num_repetitions=R, num_classes=1, depth=1,
                                      leaf_type=cls, leaf_kwargs=kw)).eval()
                for p in m.leaf.parameters():
                    if p.requires_grad:
                        p.data.zero_()                   # mean 0, standard deviation 1
                for T in (1.0, 4.0, 0.25):
                    tag = f"variance of {cls.__name__} leaves x{T} R={R} diff={diff}"
                    s, err = guarded(lambda: m.sample(num_samples=30000, temperature_leaves=T, is_differentiable=diff))
                    drec.quantiles(tag, s.detach().reshape(-1) / T**0.5 if not err else None, err)
                    s, err = guarded(lambda: m.sample(num_samples=30000, temperature_sums=T, is_differentiable=diff))
                    drec.quantiles(tag + " (sums)", s.detach().reshape(-1) if not err else None, err)
                s, err = guarded(lambda: m.sample(num_samples=200, temperature_leaves=3.0, mpe_at_leaves=True))
                drec.flags(f"mode of {cls.__name__} leaves with temperature", ok=not err and bool((s == 0).all()))
    drec.run()
    ck.extra["instances"] = len(insts)
    rec.run()


main("C17", run)
