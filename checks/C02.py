"""C02: every class density sums to one; likelihoods are never NaN or +inf."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main, run_tlc  # noqa: E402


def randomise(torch, model, rng, scale):
    """Arbitrary parameter values."""
    with torch.no_grad():
        for p in model.parameters():
            if p.requires_grad:
                p.copy_(torch.randn_like(p) * scale)


def run(ck):
    import circ
    import drive
    import dist

    torch = drive.torch
    rec = dist.DistRec(ck)
    insts = circ.make(circ.grid() + circ.rand_insts(250 if THOROUGH else 40), ck)
    crec = drive.Rec(ck, insts)
    for inst in insts:
        crec.wf(inst)
        name = inst.name
        ok_scale = [None, 1.0, 4.0] + ([0.3, 12.0] if THOROUGH else [12.0])
        discrete = inst.leaf in ("cat", "ind", "bern", "binom", "multi")
        for sc in ok_scale:
            if sc is not None:
                randomise(torch, inst.model, RNG, sc)
            if discrete and circ.n_inputs(inst, False) <= 800:
                xs = list(circ.all_inputs(inst, False))
                ll, err = guarded(lambda: inst.model(circ.encode(inst, xs)))
                rec.normalised(f"sum over all assignments, parameters x{sc} [{name}]", ll, err)
            # extreme observations and missing entries
            x = torch.randn(40, inst.CH, inst.F)
            if discrete:
                x = torch.randint(0, inst.V, x.shape).float()
            else:
                x[:8] *= 1e2
                x[8:16] *= 1e4
                x[16:20] = 1e6
                x[20:24] = -1e8
            x[24:32][torch.rand(8, inst.CH, inst.F) < 0.4] = float("nan")
            for mode in ("eval", "train"):
                getattr(inst.model, mode)()
                ll, err = guarded(lambda: inst.model(x))
                rec.finite(f"finite likelihoods, parameters x{sc}, {mode} [{name}]", ll, err)
            inst.model.eval()
            if inst.cfg["num_classes"] > 1:
                po, err = guarded(lambda: inst.model.posterior(x))
                rec.finite(f"finite posteriors, parameters x{sc} [{name}]", po, err)
    # continuous leaves in one dimension: numerical integral of the density
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    for cls, kw in ((Normal, {}), (RatNormal, {"min_sigma": 0.2, "max_sigma": 1.5}),
                    (RatNormal, {"min_sigma": 0.2, "max_sigma": 1.5, "min_mean": -3.0, "max_mean": 3.0})):
        for structure, depth, R in (("top-down", 0, 2), ("top-down", 1, 1), ("bottom-up", 1, 3)):
            m = Einet(EinetConfig(num_features=2, num_sums=2, num_leaves=3, num_repetitions=R, num_classes=2, depth=depth,
                                  leaf_type=cls, leaf_kwargs=kw, structure=structure)).eval()
            for p in m.leaf.parameters():
                if p.requires_grad:
                    p.data.clamp_(-2, 2)
            step = 0.1
            g = torch.arange(-14, 14, step)
            xx = torch.cartesian_prod(g, g)
            ll, err = guarded(lambda: m(xx))
            rec.normalised(f"integral [{cls.__name__} {kw} {structure} R={R}]", ll, err, cell=step * step, tol=4000)
    # weights that underflow: every pair of children that fits the observation has a weight below 2^-149
    for layer in ("linsum", "linsum2", "einsum"):
        torch.manual_seed(3)
        m = Einet(EinetConfig(num_features=2, num_sums=2, num_leaves=2, num_repetitions=1, num_classes=1, depth=1,
                              leaf_type=Normal, layer_type=layer)).eval()
        m.leaf.base_leaf.means.data[0, 0, :, 0] = 0.0
        m.leaf.base_leaf.means.data[0, 0, :, 1] = 40.0
        m.leaf.base_leaf.logvar.data.zero_()
        lg = m.layers[0].logits.data
        lg.zero_()
        if layer == "einsum":
            lg[0, 0, 0, 0, 0] = -300.0
        else:
            lg[:, 0] = -300.0
        ll, err = guarded(lambda: m(torch.zeros(1, 2)))
        rec.finite(f"weights below the smallest float [{layer}]", ll, err)
    ck.extra["instances"] = len(insts)
    rec.run()
    crec.run()
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 6, seed0=2)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        if inst.leaf == "norm":
            lrec.ll(inst, lrec.rows(inst, 2 * n, RNG.choice([0, 0.3])), "likelihood in the tails")
        else:
            lrec.ll(inst, lrec.rows(inst, n, 0.2), "likelihood")
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C02", run)
