"""C05: conditional samples keep the evidence and follow the conditional distribution."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def precise(ck, torch):
    """Evidence whose exact value matters: the observed features' Gaussians lie a few (small) standard
    deviations apart at large means.  Completions occur in proportion to the density the model reports."""
    import itertools

    import dist
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal

    drec = dist.DistRec(ck)
    shapes = [dict(depth=1), dict(depth=2), dict(depth=1, layer_type="linsum2"), dict(depth=2, layer_type="einsum"),
              dict(depth=0), dict(depth=1, structure="bottom-up"), dict(depth=1, layer_type="einsum"),
              dict(depth=2, layer_type="linsum2"), dict(depth=2, structure="bottom-up")]
    for shape in shapes * (6 if THOROUGH else 1):
        R, C, F, K = RNG.choice([1, 2]), RNG.choice([1, 2]), RNG.choice([4, 5]), RNG.choice([2, 3])
        CH = RNG.choice([1, 2])
        tag = f"exact evidence, R={R} C={C} F={F} CH={CH} {shape}"
        m, err = guarded(lambda: Einet(EinetConfig(num_features=F, num_channels=CH, num_sums=3, num_leaves=K, num_repetitions=R,
                                                   num_classes=C, leaf_type=Normal, **shape)).eval())
        if err:
            drec.flags(tag, built=False)
            continue
        leaf = m.leaf.base_leaf if hasattr(m.leaf, "base_leaf") else m.leaf
        miss = sorted(RNG.sample(range(F), 2))
        sg = 1 / 16
        with torch.no_grad():
            leaf.logvar.fill_(2 * torch.log(torch.tensor(sg)).item())
            for c in range(CH):
                for f in range(F):
                    if f in miss:
                        grid = torch.stack([torch.randperm(3)[:K] for _ in range(R)], 1)
                        leaf.means.data[0, c, f] = grid.float() * 2
                    else:
                        leaf.means.data[0, c, f] = RNG.uniform(-1000, 1000) + torch.randn(K, R) * 1.2 * sg
        N = 20000 if THOROUGH else 6000
        for _ in range(2):
            x = torch.empty(CH, F)
            for c in range(CH):
                for f in range(F):
                    x[c, f] = leaf.means.data[0, c, f].flatten()[RNG.randrange(K * R)] + RNG.gauss(0, sg) if f not in miss else 0.0
            outs = torch.tensor(list(itertools.product(range(3), repeat=CH * 2))).view(-1, CH, 2)
            full = x.repeat(len(outs), 1, 1)
            full[:, :, miss] = outs.float() * 2
            with torch.no_grad():
                ll, err = guarded(lambda: m(full).double())
            if err:
                drec.freq(tag, [], None, err=err)
                continue
            w = (ll - ll.max()).exp().mean(1)
            e = x.clone()
            e[:, miss] = float("nan")
            s, err = guarded(lambda: m.sample(evidence=e.repeat(N, 1, 1)))
            if err or s.shape != (N, CH, F):
                drec.freq(tag, [], None, err=err or f"shape {tuple(s.shape)}")
                continue
            v = (s[:, :, miss] / 2).round()
            bad = ((s[:, :, miss] / 2 - v).abs() > 0.25).flatten(1).any(1) | ((v < 0) | (v > 2)).flatten(1).any(1)
            idx = (v.clamp(0, 2).flatten(1) * torch.tensor([3.0**j for j in reversed(range(CH * 2))])).sum(1).long()
            drec.freq(tag, torch.bincount(idx[~bad], minlength=len(outs)).tolist(), w, other=int(bad.sum()))
            keep = [f for f in range(F) if f not in miss]
            drec.flags(tag, kept=torch.equal(s[:, :, keep], x[:, keep].repeat(N, 1, 1)))
    drec.run()


def run(ck):
    import circ
    import drive

    torch = drive.torch
    insts = circ.make(circ.grid() + circ.rand_insts(120 if THOROUGH else 20), ck)
    rec = drive.Rec(ck, insts)
    N = 40000 if THOROUGH else 6000
    for inst in insts:
        F, CH = inst.F, inst.CH
        rng = RNG
        # different missing patterns in one batch, including nothing and everything missing
        full = drive.sample_spec(inst, rng, 1)[0]
        xs = drive.evidence_rows(inst, rng, 4, cap=200) + [full]
        xs.append(rec.any_(inst))
        rng.shuffle(xs)
        rec.conditional(inst, xs, N, "NaN patterns in one batch")
        rec.conditional(inst, xs[:1], N, "one pattern")
        # evidence layouts
        lay = ["4d", "4dt"] + (["2d"] if CH == 1 else [])
        for la in lay:
            rec.conditional(inst, drive.evidence_rows(inst, rng, 2, cap=60), N // 2, f"layout {la}", layout=la)
        # listed scopes
        for via in ("list", "tensor", "both"):
            rows = drive.evidence_rows(inst, rng, 3, cap=60, same=True)
            rec.conditional(inst, rows, N // 2, f"marginalized_scopes ({via})", via=via)
        # listed scopes while other entries are NaN, row by row
        f0 = rng.randrange(F)
        rows = drive.evidence_rows(inst, rng, 2, cap=40)
        for r in rows:
            for ch in range(CH):
                r[ch][f0] = -1
        x = circ.encode(inst, rows).repeat(N // 2, 1, 1)
        x[:, :, f0] = circ.encode(inst, [[[0] * F] * CH])[0, 0, 0]
        s, err = guarded(lambda: inst.model.sample(evidence=x, marginalized_scopes=[f0]))
        if err:
            rec.ev(inst, "hist", "NaN and marginalized_scopes", err=err, obs=[], x=rows[0])
        else:
            y = circ.decode(inst, s).view(N // 2, 2, CH, F)
            for p, r in enumerate(rows):
                rec.hist(inst, y[:, p], r, 0, "NaN and marginalized_scopes")
        # one row only, observed values stay bitwise
        r = drive.evidence_rows(inst, rng, 1)
        x = circ.encode(inst, r)
        s, err = guarded(lambda: inst.model.sample(evidence=x))
        ok = not err and s.shape == x.shape
        rec.flags(inst, "observed entries unchanged", shape=ok,
                  kept=ok and torch.equal(s[~x.isnan()], x[~x.isnan()]), filled=ok and not s.isnan().any())
        # observed real values of Gaussian leaves are kept whatever they are
        if inst.leaf in ("norm", "ratnorm"):
            x = torch.randn(50, CH, F) * 3
            x[torch.rand(x.shape) < 0.4] = float("nan")
            s, err = guarded(lambda: inst.model.sample(evidence=x))
            ok = not err and s.shape == x.shape
            rec.flags(inst, "real valued evidence unchanged", kept=ok and torch.equal(s[~x.isnan()], x[~x.isnan()]),
                      filled=ok and bool(s.isfinite().all()))
    # few rows per call, repeated rows
    for inst in RNG.sample(insts, 36 if THOROUGH else 14):
        for xs in (drive.evidence_rows(inst, RNG, RNG.choice([2, 4]), cap=60), drive.evidence_rows(inst, RNG, 1, cap=60)):
            rec.small_calls(inst, 2000 if THOROUGH else 400, xs=xs, tag="repeated rows in small batches")
    precise(ck, torch)
    ck.extra["instances"] = len(insts)
    rec.run()
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 6, seed0=5)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        ev = lrec.rows(inst, n, RNG.choice([0.2, 0.5, 0.8]))
        s, err = guarded(lambda: inst.model.sample(evidence=lrec.encode(inst, ev)))
        lrec.reach(inst, ev, s, "conditional samples in the support", err, slack=18000)
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C05", run)
