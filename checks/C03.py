"""C03: missing features (NaN or marginalized scopes) are summed out exactly."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, main  # noqa: E402


def run(ck):
    import circ
    import drive

    torch = drive.torch
    insts = circ.make(circ.grid() + circ.rand_insts(200 if THOROUGH else 30), ck)
    rec = drive.Rec(ck, insts)
    n_rows = 200 if THOROUGH else 24
    for inst in insts:
        F, CH = inst.F, inst.CH
        # every row its own pattern, in every channel
        xs = [rec.any_(inst)] + [circ.rand_input(inst, RNG, RNG.choice([0.2, 0.5, 0.8])) for _ in range(n_rows)]
        xs += drive.evidence_rows(inst, RNG, n_rows // 2)
        rec.dens(inst, xs, "NaN patterns")
        for x in xs[:3]:
            rec.dens(inst, [x], "NaN pattern, one row")
        if inst.cfg["num_classes"] > 1:
            rec.post(inst, drive.evidence_rows(inst, RNG, 8), "posterior with NaN")
        # listed scopes, with arbitrary values left in place
        pats = []
        for f in range(F):
            pats.append([f])
        pats.append(list(range(F)))
        for _ in range(6 if THOROUGH else 3):
            pats.append(RNG.sample(range(F), RNG.randrange(1, F + 1)))
        for pi, pat in enumerate(pats):
            rows = [circ.rand_input(inst, RNG, 0) for _ in range(3)]
            want = [[[-1 if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
            x = circ.encode(inst, rows)
            form = list(pat) if pi % 3 else torch.tensor(pat)
            rec.dens(inst, rows, f"marginalized_scopes={'list' if pi % 3 else 'tensor'}", x_real=x, spec_xs=want,
                     marginalized_scopes=form)
            # a set of features: neither the order nor repeated entries matter
            form = pat + [RNG.choice(pat) for _ in range(RNG.randrange(1, 3))]
            RNG.shuffle(form)
            rec.dens(inst, rows, "marginalized_scopes with repeated entries", x_real=x, spec_xs=want,
                     marginalized_scopes=form if pi % 2 else torch.tensor(form))
            # junk in the listed features must not matter, not even values outside of the support
            if inst.leaf in ("norm", "ratnorm"):
                x2 = x.clone()
                x2[:, :, pat] = 1e5
                rec.dens(inst, rows, "marginalized_scopes over far values", x_real=x2, spec_xs=want,
                         marginalized_scopes=drive.shuffled(pat))
            # both ways at once
            rows2 = [circ.rand_input(inst, RNG, 0.35) for _ in range(3)]
            want2 = [[[-1 if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows2]
            rec.dens(inst, rows2, "NaN and marginalized_scopes", spec_xs=want2, marginalized_scopes=drive.shuffled(pat))
            # the same features by NaN and by list
            x3 = circ.encode(inst, want)
            rec.dens(inst, rows, "listed features that are NaN already", x_real=x3, spec_xs=want,
                     marginalized_scopes=drive.shuffled(pat))
    ck.extra["instances"] = len(insts)
    rec.run()
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 6, seed0=3)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        lrec.ll(inst, lrec.rows(inst, n, RNG.choice([0.2, 0.5, 0.9])), "NaN patterns")
        pat = RNG.sample(range(inst.F), RNG.randrange(1, inst.F + 1))
        rows = lrec.rows(inst, 3)
        want = [[[logc.NOVAL if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
        lrec.ll(inst, want, "marginalized_scopes", x_real=lrec.encode(inst, rows), marginalized_scopes=drive.shuffled(pat))
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C03", run)
