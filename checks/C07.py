"""C07: MPE follows most probable branches, keeps evidence, and is deterministic."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def unique_modes(inst):
    return all(sum(1 for v in row if v == max(row)) == 1
               for ch in inst.m["leaf"] for f in ch for k in f for row in k)


def run(ck):
    import circ
    import drive
    import specs

    torch = drive.torch
    base = circ.make(circ.grid(), ck)
    specs.sampler(ck, base[:8], RNG, n_ev=2, timeout=900)
    insts = base + circ.make(circ.rand_insts(200 if THOROUGH else 30), ck, seed0=3) + circ.tie_insts(ck)
    rec = drive.Rec(ck, insts)
    N = 30000 if THOROUGH else 6000
    for inst in insts:
        C = inst.cfg["num_classes"]
        rows = [rec.any_(inst)] + drive.evidence_rows(inst, RNG, 60 if THOROUGH else 16)
        if inst.leaf not in ("ind", "norm", "ratnorm"):
            rows += [circ.rand_input(inst, RNG, 0.4) for _ in range(8)]
        rows = [r for r in rows if rec.cells(inst, r)]
        x = circ.encode(inst, rows)
        g0 = torch.get_rng_state()
        s, err = guarded(lambda: inst.model.mpe(evidence=x))
        g1 = torch.get_rng_state()
        if not err and s.shape != x.shape:
            err = f"shape {tuple(s.shape)}"
        if err:
            rec.ev(inst, "mpe", "mpe", err=err)
            continue
        rec.mpe(inst, circ.decode(inst, s), rows, "mpe")
        torch.manual_seed(RNG.randrange(10**6))
        s2, err2 = guarded(lambda: inst.model.mpe(evidence=x))
        s3, err3 = guarded(lambda: inst.model.sample(evidence=x, is_mpe=True))
        s4, err4 = guarded(lambda: inst.model.mpe(evidence=x[:1]))
        obs = ~x.isnan()
        rec.flags(inst, "mpe is deterministic", rng=torch.equal(g0, g1), same=not err2 and torch.equal(s, s2),
                  sample=not err3 and torch.equal(s, s3), row=not err4 and torch.equal(s[:1], s4),
                  kept=torch.equal(s[obs], x[obs]), filled=not s.isnan().any())
        # scopes to marginalise instead of NaN
        rows2 = drive.evidence_rows(inst, RNG, 4, same=True)
        miss = [f for f in range(inst.F) if rows2[0][0][f] == -1]
        x2 = circ.encode(inst, rows2)
        x2[:, :, miss] = circ.encode(inst, [circ.rand_input(inst, RNG, 0)])[:, :, miss]
        s, err = guarded(lambda: inst.model.mpe(evidence=x2, marginalized_scopes=drive.shuffled(miss)))
        if err:
            rec.ev(inst, "mpe", "mpe with marginalized_scopes", err=err)
        else:
            rec.mpe(inst, circ.decode(inst, s), rows2, "mpe with marginalized_scopes")
        # differentiable
        g0 = torch.get_rng_state()
        s, err = guarded(lambda: inst.model.mpe(evidence=x, is_differentiable=True))
        g1 = torch.get_rng_state()
        torch.manual_seed(RNG.randrange(10**6))
        s2, err2 = guarded(lambda: inst.model.mpe(evidence=x, is_differentiable=True))
        if err or s.shape != x.shape:
            rec.ev(inst, "mpe", "differentiable mpe", err=err or f"shape {tuple(s.shape)}")
        else:
            rec.mpe(inst, circ.decode(inst, s), rows, "differentiable mpe")
            rec.flags(inst, "differentiable mpe is deterministic", same=not err2 and torch.equal(s, s2),
                      rng=torch.equal(g0, g1), kept=torch.equal(s.detach()[obs], x[obs]))
        # without evidence
        g0 = torch.get_rng_state()
        s, err = guarded(lambda: inst.model.mpe())
        if err or tuple(s.shape) != (1, inst.CH, inst.F):
            rec.ev(inst, "mpe", "mpe without evidence", err=err or f"shape {tuple(s.shape)}")
        else:
            rec.mpe(inst, circ.decode(inst, s), [rec.any_(inst)], "mpe without evidence")
            rec.flags(inst, "mpe without evidence", rng=torch.equal(g0, torch.get_rng_state()))
        for c in range(C) if C > 1 else []:
            s, err = guarded(lambda: inst.model.sample(num_samples=3, class_index=c, is_mpe=True))
            if err or tuple(s.shape) != (3, inst.CH, inst.F):
                rec.ev(inst, "mpe", "mpe of a class", err=err or f"shape {tuple(s.shape)}")
            else:
                rec.mpe(inst, circ.decode(inst, s)[:1], [rec.any_(inst)], "mpe of a class", cls=c + 1)
                rec.flags(inst, "mpe of a class", same=bool((s == s[:1]).all()))
        # only the leaves are maximised
        if unique_modes(inst):
            if C == 1:
                rec.sample(inst, 3 * N, cls=1, tag="mpe_at_leaves", emit="mode", mpe_at_leaves=True)
            else:
                rec.sample(inst, 3 * N, cls=C, real_cls=C - 1, tag="mpe_at_leaves", emit="mode", mpe_at_leaves=True)
            rec.conditional(inst, drive.evidence_rows(inst, RNG, 2, cap=60), N, "mpe_at_leaves with evidence", emit="mode",
                            mpe_at_leaves=True)
        else:
            r = drive.evidence_rows(inst, RNG, 20)
            s, err = guarded(lambda: inst.model.sample(evidence=circ.encode(inst, r), mpe_at_leaves=True))
            for q, o in zip(r, circ.decode(inst, s).tolist() if not err else [None]):
                rec.ev(inst, "modes", "mpe_at_leaves with evidence", err=err, x=q, obs=o)
    ck.extra["instances"] = len(insts)
    rec.run()
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 6, seed0=7)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        C = inst.cfg["num_classes"]
        ev = lrec.rows(inst, n, RNG.choice([0.2, 0.5, 0.8, 1.0]))
        for diff in (False, True):
            s, err = guarded(lambda: inst.model.mpe(evidence=lrec.encode(inst, ev), is_differentiable=diff))
            lrec.reach(inst, ev, s, f"mpe, differentiable={diff}", err)
        anyx = [[[logc.NOVAL] * inst.F for _ in range(inst.CH)]]
        for c in range(C):
            kw = dict(class_index=c) if C > 1 else {}
            s, err = guarded(lambda: inst.model.sample(num_samples=1, is_mpe=True, **kw))
            lrec.reach(inst, anyx, s, "mpe of a class", err, cls=c + 1)
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C07", run)
