"""C23: gradients of the log-likelihood are posterior edge usages."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def run(ck):
    import circ
    import drive

    torch = drive.torch
    insts = circ.make(circ.grid() + circ.rand_insts(150 if THOROUGH else 30), ck)
    rec = drive.Rec(ck, insts)
    for inst in insts:
        m = inst.model
        C = inst.cfg["num_classes"]
        rows = drive.sample_spec(inst, RNG, 2) + drive.evidence_rows(inst, RNG, 30 if THOROUGH else 5) + [rec.any_(inst)]
        for mode in ("eval", "train"):
            getattr(m, mode)()
            for x in rows if mode == "eval" else rows[:2]:
                for c in range(C):
                    obs, err = guarded(drive.gradient, inst, x, c)
                    if err:
                        rec.ev(inst, "grad", f"gradient ({mode})", err=err, x=x, cls=c + 1, obs={})
                        continue
                    rec.ev(inst, "grad", f"gradient ({mode})", x=x, cls=c + 1, obs=obs)
        m.eval()
        m.zero_grad(set_to_none=True)
        # gradients of a batch: the sum of the gradients of its rows, also through posteriors
        xb = circ.encode(inst, rows)
        params = [p for p in m.parameters() if p.requires_grad]

        def batch():
            a = torch.autograd.grad(m(xb).sum(), params, allow_unused=True)
            parts = [torch.autograd.grad(m(xb[j:j + 1]).sum(), params, allow_unused=True) for j in range(len(rows))]
            ok = True
            for q, g in enumerate(a):
                t = sum((p[q] if p[q] is not None else torch.zeros_like(params[q])) for p in parts)
                g = torch.zeros_like(t) if g is None else g
                ok &= bool(torch.allclose(g, t, atol=1e-4, rtol=1e-3)) and bool(g.isfinite().all())
            return ok

        ok, err = guarded(batch)
        rec.flags(inst, "gradient of a batch is the sum over its rows", ok=not err and ok)
    ck.extra["instances"] = len(insts)
    rec.run()

    # Gaussian leaves: each gradient tells the usage of its leaf, also far from the means
    import logc

    linsts = [i for i in logc.insts(ck, 30 if THOROUGH else 6, kinds=("mild",)) + logc.insts(ck, 0, kinds=("mild", "extreme"))
              if i.leaf == "norm" and i.mspread <= 6]
    lrec = logc.LogRec(ck, linsts)
    for inst in linsts:
        for pm in (0, 0.3):
            lrec.use(inst, lrec.rows(inst, 4, pmiss=pm), RNG.randrange(inst.cfg["num_classes"]))
    one = logc.LInst(circ.cfg(4, 1, 1, 1, 1, 1, 1, "linsum", "top-down"), "norm", 2, 0, 0, 3, "one path", RNG.randrange(10**6))
    one.off = 0
    logc.build(one)
    lrec.insts.append(one)
    lrec.idx[id(one)] = len(lrec.insts)
    for far in (150, 700, 3000):
        lrec.use(one, [[[far, -far, RNG.choice([far, logc.NOVAL]), 0]] for _ in range(3)], 0, f"usage {far} away")
    ck.extra["gaussian_instances"] = len(lrec.insts)
    lrec.run()


main("C23", run)
