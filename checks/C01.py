"""C01: log-likelihoods of complete data equal the density of the specified circuit."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, main  # noqa: E402


def run(ck):
    import circ
    import drive

    insts = circ.make(circ.grid() + circ.rand_insts(300 if THOROUGH else 40), ck)
    cap = 1500 if THOROUGH else 160
    rec = drive.Rec(ck, insts)
    for inst in insts:
        rec.wf(inst)
        if circ.n_inputs(inst, False) <= cap:
            xs = list(circ.all_inputs(inst, False))
            RNG.shuffle(xs)
        else:
            xs = drive.sample_spec(inst, RNG, cap // 2) + [circ.rand_input(inst, RNG, 0) for _ in range(cap // 2)]
        n = len(xs)
        x = circ.encode(inst, xs)
        cut = n // 2
        rec.dens(inst, xs[:cut], "forward")
        if inst.CH == 1:
            rec.dens(inst, xs[cut:-1], "forward [N,D]", x_real=x[cut:-1, 0])
        else:
            h = 2 if inst.F % 2 == 0 else 1
            rec.dens(inst, xs[cut:-1], "forward [N,C,H,W]", x_real=x[cut:-1].view(n - 1 - cut, inst.CH, h, inst.F // h))
        inst.model.train()                       # training mode without dropout is the same circuit
        rec.dens(inst, xs[-1:], "forward of one row in training mode")
        inst.model.eval()
    ck.extra["instances"] = len(insts)
    rec.run()
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 6, seed0=1)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        lrec.ll(inst, lrec.rows(inst, n))
        inst.model.train()
        lrec.ll(inst, lrec.rows(inst, 1), "forward in training mode")
        inst.model.eval()
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C01", run)
