"""C06: classes given by index or list, uniform prior, and posteriors by Bayes' rule."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def run(ck):
    import circ
    import drive

    torch = drive.torch
    G = [g for g in circ.grid() if g.cfg["num_classes"] > 1]
    rnd = [g for g in circ.rand_insts(500 if THOROUGH else 90) if g.cfg["num_classes"] > 1][: 150 if THOROUGH else 25]
    insts = circ.make(G + rnd, ck)
    rec = drive.Rec(ck, insts)
    N = 80000 if THOROUGH else 30000
    for inst in insts:
        C = inst.cfg["num_classes"]
        # posterior: complete, partially observed and empty rows
        rows = [circ.rand_input(inst, RNG, RNG.choice([0, 0.3, 0.7])) for _ in range(60 if THOROUGH else 20)]
        if inst.leaf in ("ind", "norm", "ratnorm"):   # rows of density zero have no posterior
            rows = drive.evidence_rows(inst, RNG, 20) + drive.sample_spec(inst, RNG, 10)
        rec.post(inst, rows + [rec.any_(inst)])
        rec.post(inst, rows[:1], "posterior of one row")
        # a list with one class per sample, classes interleaved
        lst = [RNG.randrange(C) for _ in range(N)]
        s, err = guarded(lambda: inst.model.sample(class_index=list(lst)))
        if not err and tuple(s.shape) != (N, inst.CH, inst.F):
            err = f"shape {tuple(s.shape)}"
        if err:
            rec.ev(inst, "hist", "list of classes", err=err, obs=[])
        else:
            y = circ.decode(inst, s)
            sel = torch.tensor(lst)
            for c in range(C):
                rec.hist(inst, y[sel == c], None, c + 1, f"list of classes, class {c}")
        # short lists: every class once (in some order), one class, the same class repeated
        forms = [RNG.sample(range(C), C), list(range(C))[::-1], [RNG.randrange(C)], [RNG.randrange(C)] * C,
                 [RNG.randrange(C) for _ in range(C)], [RNG.randrange(C) for _ in range(C + 1)], RNG.sample(range(C), C) * 2]
        got = {c: [] for c in range(C)}
        calls = 400 if THOROUGH else 80
        err = ""
        for lst, diff in [(list(q), d) for q in forms for d in ([False, True] if inst.leaf in ("norm", "ratnorm") else [False])]:
            for _ in range(calls // (1 + diff)):
                s, err = guarded(lambda: inst.model.sample(class_index=list(lst), is_differentiable=diff))
                if not err and tuple(s.shape) != (len(lst), inst.CH, inst.F):
                    err = f"shape {tuple(s.shape)} {lst}"
                if err:
                    rec.ev(inst, "hist", "short list of classes", err=err, obs=[])
                    break
                for c, row in zip(lst, s.detach()):
                    got[c].append(row)
            # most probable completion of a list of classes
            s, err2 = guarded(lambda: inst.model.sample(class_index=list(lst), is_mpe=True, is_differentiable=diff))
            if not err2 and tuple(s.shape) != (len(lst), inst.CH, inst.F):
                err2 = f"shape {tuple(s.shape)} {lst}"
            for j, c in enumerate(lst):
                if err2:
                    rec.ev(inst, "mpe", "mpe of a list of classes", err=err2)
                else:
                    rec.mpe(inst, circ.decode(inst, s)[j:j + 1], [rec.any_(inst)], "mpe of a list of classes", cls=c + 1)
        for c in range(C):
            if got[c]:
                rec.hist(inst, circ.decode(inst, torch.stack(got[c])), None, c + 1, f"short lists of classes, class {c}")
        # one class
        for c in range(C):
            rec.sample(inst, N // 3, cls=c + 1, real_cls=c, tag=f"class_index={c}")
        # no class: uniform
        rec.sample(inst, N, cls=0, tag="no class")
        # with evidence: posterior of the class
        xs = drive.evidence_rows(inst, RNG, 4, cap=100)
        rec.conditional(inst, xs, N // 4, "evidence, no class")
        # argument checks: class and evidence exclude each other
        _, err = guarded(lambda: inst.model.sample(evidence=circ.encode(inst, xs[:1]), class_index=0))
        rec.flags(inst, "class and evidence exclude each other", refused=bool(err))
    # after training, too: no class is the same as classes drawn evenly
    for inst in RNG.sample(insts, len(insts) if THOROUGH else 10):
        m, C = inst.model, inst.cfg["num_classes"]
        parts = [mod for mod in (m.layers, m.leaf, getattr(m, "mixing", None)) if mod is not None]
        keep = [[q.detach().clone() for q in mod.parameters()] for mod in parts]
        opt = torch.optim.SGD(m.parameters(), lr=20.0)
        x = circ.encode(inst, drive.sample_spec(inst, RNG, 20))
        w = torch.randn(inst.CH, inst.F)

        def step():
            opt.zero_grad()
            s = m.sample(num_samples=64, is_differentiable=True)
            (m(x).clamp(min=-50).mean() * 0.01 + (s / (1 + s.detach().abs().max()) * w).mean()).backward()
            opt.step()
            for mod, old in zip(parts, keep):           # the weights the specification knows
                for q, v in zip(mod.parameters(), old):
                    q.data.copy_(v)
        _, err = guarded(lambda: [step() for _ in range(12)])
        m.eval()
        if err:
            rec.ev(inst, "hist", "training", err=err, obs=[])
        rec.sample(inst, N, cls=0, tag="no class, after steps of gradient descent")
        rec.conditional(inst, drive.evidence_rows(inst, RNG, 2, cap=100), N // 4, "evidence, after steps of gradient descent")
    ck.extra["instances"] = len(insts)
    rec.run()
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 20, seed0=6)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        C = inst.cfg["num_classes"]
        if C == 1:
            continue
        lrec.post(inst, lrec.rows(inst, n, RNG.choice([0.0, 0.3, 0.7])))
        anyx = [[[logc.NOVAL] * inst.F for _ in range(inst.CH)]] * (2 * C)
        lst = [RNG.randrange(C) for _ in range(2 * C)]
        s, err = guarded(lambda: inst.model.sample(class_index=list(lst)))
        for j, c in enumerate(lst):
            lrec.reach(inst, anyx[:1], None if err else s[j:j + 1], "list of classes", err, slack=18000, cls=c + 1)
        ev = lrec.rows(inst, n, 0.5)
        s, err = guarded(lambda: inst.model.sample(evidence=lrec.encode(inst, ev)))
        lrec.reach(inst, ev, s, "evidence, no class", err, slack=18000)
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C06", run)
