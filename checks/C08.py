"""C08: differentiable sampling draws the same distribution, along one path, with gradients."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def gradients(rec, inst, s, x, tag):
    """Gradient flags of a differentiable result s for evidence x (None: no evidence)."""
    import circ
    import drive

    torch = drive.torch
    m = inst.model
    if not s.requires_grad:
        return rec.flags(inst, tag, requires_grad=False)
    bl = circ.base_leaf(m)
    leafp = [bl.means, bl.logvar if inst.leaf == "norm" else bl.stds]
    sums = [l.logits for l in m.layers if getattr(l, "logits", None) is not None]
    if inst.cfg["num_repetitions"] > 1:
        sums.append(m.mixing.logits)
    w = torch.rand(s.shape)
    grads, err = guarded(lambda: torch.autograd.grad((s * w).sum(), leafp + sums, allow_unused=True, retain_graph=True))
    if err:
        return rec.ev(inst, "flags", tag, err=err, obs={})
    finite = all(g is None or bool(g.isfinite().all()) for g in grads)
    gm, gs = grads[0], grads[1]
    # the selected leaf has derivative one with respect to its mean, all others zero
    filled = torch.ones_like(s) if x is None else x.reshape(s.shape).isnan().float()
    want = (filled * w).reshape(-1, inst.CH, inst.F).sum(0)
    got = gm.sum((0, 3, 4)) if gm is not None else torch.zeros_like(want)
    one_path = bool(((got - want).abs() <= 1e-3 * (1 + want.abs())).all())
    obs = dict(finite=finite, requires_grad=True, one_path=one_path)
    if "mpe" not in tag and bool(filled.sum() > 0):
        # the scale moves a sample in proportion to its distance from the mean
        obs["scale_gradient"] = gs is not None and bool((gs.abs() > 0).any())
        if inst.leaf == "norm" and x is None:      # (evidence reaches the scale through the weights as well)
            z = (s.detach() - circ.STEP * (s.detach() / circ.STEP).round()).reshape(-1, inst.CH, inst.F)
            want = (filled.reshape(z.shape) * w.reshape(z.shape) * z * 0.5).sum(0)
            got = gs.sum((0, 3, 4)) if gs is not None else torch.zeros_like(want)
            obs["scale_path"] = bool(((got - want).abs() <= 1e-2 * (1 + want.abs())).all())
    # sums on the way: a layer with several children whose choice changes the result
    if inst.cfg["num_leaves"] > 1 and bool(filled.sum() > 0):
        low = next((j for j, l in enumerate(inst.m["layers"]) if l["t"] != "prod"), None)
        if low is not None and inst.m["layers"][low]["si"] > 1:
            g = grads[2 + low]
            obs["sum_weights"] = g is not None and bool((g.abs() > 0).any())
        if inst.cfg["num_repetitions"] > 1:
            g = grads[-1]
            obs["mixing_weights"] = g is not None and bool((g.abs() > 0).any())
            if inst.same_r and x is None and inst.cfg["num_repetitions"] > 4 and inst.cfg["structure"] == "top-down" and inst.m["layers"][0]["t"] == "linsum" and inst.cfg["depth"] == 1:
                # the leaves say nothing about the repetition, only the weights of the sums do
                obs["mixing_weights"] = g is not None and bool((g.abs() > 0.1 * circ.STEP).any())
        for j, g in enumerate(grads[2:2 + len(m.layers)]):
            if g is not None and g.numel() > 1:
                obs[f"layer{j}"] = bool(g.isfinite().all())
    rec.flags(inst, tag, **obs)


def run(ck):
    import circ
    import drive

    torch = drive.torch
    insts = circ.make(circ.grid() + circ.rand_insts(120 if THOROUGH else 25), ck)
    # repetitions that differ in the weights of their sums only
    alike = [circ.Inst(circ.cfg(F, d, R=R, C=C, K=2, S=2, layer=layer, structure=st), leaf, V=2, leafden=1, wden=3, same_r=True,
                       name=f"alike-{st[:3]}-{layer}-d{d}-R{R}-C{C}-{leaf}")
             for F, d, R, C, layer, st, leaf in (
                 (2, 1, 7, 1, "linsum", "top-down", "norm"), (4, 1, 5, 2, "linsum", "top-down", "norm"),
                 (4, 2, 8, 1, "linsum", "top-down", "ratnorm"), (2, 1, 12, 1, "linsum2", "top-down", "norm"),
                 (3, 1, 5, 2, "einsum", "top-down", "norm"), (2, 1, 9, 1, "linsum", "bottom-up", "norm"),
                 (4, 1, 6, 1, "linsum2", "top-down", "ratnorm"), (3, 1, 3, 1, "linsum", "bottom-up", "norm"))]
    insts += circ.make(alike, ck, seed0=5)
    rec = drive.Rec(ck, insts)
    N = 60000 if THOROUGH else 16000
    for inst in insts:
        C = inst.cfg["num_classes"]
        exact = inst.leaf not in ("binom", "multi")      # binomial leaves approximate
        xs = drive.evidence_rows(inst, RNG, 3, cap=100)
        if exact:
            if C == 1:
                rec.sample(inst, N, cls=1, tag="differentiable sample", is_differentiable=True, pairs=True)
            else:
                for c in range(C):
                    rec.sample(inst, N // 2, cls=c + 1, real_cls=c, tag=f"differentiable sample of class {c}",
                               is_differentiable=True)
                rec.sample(inst, N // 2, cls=0, tag="differentiable sample, no class", is_differentiable=True)
                lst = [RNG.randrange(C) for _ in range(N)]
                s, err = guarded(lambda: inst.model.sample(class_index=list(lst), is_differentiable=True))
                if err or tuple(s.shape) != (N, inst.CH, inst.F):
                    rec.ev(inst, "hist", "differentiable, list of classes", err=err or f"shape {tuple(s.shape)}", obs=[])
                else:
                    sel = torch.tensor(lst)
                    for c in range(C):
                        rec.hist(inst, circ.decode(inst, s)[sel == c], None, c + 1, "differentiable, list of classes")
            rec.conditional(inst, xs, N // 4, "differentiable conditional", is_differentiable=True)
            rows = drive.evidence_rows(inst, RNG, 2, cap=60, same=True)
            rec.conditional(inst, rows, N // 4, "differentiable, marginalized_scopes", via="list", is_differentiable=True)
        else:
            x = circ.encode(inst, xs)
            s, err = guarded(lambda: inst.model.sample(evidence=x, is_differentiable=True))
            ok = not err and s.shape == x.shape
            rec.flags(inst, "differentiable conditional", shape=ok, kept=ok and torch.equal(s[~x.isnan()], x[~x.isnan()]),
                      support=ok and bool(((s >= -1e-4) & (s <= inst.V - 1 + 1e-4)).all()))
        # MPE: the same result as without
        rows = [rec.any_(inst)] + drive.evidence_rows(inst, RNG, 12)
        x = circ.encode(inst, rows)
        s, err = guarded(lambda: inst.model.mpe(evidence=x, is_differentiable=True))
        if err or s.shape != x.shape:
            rec.ev(inst, "mpe", "differentiable mpe", err=err or f"shape {tuple(s.shape)}")
        else:
            rec.mpe(inst, circ.decode(inst, s), rows, "differentiable mpe")
            if inst.leaf in ("norm", "ratnorm"):
                gradients(rec, inst, s, x, "gradients of mpe")
        if inst.leaf in ("norm", "ratnorm"):
            kw = dict(class_index=0) if C > 1 else {}
            s, err = guarded(lambda: inst.model.sample(num_samples=60, is_differentiable=True, **kw))
            if err:
                rec.ev(inst, "flags", "gradients of samples", err=err, obs={})
            else:
                gradients(rec, inst, s, None, "gradients of samples")
            xx = x.repeat(6, 1, 1)
            s, err = guarded(lambda: inst.model.sample(evidence=xx, is_differentiable=True))
            if err:
                rec.ev(inst, "flags", "gradients of conditional samples", err=err, obs={})
            else:
                gradients(rec, inst, s, xx, "gradients of conditional samples")
        # a plain call carries no graph
        s, err = guarded(lambda: inst.model.sample(evidence=x))
        rec.flags(inst, "plain samples carry no graph", ok=not err and not s.requires_grad)
    ck.extra["instances"] = len(insts)
    rec.run()
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 4, seed0=8)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        ev = lrec.rows(inst, n, RNG.choice([0.2, 0.5, 0.8]))
        s, err = guarded(lambda: inst.model.sample(evidence=lrec.encode(inst, ev), is_differentiable=True))
        lrec.reach(inst, ev, s, "differentiable conditional samples in the support", err, slack=18000)
        s, err = guarded(lambda: inst.model.mpe(evidence=lrec.encode(inst, ev), is_differentiable=True))
        lrec.reach(inst, ev, s, "differentiable mpe", err)
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C08", run)
