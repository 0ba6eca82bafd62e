"""C30: layers stacked by hand form the circuit their composition denotes."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def run(ck):
    import circ
    import drive
    import logc
    import specs
    import stack

    torch = drive.torch
    insts = []
    for i, inst in enumerate(stack.grid(150 if THOROUGH else 30)):
        got, err = guarded(stack.build, inst, 100 * i + RNG.randrange(100))
        if err and not err.startswith("BuildError"):
            ck.violation(f"build {inst.name}", {"config": str(inst.cfg), "plan": stack.text(inst.plan), "error": err})
        elif not err:
            insts.append(inst)
    if len(insts) < 25 and not ck.violations:
        raise RuntimeError("instances")
    small = [i for i in insts if i.leaf != "path" and i.F * i.CH <= 5]
    specs.sampler(ck, small[: 30 if THOROUGH else 12], RNG, n_ev=1, timeout=900)
    rec = drive.Rec(ck, insts)
    N = 40000 if THOROUGH else 12000
    for inst in insts:
        rec.wf(inst)
        m, C = inst.model, inst.cfg["num_classes"]
        point = inst.leaf not in ("cat", "bern")
        # ---- likelihoods: complete, partially observed, marginalised by argument, single rows
        xs = drive.sample_spec(inst, RNG, 20 if THOROUGH else 8) + drive.evidence_rows(inst, RNG, 40 if THOROUGH else 10)
        xs += [rec.any_(inst)] + [circ.rand_input(inst, RNG, RNG.choice([0, 0.3, 0.6])) for _ in range(6)]
        if circ.n_inputs(inst, False) <= (1000 if THOROUGH else 81):
            xs += list(circ.all_inputs(inst, False))
        rec.dens(inst, xs, "forward")
        rec.dens(inst, xs[:1], "one row")
        pat = RNG.sample(range(inst.F), RNG.randrange(1, inst.F + 1))
        rows = drive.sample_spec(inst, RNG, 4)
        want = [[[-1 if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
        rec.dens(inst, rows, "marginalized_scopes", spec_xs=want, marginalized_scopes=drive.shuffled(pat))
        if C > 1:
            rec.post(inst, [x for x in drive.evidence_rows(inst, RNG, 6)] + [rec.any_(inst)])
        # ---- gradients
        grows = drive.sample_spec(inst, RNG, 1) + drive.evidence_rows(inst, RNG, 6 if THOROUGH else 2)
        for x in grows:
            c = RNG.randrange(C)
            if point and C > 1:        # a class under which x is possible
                ok, err = guarded(lambda: m(circ.encode(inst, [x]))[0].detach() > -60)
                c = RNG.choice([j for j in range(C) if err or ok[j]] or [0])
            obs, err = guarded(drive.gradient, inst, x, c)
            rec.ev(inst, "grad", "gradient", err=err, x=x, cls=c + 1, obs=obs if not err else {})
        # ---- samples
        if C == 1:
            rec.sample(inst, N, cls=1, pairs=True)
        else:
            rec.sample(inst, N, cls=0, tag="no class")
            for c in range(C):
                rec.sample(inst, N // 2, cls=c + 1, real_cls=c, tag=f"class {c}")
        ev = drive.evidence_rows(inst, RNG, 3, cap=150)
        rec.conditional(inst, ev, N // 2, "conditional samples")
        rec.conditional(inst, drive.evidence_rows(inst, RNG, 2, same=True, cap=150), N // 2, "marginalized_scopes", via="list")
        if point:
            rec.sample(inst, N // 2, cls=0 if C > 1 else 1, tag="mpe_at_leaves", emit="mode", mpe_at_leaves=True)
        # ---- most probable completions
        rows = [rec.any_(inst)] + drive.evidence_rows(inst, RNG, 20 if THOROUGH else 8)
        if not point:
            rows += [circ.rand_input(inst, RNG, 0.4) for _ in range(6)]
        x = circ.encode(inst, rows)
        modes = ["mpe"] + (["differentiable mpe"] if stack.differentiable(inst.plan) else [])
        for tag in modes:
            s, err = guarded(lambda: m.mpe(evidence=x, is_differentiable=tag != "mpe"))
            if err or s.shape != x.shape:
                rec.ev(inst, "mpe", tag, err=err or f"shape {tuple(s.shape)}")
            else:
                rec.mpe(inst, circ.decode(inst, s), rows, tag)
        for k in (1, 3):
            s, err = guarded(lambda: m.sample(num_samples=k))
            rec.flags(inst, f"{k} samples", ok=not err and tuple(s.shape) == (k, inst.CH, inst.F) and bool(s.isfinite().all()))
        # ---- differentiable samples
        if stack.differentiable(inst.plan):
            kw = {}
            if C > 1:
                kw["real_cls"] = c = RNG.randrange(C)
            rec.sample(inst, N // 2, cls=kw.get("real_cls", 0) + 1, tag="differentiable samples", is_differentiable=True, **kw)
            rec.conditional(inst, ev[:2], N // 2, "differentiable conditional samples", is_differentiable=True)
            if inst.leaf in ("norm", "ratnorm"):
                s, err = guarded(lambda: m.sample(num_samples=40, is_differentiable=True))
                if not err:
                    w = torch.rand(s.shape)
                    g, err = guarded(lambda: torch.autograd.grad((s * w).sum(), circ.base_leaf(m).means)[0])
                rec.flags(inst, "gradient of samples", ok=not err and torch.allclose(
                    g.sum((0, 3, 4)), w.sum(0), rtol=1e-3, atol=1e-3))
        # ---- seeds
        e = circ.encode(inst, drive.evidence_rows(inst, RNG, 10))
        g0 = torch.get_rng_state()
        a, err = guarded(lambda: m.sample(evidence=e, seed=7))
        same = torch.equal(g0, torch.get_rng_state())
        torch.rand(3)
        b, err2 = guarded(lambda: m.sample(evidence=e, seed=7))
        rec.flags(inst, "seeds", ok=not err and not err2, same=not err and not err2 and torch.equal(a, b), rng=same)
    # ---- a product as the root: sampling starts from its only output
    from simple_einet.layers.product import CrossProductLayer, ProductLayer
    from simple_einet.sampling_utils import SamplingContext

    host = insts[0]
    for F, mk in [(F, lambda F, R: ProductLayer(F, F, R)) for F in (2, 3, 5)] + [(2, lambda F, R: CrossProductLayer(F, 2, R))]:
        tag = f"{F} features"
        ctx, err = guarded(lambda: mk(F, 1).sample(SamplingContext(num_samples=4)))
        rec.flags(host, f"a product root, {tag}", ok=not err, shape=not err and tuple(ctx.indices_out.shape) == (4, F),
                  zero=not err and not ctx.indices_out.any(),
                  rep=not err and tuple(ctx.indices_repetition.shape) == (4,) and not ctx.indices_repetition.any())
        _, err = guarded(lambda: mk(F, 3).sample(SamplingContext(num_samples=4)))
        rec.flags(host, f"a product root of several repetitions, {tag}", refused=bool(err))
    ck.extra["instances"] = len(insts)
    rec.run()

    # ---------------- larger stacks with arbitrary weights, in the logarithmic domain
    big = []
    for li in stack.log_insts(40 if THOROUGH else 5, seed0=30):
        got, err = guarded(stack.log_build, li)
        if err:
            ck.violation(f"build {li.name}", {"config": str(li.cfg), "error": err})
        else:
            big.append(li)
    lrec = logc.LogRec(ck, big)
    n = 12 if THOROUGH else 4
    for li in big:
        C = li.cfg["num_classes"]
        lrec.ll(li, lrec.rows(li, n), "forward")
        ev = lrec.rows(li, n, RNG.choice([0.2, 0.5, 0.9]))
        lrec.ll(li, ev, "missing values")
        if C > 1:
            lrec.post(li, ev)
        pat = RNG.sample(range(li.F), RNG.randrange(1, li.F + 1))
        rows = lrec.rows(li, 2)
        want = [[[logc.NOVAL if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
        lrec.ll(li, want, "marginalized_scopes", x_real=lrec.encode(li, rows), marginalized_scopes=drive.shuffled(pat))
        s, err = guarded(lambda: li.model.mpe(evidence=lrec.encode(li, ev)))
        lrec.reach(li, ev, s, "mpe", err)
        s, err = guarded(lambda: li.model.sample(evidence=lrec.encode(li, ev)))
        lrec.reach(li, ev, s, "conditional samples in the support", err, slack=18000)
        s, err = guarded(lambda: li.model.sample(num_samples=n))
        lrec.reach(li, [[[logc.NOVAL] * li.F for _ in range(li.CH)]] * n, s, "samples in the support", err, slack=18000)
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C30", run)
