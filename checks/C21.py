"""C21: the convolutional circuit is a consistent probabilistic model."""
import itertools
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def run(ck):
    import circ
    import conv
    import dist
    import drive
    import logc
    import specs

    torch = drive.torch
    insts = []
    for i, inst in enumerate(conv.grid()):
        got, err = guarded(conv.build, inst, 100 * i + RNG.randrange(100))
        if err and not err.startswith("BuildError"):
            ck.violation(f"build {inst.name}", {"config": str(inst.conv), "error": err})
        elif not err:
            insts.append(inst)
    if len(insts) < 15:
        raise RuntimeError("instances")
    specs.sampler(ck, [i for i in insts if i.F <= 8 or THOROUGH][:12], RNG, n_ev=1, timeout=900)
    rec = drive.Rec(ck, insts)
    N = 60000 if THOROUGH else 12000
    for inst in insts:
        st, order, channels, H, W, CH, kernel = inst.conv
        net = inst.model
        rec.wf(inst)
        # ---- likelihoods, all or many images, complete and partially observed
        if circ.n_inputs(inst, False) <= (2000 if THOROUGH else 81):
            rec.dens(inst, list(circ.all_inputs(inst, False)), "all images")
        xs = drive.sample_spec(inst, RNG, 40 if THOROUGH else 10) + [rec.any_(inst)]
        xs += drive.evidence_rows(inst, RNG, 80 if THOROUGH else 16)
        if inst.leaf in ("cat", "bern", "binom"):
            xs += [circ.rand_input(inst, RNG, RNG.choice([0, 0.3, 0.6])) for _ in range(60 if THOROUGH else 12)]
        rec.dens(inst, xs, "images with missing pixels")
        for x in xs[:2]:
            rec.dens(inst, [x], "one image")
        # memory layouts
        img = circ.encode(inst, xs).view(-1, CH, H, W)
        lay = img.permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2)
        rec.dens(inst, xs, "channels last", x_real=lay)
        big = torch.zeros(len(xs), CH, H, 2 * W)
        big[..., ::2] = img
        rec.dens(inst, xs, "strided", x_real=big[..., ::2])
        for n in range(3):
            pat = RNG.sample(range(inst.F), RNG.randrange(1, inst.F + 1))
            rows = [circ.rand_input(inst, RNG, 0) for _ in range(3)]
            want = [[[-1 if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
            rec.dens(inst, rows, "marginalized_scopes", spec_xs=want, marginalized_scopes=drive.shuffled(pat))
        if inst.leaf != "binom":       # its differentiable sampler is an approximation
            # ---- samples
            rec.sample(inst, 2 * N, cls=1, pairs=True)
            for k in (1, 5):
                s, err = guarded(lambda: net.sample(num_samples=k))
                rec.flags(inst, f"{k} samples", ok=not err and bool(s.isfinite().all()))
            ev = drive.evidence_rows(inst, RNG, 6 if THOROUGH else 3, cap=150)
            rec.conditional(inst, ev, N, "conditional samples")
            rec.conditional(inst, drive.evidence_rows(inst, RNG, 2, cap=150), N // 2, "conditional samples, channels last",
                            layout=None, call=lambda e, **a: net.sample(
                                evidence=e.view(-1, CH, H, W).permute(0, 2, 3, 1).contiguous().permute(0, 3, 1, 2), **a
                            ).reshape(e.shape))
            same = drive.evidence_rows(inst, RNG, 2, same=True, cap=150)
            rec.conditional(inst, same, N, "marginalized_scopes", via="list")
            rec.conditional(inst, same, N // 2, "NaN and marginalized_scopes", via="both")
        # ---- MPE
        rows = [rec.any_(inst)] + drive.evidence_rows(inst, RNG, 40 if THOROUGH else 12)
        if inst.leaf in ("cat", "bern", "binom"):
            rows += [circ.rand_input(inst, RNG, 0.4) for _ in range(8)]
        rows = [r for r in rows if rec.cells(inst, r)]
        x = circ.encode(inst, rows)
        g0 = torch.get_rng_state()
        s, err = guarded(lambda: net.mpe(evidence=x))
        g1 = torch.get_rng_state()
        if err:
            rec.ev(inst, "mpe", "mpe", err=err)
        else:
            rec.mpe(inst, circ.decode(inst, s), rows, "mpe")
            torch.manual_seed(RNG.randrange(10**6))
            s2, err2 = guarded(lambda: net.mpe(evidence=x))
            s3, err3 = guarded(lambda: net.mpe(evidence=x[:1]))
            seen = ~x.isnan()
            rec.flags(inst, "mpe is deterministic", same=not err2 and torch.equal(s, s2), rng=torch.equal(g0, g1),
                      row=not err3 and torch.allclose(s[:1], s3, atol=1e-4), kept=torch.equal(s[seen], x[seen]),
                      filled=not s.isnan().any())
        s, err = guarded(lambda: net.mpe(num_samples=3))
        if err:
            rec.ev(inst, "mpe", "mpe without evidence", err=err)
        else:
            rec.mpe(inst, circ.decode(inst, s), [rec.any_(inst)] * 3, "mpe without evidence")
        if inst.leaf not in ("cat", "bern", "binom") or all(
                row.count(max(row)) == 1 for ch in inst.m["leaf"] for f in ch for k in f for row in k):
            rec.sample(inst, N, cls=1, tag="mpe_at_leaves", emit="mode", mpe_at_leaves=True)
        # ---- seeds
        if inst.leaf != "binom":
            e = circ.encode(inst, drive.evidence_rows(inst, RNG, 20))
            torch.manual_seed(3)
            g0 = torch.get_rng_state()
            a, err = guarded(lambda: net.sample(evidence=e, seed=11))
            same = torch.equal(g0, torch.get_rng_state())
            torch.rand(5)
            b, err2 = guarded(lambda: net.sample(evidence=e, seed=11))
            rec.flags(inst, "seeds", ok=not err and not err2, same=not err and torch.equal(a, b), rng=same)
    ck.extra["instances"] = len(insts)
    rec.run()

    # ---------------- circuits of any size with arbitrary weights, in the logarithmic domain
    big = []
    for li in conv.log_insts(40 if THOROUGH else 4, seed0=21):
        got, err = guarded(conv.log_build, li)
        if err:
            ck.violation(f"build {li.name}", {"config": str(li.conv), "error": err})
        else:
            big.append(li)
    lrec = logc.LogRec(ck, big)
    n = 12 if THOROUGH else 4
    for li in big:
        lrec.ll(li, lrec.rows(li, n), "images")
        ev = lrec.rows(li, n, RNG.choice([0.2, 0.5, 0.9]))
        lrec.ll(li, ev, "missing pixels")
        pat = RNG.sample(range(li.F), RNG.randrange(1, li.F + 1))
        rows = lrec.rows(li, 2)
        want = [[[logc.NOVAL if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
        lrec.ll(li, want, "marginalized_scopes", x_real=lrec.encode(li, rows), marginalized_scopes=drive.shuffled(pat))
        s, err = guarded(lambda: li.model.mpe(evidence=lrec.encode(li, ev)))
        lrec.reach(li, ev, s, "mpe", err)
        s, err = guarded(lambda: li.model.sample(evidence=lrec.encode(li, ev)))
        lrec.reach(li, ev, s, "conditional samples in the support", err, slack=18000)
        s, err = guarded(lambda: li.model.sample(num_samples=n))
        lrec.reach(li, [[[logc.NOVAL] * li.F for _ in range(li.CH)]] * n, s, "samples in the support", err, slack=18000)
    ck.extra["large_instances"] = len(big)
    lrec.run()

    # ---------------- untouched models (their own random parameters): laws of densities
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.categorical import Categorical

    dr = dist.DistRec(ck)
    for st, order, (lt, kw, V), (channels, H, W, CH, k) in itertools.product(
            ("top-down", "bottom-up"), ("sum-prod", "prod-sum"), ((Bernoulli, {}, 2), (Categorical, {"num_bins": 3}, 3)),
            (([3], 2, 2, 1, 2), ([2, 4], 2, 4, 1, 2), ([2, 3], 4, 2, 1, 2), ([4, 2], 2, 2, 2, 2), ([3, 2], 3, 3, 1, 3))):
        if st == "top-down" and (H % 2 ** len(channels) or W % 2 ** len(channels)):
            channels = channels[:1]
        if st == "top-down" and (H % 2 or W % 2):
            continue
        if V ** (H * W * CH) > 10000:
            continue
        name = f"{st} {order} {channels} {H}x{W}x{CH} {lt.__name__}"
        torch.manual_seed(RNG.randrange(10**6))
        model, err = guarded(lambda: conv.make_conv(st, order, channels, H, W, CH, k, lt, kw))
        if err:
            ck.violation(f"build {name}", {"error": err})
            continue
        allx = torch.tensor(list(itertools.product(range(V), repeat=H * W * CH)), dtype=torch.float32).view(-1, CH, H, W)
        ll, err = guarded(lambda: model(allx))
        dr.normalised(name, ll.view(-1, 1) if not err else None, err)
        ll2, err2 = guarded(lambda: model.train()(allx))
        model.eval()
        dr.equal(name + " in training mode", ll, ll2, err or err2)
        for _ in range(3):
            if err:
                break
            hole = torch.rand(CH, H, W) < 0.5
            x = allx[RNG.randrange(len(allx))].clone()
            match = ((allx == x) | hole).flatten(1).all(1)
            y = x.clone()
            y[hole] = float("nan")
            p, err3 = guarded(lambda: model(y[None]).exp())
            if err3:
                dr.equal(name + " missing", None, None, err3)
                continue
            dr.marginal(name + " missing pixels", p, ll[match].exp())
            if not hole.any():
                continue
            M = 20000 if THOROUGH else 4000
            s, err3 = guarded(lambda: model.sample(evidence=y.expand(M, -1, -1, -1)))
            if err3:
                dr.freq(name + " conditional", [], None, err=err3)
                continue
            code = V ** torch.arange(H * W * CH - 1, -1, -1)
            idx = (s.detach().flatten(1).round().long() * code).sum(1)
            ok = (s.detach() - s.detach().round()).abs().flatten(1).amax(1) < 1e-3
            ok &= (idx >= 0) & (idx < len(allx))
            cnt = torch.bincount(idx[ok].clamp(0, len(allx) - 1), minlength=len(allx))
            out = int((~ok).sum()) + int(cnt[~match].sum())
            # many outcomes: group them by their rank
            c, w = cnt[match], ll[match].exp()
            if len(c) > 64:
                o = w.argsort()
                c = torch.stack([q.sum() for q in c[o].chunk(64)])
                w = torch.stack([q.sum() for q in w[o].chunk(64)])
            dr.freq(name + " conditional", c.tolist(), w, other=out)
    dr.run()


main("C21", run)
