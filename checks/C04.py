"""C04: samples are distributed exactly as the density of the circuit."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def trained(ck, insts):
    """After steps of gradient descent: samples against the density the model itself reports."""
    import circ
    import dist

    torch = circ._t()
    rec = dist.DistRec(ck)
    N = 40000 if THOROUGH else 16000
    pool = [i for i in insts if i.leaf in ("cat", "ind", "bern", "binom", "multi") and circ.n_inputs(i, False) <= 300]
    for inst in RNG.sample(pool, min(len(pool), 30 if THOROUGH else 8)):
        m, C = inst.model, inst.cfg["num_classes"]
        xs = list(circ.all_inputs(inst, False))
        x = circ.encode(inst, xs)
        opt = torch.optim.SGD(m.parameters(), lr=1.0)

        def step():
            opt.zero_grad()
            s = m.sample(num_samples=20, is_differentiable=True)
            (m(x).mean() * 0.1 + (s * torch.randn_like(s)).mean()).backward()
            opt.step()
        _, err = guarded(lambda: [step() for _ in range(4)])
        ll, err2 = guarded(lambda: m(x))
        tag = f"after training [{inst.name}]"
        rec.normalised(tag, ll, err or err2)
        if err or err2:
            continue
        place = {tuple(circ.torch.tensor(v).flatten().tolist()): j for j, v in enumerate(xs)}
        for c in list(range(C)) + ([None] if C > 1 else []):
            s, err = guarded(lambda: m.sample(num_samples=N, **({"class_index": c} if C > 1 and c is not None else {})))
            cnt, other = [0] * len(xs), 0
            if not err:
                u, n = circ.decode(inst, s).flatten(1).unique(dim=0, return_counts=True)
                for row, k in zip(u.tolist(), n.tolist()):
                    j = place.get(tuple(row))
                    if j is None:
                        other += k
                    else:
                        cnt[j] = k
            w = ll[:, c if c is not None else 0] if C == 1 or c is not None else ll.double().exp().mean(1).log()
            rec.freq(f"samples of class {c} {tag}", cnt, w.double().exp(), other, err)
    rec.run()


def repeats(rec, insts):
    """Large requests and many small ones: rows are not drawn again and again."""
    import circ
    import drive

    torch = circ._t()
    N = 300000 if THOROUGH else 70000
    for inst in [i for i in insts if i.leaf in ("norm", "ratnorm")][: 8 if THOROUGH else 3]:
        kw = {"class_index": 0} if inst.cfg["num_classes"] > 1 else {}
        for diff in (False, True) if THOROUGH else (False,):
            s, err = guarded(lambda: inst.model.sample(num_samples=N, is_differentiable=diff, **kw))
            if err or tuple(s.shape) != (N, inst.CH, inst.F):
                rec.ev(inst, "flags", "a large request", err=err or f"shape {tuple(s.shape)}", obs={})
                continue
            y = s.detach().flatten(1).double()
            z = y - circ.STEP * (y / circ.STEP).round()
            q = torch.fft.rfft(z - z.mean(0), n=2 * N, dim=0)
            ac = torch.fft.irfft(q.abs() ** 2, n=2 * N, dim=0)[1:N] / ((z - z.mean(0)) ** 2).sum(0)
            rec.flags(inst, f"a large request, differentiable={diff}: rows repeat", lag=bool((ac.abs() < 0.1).all()),
                      distinct=len(s.detach().flatten(1).unique(dim=0)) > 0.99 * N)


def run(ck):
    import circ
    import drive
    import specs

    base = circ.make(circ.grid(), ck)
    specs.sampler(ck, [i for i in base if THOROUGH or i.name not in ("td-einsum-d3-r1", "bu-d2-r3-c2", "td-linsum2-d2-r1-c2")],
                  RNG, n_ev=3 if THOROUGH else 1, timeout=900)
    insts = base + circ.make(circ.rand_insts(150 if THOROUGH else 25), ck, seed0=2)
    rec = drive.Rec(ck, insts)
    N = 200000 if THOROUGH else 60000
    for inst in insts:
        C = inst.cfg["num_classes"]
        if C == 1:
            rec.sample(inst, N, cls=1, pairs=True)
        else:
            for c in range(C):
                rec.sample(inst, N // 2, cls=c + 1, real_cls=c, pairs=c == 0, tag=f"sample of class {c}")
        # the density the model reports is the one the samples are judged by
        xs = [circ.rand_input(inst, RNG, RNG.choice([0, 0, 0.3])) for _ in range(24)]
        rec.dens(inst, xs, "reported density")
        # shapes and defaults
        for n in (1, 2, 7):
            kw = {"class_index": 0} if C > 1 else {}
            s, err = guarded(lambda: inst.model.sample(num_samples=n, **kw))
            rec.flags(inst, f"shape of {n} samples", ok=not err and tuple(s.shape) == (n, inst.CH, inst.F)
                      and bool(drive.torch.isfinite(s).all()))
        s, err = guarded(lambda: inst.model.sample())
        rec.flags(inst, "one sample by default", ok=not err and tuple(s.shape) == (1, inst.CH, inst.F))
    for inst in RNG.sample(insts, 30 if THOROUGH else 10):
        C = inst.cfg["num_classes"]
        c = RNG.randrange(C)
        for n in (1, 2, 8):
            rec.small_calls(inst, 3000 if THOROUGH else 600, cls=c + 1, n=n, tag=f"calls of {n} samples",
                            **({"class_index": c} if C > 1 else {}))
    # every choice on the way (class, repetition, child) is made independently for every row
    paths = [circ.Inst(circ.cfg(2, 1, R=R, C=C, K=K, layer=layer, structure=st), "path", V=K * R, leafden=1, wden=max(3, K, R),
                       name=f"path-{st[:3]}-{layer}-R{R}-C{C}-K{K}")
             for R, C, K, layer, st in ((3, 1, 1, "linsum", "top-down"), (1, 1, 3, "linsum", "top-down"), (2, 1, 2, "einsum", "top-down"),
                                        (2, 2, 2, "linsum", "top-down"), (2, 1, 2, "linsum", "bottom-up"), (1, 1, 2, "linsum2", "top-down"))]
    paths.append(circ.Inst(circ.cfg(2, 0, R=2, C=2, K=2), "path", V=4, leafden=1, wden=4, name="path-depth0"))
    paths = circ.make(paths, ck, seed0=9)
    rec.insts += paths
    rec.models += [i.m for i in paths]
    rec.idx.update({id(inst): j + 1 for j, inst in enumerate(rec.insts)})
    for inst in paths:
        C = inst.cfg["num_classes"]
        c = RNG.randrange(C)
        for n in (64, 200):
            rec.dispersion(inst, 1500 if THOROUGH else 400, n, cls=c + 1, tag=f"even spread in calls of {n}",
                           **({"class_index": c} if C > 1 else {}))
        rec.small_calls(inst, 3000 if THOROUGH else 800, cls=c + 1, tag="calls of 2 samples", **({"class_index": c} if C > 1 else {}))
    repeats(rec, insts)
    ck.extra["instances"] = len(rec.insts)
    rec.run()
    trained(ck, insts)
    # circuits of any size with arbitrary weights, in the logarithmic domain
    import logc

    big = logc.insts(ck, 60 if THOROUGH else 4, seed0=4)
    lrec = logc.LogRec(ck, big)
    n = 24 if THOROUGH else 8
    for inst in big:
        C = inst.cfg["num_classes"]
        lrec.ll(inst, lrec.rows(inst, n, tails=False), "reported density")
        anyx = [[[logc.NOVAL] * inst.F for _ in range(inst.CH)]] * n
        for c in range(C):
            kw = dict(class_index=c) if C > 1 else {}
            s, err = guarded(lambda: inst.model.sample(num_samples=n, **kw))
            lrec.reach(inst, anyx, s, "samples in the support", err, slack=18000, cls=c + 1)
    ck.extra["large_instances"] = len(big)
    lrec.run()


main("C04", run)
