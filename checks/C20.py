"""C20: a mixture routes each row to the right component and keeps row order."""
import copy
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, MachineryError, guarded, main, run_tlc  # noqa: E402


def run(ck):
    import circ
    import drive
    from circ import Inst, cfg

    torch = drive.torch
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.mixture import Mixture

    class MixRec(drive.Rec):
        via, mix, comp = "route", 0, 0

        def ev(self, inst, k, tag, err="", **kw):
            super().ev(inst, k, tag, err, **kw)
            self.events[-1].update(via=self.via, mix=self.mix, comp=self.comp)

    G = [
        (cfg(4, 1, R=1, K=2), "cat", 2, 3), (cfg(4, 2, R=2, C=2, K=2), "ind", 2, 2), (cfg(3, 1, R=2, CH=2), "bern", 2, 3),
        (cfg(4, 1, R=1, C=3, K=2, layer="einsum"), "cat", 2, 2), (cfg(4, 1, R=2, structure="bottom-up"), "cat", 3, 4),
        (cfg(5, 2, R=1, K=3), "norm", 3, 3), (cfg(3, 0, R=1, K=3), "cat", 3, 1), (cfg(4, 1, R=1, K=2, layer="linsum2"), "binom", 3, 5),
    ]
    comps, mixes, proxies = [], [], []
    for j, (c, leaf, V, n) in enumerate(G * (3 if THOROUGH else 1)):
        name = f"mixture{j}-{c['structure'][:3]}-{c['layer_type']}-{leaf}-n{n}"
        ld = 1 if leaf in ("ind", "norm") else 4 if leaf == "binom" else 5 if leaf == "cat" else 3
        square = j % 8 == 0
        cs = [Inst(dict(c), leaf, V=V, leafden=ld, wden=3, square=square, name=f"{name}/{k}") for k in range(n)]
        if square:
            for i in cs:
                i.leafden = 5
        cs = circ.make(cs, ck, seed0=10 + j)
        if len(cs) < n:
            continue
        torch.manual_seed(j)
        lt, kw = circ.leaf_setup(cs[0])
        mx, err = guarded(lambda: Mixture(n, EinetConfig(leaf_type=lt, leaf_kwargs=kw, **c)))
        if err:
            ck.violation("build " + name, {"error": err})
            continue
        for k in range(n):
            mx.models[k] = cs[k].model
        mx.eval()
        unit = circ.STEP if leaf == "norm" else 1.0
        D = cs[0].F * cs[0].CH
        q = 4
        cen = [[RNG.randrange(0, q * (V - 1) + 1) for _ in range(D)] for _ in range(n)]
        if n > 1:
            cen[1] = [q * (v // q) for v in cen[1]]        # one centroid is an input
        w = [RNG.randrange(1, 5) for _ in range(n)]
        if n > 2:
            w[RNG.randrange(n)] = 0                       # a cluster that got no data
        mx.centroids.data = torch.tensor(cen).float() * unit / q
        mx.mixture_weights.data = torch.tensor(w).float() / sum(w)
        first = len(comps) + 1
        comps += cs
        p = copy.copy(cs[0])
        p.model, p.name = mx, name
        p.comps, p.w = cs, w
        mixes.append(dict(comps=list(range(first, first + n)), cen=cen, w=w, wden=sum(w), q=q))
        proxies.append(p)

    rec = MixRec(ck, proxies)
    rec.models = [i.m for i in comps]
    rec.idx = {id(p): 1 for p in proxies}

    def route(p, mxr, x):
        d = [sum((mxr["q"] * x[c][f] - mxr["cen"][k][c * p.F + f]) ** 2 for c in range(p.CH) for f in range(p.F)
                 if x[c][f] != -1) for k in range(len(mxr["cen"]))]
        return [k for k in range(len(d)) if d[k] == min(d)]

    N = 60000 if THOROUGH else 16000
    for no, p in enumerate(proxies):
        mxr, mx, n = mixes[no], p.model, len(p.comps)
        C, F, CH = p.cfg["num_classes"], p.F, p.CH
        rec.mix, rec.via, rec.comp = no + 1, "route", 1

        def supported(x):     # rows that their component can explain
            k = route(p, mxr, x)
            if len(k) != 1:
                return False
            v = p.comps[k[0]].model(circ.encode(p, [x]))
            return bool(v.max() > -60)

        cand = [circ.rand_input(p, RNG, pm) for pm in (0.0, 0.2, 0.5, 0.8) for _ in range(60 if THOROUGH else 25)]
        # likelihoods, interleaved components
        rec.dens(p, cand, "forward")
        rec.dens(p, cand[:1], "forward of one row")
        rec.dens(p, list(reversed(cand)), "forward in another order")
        if CH == 1:
            rec.dens(p, cand, "forward [N,D]", x_real=circ.encode(p, cand)[:, 0])
        for _ in range(3):
            pat = RNG.sample(range(F), RNG.randrange(1, F))
            rows = [circ.rand_input(p, RNG, 0.1) for _ in range(20)]
            want = [[[-1 if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
            rec.dens(p, rows, "forward, marginalized scopes", spec_xs=want, marginalized_scope=list(pat))
        # completions
        ev = [x for x in cand if supported(x)]
        ev = [x for x in ev if 0 < len(p.comps[0].m["leaf"]) and any(-1 in ch for ch in x)]
        ev = [x for x in ev if p.V ** len(rec.cells(p, x)) <= 100][:6]
        if ev:
            rec.conditional(p, ev, N // 4, "conditional")
            if CH == 1:
                rec.conditional(p, ev[:2], N // 4, "conditional [N,D]", layout="2d")
        rows = [x for x in cand if supported(x)]
        x = circ.encode(p, rows)
        x0 = x.clone()
        s, err = guarded(lambda: mx.mpe(evidence=x))
        if err or s.shape != x.shape:
            rec.ev(p, "mpe", "mpe", err=err or f"shape {tuple(s.shape)}")
        else:
            rec.mpe(p, circ.decode(p, s), rows, "mpe")
        perm = torch.randperm(len(rows))
        s2, err2 = guarded(lambda: mx.mpe(evidence=x[perm]))
        rec.flags(p, "mpe keeps row order", same=not (err or err2) and torch.equal(s[perm], s2),
                  input_untouched=torch.equal(x0.nan_to_num(-7), x.nan_to_num(-7)))
        # marginalized scopes with evidence
        pat = RNG.sample(range(F), RNG.randrange(1, F))
        rows2 = [[[-1 if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in cand]
        rows2 = [r for r in rows2 if supported(r)]
        if rows2:
            x2 = circ.encode(p, rows2)
            x2[:, :, pat] = circ.encode(p, [circ.rand_input(p, RNG, 0)])[:, :, pat]
            s, err = guarded(lambda: mx.mpe(evidence=x2, marginalized_scopes=drive.shuffled(pat)))
            if err or s.shape != x2.shape:
                rec.ev(p, "mpe", "mpe with marginalized_scopes", err=err or f"shape {tuple(s.shape)}")
            else:
                rec.mpe(p, circ.decode(p, s), rows2, "mpe with marginalized_scopes")
            r2 = [r for r in rows2 if p.V ** len(rec.cells(p, r)) <= 60][:3]
            if r2:
                xr = circ.encode(p, r2).repeat(N // 4, 1, 1)
                xr[:, :, pat] = circ.encode(p, [circ.rand_input(p, RNG, 0)])[:, :, pat]
                s, err = guarded(lambda: mx.sample(evidence=xr, marginalized_scopes=drive.shuffled(pat)))
                if err or s.shape != xr.shape:
                    rec.ev(p, "hist", "conditional, marginalized_scopes", err=err or f"shape {tuple(s.shape)}", obs=[], x=r2[0])
                else:
                    y = circ.decode(p, s).view(N // 4, len(r2), CH, F)
                    for a, r in enumerate(r2):
                        rec.hist(p, y[:, a], r, 0, "conditional, marginalized_scopes")
        # all other arguments reach the components: the same distribution as a component's own call
        one = [x_ for x_ in cand if any(-1 in ch for ch in x_)]
        for x_ in RNG.sample(one, min(len(one), 2)):
            k = route(p, mxr, x_)
            if len(k) != 1:
                continue
            e_ = circ.encode(p, [x_]).repeat(N // 4, 1, 1)
            for kw in (dict(temperature_sums=0.25), dict(temperature_leaves=0.25), dict(temperature_sums=4.0, temperature_leaves=0.1),
                       dict(temperature_sums=0.1, temperature_leaves=5.0), dict(mpe_at_leaves=True)):
                a, e1 = guarded(lambda: mx.sample(evidence=e_.clone(), **kw))
                b, e2 = guarded(lambda: p.comps[k[0]].model.sample(evidence=e_.clone(), **kw))
                if not (e1 or e2):
                    w_ = torch.tensor([10 ** (j % 9) for j in range(F * CH)])
                    a, b = (circ.decode(p, v).flatten(1) @ w_ for v in (a, b))
                rec.twin(p, f"evidence and {kw}", a, b, e1 or e2)
        # draws without evidence
        rec.via = "draw"
        if C == 1:
            rec.sample(p, N, cls=1, tag="sample")
        else:
            for c in range(C):
                rec.sample(p, N // 2, cls=c + 1, real_cls=c, tag=f"sample of class {c}")
            rec.sample(p, N, cls=0, tag="sample, no class")
            lst = [RNG.randrange(C) for _ in range(N)]
            s, err = guarded(lambda: mx.sample(class_index=list(lst)))
            if err or tuple(s.shape) != (N, CH, F):
                rec.ev(p, "hist", "list of classes", err=err or f"shape {tuple(s.shape)}", obs=[])
            else:
                for c in range(C):
                    rec.hist(p, circ.decode(p, s)[torch.tensor(lst) == c], None, c + 1, "list of classes")
        if p.comps[0].square and C == 1:
            rec.sample(p, N, cls=1, tag="temperature_sums=2", ts="2", temperature_sums=2.0)
            rec.sample(p, N, cls=1, tag="temperature_leaves=2", tl="2", temperature_leaves=2.0)
        # evenly per cluster
        rec.via = "even"
        m = N // 4
        kw = {"class_index": C - 1} if C > 1 else {}
        s, err = guarded(lambda: mx.sample(num_samples_per_cluster=m, **kw))
        if err or tuple(s.shape) != (m * n, CH, F):
            rec.ev(p, "hist", "samples per cluster", err=err or f"shape {tuple(s.shape)}", obs=[])
        else:
            for k in range(n):
                rec.comp = k + 1
                rec.hist(p, circ.decode(p, s[k * m:(k + 1) * m]), None, C if C > 1 else 1, f"samples of cluster {k}")
        rec.via, rec.comp = "top", 1
        s, err = guarded(lambda: mx.mpe())
        if err or tuple(s.shape) != (1, CH, F):
            rec.ev(p, "mpe", "mpe without evidence", err=err or f"shape {tuple(s.shape)}")
        else:
            rec.mpe(p, circ.decode(p, s), [rec.any_(p)], "mpe without evidence")
        # counts and seeds
        for c in (1, 2, 7):
            s, err = guarded(lambda: mx.sample(num_samples=c, **kw))
            rec.flags(p, f"{c} samples", shape=not err and tuple(s.shape) == (c, CH, F))
        s, err = guarded(lambda: mx.sample(**kw))
        rec.flags(p, "one sample by default", shape=not err and tuple(s.shape) == (1, CH, F))
        a, e1 = guarded(lambda: mx.sample(num_samples=40, seed=5, **kw))
        torch.rand(3)
        b, e2 = guarded(lambda: mx.sample(num_samples=40, seed=5, **kw))
        c, e3 = guarded(lambda: mx.sample(num_samples=400, seed=6, **kw))
        d, e4 = guarded(lambda: mx.sample(num_samples=400, seed=5, **kw))
        rec.flags(p, "seed", same=not (e1 or e2) and torch.equal(a, b), different=not (e3 or e4) and not torch.equal(c, d))
        ev = x[:30]
        a, e1 = guarded(lambda: mx.sample(evidence=ev, seed=5))
        b, e2 = guarded(lambda: mx.sample(evidence=ev, seed=5))
        obs = ~ev.isnan()
        rec.flags(p, "seed with evidence", same=not (e1 or e2) and torch.equal(a, b),
                  kept=not e1 and torch.equal(a[obs], ev[obs]))
        if leaf_modes(p):
            rec.via = "route"
            s, err = guarded(lambda: mx.sample(evidence=x, mpe_at_leaves=True))
            for q, o in zip(rows, circ.decode(p, s).tolist() if not err else [[]]):
                rec.ev(p, "modes", "mpe_at_leaves", err=err, x=q, obs=o)

    # initialisation: weights are cluster frequencies, centroids belong to the data
    from fast_pytorch_kmeans import KMeans

    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.normal import Normal

    rec.mix = 0
    for lt, kw, scale in ((Normal, {}, 1.0), (Binomial, {"total_count": 3}, 3.0)):
        for n in (1, 3):
            mx = Mixture(n, EinetConfig(num_features=4, num_channels=2, depth=1, leaf_type=lt, leaf_kwargs=kw, num_leaves=2,
                                        num_sums=2, num_repetitions=1))
            N = 90 if (n == 3) == (lt is Normal) else RNG.choice([700, 7000, 20000])
            data = torch.rand(N, 2, 4) + torch.randint(0, 3, (N, 1, 1))
            d0 = data.clone()
            way = RNG.random() < 0.5 and N == 90
            if way:
                _, err = guarded(lambda: mx.initialize(data=data))
            else:
                dl = torch.utils.data.DataLoader(torch.utils.data.TensorDataset(data, torch.zeros(N)), batch_size=32)
                _, err = guarded(lambda: mx.initialize(dataloader=dl))
            log = getattr(KMeans, "log", None)
            ok = not err
            obs = dict(ok=ok, input_untouched=torch.equal(data, d0))
            if ok:
                obs["weights_sum_to_one"] = abs(float(mx.mixture_weights.sum()) - 1) < 1e-5
                obs["centroids"] = tuple(mx.centroids.shape) == (n, 8)
                if log:
                    X, a = log[-1]
                    obs["all_data"] = torch.equal(X, data.reshape(N, -1))
                    obs["weights"] = torch.allclose(mx.mixture_weights, torch.bincount(a, minlength=n) / N, atol=1e-6)
                    means = getattr(getattr(mx, "_kmeans", None), "centroids", None)
                    obs["scaled"] = means is None or torch.allclose(mx.centroids, means * scale)
            if proxies:
                rec.flags(proxies[0], f"initialisation {lt.__name__} n={n}", **obs)
    # a mixture of convolutional circuits routes in the same way
    from simple_einet.conv_pc import ConvPcConfig
    from simple_einet.data import Shape

    for st in ("top-down", "bottom-up"):
        def conv():
            m = Mixture(3, ConvPcConfig(channels=[3], num_channels=1, num_classes=1, leaf_type=Normal, leaf_kwargs={},
                                        structure=st, order="sum-prod", kernel_size=2), data_shape=Shape(1, 4, 4))
            m.centroids.data = torch.randn(3, 16)
            m.mixture_weights.data = torch.tensor([0.2, 0.5, 0.3])
            return m.eval()
        mx, err = guarded(conv)
        if err:
            ck.violation("build mixture of ConvPc", {"error": err})
            continue
        x = torch.randn(12, 1, 4, 4)
        x[4:8, :, 1:3] = float("nan")
        near = torch.nansum((x.reshape(12, 1, 16) - mx.centroids) ** 2, -1).argmin(-1).tolist()
        ll, err = guarded(lambda: mx(x))
        each = [guarded(lambda: mx.models[k](x[i:i + 1]))[0] for i, k in enumerate(near)]
        ok = not err and all(e is not None for e in each)
        mp, err2 = guarded(lambda: mx.mpe(evidence=x))
        eachm = [guarded(lambda: mx.models[k].sample(evidence=x[i:i + 1], is_mpe=True))[0] for i, k in enumerate(near)]
        ok2 = not err2 and all(e is not None for e in eachm)
        rec.flags(proxies[0], f"mixture of ConvPc {st}", forward=ok and torch.allclose(ll, torch.cat(each), atol=1e-4),
                  mpe=ok2 and torch.allclose(mp, torch.cat(eachm), atol=1e-5))

    ck.extra["mixtures"] = len(proxies)
    r = run_tlc("MixtureTrace", "SPECIFICATION MSpec\nINVARIANT Conforms\nINVARIANT RouteLaw\n",
                dict(models=rec.models, mixtures=mixes, events=rec.events), extra=["-continue"], timeout=800)
    if r.violated == "RouteLaw":
        raise MachineryError("RouteLaw")
    ck.traces += len(rec.events)
    ck.judge(rec.events, r, lambda e: e["tag"], "MixtureTrace")


def leaf_modes(p):
    return p.leaf in ("cat", "bern", "binom")


main("C20", run)
