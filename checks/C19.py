"""C19: piecewise-linear leaves reproduce the histograms of their clusters."""
import math
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main, run_tlc  # noqa: E402

GRID = 0.25


def bins_auto(vals):
    """Number of bins of numpy's "auto" rule, or None if rounding could decide it."""
    import numpy as np

    a = np.asarray(vals, dtype=float)
    n, ptp = len(a), float(a.max() - a.min())
    if ptp == 0:
        return 1
    w = ptp / (math.log2(n) + 1)
    fd = 2.0 * float(np.subtract(*np.percentile(a, [75, 25]))) * n ** (-1.0 / 3.0)
    if fd:
        w = min(w, fd)
    k = ptp / w
    if abs(k - round(k)) < 1e-3 and k != round(k) or abs(k - round(k)) < 1e-9 and n > 2:
        return None
    nb = int(math.ceil(k - 1e-9))
    assert nb == len(np.histogram_bin_edges(a, bins="auto")) - 1 or abs(k - round(k)) < 1e-3
    return nb


def run(ck):
    import drive

    torch = drive.torch
    import fast_pytorch_kmeans
    import numpy as np
    from simple_einet.dist import Domain
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear

    log = fast_pytorch_kmeans.KMeans.log
    events = []

    def ev(k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        events.append(kw)
        ck.sample({a: b for a, b in kw.items() if a not in ("data",)})

    N = 40000

    def judge_leaf(tag, logp, data, dom, alpha, sample=None, mode=None):
        """One leaf and feature; logp: callable on a vector of values -> log densities"""
        if dom["kind"] == "disc":
            vals = dom["values"]
            den = (len(data) + alpha * len(vals)) if data else len(vals)
            sc = 2**22 // den
            lp, err = guarded(logp, torch.tensor([float(v) for v in vals]))
            obs = [] if err else (lp.double().exp() * den * sc).round().long().tolist()
            ev("disc", tag, err, data=data, dom=vals, alpha=alpha, den=den, sc=sc, obs=obs)
            if sample is not None:
                s, err = guarded(sample)
                cnt = [] if err else [int((s == v).sum()) for v in vals]
                ev("discfreq", tag, err, data=data, dom=vals, alpha=alpha, N=0 if err else s.numel(), obs=cnt,
                   other=0 if err else s.numel() - sum(cnt))
            if mode is not None:
                m, err = guarded(mode)
                ev("discmode", tag, err, data=data, dom=vals, alpha=alpha, obs=0 if err else int(m))
        else:
            nb = bins_auto([v * GRID for v in data])
            span = max(data) - min(data)
            if nb is None or any(span and ((v - min(data)) * nb) % span == 0 and 0 < v - min(data) < span for v in data):
                return False    # bins whose edges are hit by data would test rounding
            lo = min(data) * GRID - (0.5 if span == 0 else 0.0)
            w = (span * GRID if span else 1.0) / nb
            pos = torch.tensor([lo + q * w / 4 for q in range(4 * nb + 1)], dtype=torch.float64)
            lp, err = guarded(logp, pos.float())
            obs = [] if err else (lp.double().exp() * w * 2**20).round().long().tolist()
            ev("cont", tag, err, data=data, nb=nb, obs=obs)
            lp, err = guarded(logp, torch.tensor([lo - 0.3 * w, lo - 50.0, lo + nb * w + 0.3 * w, lo + 1e4]))
            ev("flags", tag + " outside", err, obs=dict(zero=not err and bool((lp < -100).all()) and not bool(lp.isnan().any())))
            if sample is not None:
                s, err = guarded(sample)
                eps = 1e-5 * (1 + abs(lo) + w * nb)
                cnt, other = [], 0
                if not err:
                    s = s.double()
                    other = int(((s < lo - eps) | (s > lo + nb * w + eps) | s.isnan()).sum())
                    b = torch.bucketize(s, pos[1:-1])
                    cnt = torch.bincount(b, minlength=4 * nb).tolist()
                ev("contfreq", tag, err, data=data, nb=nb, N=N, obs=cnt, other=other)
            if mode is not None:
                m, err = guarded(mode)
                q = 0 if err else (float(m) - lo) / (w / 4)
                ev("contmode", tag, err, data=data, nb=nb, obs=int(round(q)) if abs(q - round(q)) < 1e-2 else -1)
        return True

    def make_data(n, F, CH, doms):
        x = torch.zeros(n, CH, F, dtype=torch.long)
        for f, d in enumerate(doms):
            for c in range(CH):
                if d["kind"] == "disc":
                    w = [RNG.choice([0, 1, 2, 5]) for _ in d["values"]]
                    w[RNG.randrange(len(w))] += 1
                    x[:, c, f] = torch.tensor(RNG.choices(d["values"], weights=w, k=n))
                else:
                    k = RNG.choice([1, 2])
                    for j in range(n):
                        x[j, c, f] = int(RNG.gauss(40 * RNG.randrange(k), 14)) + 7 * c
        return x

    def real(x, doms):
        y = x.float()
        for f, d in enumerate(doms):
            if d["kind"] == "cont":
                y[:, :, f] = x[:, :, f] * GRID
        return y

    def domain(d):
        if d["kind"] == "cont":
            return Domain.continuous_inf_support() if RNG.random() < 0.5 else Domain.continuous_range(-500.0, 500.0)
        v = d["values"]
        return Domain.discrete_range(v[0], v[-1]) if v == list(range(v[0], v[-1] + 1)) else Domain.discrete_bins(v)

    DISC = [[0, 1], [0, 1, 2, 3], [-2, -1, 0, 1, 2], [0, 3, 7], [1, 2, 5, 11], list(range(8))]
    skipped = used = 0
    for case in range(120 if THOROUGH else 26):
        F, CH = RNG.choice([1, 2, 3]), RNG.choice([1, 1, 2, 3])
        L, R = RNG.choice([1, 2, 3]), RNG.choice([1, 2])
        alpha = RNG.choice([0, 0, 1, 2])
        doms = [dict(kind="disc", values=RNG.choice(DISC)) if RNG.random() < 0.55 or alpha and RNG.random() < 0.8 else dict(kind="cont")
                for _ in range(F)]
        if any(d["kind"] == "cont" for d in doms):
            alpha = 0           # (smoothing is documented for counts)
        x = make_data(RNG.choice([6, 25, 60, 150]), F, CH, doms)
        xr = real(x, doms)
        leaf = PiecewiseLinear(F, CH, L, R, alpha=float(alpha))
        for f in (lambda: leaf(xr, None), lambda: leaf.get_extra_state() or leaf(xr[:1], [])):
            _, err = guarded(f)
            ev("flags", "use before initialisation is refused", obs=dict(refused=err != "" and "None" not in err[:12]))
        log.clear()
        x_keep = xr.clone()
        _, err = guarded(lambda: leaf.initialize(xr, [domain(d) for d in doms]))
        ev("flags", "initialisation", err, obs=dict(data_untouched=bool(torch.equal(x_keep, xr))))
        if err or len(log) % R or len(log) == 0:
            continue
        m = len(log) // R
        for r in range(R):
            assign = log[(r + 1) * m - 1][1]
            for k in range(L):
                own = x[assign == k]
                for f in range(F):
                    for c in range(CH):
                        vals = own[:, c, f].tolist()
                        if not vals and doms[f]["kind"] == "cont":
                            continue

                        def logp(v, f=f, c=c, k=k, r=r):
                            z = xr[:1].repeat(len(v), 1, 1)
                            z[:, c, f] = v
                            return leaf(z, None)[:, c, f, k, r]

                        ok = judge_leaf(f"leaf {'alpha' if alpha else ''} {doms[f]['kind']}", logp, vals, doms[f], alpha)
                        used, skipped = used + bool(ok is not False), skipped + bool(ok is False)
        # sampling and mode of a model with a single leaf
    from simple_einet.layers.distributions.piecewise_linear import PiecewiseLinear as P
    for case in range(60 if THOROUGH else 14):
        structure = RNG.choice(["top-down", "bottom-up"])
        CH = RNG.choice([1, 2, 3])
        doms = [dict(kind="disc", values=RNG.choice(DISC)) if RNG.random() < 0.5 else dict(kind="cont") for _ in range(3)]
        x = make_data(RNG.choice([8, 40, 120]), 3, CH, doms)
        xr = real(x, doms)
        model = Einet(EinetConfig(num_features=3, num_channels=CH, num_sums=1, num_leaves=1, num_repetitions=RNG.choice([1, 2]),
                                  num_classes=1, depth=1, leaf_type=P, structure=structure)).eval()
        leaf = model.leaf if structure == "bottom-up" else model.leaf.base_leaf
        _, e1 = guarded(lambda: model.sample(num_samples=2))
        _, e2 = guarded(lambda: model(xr[:2]))
        ev("flags", "a model before initialisation is refused", obs=dict(sample=e1 != "", forward=e2 != ""))
        _, err = guarded(lambda: leaf.initialize(xr, [domain(d) for d in doms]))
        s, err2 = guarded(lambda: model.sample(num_samples=N))
        mode, err3 = guarded(lambda: model.sample(num_samples=2, is_mpe=True))
        for f in range(3):
            for c in range(CH):
                def logp(v, f=f, c=c):
                    z = torch.full((len(v), CH, 3), float("nan"))
                    z[:, c, f] = v
                    return model(z)[:, 0]

                def smp(f=f, c=c):
                    if err or err2:
                        raise RuntimeError(err or err2)
                    return s[:, c, f]

                def mod(f=f, c=c):
                    if err or err3:
                        raise RuntimeError(err or err3)
                    v = mode[:, c, f]
                    assert v[0] == v[1]
                    return v[0]

                judge_leaf(f"model {structure} {doms[f]['kind']}", logp, x[:, c, f].tolist(), doms[f], 0, smp, mod)
        leaf.reset()
        _, e1 = guarded(lambda: model(xr[:2]))
        ev("flags", "refused after reset", obs=dict(refused=e1 != ""))
    # data sets with many rows have many bins
    for case in range(12 if THOROUGH else 4):
        n, st = RNG.choice([2500, 4000, 9000]), RNG.choice(["top-down", "bottom-up"])
        sig = RNG.choice([300, 700])
        prime = next(p for p in range(9 * sig, 20 * sig) if all(p % q for q in range(2, int(p**0.5) + 1)))
        data = [max(-4 * sig, min(prime - 4 * sig, int(RNG.gauss(0, sig)))) for _ in range(n - 2)] + [-4 * sig, prime - 4 * sig]
        x = torch.tensor(data).view(n, 1, 1).repeat(1, 1, 2)
        x[:, 0, 1] = torch.tensor(RNG.choices(range(4), weights=[5, 1, 0, 3], k=n))
        doms = [dict(kind="cont"), dict(kind="disc", values=[0, 1, 2, 3])]
        model = Einet(EinetConfig(num_features=2, num_sums=1, num_leaves=1, num_repetitions=1, num_classes=1, depth=1, leaf_type=P,
                                  structure=st)).eval()
        leaf = model.leaf if st == "bottom-up" else model.leaf.base_leaf
        _, err = guarded(lambda: leaf.initialize(real(x, doms), [domain(d) for d in doms]))
        s, err2 = guarded(lambda: model.sample(num_samples=N))
        for f in range(2):
            def logp(v, f=f):
                z = torch.full((len(v), 1, 2), float("nan"))
                z[:, 0, f] = v
                return model(z)[:, 0]

            def smp(f=f):
                if err or err2:
                    raise RuntimeError(err or err2)
                return s[:, 0, f]
            ok = judge_leaf(f"large data {st} {doms[f]['kind']}", logp, x[:, 0, f].tolist(), doms[f], 0, smp)
            used, skipped = used + bool(ok is not False), skipped + bool(ok is False)
    # models with several leaves: likelihood, marginals and samples agree
    import dist

    rec = dist.DistRec(ck)
    import itertools

    for case in range(24 if THOROUGH else 6):
        structure = RNG.choice(["top-down", "bottom-up"])
        R, C, L = RNG.choice([1, 2]), RNG.choice([1, 2]), RNG.choice([2, 3])
        vals = [RNG.choice(DISC[:5]) for _ in range(3)]
        doms = [dict(kind="disc", values=v) for v in vals]
        x = make_data(60, 3, 1, doms).float()
        model = Einet(EinetConfig(num_features=3, num_sums=2, num_leaves=L, num_repetitions=R, num_classes=C, depth=1,
                                  leaf_type=P, structure=structure)).eval()
        leaf = model.leaf if structure == "bottom-up" else model.leaf.base_leaf
        _, err = guarded(lambda: leaf.initialize(x, [domain(d) for d in doms]))
        allx = torch.tensor(list(itertools.product(*vals))).float()
        ll, err2 = guarded(lambda: model(allx))
        tag = f"model of discrete leaves {structure} R={R} C={C}"
        rec.normalised(tag, ll, err or err2)
        if err or err2:
            continue
        for c in range(C):
            kw = {"class_index": c} if C > 1 else {}
            s, err = guarded(lambda: model.sample(num_samples=N, **kw)[:, 0])
            cnt, other = [], 0
            if not err:
                eq = (s.unsqueeze(1) == allx.unsqueeze(0)).all(-1)
                cnt, other = eq.sum(0).tolist(), int((~eq.any(1)).sum())
            rec.freq(tag + " samples", cnt, ll[:, c].double().exp(), other, err)
        z = allx[RNG.randrange(len(allx))].clone()
        f = RNG.randrange(3)
        z[f] = float("nan")
        lz, err = guarded(lambda: model(z.view(1, 3)))
        same = [j for j in range(len(allx)) if all(allx[j][g] == z[g] for g in range(3) if g != f)]
        if not err:
            rec.marginal(tag + " marginal", lz[0, 0].double().exp(), ll[same, 0].double().exp())
            s, err = guarded(lambda: model.sample(evidence=z.view(1, 3).repeat(N // 2, 1)))
            if C == 1:
                cnt = [] if err else [int((s == allx[j]).all(1).sum()) for j in same]
                rec.freq(tag + " conditional", cnt, ll[same, 0].double().exp(), 0 if err else N // 2 - sum(cnt), err)
    rec.run()
    ck.extra.update(leaves_judged=used, leaves_skipped_because_of_rounding=skipped)
    r = run_tlc("PwlTrace", "SPECIFICATION Spec\nINVARIANT Conforms\n", dict(events=events), extra=["-continue"])
    ck.traces += len(events)
    ck.judge(events, r, lambda e: f"{e['k']}: {e['tag']}" + (f" raised {e['err'][:40]}" if e["err"] else ""), "PwlTrace")


main("C19", run)
