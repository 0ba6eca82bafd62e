"""C15: leaf distributions are what their parameters say (log densities, samplers and modes seen through
models whose only path leads to the leaf)."""
import itertools
import math
import os
import sys
from types import SimpleNamespace

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import circ  # noqa: E402
from vlib import RNG, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc, setup_paths  # noqa: E402

P24 = 2**24


def run(ck):
    setup_paths()
    torch = load_torch()
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.binomial import Binomial
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    from simple_einet.layers.distributions.normal import Normal, RatNormal

    r = run_tlc("Leaves", "SPECIFICATION LeafSpec\nINVARIANT TotalMass\nINVARIANT OneTrial\nINVARIANT ModeLaw\n"
                "INVARIANT WhitenLaw\nINVARIANT PhiLaw\n", None)
    if r.violated or r.rc != 0:
        raise MachineryError(f"Leaves: {r.violated}\n" + r.out[-2000:])
    ck.add_tlc(r)
    events = []

    def ev(k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        events.append(kw)
        ck.sample({a: (b[:6] if isinstance(b, list) else b) for a, b in kw.items()})

    def milli(t):
        q = t.detach().double() * 1000
        return torch.where(q.isfinite(), q, torch.full_like(q, 1e9)).clamp(-1e9, 1e9).round().long().tolist()

    def units(t):
        p = t.detach().double().exp() * P24
        return torch.where(p.isfinite(), p, torch.full_like(p, -1.0)).clamp(-1, 2**26).round().long().tolist()

    # ------------------------------------------------------------- families
    def frac():
        return RNG.choice([(1, 1), (1, 2), (2, 1), (1, 3), (3, 1)])

    class Fam:
        """leaf type, constructor arguments, drawing of parameters and their installation"""
        def __init__(self, name, cls, kw, draw, put, n=None, card=1, diff=True):
            self.name, self.cls, self.kw, self.draw, self.put, self.n, self.card, self.diff = name, cls, kw, draw, put, n, card, diff
            self.mvn = cls is MultivariateNormal

    def put(attr, value):
        def f(leaf, i, d):
            getattr(leaf, attr).data[(0,) + i] = value(d)
        return f

    fams = []
    odds = lambda d: math.log(d["a"] / d["b"])  # noqa: E731
    fams.append(Fam("bernoulli", Bernoulli, {}, lambda: dict(t="bern", a=RNG.randrange(1, 10), b=RNG.randrange(1, 10)),
                    put("probs", odds), 1))
    fams.append(Fam("bernoulli-extreme", Bernoulli, {}, lambda: dict(t="blog", n=1, lo=RNG.randrange(-8000, 8001)),
                    put("probs", lambda d: d["lo"] / 1000), 1))
    for n in (1, 2, 5, 8):
        fams.append(Fam(f"binomial-{n}", Binomial, dict(total_count=n),
                        lambda n=n: dict(t="binom", n=n, a=RNG.randrange(1, 5), b=RNG.randrange(1, 5)), put("logits", odds), n,
                        diff=False))
    for n in (31, 255):
        fams.append(Fam(f"binomial-{n}", Binomial, dict(total_count=n),
                        lambda n=n: dict(t="blog", n=n, lo=RNG.randrange(-5000, 5001)),
                        put("logits", lambda d: d["lo"] / 1000), n, diff=False))

    def put_cat(leaf, i, d):
        w = torch.tensor(d["w"], dtype=torch.float64)
        leaf.logits.data[(0,) + i] = (w.clamp(min=1e-30).log() + RNG.uniform(-4, 4)).float()

    def weights(V):
        while True:
            w = [RNG.choice([0, 1, 1, 2, 3, 5, 8, 13]) for _ in range(V)]
            if any(w):
                return w
    for V in (2, 3, 6):
        fams.append(Fam(f"categorical-{V}", Categorical, dict(num_bins=V), lambda V=V: dict(t="cat", w=weights(V)), put_cat, V - 1))

    def put_clog(leaf, i, d):
        leaf.logits.data[(0,) + i] = torch.tensor(d["lg"], dtype=torch.float64).div(1000).float()
    fams.append(Fam("categorical-extreme", Categorical, dict(num_bins=4),
                    lambda: dict(t="clog", lg=[RNG.randrange(-60000, 60001) for _ in range(4)]), put_clog, 3))
    fams.append(Fam("categorical-16", Categorical, dict(num_bins=16),
                    lambda: dict(t="clog", lg=[RNG.randrange(-3000, 3001) for _ in range(16)]), put_clog, 15))

    def put_norm(leaf, i, d):
        leaf.means.data[(0,) + i] = d["mu"] / d["u"]
        leaf.logvar.data[(0,) + i] = 2 * math.log(d["sd"] / d["u"])
    fams.append(Fam("normal", Normal, {}, lambda: dict(t="norm", u=8, mu=RNG.randrange(-60, 61), sd=RNG.choice([1, 3, 8, 12, 40, 200])),
                    put_norm))

    fams.append(Fam("normal-far", Normal, {}, lambda: dict(t="norm", u=8, mu=RNG.choice([-1, 1]) * RNG.randrange(8000, 40000),
                                                          sd=RNG.choice([1, 3, 8, 12])), put_norm))

    # very small and very large scales (recorded multiplied by 2^e)
    def put_norm_e(leaf, i, d):
        leaf.means.data[(0,) + i] = d["mu"] / d["u"] / 2.0**d["e"]
        leaf.logvar.data[(0,) + i] = 2 * (math.log(d["sd"] / d["u"]) - d["e"] * math.log(2))
    for name, es in (("normal-small", (4, 7, 10, 14)), ("normal-large", (-3, -6, -9, -13))):
        fams.append(Fam(name, Normal, {}, lambda es=es: dict(t="norm", u=8, mu=RNG.randrange(-60, 61), sd=RNG.choice([1, 3, 8, 12, 40]),
                                                           e=RNG.choice(es)), put_norm_e))

    def rat(name, u, lo, hi, bounds=None, kw=None, e=0):
        def draw():
            a, b = frac()
            d = dict(t="rat", u=u, lo=lo, hi=hi, a=a, b=b, bnd=bounds is not None, mu=RNG.randrange(-60, 61), mlo=0, mhi=0, ma=1, mb=1)
            if e:
                d["e"] = e
            if bounds:
                d["mlo"], d["mhi"] = bounds
                d["ma"], d["mb"] = frac()
            return d

        def put_rat(leaf, i, d):
            leaf.stds.data[(0,) + i] = math.log(d["a"] / d["b"])
            leaf.means.data[(0,) + i] = math.log(d["ma"] / d["mb"]) if d["bnd"] else d["mu"] / u / 2.0**e
        k = dict(min_sigma=lo / u / 2.0**e, max_sigma=hi / u / 2.0**e) if kw is None else dict(kw)
        if bounds:
            k.update(min_mean=bounds[0] / u / 2.0**e, max_mean=bounds[1] / u / 2.0**e)
        fams.append(Fam(name, RatNormal, k, draw, put_rat))
    rat("rat-defaults", 40, 4, 40, kw={})
    rat("rat-bounded", 8, 4, 16, (-12, 24))
    rat("rat-max0", 8, 1, 25, (-24, 0))
    rat("rat-min0", 8, 2, 38, (0, 36))
    rat("rat-small", 40, 4, 40, e=9)
    rat("rat-large", 8, 4, 16, (-12, 24), e=-8)

    def draw_mvn(card):
        return dict(t="mvn", u=8, mu=[RNG.randrange(-24, 25) for _ in range(card)], sg=[RNG.choice([-1, 0, 0, 1]) for _ in range(card)],
                    l2=[[RNG.randrange(-3, 4) for _ in range(j)] for j in range(card)])

    def put_mvn(leaf, i, d):
        c = len(d["mu"])
        leaf.means.data[i] = torch.tensor(d["mu"]) / 8
        leaf.L_diag_log.data[i] = torch.tensor(d["sg"]) * math.log(2)
        off = torch.zeros(c, c)
        for a in range(c):
            for b in range(a):
                off[a, b] = d["l2"][a][b] / 2
        # entries on and above the diagonal are documented to be ignored
        leaf.L_offdiag.data[i] = off + torch.triu(torch.randn(c, c))
    for card in (1, 2, 3):
        fams.append(Fam(f"mvn-{card}", MultivariateNormal, dict(cardinality=card), lambda c=card: draw_mvn(c), put_mvn, card=card))

    # ------------------------------------------------------------- models whose only path is (k, r)
    SHAPES = [dict(depth=1, layer_type="linsum"), dict(depth=1, layer_type="einsum"), dict(depth=2, layer_type="linsum2"),
              dict(depth=0, layer_type="linsum"), dict(depth=1, layer_type="linsum", structure="bottom-up"),
              dict(depth=2, layer_type="linsum"), dict(depth=2, layer_type="einsum"), dict(depth=1, layer_type="linsum2"),
              dict(depth=2, layer_type="linsum", structure="bottom-up")]

    def force(model, ks, r):
        """Weights that leave a single path: leaf ks[g] of every region g of repetition r."""
        first = True
        for layer in model.layers:
            lg = getattr(layer, "logits", None)
            if lg is None:
                continue
            w = torch.zeros_like(lg.data)       # above, all nodes of a region are the same distribution
            if first:
                w[:] = -1e30
                kind = type(layer).__name__
                for g, k in enumerate(ks):
                    if kind in ("LinsumLayer2", "SumLayer"):
                        w[g, k] = 0.0
                    elif kind == "LinsumLayer":
                        w[g // 2, k] = 0.0
                    else:
                        w[g // 2, :, :, k if g % 2 == 0 else ks[g - 1], ks[g + 1] if g % 2 == 0 else k] = 0.0
                if kind == "LinsumLayer2" and len(ks) < w.shape[0]:
                    w[len(ks):] = 0.0
                first = False
            lg.data.copy_(w)
        if model.config.num_repetitions > 1:
            w = torch.full_like(model.mixing.logits.data, -1e30)
            w[:, :, r] = 0.0
            model.mixing.logits.data.copy_(w)

    def choose(k, regions, layer_type, depth):
        """Leaf k for the first region, any leaves for the others (where the structure allows different ones)."""
        ks = [k]
        for g in range(1, regions):
            together = layer_type == "linsum" and depth > 0 and g % 2 == 1
            ks.append(ks[-1] if together else RNG.randrange(K))
        return ks

    K = 3
    N = 60000 if THOROUGH else 20000
    turn = RNG.randrange(len(SHAPES))
    rounds = 4 if THOROUGH else 1
    for fam in fams * rounds:
        turn += 1
        shape = dict(SHAPES[turn % len(SHAPES)])
        if fam.card > 1 and shape.get("structure") == "bottom-up":
            shape = dict(SHAPES[0])
        if shape["layer_type"] == "einsum" and (fam.n is None or fam.n > 10 or "extreme" in fam.name):
            # einsum adds in the linear domain: excluded leaves that fit an observation much better would hide
            # the only path (known finding of C02)
            shape = dict(SHAPES[2])
        units_ = RNG.choice([4, 5]) if fam.card == 1 else 2 ** max(1, shape["depth"]) + (shape["depth"] == 1) * RNG.randrange(2)
        F = units_ * fam.card
        R = RNG.choice([1, 2, 2])
        CH = 2 if fam.n is None or fam.n < 100 else 1
        tag0 = f"{fam.name} {shape.get('structure', 'top-down')} {shape['layer_type']} depth {shape['depth']}"
        model, err = guarded(lambda: Einet(EinetConfig(num_features=F, num_channels=CH, num_leaves=K, num_sums=2, num_repetitions=R,
                                                       num_classes=1, leaf_type=fam.cls, leaf_kwargs=fam.kw, **shape)).eval())
        if err:
            ev("pmf", f"build {tag0}", err=err)
            continue
        leaf = model.leaf.base_leaf if hasattr(model.leaf, "base_leaf") else model.leaf
        G = F // fam.card
        D = {}
        for c, g, k, r in itertools.product(range(CH), range(G), range(K), range(R)):
            D[c, g, k, r] = fam.draw()
            fam.put(leaf, (c, g, k, r), D[c, g, k, r])
        cells = list(itertools.product(range(CH), range(G)))
        regs, err = guarded(lambda: circ.wiring(model, SimpleNamespace(cfg=dict(num_repetitions=R, **shape), F=G)))
        if err:
            ev("pmf", f"wiring of {tag0}", err=err)
            continue
        for k, r in itertools.product(range(K), range(R)):
            ks = choose(k, len(regs[r]), shape["layer_type"], shape["depth"])
            tag = f"{tag0}: leaves {ks} of repetition {r} of {R}"
            force(model, ks, r)
            at = {f - 1: g for g, fs in enumerate(regs[r]) for f in fs}
            d = {(c, g): D[c, g, ks[at[g]], r] for c, g in cells}
            nan = torch.full((CH, F), float("nan"))

            # ---- log densities
            if fam.n is not None:
                V = fam.n + 1
                x = nan.repeat(len(cells) * V, 1, 1)
                for q, (c, f) in enumerate(cells):
                    x[q * V:(q + 1) * V, c, f] = torch.arange(V).float()
                ll, err = guarded(lambda: model(x).reshape(len(cells), V))
                lp = {}
                for q, cf in enumerate(cells):
                    t = f"log-probability, {tag}, channel {cf[0]}, feature {cf[1]}"
                    if err:
                        ev("pmf", t, err=err, d=d[cf], obs=[])
                    elif d[cf]["t"] in ("blog", "clog"):
                        lp[cf] = (milli(ll[q]), units(ll[q]))
                        ev("law", t, d=d[cf], obs=lp[cf][0], pm=lp[cf][1])
                    else:
                        lp[cf] = ([], units(ll[q]))
                        ev("pmf", t, d=d[cf], obs=lp[cf][1])
            elif d[cells[0]]["t"] != "mvn":
                for c, f in cells:
                    e = d[c, f]
                    mu = e["mu"] if not e.get("bnd") else (e["mlo"] + e["mhi"]) // 2
                    pts = [mu + RNG.randrange(-3, 4) for _ in range(3)] + [mu + RNG.randrange(-150, 151) for _ in range(3)] + \
                        [mu + RNG.choice([-1, 1]) * RNG.randrange(150, 1300)]
                    x = nan.repeat(len(pts), 1, 1)
                    x[:, c, f] = torch.tensor(pts).double().div(e["u"] * 2.0 ** e.get("e", 0)).float()
                    ll, err = guarded(lambda: model(x).reshape(len(pts)))
                    ev("gauss", f"log-density, {tag}, channel {c}, feature {f}", err=err, d=e,
                       pts=[] if err else [list(t) for t in zip(pts, milli(ll))])
            else:
                xs, x = [], torch.zeros(6, CH, F)
                for n in range(6):
                    row = []
                    for c, g in cells:
                        e = d[c, g]
                        z2 = [RNG.randrange(-6, 7) if n else 0 for _ in e["mu"]]     # z in 1/2
                        L2 = [[{-1: 1, 0: 2, 1: 4}[e["sg"][a]] if a == b else (e["l2"][a][b] if b < a else 0)
                               for b in range(fam.card)] for a in range(fam.card)]
                        x8 = [e["mu"][a] + 2 * sum(L2[a][b] * z2[b] for b in range(fam.card)) for a in range(fam.card)]
                        row.append(x8)
                        x[n, c, g * fam.card:(g + 1) * fam.card] = torch.tensor(x8) / 8
                    xs.append(row)
                ll, err = guarded(lambda: model(x).reshape(6))
                ev("mvn", f"log-density, {tag}", err=err, ds=[d[cg] for cg in cells], x=xs, obs=[] if err else milli(ll))

            # ---- samples
            ways = ["plain"]
            if not fam.mvn:
                ways.append(RNG.choice(["evidence", "diff"]) if fam.diff else "evidence")
            elif (k + r) % 2:
                ways.append("diff")
            for way in ways:
                hold = None
                kw = dict(num_samples=N)
                if way == "diff":
                    kw["is_differentiable"] = True
                elif way == "evidence":
                    hold = (RNG.randrange(CH), RNG.randrange(F))
                    ref = d[hold]
                    val = float(RNG.randrange(fam.n + 1)) if fam.n is not None else float(torch.tensor(ref["mu"] / ref["u"] / 2.0 ** ref.get("e", 0)))
                    if ref["t"] == "cat":
                        val = float(next(v for v, w in enumerate(ref["w"]) if w))
                    e_ = nan.clone()
                    e_[hold] = val
                    kw = dict(evidence=e_.repeat(N, 1, 1))
                s, err = guarded(lambda: model.sample(**kw))
                if not err and tuple(s.shape) != (N, CH, F):
                    err = f"shape {tuple(s.shape)}"
                for c, g in cells:
                    e = d[c, g]
                    t = f"samples ({way}), {tag}, channel {c}, unit {g}"
                    if err:
                        ev("hist", t, err=err, d=e)
                        continue
                    y = s[:, c, g * fam.card:(g + 1) * fam.card].detach().double()
                    if hold == (c, g):
                        y = y.reshape(-1)
                        ev("mode", f"evidence kept, {tag}", d=dict(t="cat", w=[0, 1]), obs=[1 if bool((y == val).all()) else 0])
                        continue
                    if fam.n is not None:
                        y = y.reshape(-1)
                        q = y.round()
                        ok = (y == q) & (q >= 0) & (q <= fam.n)
                        cnt = torch.bincount(q[ok].long(), minlength=fam.n + 1).tolist()
                        ev("hist", t, d=e, obs=cnt, other=int((~ok).sum()), N=N, lp=lp.get((c, g), ([], []))[0],
                           pm=lp.get((c, g), ([], []))[1])
                        continue
                    y = y * 2.0 ** e.get("e", 0)
                    bad = int((~y.isfinite()).sum())
                    for i in range(fam.card):
                        if e["t"] == "mvn":
                            u, mu = 8, e["mu"][i]
                            sd = 8 * math.sqrt(sum(({-1: .5, 0: 1, 1: 2}[e["sg"][i]] if b == i else e["l2"][i][b] / 2)**2 for b in range(i + 1)))
                        else:
                            u = e["u"]
                            mu = e["mu"] if not e.get("bnd") else e["mlo"] + (e["mhi"] - e["mlo"]) * e["ma"] // (e["ma"] + e["mb"])
                            sd = e["sd"] if e["t"] == "norm" else e["lo"] + (e["hi"] - e["lo"]) * e["a"] / (e["a"] + e["b"])
                        # any grid will do; this one is near the values the parameters suggest
                        grid = sorted({mu + round(sd * z) for z in (-3, -2, -1.3, -0.7, -0.3, 0, 0.3, 0.7, 1.3, 2, 3)})
                        ev("cum", t + (f".{i}" if fam.card > 1 else ""), d=e, i=i + 1, N=N, other=bad,
                           pts=[[p, int((y[:, i] < p / u).sum())] for p in grid])
                    if e["t"] == "mvn":
                        z = y - torch.tensor(e["mu"]).double() / 8
                        q = lambda v: torch.where(v.isfinite(), v, torch.full_like(v, 1e3)).clamp(-60, 60).mul(256).round().long().tolist()  # noqa: E731
                        ev("mom", t, d=e, N=N, other=bad, mean=[max(-9999, min(9999, v)) for v in q(z.mean(0))],
                           cov=q((z.t() @ z) / N))

            # ---- modes
            for way in ("mpe", "mpe with evidence", "sample at leaf modes", "mpe diff"):
                if way == "mpe":
                    s, err = guarded(lambda: model.mpe())
                elif way == "mpe diff":
                    s, err = guarded(lambda: model.mpe(is_differentiable=True))
                elif way == "sample at leaf modes":
                    s, err = guarded(lambda: model.sample(num_samples=5, mpe_at_leaves=True))
                elif fam.mvn:
                    continue
                else:
                    s, err = guarded(lambda: model.mpe(evidence=nan.repeat(3, 1, 1)))
                if not err and tuple(s.shape[1:]) != (CH, F):
                    err = f"shape {tuple(s.shape)}"
                for c, g in cells:
                    e = d[c, g]
                    for i in range(fam.card):
                        t = f"{way}, {tag}, channel {c}, unit {g}" + (f".{i}" if fam.card > 1 else "")
                        if err:
                            ev("mode", t, err=err, d=e, i=i + 1, obs=[])
                            continue
                        y = s[:, c, g * fam.card + i].detach().double()
                        if fam.n is not None:
                            q = torch.where((y == y.round()) & (y.abs() < 1e6), y, torch.full_like(y, -99.0)).long()
                            q = q.clamp(-99, 10**6)
                            q[q < 0] = fam.n + 5
                        else:
                            y = y * 2.0 ** e.get("e", 0)
                            q = torch.where(y.isfinite(), y * 64, torch.full_like(y, 1e6)).clamp(-1e6, 1e6).round().long()
                        ev("mode", t, d=e, i=i + 1, obs=sorted(set(q.tolist())))
    r = run_tlc("LeavesTrace", "SPECIFICATION TSpec\nINVARIANT Conforms\n", dict(events=events), extra=["-continue"], timeout=800)
    ck.traces += len(events)
    ck.judge(events, r, lambda e: e["tag"], "LeavesTrace")
    ck.add_tlc(r)


if __name__ == "__main__":
    main("C15", run)
