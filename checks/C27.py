"""C27: image quantisation maps every pixel to the right level."""
import os
import sys
from types import SimpleNamespace

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import (REPO, RNG, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc, setup_paths)  # noqa: E402


def run(ck):
    setup_paths()
    os.chdir(REPO)          # exp_utils reads PROJECT_NAME from the working directory
    torch = load_torch()
    import exp_utils

    from simple_einet import utils as U
    from simple_einet.dist import DataType, Dist, Domain, get_data_type_from_dist, get_distribution
    from simple_einet.einet import Einet, EinetConfig

    # the laws of the quantisation itself, for every pixel and depth
    r = run_tlc("Quant", "SPECIFICATION QSpec\nINVARIANT StepLaw\nINVARIANT InRange\nINVARIANT Monotone\nINVARIANT EqualWidth\n",
                dict(events=[]))
    if r.rc != 0:
        raise MachineryError(f"Quant: {r.violated}\n" + r.out[-2000:])
    ck.add_tlc(r)

    events = []

    def ev(k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        events.append(kw)
        ck.sample({a: (b if not isinstance(b, list) else b[:6]) for a, b in kw.items()})

    def flags(tag, err="", **obs):
        ev("flags", tag, err=err, obs={k: bool(v) for k, v in obs.items()})

    def ints(t, unit):
        q = t.detach().double() * unit
        q = torch.where(q.isfinite(), q, torch.full_like(q, -9e6)).clamp(-9e6, 9e6)
        return q.round().long().flatten().tolist()

    def images():
        """(name, image, intensities in eighths of 1/255)"""
        k = torch.arange(256)
        yield "every 8-bit value", k.float() / 255, (8 * k).tolist()
        yield "every 8-bit value in double precision", k.double() / 255, (8 * k).tolist()
        u = torch.tensor([v for v in range(2041) if v % 8 not in (1, 7)])
        yield "values between", (u.double() / 2040).float(), u.tolist()
        for shape in ((2, 1, 4, 4), (3, 3, 5, 2), (1, 1, 28, 28), (7, 6), (2, 3, 8)):
            k = torch.randint(0, 256, shape)
            yield f"8-bit image {shape}", k.float() / 255, (8 * k).flatten().tolist()
        k = torch.randint(0, 256, (4, 6, 5, 3))
        yield "channels last", (k.float() / 255).permute(0, 3, 1, 2), (8 * k.permute(0, 3, 1, 2)).flatten().tolist()
        yield "all black", torch.zeros(2, 1, 3, 3), [0] * 18
        yield "all white", torch.ones(2, 1, 3, 3), [2040] * 18
        yield "no images", torch.zeros(0, 1, 3, 3), []

    for name, img, us in images():
        eight = all(v % 8 == 0 for v in us)
        for b in range(1, 9):
            for mod, red in (("simple_einet.utils", U.reduce_bits), ("exp_utils", exp_utils.reduce_bits),
                             ("exp_utils.preprocess", exp_utils.preprocess)):
                x = img.clone()
                y, err = guarded(lambda: red(x, b))
                ok = not err and y.shape == img.shape
                # in 1/64: float rounding of x * 255 stays below that
                obs = ints(y * 64 if ok else torch.zeros(0), 1)
                ev("reduce", f"{mod} of {name}, {b} bits", err=err if err or ok else f"shape {tuple(y.shape)}", b=b, us=us, obs=obs)
                flags(f"input of {mod}, {name}, {b} bits", untouched=torch.equal(x, img))
            x = img.clone()
            y, err = guarded(lambda: U.preprocess(x, b, 2**b, has_gauss_dist=False))
            ok = not err and y.shape == img.shape and y.dtype == torch.long
            ev("disc", f"discrete {name}, {b} bits", err=err if err or ok else f"{y.dtype} {tuple(y.shape)}", b=b, us=us,
               obs=y.flatten().tolist() if ok else [])
            flags(f"input of discrete {name}, {b} bits", untouched=torch.equal(x, img))
            for bins in {2**b, RNG.choice([3, 10, 64, 256])}:
                for noise in (False, True):
                    x = img.clone()
                    kw = dict(has_gauss_dist=True) if RNG.random() < 0.5 else {}
                    if not (noise and RNG.random() < 0.5):
                        kw["dequantize"] = noise
                    y, err = guarded(lambda: U.preprocess(x, b, bins, **kw))
                    ok = not err and y.shape == img.shape and y.dtype == img.dtype
                    ev("gauss", f"gaussian {name}, {b} bits, {bins} bins, noise={noise}",
                       err=err if err or ok else f"{y.dtype} {tuple(y.shape)}", b=b, us=us, noise=noise,
                       obs=ints((y.double() + 0.5) * bins, 1024) if ok else [])
                    flags(f"input of gaussian {name}, {b} bits", untouched=torch.equal(x, img))
    # large batches of intensities between 8-bit values, most of them just below one
    for n in (70000, 3 * 256 * 256):
        k = torch.randint(0, 255, (n,)).double()
        part = torch.randint(1, 64, (n,)).double() / 64
        part[::2] = 127 / 128
        img = ((k + part) / 255).float()
        pick = torch.cat([torch.arange(150), torch.randint(0, n, (150,)), torch.arange(n - 100, n)])
        us = (8 * (k + part)).floor().long()[pick].tolist()
        for b in range(1, 8):
            for fn, red in (("reduce_bits", lambda: U.reduce_bits(img, b)),
                            ("preprocess", lambda: U.preprocess(img, b, 2**b, has_gauss_dist=False))):
                y, err = guarded(red)
                ok = not err and y.shape == img.shape
                ev("reduce", f"{fn} of {n} intensities, {b} bits", err=err if err or ok else f"shape {tuple(y.shape)}", b=b, us=us,
                   obs=ints(y[pick].double() * 64, 1) if ok else [])
    # the noise is uniform over a bin, and independent from pixel to pixel
    N = 160000 if THOROUGH else 40000
    for b in range(1, 9):
        k = torch.randint(0, 256, (N,))
        x = k.float() / 255
        y, err = guarded(lambda: U.preprocess(x, b, 2**b))
        z, err2 = guarded(lambda: U.preprocess(x, b, 2**b, dequantize=False))
        if err or err2:
            ev("noise", f"noise at {b} bits", err=err or err2)
            continue
        d = ((y - z) * 2**b * 16).double().floor().long()
        out = int(((d < 0) | (d > 15)).sum())
        d = d.clamp(0, 15)
        cnt = torch.bincount(d, minlength=16).tolist()
        ev("noise", f"noise at {b} bits", obs=cnt, N=N)
        flags(f"noise at {b} bits", inside=out <= 20)       # rounding at the edges of a bin
        q = (d // 4)[0::2] * 4 + (d // 4)[1::2]
        ev("noise", f"noise of neighbours at {b} bits", obs=torch.bincount(q, minlength=16).tolist(), N=N // 2)
        y2, _ = guarded(lambda: U.preprocess(x, b, 2**b))
        flags(f"noise at {b} bits is drawn anew", fresh=not torch.equal(y, y2))
    for n_bins in (2, 7, 256):
        img = torch.rand(3, 1, 40, 40)
        i0 = img.clone()
        y, err = guarded(lambda: U.dequantize_image(img, n_bins))
        d = (y - img) * n_bins if not err else torch.zeros(1)
        flags(f"dequantize_image, {n_bins} bins", err=err, untouched=torch.equal(img, i0), range=bool(((d > -1e-3) & (d < 1 + 1e-3)).all()),
              spread=float(d.min()) < 0.1 and float(d.max()) > 0.9)
    # images that are not in [0, 1]
    for name, v in (("negative", -0.01), ("above one", 1.01), ("8-bit integers", 255.0), ("NaN", float("nan")), ("inf", float("inf"))):
        for b in (1, 5, 8):
            for shape in ((1,), (2, 1, 3, 3)):
                x = torch.rand(shape)
                x.view(-1)[RNG.randrange(x.numel())] = v
                res = {}
                for fn, call in (("reduce", lambda: U.reduce_bits(x, b)), ("gauss", lambda: U.preprocess(x, b, 2**b)),
                                 ("discrete", lambda: U.preprocess(x, b, 2**b, has_gauss_dist=False))):
                    _, err = guarded(call)
                    res[fn] = bool(err)
                flags(f"{name} at {b} bits, shape {shape}", **res)

    # ------------------------------------------------------- domains and leaves
    for lo, hi in ((0, 1), (0, 255), (0, 100), (-3, 4), (5, 5), (1, 17)):
        d, err = guarded(lambda: Domain.discrete_range(lo, hi))
        if err:
            ev("domain", f"discrete_range({lo}, {hi})", err=err)
            continue
        ev("domain", f"discrete_range({lo}, {hi})", lo=lo, hi=hi, obs=[int(v) for v in d.values], min=int(d.min), max=int(d.max))
        flags(f"discrete_range({lo}, {hi})", type=d.data_type == DataType.DISCRETE)
        vals = list(range(lo, hi + 1))
        d, err = guarded(lambda: Domain.discrete_bins(list(vals)))
        if err:
            ev("domain", f"discrete_bins({lo}..{hi})", err=err)
            continue
        ev("domain", f"discrete_bins({lo}..{hi})", lo=lo, hi=hi, obs=[int(v) for v in d.values], min=int(d.min), max=int(d.max))
        flags(f"discrete_bins({lo}..{hi})", type=d.data_type == DataType.DISCRETE)
        c, err = guarded(lambda: Domain.continuous_range(lo, hi + 1))
        flags(f"continuous_range({lo}, {hi + 1})", err=err, range=not err and (c.min, c.max) == (lo, hi + 1),
              type=not err and c.data_type == DataType.CONTINUOUS)
    c, err = guarded(lambda: Domain.continuous_inf_support())
    flags("continuous_inf_support", err=err, range=not err and (c.min, c.max) == (-float("inf"), float("inf")),
          type=not err and c.data_type == DataType.CONTINUOUS)

    want_type = {"normal": "continuous", "normal_rat": "continuous", "multivariate_normal": "continuous",
                 "piecewise_linear": "continuous", "binomial": "discrete", "categorical": "discrete"}
    for name, t in want_type.items():
        for key in (Dist(name), name):
            v, err = guarded(lambda: get_data_type_from_dist(key))
            flags(f"data type of {key!r}", err=err, type=not err and v == DataType(t))
    for bad in ("gauss", "", None):
        flags(f"distribution {bad!r}", refused_type=bool(guarded(lambda: get_data_type_from_dist(bad))[1]),
              refused=bool(guarded(lambda: get_distribution(bad, SimpleNamespace(n_bits=8)))[1]))
    cls = dict(normal="Normal", normal_rat="RatNormal", multivariate_normal="MultivariateNormal", binomial="Binomial",
               categorical="Categorical", piecewise_linear="PiecewiseLinear")
    for name in want_type:
        cfg = SimpleNamespace(n_bits=4, min_sigma=0.25, max_sigma=1.5, multivariate_cardinality=2)
        v, err = guarded(lambda: get_distribution(Dist(name), cfg))
        obs = {}
        if not err:
            kw, lt = v
            obs["leaf"] = lt.__name__ == cls[name]
            if name == "normal_rat":
                obs["sigma"] = kw.get("min_sigma") == 0.25 and kw.get("max_sigma") == 1.5
            if name == "multivariate_normal":
                obs["cardinality"] = kw.get("cardinality") == 2
        flags(f"leaf of {name}", err=err, **obs)
    for name in ("binomial", "categorical"):
        for b in range(1, 9):
            cfg = SimpleNamespace(n_bits=b, min_sigma=1e-3, max_sigma=1.0, multivariate_cardinality=2)
            n = 2**b

            def call():
                kw, lt = get_distribution(Dist(name), cfg)
                m = Einet(EinetConfig(num_features=2, num_channels=1, depth=1, num_sums=2, num_leaves=2, num_repetitions=1,
                                      num_classes=1, leaf_type=lt, leaf_kwargs=kw)).eval()
                if name == "binomial":
                    for p in m.leaf.parameters():
                        p.data.clamp_(-0.3, 0.3)
                ps = []
                for v in range(n + 2):
                    x = torch.tensor([[[float(v), float("nan")]]])
                    ll, e = guarded(lambda: m(x))
                    # probabilities in units of 1e-8; tails of a binomial are merely positive
                    ps.append(0 if e or not ll.isfinite().all() else max(1, round(float(ll.exp()) * 1e8)))
                s = m.sample(num_samples=400)
                y = U.preprocess(torch.arange(256).float().view(128, 1, 1, 2) / 255, b, n, has_gauss_dist=False)
                ok = bool(m(y.float()).isfinite().all())
                return ps, int(s.min()), int(s.max()), ok

            v, err = guarded(call)
            if err:
                ev("levels", f"{name} leaf for {b} bits", err=err)
                continue
            ev("levels", f"{name} leaf for {b} bits", b=b, obs=v[0], smin=v[1], smax=v[2])
            flags(f"{name} leaf for {b} bits accepts preprocessed images", finite=v[3])

    r = run_tlc("QuantTrace", "SPECIFICATION TSpec\nINVARIANT Conforms\n", dict(events=events), extra=["-continue"], timeout=800)
    ck.traces += len(events)
    ck.judge(events, r, lambda e: e["tag"], "QuantTrace")


main("C27", run)
