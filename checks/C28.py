"""C28: every source row is in exactly one split, with its label, the same on every load."""
import os
import random as pyrandom
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import (REPO, RNG, SCRATCH, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc,  # noqa: E402
                  setup_paths)

GRAY = ["mnist", "mnist-16", "mnist-32", "fmnist", "fmnist-16", "fmnist-32"]
RGB = ["cifar", "svhn", "svhn-extra", "lsun", "lfw"]
GIVEN = ["celeba", "celeba-small", "celeba-tiny", "flowers"]
TABLE = {"digits": 64, "covtype": 54, "breast_cancer": 30, "wine": 13, "kddcup99": 118}


def run(ck):
    setup_paths()
    os.chdir(REPO)          # exp_utils reads PROJECT_NAME from the working directory
    torch = load_torch()
    import numpy as np
    import sklearn.datasets
    import torchvision.datasets as tv
    from PIL import Image
    from sklearn.utils import Bunch

    import exp_utils  # noqa: F401
    from simple_einet import data as D

    work = os.path.join(SCRATCH, "data")
    os.makedirs(work)
    os.chdir(work)

    # ------------------------------------------------------- the specification alone
    def rows(spec):
        return [dict(g=g, y=y) for g, y in spec]

    gen = [dict(kind="pool", src=rows([("train", j % 2) for j in range(7)])),
           dict(kind="carve", src=rows([("train", 0)] * 8 + [("test", 0)] * 2 + [("extra", 0)])),
           dict(kind="given", src=rows([("train", 0)] * 3 + [("valid", 0)] * 2 + [("test", 0)] * 2))]
    r = run_tlc("Splits", "SPECIFICATION GSpec\nINVARIANT Running\nINVARIANT Ends\nINVARIANT SharesHold\n", dict(gen=gen, events=[]))
    if r.violated:
        raise MachineryError(f"Splits: {r.violated}\n{r.out[-2000:]}")
    ck.add_tlc(r)

    events = []

    def ev(k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        events.append(kw)
        ck.sample({a: (b if not isinstance(b, (list, dict)) else str(b)[:80]) for a, b in kw.items()})

    def flags(tag, err="", **obs):
        ev("flags", tag, err=err, obs={k: bool(v) for k, v in obs.items()})

    def disturb():
        torch.manual_seed(RNG.randrange(10**6))
        np.random.seed(RNG.randrange(10**6))
        pyrandom.seed(RNG.randrange(10**6))

    # ------------------------------------------------------- stand-ins for the sources
    class Source:
        """The rows a stand-in offers: groups of numbered rows with labels."""
        size = None
        groups = {}
        labels = {}

    # not symmetric: two quarters are bright, and so is a stripe
    BRIGHT = 255

    def mark(im):
        w, h = im.size
        fill = BRIGHT if im.mode == "L" else (BRIGHT,) * 3
        im.paste(fill, (w // 2, 0, w, h // 2))
        im.paste(fill, (w // 4, h // 2 + h // 4, w // 2, h))

    class Images(torch.utils.data.Dataset):
        """Stand-in of a torchvision data set: a constant image tells the number of its row."""

        def __init__(self, root=None, train=None, split=None, classes=None, transform=None, target_transform=None, download=None,
                     **kw):
            if classes is not None:
                split = "test" if any("val" in c or "test" in c for c in classes) else "train"
            g = split if split is not None else "train" if train or train is None else "test"
            self.rows = Source.groups["valid" if g == "val" else g]
            self.transform = transform
            self.length = len(self.rows)
            self.data = torch.zeros(len(self.rows), 2)
            self.targets = self.labels = [Source.labels[j] for j in self.rows]

        def __len__(self):
            return len(self.rows)

        def __getitem__(self, k):
            j = self.rows[k]
            if Source.gray:
                im = Image.new("L", (28, 28), j)
            else:
                im = Image.new("RGB", (32, 32), (j % 256, j // 256, 7))
            mark(im)
            return (self.transform(im) if self.transform else im), Source.labels[j]

    def table(name):
        X, y = Source.X, Source.y

        def fn(return_X_y=False, **kw):
            return (X, y) if return_X_y else Bunch(data=X, target=y)
        return fn

    def text(subset="train", return_X_y=False, **kw):
        import scipy.sparse

        X, y = Source.text[subset]
        return (scipy.sparse.csr_matrix(X), y) if return_X_y else Bunch(data=scipy.sparse.csr_matrix(X), target=y)

    def put(module, name, value):
        setattr(module, name, value)
        if hasattr(D, name):
            setattr(D, name, value)

    for n in ("CIFAR10", "MNIST", "SVHN", "CelebA", "FashionMNIST", "LSUN", "Flowers102", "LFWPeople"):
        put(tv, n, Images)
    real = {n: getattr(sklearn.datasets, n) for n in ("load_digits", "load_wine", "load_breast_cancer")}
    for name, fn in (("digits", "load_digits"), ("covtype", "fetch_covtype"), ("breast_cancer", "load_breast_cancer"),
                     ("wine", "load_wine"), ("kddcup99", "fetch_kddcup99")):
        put(sklearn.datasets, fn, lambda *a, _n=name, **k: table(_n)(*a, **k))
    put(sklearn.datasets, "fetch_20newsgroups_vectorized", text)

    # ------------------------------------------------------- reading rows back
    def items(ds):
        xs, ys = [], []
        for k in range(len(ds)):
            x, y = ds[k]
            xs.append(torch.as_tensor(np.asarray(x) if not torch.is_tensor(x) else x).double())
            ys.append(int(y))
        return xs, ys

    def image_ids(xs, shape, normalize, n):
        """Row numbers (1..), 0 for an image that is not one of the source."""
        out = []
        for x in xs:
            if tuple(x.shape) != tuple(shape):
                out.append(0)
                continue
            v = (x + 1) / 2 if normalize else x
            q = (v * 255).round()
            j = int(q[0, 0, 0]) + (0 if Source.gray else 256 * int(q[1, 0, 0]))
            want = Image.new("L" if Source.gray else "RGB", Source.size or ((28, 28) if Source.gray else (32, 32)),
                             min(j, 255) if Source.gray else (j % 256, j // 256, 7))
            mark(want)
            H, W = shape[-2:]
            want = torch.from_numpy(np.array(want)).view(want.size[1], want.size[0], -1).permute(2, 0, 1).double()
            # pixels away from the edges of the marks do not change when an image is resized
            pos = [(a + 0.5) / 16 for a in range(16)]
            keep = [p for p in pos if min(abs(p - e) for e in (0.25, 0.5, 0.75)) > 0.08]
            if (H, W) == tuple(want.shape[1:]):
                flat = torch.equal(q, want)
            else:
                at = lambda t: t[:, [int(p * t.shape[1]) for p in keep]][:, :, [int(p * t.shape[2]) for p in keep]]  # noqa: E731
                flat = torch.equal(at(q), at(want))
            flat = flat and bool(((v * 255) - q).abs().max() < 1e-2)
            out.append(j + 1 if flat and 0 <= j < n else 0)
        return out

    def load(name, normalize, decode):
        out, labels, shapes = {}, {}, set()
        for s, ds in zip(("train", "val", "test"), D.get_datasets(name, work, normalize)):
            xs, ys = items(ds)
            shapes |= {tuple(x.shape) for x in xs}
            out[s], labels[s] = xs, ys
        ids = decode(out)
        return ids, labels, shapes, out

    loaders = []

    def record(name, kind, src, normalize, decode, tag):
        shape, err = guarded(lambda: tuple(D.get_data_shape(name)))
        if err:
            return flags(tag, err=err)
        disturb()
        g0 = torch.get_rng_state()
        n0 = np.random.get_state()[1].tolist()
        a, err = guarded(load, name, normalize, decode)
        clean = torch.equal(g0, torch.get_rng_state()) and n0 == np.random.get_state()[1].tolist()
        disturb()
        b, err2 = guarded(load, name, normalize, decode)
        if err or err2:
            return ev("split", tag, err=err or err2)
        ev("split", tag, kind=kind, src=src, parts=a[0], labels=a[1], again=b[0])
        nc, err = guarded(D.get_data_num_classes, name)
        top = max(r["y"] for r in src)
        flags(f"shape and classes {tag}", err=err, shape=a[2] == {shape}, classes=not err and (nc == 0 or 0 <= top < nc),
              classified=not err and bool(D.is_classification_data(name)) == (kind_of(name)), clean=clean)
        loaders.append((name, tag, a[0], decode, normalize))
        return a

    def kind_of(name):
        return not (name in D.DEBD or "celeba" in name)

    def images(name, n_tr, n_te, n_va, n_ex, normalize):
        Source.gray = name in GRAY
        total = n_tr + n_te + n_va + n_ex
        # the numbers of the rows of a group are spread
        order = list(range(total))
        RNG.shuffle(order)
        cut = [0, n_tr, n_tr + n_te, n_tr + n_te + n_va, total]
        Source.groups = {g: order[cut[j]:cut[j + 1]] for j, g in enumerate(("train", "test", "valid", "extra"))}
        nc, _ = guarded(D.get_data_num_classes, name)
        nc = nc or 1
        Source.labels = {j: RNG.randrange(nc) for j in range(total)}
        where = {j: g for g, rs in Source.groups.items() for j in rs}
        src = [dict(g=where[j], y=Source.labels[j]) for j in range(total)]
        shape = guarded(lambda: tuple(D.get_data_shape(name)))[0]
        record(name, "given" if name in GIVEN else "carve", src, normalize,
               lambda out: {s: image_ids(xs, shape, normalize, total) for s, xs in out.items()},
               f"{name} train={n_tr} test={n_te} normalize={normalize}")
        return src

    # ------------------------------------------------------- images
    sizes = [15, 25, 20, 31, 95, 104, 150, 115]
    for name in GRAY + RGB + GIVEN:
        for normalize in (False, True):
            for n_tr in RNG.sample(sizes, 8 if THOROUGH else 3):
                images(name, n_tr, RNG.randrange(5, 60), RNG.randrange(3, 12) if name in GIVEN else 0,
                       RNG.randrange(4, 20) if name == "svhn-extra" else 0, normalize)
    for name in ("cifar", "svhn", "lsun"):
        images(name, 1505 if THOROUGH else 445, 130, 0, 0, True)

    # folders of images
    root = os.path.join(work, "tiny-imagenet-200")
    src, j = [], 0
    for g, n in (("train", 23), ("val", 8), ("test", 9)):
        for k in range(n):
            d = os.path.join(root, g, f"n{k % 3}")
            os.makedirs(d, exist_ok=True)
            im = Image.new("RGB", (40, 36), (j % 256, j // 256, 7))
            mark(im)
            im.save(os.path.join(d, f"{k}.png"))
            src.append(dict(g="valid" if g == "val" else g, y=k % 3))
            j += 1
    Source.gray, Source.size = False, (40, 36)
    for normalize in (False, True):
        record("tiny-imagenet", "given", src, normalize,
               lambda out: {s: image_ids(xs, (3, 32, 32), normalize, len(src)) for s, xs in out.items()},
               f"tiny-imagenet normalize={normalize}")

    Source.size = None

    # ------------------------------------------------------- binary benchmark files
    for name in (sorted(D.DEBD) if THOROUGH else RNG.sample(sorted(D.DEBD), 5)):
        F = D.DEBD_shapes[name]["train"][1]
        d = os.path.join(work, "debd", "datasets", name)
        os.makedirs(d)
        src, j, vals = [], 0, []
        for g, n in (("train", RNG.randrange(20, 60)), ("valid", RNG.randrange(5, 20)), ("test", RNG.randrange(5, 20))):
            with open(os.path.join(d, f"{name}.{g}.data"), "w") as f:
                own, blank = [], RNG.sample(range(n), 2)
                for k in range(n):
                    row = [(j >> q) & 1 for q in range(8)] + [RNG.randrange(2) for _ in range(F - 8)]
                    if own and k not in blank and RNG.random() < 0.2:
                        row = RNG.choice(own)              # rows repeat
                    elif k in blank:
                        row = [blank.index(k)] * F         # nothing is set, or everything
                    own.append(row)
                    vals.append(row)
                    f.write(",".join(map(str, row)) + "\n")
                    src.append(dict(g=g, y=0))
                    j += 1
        G = {"train": "train", "val": "valid", "test": "test"}

        def decode(out):
            # the k-th copy of a row in a split is the k-th copy in its file, if there is one
            res = {}
            for s, xs in out.items():
                at = {}
                for q in sorted(range(len(vals)), key=lambda q: src[q]["g"] != G[s]):
                    at.setdefault(tuple(vals[q]), []).append(q + 1)
                res[s] = [at[t].pop(0) if at.get(t) else 0 for t in (tuple(x.flatten().long().tolist()) for x in xs)]
            return res
        record(name, "given", src, RNG.random() < 0.5, decode, f"{name}")

    # ------------------------------------------------------- tables
    def by_rank(out):
        """The first column counts the rows; it is mapped to something increasing."""
        allv = sorted({round(float(x.flatten()[0]), 6) for xs in out.values() for x in xs})
        place = {v: k + 1 for k, v in enumerate(allv)}
        return {s: [place[round(float(x.flatten()[0]), 6)] for x in xs] for s, xs in out.items()}

    for name, F in TABLE.items():
        for _ in range(6 if THOROUGH else 2):
            nc, err = guarded(D.get_data_num_classes, name)
            C = min(nc or 3, RNG.choice([2, 3, 5]))
            N = RNG.choice([103, 150, 237, 310])
            rs = np.random.RandomState(RNG.randrange(10**6))
            if RNG.random() < 0.4:
                y = np.array([j % C for j in range(N)])
            else:                                 # some classes are rare
                few = RNG.sample(range(C), C - 1)
                y = np.concatenate([np.full(RNG.randrange(12, 32), c) for c in few[:3]] +
                                   [np.full(12, c) for c in few[3:]])
                y = np.concatenate([y, np.full(N - len(y), (set(range(C)) - set(few)).pop())])
            rs.shuffle(y)
            ident = np.arange(N)
            X = rs.randint(0, 900, size=(N, F)).astype(np.float64)
            X[:, 1] += 3 * ident                  # rows with large values are rare in the beginning
            X[:, 0] = ident
            if F > 5:
                X[:, 5] = 4                       # a constant column
            if name == "digits":
                X[0, -1] = 1000
                X = X.clip(0, 1000)
            src = [dict(g="train", y=int(v)) for v in y]
            Source.X, Source.y = X, y
            raw = X
            if name == "covtype":
                Source.y = y + 1
            if name == "kddcup99":                # three columns of byte strings with 3 + 66 + 11 values
                Xo = np.empty((N, 41), dtype=object)
                for c in range(41):
                    for j in range(N):
                        Xo[j, c] = float(X[j, c]) if c not in (1, 2, 3) else b"v%03d" % (rs.randint((3, 66, 11)[c - 1])
                                                                                       if j >= 66 else j % (3, 66, 11)[c - 1])
                Source.X = Xo
                Source.y = np.array([b"class%02d." % v for v in y], dtype=object)
                keep = [0] + list(range(4, 41))
                raw = X[:, keep]
            tag = f"{name} rows={N} classes={C}"
            got = record(name, "pool", src, RNG.random() < 0.5, by_rank, tag)
            if got is None or name == "digits":
                continue
            ids, _, _, out = got
            z = {}
            for s in ids:
                for j, x in zip(ids[s], out[s]):
                    z[j] = x.flatten()
            if sorted(z) != list(range(1, N + 1)):
                continue                          # reported above
            cols = RNG.sample(range(raw.shape[1]), min(raw.shape[1], 8)) + [0, 1]
            ev("scale", f"standardised {tag}", x=[[int(v) for v in raw[:, c]] for c in cols],
               z=[[int((z[j + 1][c] * 10000).round()) for j in range(N)] for c in cols], train=ids["train"])

    # text: rows can be told apart by their labels only
    for _ in range(3 if THOROUGH else 1):
        rs = np.random.RandomState(RNG.randrange(10**6))
        Source.text = {}
        for g, n in (("train", 240), ("test", 77)):
            y = np.array([j % 20 for j in range(n)])
            rs.shuffle(y)
            Source.text[g] = (rs.rand(n, 60), y)

        def words():
            ds = D.get_datasets("20newsgroup", work, False)
            got = {s: items(d) for s, d in zip(("train", "val", "test"), ds)}
            return {s: v[1] for s, v in got.items()}, {s: v[0] for s, v in got.items()}
        a, err = guarded(words)
        disturb()
        b, err2 = guarded(words)
        if err or err2:
            ev("bag", "20newsgroup", err=err or err2)
            continue
        ev("bag", "20newsgroup", src={g: v[1].tolist() for g, v in Source.text.items()}, labels=a[0], again=b[0])
        tr = torch.stack(a[1]["train"]).flatten(1)
        flags("20newsgroup standardised", mean=bool((tr.mean(0).abs() < 1e-3).all()),
              std=bool(((tr.std(0, correction=0) - 1).abs() < 1e-2).all()), shape=tuple(a[1]["val"][0].shape) == (1, 50, 1),
              again=all(torch.allclose(x, z, atol=1e-4) for s in a[1] for x, z in zip(a[1][s], b[1][s])))

    # ------------------------------------------------------- the real bundled tables
    for name, fn in (("digits", "load_digits"), ("wine", "load_wine"), ("breast_cancer", "load_breast_cancer")):
        put(sklearn.datasets, fn, real[fn])
        X, y = real[fn](return_X_y=True)
        out, err = guarded(lambda: [items(d) for d in D.get_datasets(name, work, False)])
        if err:
            flags(f"bundled {name}", err=err)
            continue
        sz = [len(o[1]) for o in out]
        nc, err = guarded(D.get_data_num_classes, name)
        per = [sum(o[1].count(int(c)) for o in out) == int((y == c).sum()) for c in set(y)]
        tr = torch.stack(out[0][0]).flatten(1)
        flags(f"bundled {name}", err=err, all=sum(sz) == len(y), labels=all(per), classes=nc == len(set(y)),
              shape=all(tuple(x.shape) == tuple(D.get_data_shape(name)) for o in out for x in o[0]),
              scaled=bool((tr.mean(0).abs() < 1e-3).all()) if name != "digits" else bool(tr.min() >= 0 and tr.max() <= 1),
              held_out=all(0.08 * len(y) <= s <= 0.12 * len(y) for s in sz[1:]))
        put(sklearn.datasets, fn, lambda *a, _n=name, **k: table(_n)(*a, **k))

    # ------------------------------------------------------- loaders
    for name in GRAY[:1] + ["cifar", "svhn-extra", "celeba"] + (GRAY[1:] + RGB if THOROUGH else []):
        for loop in (False, True):
            n_tr = RNG.choice([21, 44, 95])
            size = RNG.choice([1, 2, 4, 7, 10, 50, 12, 6])
            normalize = RNG.random() < 0.5
            before = len(events)
            # also test and validation sets with one row more than their batches hold
            src = images(name, n_tr, RNG.choice([13, 15, size + 1, 2 * size + 1]), RNG.choice([9, size + 1]) if name in GIVEN else 0,
                         5 if name == "svhn-extra" else 0, normalize)
            if events[before]["err"]:
                continue
            parts = events[before]["parts"]
            shape = tuple(D.get_data_shape(name))

            def read():
                tr, va, te = D.build_dataloader(name, work, size, 0, loop, normalize, RNG.randrange(1000))
                res = []
                for dl in (tr, va, te):
                    bs, n = [], 0
                    for x, _ in dl:
                        bs.append(image_ids(list(x.double()), shape, normalize, len(src)))
                        n += len(x)
                        if loop and dl is tr and n >= 2 * len(parts["train"]):
                            break
                    res.append(bs)
                return res
            got, err = guarded(read)
            tag = f"loaders of {name} loop={loop} batch={size}"
            if err:
                ev("loader", tag, err=err)
            else:
                ev("loader", tag, parts=parts, train=got[0], val=got[1], test=got[2], size=size, loop=loop)

    os.chdir(REPO)
    r = run_tlc("SplitsTrace", "SPECIFICATION TSpec\nINVARIANT Conforms\n", dict(gen=gen, events=events), extra=["-continue"],
                timeout=600)
    ck.traces += len(events)
    ck.extra["data_sets"] = len(GRAY + RGB + GIVEN) + len(TABLE) + 7
    ck.judge(events, r, lambda e: e["tag"], "SplitsTrace")


main("C28", run)
