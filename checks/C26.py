"""C26: the training sampler covers every epoch exactly once, forever."""
import itertools
import os
import random as pyrandom
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import (REPO, RNG, SCRATCH, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc,  # noqa: E402
                  setup_paths)


def run(ck):
    setup_paths()
    os.chdir(REPO)          # exp_utils reads PROJECT_NAME from the working directory
    torch = load_torch()
    import numpy as np

    from simple_einet import data as D

    events = []

    def ev(k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        events.append(kw)
        ck.sample({a: (b if not isinstance(b, list) else b[:6]) for a, b in kw.items()})

    def flags(tag, err="", **obs):
        ev("flags", tag, err=err, obs={k: bool(v) for k, v in obs.items()})

    def take(s, n):
        return [int(v) for v in itertools.islice(iter(s), n)]

    # ------------------------------------------------------- histories from the specification
    length, ns, ni = (7, 2, 3) if THOROUGH else (6, 2, 3)
    r = run_tlc("Stream", "SPECIFICATION GSpec\nINVARIANT Lawful\nINVARIANT Prefixes\nINVARIANT Emit\n",
                dict(len=length, nsamplers=ns, niters=ni, events=[]), heap="6g")
    if r.violated:
        raise MachineryError(f"Stream: {r.violated}")
    ck.add_tlc(r)
    hists = r.emitted
    ck.extra["histories"] = len(hists)
    seen = set()
    uniq = []
    for h in hists:
        t = tuple((o["k"], o["a"]) for o in h)
        if t not in seen:
            seen.add(t)
            uniq.append(h)
    if not THOROUGH and len(uniq) > 1200:
        uniq = RNG.sample(uniq, 1200)

    def disturb():
        torch.manual_seed(RNG.randrange(10**6))
        torch.rand(RNG.randrange(5))
        torch.randperm(7)
        np.random.seed(RNG.randrange(10**6))
        pyrandom.seed(RNG.randrange(10**6))

    def replay(h, specs):
        samplers = [D.TrainingSampler(size=s["n"], shuffle=s["shuffle"], seed=s["seed"]) for s in specs]
        its, ops = [], []
        for o in h:
            if o["k"] == "open":
                its.append(iter(samplers[o["a"] - 1]))
            elif o["k"] == "disturb":
                disturb()
            else:
                # every abstract read is a burst of reads
                for _ in range(RNG.choice([1, 1, 3, 7])):
                    ops.append(dict(k="read", a=o["a"], v=int(next(its[o["a"] - 1]))))
                continue
            ops.append(dict(o))
        return ops

    for h in uniq:
        n = RNG.choice([1, 2, 3, 4, 5, 9])
        a = dict(n=n, shuffle=RNG.random() < 0.8, seed=RNG.choice([0, 1, 42, 2**31 - 1]))
        b = RNG.choice([dict(a), dict(a, seed=a["seed"] ^ 1), dict(a, n=n + 1), dict(a, shuffle=not a["shuffle"])])
        ops, err = guarded(replay, h, [a, b])
        ev("hist", "history " + " ".join(f"{o['k']}{o['a']}" for o in h), err=err, samplers=[a, b], ops=ops or [])

    # ------------------------------------------------------- long streams
    for n in [1, 2, 3, 5, 8, 17, 64, 100, 257] + ([999, 1500] if THOROUGH else []):
        for shuffle in (True, False):
            for seed in (0, 7, None, 123456789):
                length = n * RNG.choice([2, 3, 4]) + RNG.randrange(n) + (20 if n < 20 else 0)
                s, err = guarded(lambda: take(D.TrainingSampler(n, shuffle=shuffle, seed=seed), length))
                ev("stream", f"stream of size {n} shuffle={shuffle} seed={seed}", err=err, n=n, shuffle=shuffle, obs=s or [])
                g0 = torch.get_rng_state()
                n0, p0 = np.random.get_state()[1].tolist(), pyrandom.getstate()
                s2, err2 = guarded(lambda: take(D.TrainingSampler(n, shuffle=shuffle, seed=seed), length))
                untouched = torch.equal(g0, torch.get_rng_state()) and n0 == np.random.get_state()[1].tolist() \
                    and p0 == pyrandom.getstate()
                sm = D.TrainingSampler(n, shuffle=shuffle, seed=seed)
                a = take(sm, length // 2)
                disturb()
                b = take(sm, length)
                blocks = [tuple(s2[i:i + n]) for i in range(0, length - n + 1, n)] if s2 else []
                other = take(D.TrainingSampler(n, shuffle=shuffle, seed=(seed or 0) + 1), length)
                flags(f"stream of size {n} shuffle={shuffle} seed={seed} again", err=err or err2, same=s == s2, global_state=untouched,
                      restarts=not err and b == s and a == s[:len(a)],
                      epochs_differ=not shuffle or n < 16 or len(set(blocks)) == len(blocks),
                      seeds_differ=not shuffle or n < 16 or other != s,
                      default_seed=seed is not None or take(D.TrainingSampler(n, shuffle=shuffle, seed=0), length) == s)
    # large data sets
    for n in [4096, 4097, 5000, 9001, RNG.randrange(4000, 17000)] + ([40000, 70001] if THOROUGH else []):
        seed = RNG.choice([0, 3, 99991])
        length = 2 * n + RNG.randrange(50)
        s, err = guarded(lambda: take(D.TrainingSampler(n, seed=seed), length))
        ev("stream", f"stream of size {n} seed={seed}", err=err, n=n, shuffle=True, obs=s or [])
        s2, err2 = guarded(lambda: take(D.TrainingSampler(n, seed=seed), length))
        # shuffled over the whole range: the first tenth of an epoch is spread over all indices
        k = n // 10
        parts = [sum(1 for v in (s or [])[b * n:b * n + k] if v * 10 // n == j) for b in (0, 1) for j in range(10)]
        far = 7.5 * (k * 0.09) ** 0.5
        flags(f"stream of size {n} seed={seed} again", err=err or err2, same=s == s2,
              spread=all(abs(v - k / 10) <= far for v in parts))
    for bad in (0, -1):
        _, err = guarded(lambda: D.TrainingSampler(bad))
        flags(f"size {bad}", refused=bool(err))
    # default arguments shuffle
    d, err = guarded(lambda: take(D.TrainingSampler(50), 100))
    flags("default arguments", err=err, shuffled=not err and d[:50] != list(range(50)))

    # ------------------------------------------------------- all permutations are equally likely, in every epoch
    N = 24000 if THOROUGH else 6000
    for n in (2, 3, 4):
        for block in (0, 1, 5):
            cnt = {p: 0 for p in itertools.permutations(range(n))}
            err = ""
            off = RNG.randrange(10**6)
            for seed in range(N):
                s, err = guarded(lambda: tuple(take(D.TrainingSampler(n, seed=off + seed), (block + 1) * n)[block * n:]))
                if err:
                    break
                cnt[s] = cnt.get(s, 0) + 1
            ev("perms", f"permutations of {n} in epoch {block}", err=err, n=n, N=N, obs=[dict(p=list(p), c=c) for p, c in cnt.items()])

    # ------------------------------------------------------- loaders
    class Ids(torch.utils.data.Dataset):
        def __init__(self, n):
            self.n = n

        def __len__(self):
            return self.n

        def __getitem__(self, i):
            return torch.tensor([float(i)]), i

    def batches(loader, k=None):
        it = iter(loader)
        out = [b[1].tolist() for b in (itertools.islice(it, k) if k else it)]
        del it
        return out

    def make_loader(size, workers, dset, loop, shuffle, seed):
        old, D.get_datasets = D.get_datasets, lambda *a, **k: (dset, dset, dset)
        try:
            three = D.build_dataloader("given", "", batch_size=size, num_workers=workers, loop=loop, normalize=False, seed=seed)
        finally:
            D.get_datasets = old
        return three[0] if shuffle else three[1]

    for n, size in ((1, 1), (1, 4), (5, 2), (6, 3), (7, 10), (23, 4), (40, 8), (64, 64)):
        for workers in ((0, 2) if (n, size) in ((23, 4), (40, 8)) else (0,)):
            for shuffle in (True, False):
                ld, err = guarded(lambda: make_loader(size, workers, Ids(n), loop=False, shuffle=shuffle, seed=3))
                got = []
                for epoch in range(3):
                    b, err2 = guarded(lambda: batches(ld)) if not err else (None, err)
                    got.append(b)
                    ev("epoch", f"epoch {epoch} of a loader n={n} size={size} workers={workers} shuffle={shuffle}", err=err2, n=n,
                       size=size, shuffle=shuffle, obs=b or [])
                flags(f"loader n={n} size={size} workers={workers} shuffle={shuffle}", err=err,
                      reshuffled=not shuffle or n < 23 or got[0] != got[1], length=not err and len(ld) == -(-n // size))
            k = 3 * n // size + 3
            for seed in (0, 5):
                ld, err = guarded(lambda: make_loader(size, workers, Ids(n), loop=True, shuffle=True, seed=seed))
                b, err = guarded(lambda: batches(ld, k)) if not err else (None, err)
                ev("loop", f"endless loader n={n} size={size} workers={workers} seed={seed}", err=err, n=n, size=size, obs=b or [])
                disturb()
                ld2, err2 = guarded(lambda: make_loader(size, workers, Ids(n), loop=True, shuffle=True, seed=seed))
                b2, err2 = guarded(lambda: batches(ld2, k)) if not err2 else (None, err2)
                ld3, err3 = guarded(lambda: make_loader(size, workers, Ids(n), loop=True, shuffle=True, seed=seed + 1))
                b3, err3 = guarded(lambda: batches(ld3, k)) if not err3 else (None, err3)
                flags(f"endless loader n={n} size={size} workers={workers} seed={seed}", err=err or err2 or err3, reproducible=b == b2,
                      seeds_differ=n < 16 or b != b3)

    # ------------------------------------------------------- the data sets that need no download
    root = os.path.join(SCRATCH, "data")
    name = "msnbc"
    os.makedirs(os.path.join(root, "debd", "datasets", name))
    rows = {}
    for part, m in (("train", 37), ("test", 11), ("valid", 9)):
        rows[part] = [[(i >> b) & 1 for b in range(17)] for i in range(m)]
        with open(os.path.join(root, "debd", "datasets", name, f"{name}.{part}.data"), "w") as f:
            f.write("\n".join(",".join(map(str, r)) for r in rows[part]) + "\n")
    for ds in ("synth-2-clusters", "synth-3-clusters", "synth-2-moons", "wine", "breast_cancer", "msnbc"):
        for loop in (False, True):
            sets, err = guarded(lambda: D.get_datasets(ds, root, normalize=False))
            ld, err2 = guarded(lambda: D.build_dataloader(ds, root, batch_size=16, num_workers=0, loop=loop, normalize=False, seed=4))
            if err or err2:
                flags(f"data set {ds} loop={loop}", err=err or err2)
                continue
            for part, dset, loader in zip(("train", "val", "test"), sets, ld):
                if ds == "msnbc":
                    want = torch.tensor(rows[{"train": "train", "val": "valid", "test": "test"}[part]]).view(-1, 1, 17, 1)
                    flags(f"{part} of {ds}", content=torch.equal(dset.tensors[0].float(), want.float()))
                n = len(dset)
                X = dset.tensors[0].reshape(n, -1)
                lab = dset.tensors[1]
                # rows that occur twice are interchangeable
                key = {}
                for j in range(n):
                    key.setdefault((tuple(X[j].tolist()), float(lab[j])), []).append(j)

                def ids(loader, k):
                    pool = {}
                    out, m = [], 0
                    for x, y in itertools.islice(iter(loader), k):
                        b = []
                        for row, t in zip(x.reshape(len(x), -1), y):
                            if m % n == 0:
                                pool = {a: list(v) for a, v in key.items()}
                            a = (tuple(row.tolist()), float(t))
                            b.append(pool[a].pop(0) if pool.get(a) else n)
                            m += 1
                        out.append(b)
                    return out

                if loop and part == "train":
                    b, err = guarded(lambda: ids(loader, 2 * n // 16 + 3))
                    ev("loop", f"endless training loader of {ds}", err=err, n=n, size=16, obs=b or [])
                else:
                    b, err = guarded(lambda: ids(loader, None))
                    ev("epoch", f"{part} loader of {ds} loop={loop}", err=err, n=n, size=16, shuffle=part == "train", obs=b or [])
                shape = D.get_data_shape(ds)
                if "synth" not in ds:
                    flags(f"shape of {ds}", shape=tuple(dset[0][0].shape) == tuple(shape))
            if ds in ("wine", "breast_cancer"):
                # the three parts are disjoint and complete: standardisation keeps rows distinct
                from sklearn import datasets as sk

                raw = (sk.load_wine if ds == "wine" else sk.load_breast_cancer)(return_X_y=True)
                total = sum(len(s) for s in sets)
                allx = torch.cat([s.tensors[0].reshape(len(s), -1) for s in sets])
                ally = torch.cat([s.tensors[1].long() for s in sets])
                distinct = len({tuple(np.round(r, 3)) for r in raw[0].astype(np.float32).tolist()})
                flags(f"split of {ds}", total=total == len(raw[0]), disjoint=len({tuple(r) for r in allx.tolist()}) >= distinct - 2,
                      labels=torch.equal(torch.bincount(ally), torch.tensor(np.bincount(raw[1]))),
                      classes=D.get_data_num_classes(ds) == len(set(raw[1].tolist())))

    r = run_tlc("StreamTrace", "SPECIFICATION TSpec\nINVARIANT Conforms\n", dict(events=events, len=1, nsamplers=1, niters=1),
                extra=["-continue"], timeout=800)
    ck.traces += len(events)
    ck.judge(events, r, lambda e: e["tag"], "StreamTrace")


main("C26", run)
