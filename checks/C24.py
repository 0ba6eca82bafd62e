"""C24: every repetition's wiring is a balanced partition of the features, random, and never changes."""
import copy
import io
import os
import pickle
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc, setup_paths  # noqa: E402


def run(ck):
    setup_paths()
    torch = load_torch()
    import numpy as np

    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
    from simple_einet.layers.distributions.multivariate_normal import MultivariateNormal
    from simple_einet.layers.distributions.normal import Normal

    # ------------------------------------------------------- the specification alone
    gen = [dict(kind="simple", F=2, fo=1, R=1), dict(kind="simple", F=3, fo=2, R=1), dict(kind="simple", F=4, fo=4, R=1),
           dict(kind="simple", F=5, fo=4, R=1) if THOROUGH else dict(kind="simple", F=5, fo=2, R=1),
           dict(kind="groups", F=3, fo=2, R=2), dict(kind="groups", F=4, fo=2, R=1), dict(kind="groups", F=5, fo=2, R=1),
           dict(kind="groups", F=5, fo=4, R=1), dict(kind="order", F=3, fo=3, R=2), dict(kind="order", F=4, fo=4, R=1)]
    r = run_tlc("Wiring", "SPECIFICATION GSpec\nINVARIANT GoodWiring\nPROPERTY Frozen\n", dict(gen=gen, events=[]))
    if r.violated:
        raise MachineryError(f"Wiring: {r.violated}\n{r.out[-2000:]}")
    ck.add_tlc(r)

    events = []

    def ev(k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        events.append(kw)
        ck.sample({a: (b if a not in ("reg", "probe", "perms", "obs") else "...") for a, b in kw.items()})

    def case_of(c):
        bu = c["structure"] == "bottom-up"
        units = c["num_features"] // c.get("card", 1)
        return dict(kind="order" if bu else "simple" if c["num_repetitions"] == 1 else "groups", F=units,
                    fo=units if bu else max(1, 2 ** c["depth"]), R=c["num_repetitions"])

    def build(c):
        kw = dict(c)
        card = kw.pop("card", 1)
        kind = kw.pop("leaf", "norm")
        lt, lk = Normal, {}
        if card > 1:
            lt, lk = MultivariateNormal, dict(cardinality=card)
        elif kind == "cat":
            lt, lk = Categorical, dict(num_bins=3)
        elif kind == "multi":
            n = kw["num_features"]
            lt, lk = MultiDistributionLayer, dict(scopes_to_dist=[(list(range(0, n, 2)), Normal, {}),
                                                                  (list(range(1, n, 2)), Categorical, {"num_bins": 3})])
        return Einet(EinetConfig(leaf_type=lt, leaf_kwargs=lk, **kw))

    def recorded(model, c):
        """Regions and permutations as the model's buffers tell (read, not interpreted, by the model's state)."""
        cs = case_of(c)
        sd = model.state_dict()
        F, R = cs["F"], cs["R"]
        perms = []
        if cs["kind"] == "order":
            p, q = sd["permutation"], sd["permutation_inv"]
            perms = [[(p[r] + 1).tolist(), (q[r] + 1).tolist()] for r in range(R)]
            return [[[int(p[r][i]) + 1] for i in range(F)] for r in range(R)], perms
        if cs["kind"] == "groups":
            sc = sd["leaf.scopes"]
            return [[[f + 1 for f in range(F) if float(sc[f, o, r]) != 0] for o in range(sc.shape[1])] for r in range(R)], perms
        p = sd["leaf.permutation"].tolist()
        perms = [[[v + 1 for v in p], (sd["leaf.inverse_permutation"] + 1).tolist()]]
        card = len(p) // cs["fo"]
        return [[[v + 1 for v in p[o * card:(o + 1) * card] if v < F] for o in range(cs["fo"])]], perms

    def probed(model, c):
        """Regions as the first inner layer sees them: which of its inputs move with a feature."""
        cs = case_of(c)
        card = c.get("card", 1)
        seen = []
        h = model.layers[0].register_forward_pre_hook(lambda m, a: seen.append(a[0].detach().clone()))
        try:
            F = cs["F"]
            x = torch.zeros(F + 1, c["num_channels"], c["num_features"])
            for f in range(F):
                x[f + 1, RNG.randrange(c["num_channels"]), f * card + RNG.randrange(card)] = 1.0
            with torch.no_grad():
                model.eval()(x)
        finally:
            h.remove()
        y = seen[-1]                                     # [F + 1, regions, K, R]
        d = (y[1:] - y[:1]).abs().amax(dim=2) > 1e-6      # [F, regions, R]
        return [[[f + 1 for f in range(F) if bool(d[f, o, r])] for o in range(d.shape[1])] for r in range(d.shape[2])]

    # ------------------------------------------------------- freshly built models
    confs = []
    for depth in (0, 1, 2, 3, 4, 5):
        lo = max(2, 2**depth)
        for F in sorted({lo, lo + 1, lo + 3, 2 * lo - 1, 2 * lo, 3 * lo + 1, 3 * lo + 2}):
            for R in (1, 2, 5):
                confs.append(dict(num_features=F, depth=depth, num_repetitions=R, structure="top-down"))
                confs.append(dict(num_features=F, depth=depth, num_repetitions=R, structure="bottom-up"))
    if not THOROUGH:
        confs = [c for j, c in enumerate(confs) if (j + RNG.randrange(2)) % 2 == 0 or c["num_features"] < 6]
    confs.append(dict(num_features=130, depth=6, num_repetitions=3, structure="top-down"))
    confs.append(dict(num_features=131, depth=6, num_repetitions=1, structure="top-down"))
    # large regions, large numbers of regions
    for F, d, R, st in ((530, 1, 2, "top-down"), (601, 0, 2, "top-down"), (290, 0, 1, "top-down"), (777, 1, 1, "top-down"),
                        (1100, 2, 2, "top-down"), (300, 2, 1, "bottom-up"), (270, 1, 2, "bottom-up"), (300, 8, 1, "top-down")):
        confs.append(dict(num_features=F, depth=d, num_repetitions=R, structure=st))
    for card, F, d, R in ((2, 8, 1, 1), (2, 10, 2, 3), (3, 12, 2, 1), (4, 24, 1, 2)):
        confs.append(dict(num_features=F, depth=d, num_repetitions=R, structure="top-down", card=card))
    for leaf, F, d, R, st in (("cat", 7, 2, 1, "top-down"), ("multi", 9, 2, 3, "top-down"), ("multi", 6, 1, 1, "top-down"),
                              ("multi", 5, 1, 2, "bottom-up"), ("cat", 6, 1, 3, "bottom-up")):
        confs.append(dict(num_features=F, depth=d, num_repetitions=R, structure=st, leaf=leaf))
    models = []
    for c in confs:
        c["num_channels"] = RNG.choice([1, 1, 2]) if c.get("card", 1) == 1 else 1
        c["num_leaves"] = RNG.choice([2, 3])
        c["num_sums"] = RNG.choice([1, 2])
        c["num_classes"] = RNG.choice([1, 2])
        c["layer_type"] = "linsum" if c["structure"] == "bottom-up" else RNG.choice(["linsum", "linsum2", "einsum"])
        name = " ".join(f"{k}={v}" for k, v in c.items())
        model, err = guarded(build, c)
        if err:
            ck.violation(f"build {name}", {"error": err})
            continue
        rec, err = guarded(recorded, model, c)
        pr, err2 = guarded(probed, model, c)
        if err or err2:
            ev("wire", f"wiring of {name}", err=err or err2)
            continue
        ev("wire", f"wiring of {name}", case=case_of(c), reg=rec[0], perms=rec[1], probe=pr)
        models.append((name, c, model))

    # ------------------------------------------------------- randomness and independence
    N = 20000 if THOROUGH else 2400
    for F, depth, R, st in ((2, 1, 1, "top-down"), (3, 1, 1, "top-down"), (4, 1, 1, "top-down"), (5, 2, 1, "top-down"),
                            (2, 1, 2, "top-down"), (3, 1, 2, "top-down"), (4, 1, 2, "top-down"), (2, 1, 3, "top-down"),
                            (3, 1, 2, "bottom-up"), (4, 1, 1, "bottom-up"), (2, 1, 4, "bottom-up"),
                            (2, 1, 7, "top-down"), (2, 1, 7, "bottom-up")):
        c = dict(num_features=F, depth=depth, num_repetitions=R, structure=st, num_channels=1, num_leaves=1, num_sums=1,
                 num_classes=1, layer_type="linsum")
        cnt = {}
        err = ""
        for _ in range(N):
            got, err = guarded(lambda: recorded(build(c), c)[0])
            if err:
                break
            key = tuple(tuple(next(i + 1 for i, fs in enumerate(reg) if f in fs) for f in range(1, F + 1)) for reg in got)
            cnt[key] = cnt.get(key, 0) + 1
        ev("joint", f"random wirings F={F} depth={depth} R={R} {st}", err=err, case=case_of(c), N=N,
           obs=[dict(a=[list(a) for a in k], n=n) for k, n in cnt.items()])

    # many repetitions: all wirings differ, any two of them are independent
    for F, depth, st in ((24, 3, "top-down"), (16, 0, "bottom-up"), (16, 4, "bottom-up"), (30, 2, "top-down")):
        c = dict(num_features=F, depth=depth, num_repetitions=40, structure=st, num_channels=1, num_leaves=1, num_sums=1,
                 num_classes=1, layer_type="linsum")
        if depth == 0:
            c["depth"] = 1
        got, err = guarded(lambda: recorded(build(c), c)[0])
        ev("many", f"40 repetitions F={F} depth={c['depth']} {st}", err=err, reg=got or [])
    for F, st in ((2, "top-down"), (3, "bottom-up")):
        c = dict(num_features=F, depth=1, num_repetitions=20, structure=st, num_channels=1, num_leaves=1, num_sums=1, num_classes=1,
                 layer_type="linsum")
        cnt, err = {}, ""
        M = N // 2
        for _ in range(M):
            got, err = guarded(lambda: recorded(build(c), c)[0])
            if err:
                break
            key = [tuple(next(i + 1 for i, fs in enumerate(reg) if f in fs) for f in range(1, F + 1)) for reg in got]
            for a in range(20):
                for b in range(a):
                    cnt[b, a, key[b], key[a]] = cnt.get((b, a, key[b], key[a]), 0) + 1
        for a in range(20):
            for b in range(a):
                ev("joint", f"repetitions {b}, {a} of 20 F={F} {st}", err=err, case=case_of(dict(c, num_repetitions=2)), N=M,
                   obs=[dict(a=[list(p), list(q)], n=n) for (b2, a2, p, q), n in cnt.items() if (b2, a2) == (b, a)])

    # ------------------------------------------------------- the wiring never changes
    for name, c, model in RNG.sample(models, 40 if THOROUGH else 12):
        F = c["num_features"]
        x = torch.randint(0, 2, (6, c["num_channels"], F)).float()
        ev_x = x.clone()
        if c.get("card", 1) == 1:
            ev_x[:, :, ::2] = float("nan")
        opt = torch.optim.Adam(model.parameters(), lr=0.05)
        cls = {"class_index": 0} if c["num_classes"] > 1 else {}
        box = [model]

        def train(n=3):
            box[0].train()
            o = opt if box[0] is model else torch.optim.Adam(box[0].parameters(), lr=0.05)
            for _ in range(n):
                o.zero_grad()
                (-box[0](x).mean()).backward()
                o.step()
            box[0].eval()

        def reload():
            buf = io.BytesIO()
            torch.save(box[0].state_dict(), buf)
            buf.seek(0)
            box[0].load_state_dict(torch.load(buf))

        def fresh():
            m2 = build(c)
            m2.load_state_dict(box[0].state_dict())
            box[0] = m2.eval()

        def swap(fn):
            box[0] = fn(box[0])

        ops = [("forward", lambda: box[0](x)), ("forward with NaN", lambda: box[0](ev_x)), ("sample", lambda: box[0].sample(5, **cls)),
               ("seeded sample", lambda: box[0].sample(5, seed=3, **cls)), ("mpe", lambda: box[0].mpe(evidence=ev_x)),
               ("conditional sample", lambda: box[0].sample(evidence=ev_x)), ("training", train),
               ("differentiable sample", lambda: box[0].sample(4, is_differentiable=True, **cls)),
               ("cached forward", lambda: box[0](x, cache_index=1)), ("failing call", lambda: box[0](x[:, :, 1:])),
               ("failing sample", lambda: box[0].sample(evidence=x[:, :, 1:])), ("reset cache", lambda: box[0].reset_cache()),
               ("state dict round trip", reload), ("loading into a fresh model", fresh),
               ("deep copy", lambda: swap(copy.deepcopy)), ("pickling", lambda: swap(lambda m: pickle.loads(pickle.dumps(m)))),
               ("train and eval", lambda: (box[0].train(), box[0].eval()))]
        RNG.shuffle(ops)
        model.eval()
        obs = [dict(op="construction", reg=recorded(model, c)[0])]
        err = ""
        for op, fn in ops:
            guarded(fn)
            got, err = guarded(lambda: (recorded(box[0], c)[0], probed(box[0], c)))
            if err:
                err = f"after {op}: {err}"
                break
            obs += [dict(op=op, reg=got[0]), dict(op=op + " (probed)", reg=[[sorted(g) for g in rr] for rr in got[1]])]
        # probes list the features in order
        for o in obs:
            o["reg"] = [[sorted(g) for g in rr] for rr in o["reg"]]
        ev("life", f"history of {name}", err=err, obs=obs)

    r = run_tlc("WiringTrace", "SPECIFICATION TSpec\nINVARIANT Conforms\n", dict(gen=gen, events=events), extra=["-continue"],
                timeout=800)
    ck.traces += len(events)
    ck.extra["models"] = len(models)
    ck.extra["constructions_counted"] = 13 * N
    ck.judge(events, r, lambda e: e["tag"], "WiringTrace")


main("C24", run)
