"""C25: training, validation and test steps compute the documented objectives on untouched data."""
import copy
import os
import random
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import REPO, RNG, SCRATCH, THOROUGH, guarded, load_torch, main, run_tlc, setup_paths  # noqa: E402


def run(ck):
    setup_paths()
    os.chdir(REPO)          # the scripts read PROJECT_NAME from the working directory
    torch = load_torch()
    from omegaconf import OmegaConf

    import circ
    import logc
    import models_pl
    from simple_einet.dist import Dist

    events, models = [], []

    def ev(k, tag, err="", inst=None, **kw):
        kw.update(k=k, tag=tag + (f" [{inst.name}]" if inst else ""), err=err, m=models.index(inst.m) + 1 if inst else 1)
        events.append(kw)
        ck.sample({a: kw[a] for a in kw if a not in ("xs", "x")})

    def flags(tag, inst=None, err="", **obs):
        ev("flags", tag, err=err, inst=inst, obs={k: bool(v) for k, v in obs.items()})

    def milli(v):
        v = float(v)
        return round(v * 1000) if v == v and abs(v) < 1.9e6 else 5 * 10**8

    import yaml

    with open(os.path.join(REPO, "conf", "config.yaml")) as f:
        project = {k: v for k, v in yaml.safe_load(f).items() if k not in ("defaults", "hydra")}

    def conf(**kw):
        # the project's own configuration (its values that need the environment are never read), then the ones chosen here
        d = dict(project)
        d.update(dataset="wine", tag="t", epochs=10, lr=0.01, dist="normal", model="einet", mixture=False, dropout=0.0,
                 num_classes=1, n_bits=8, min_sigma=0.1, max_sigma=2.0, multivariate_cardinality=2,
                 einet=dict(D=2, S=2, I=2, R=1, layer_type="linsum", structure="top-down"),
                 convpc=dict(channels=[2, 3], order="sum-prod", structure="top-down", kernel_size=2))
        e = kw.pop("einet", {})
        d.update(kw)
        d["einet"] = {**d["einet"], **e}
        return OmegaConf.create(d)

    class Logged(list):
        def __call__(self, name, value, **kw):
            self.append((name, float(value)))

    def lit_of(cls, c):
        lit = cls(c, steps_per_epoch=3)
        lit.log = Logged()
        return lit

    shapes = {"wine": (1, 13, 1), "digits": (1, 8, 8), "breast_cancer": (1, 30, 1)}
    variants = [
        dict(dataset="wine", einet=dict(D=2, R=1)), dict(dataset="wine", einet=dict(D=3, R=2, layer_type="linsum2", S=3)),
        dict(dataset="breast_cancer", einet=dict(D=2, R=2, layer_type="einsum")),
        dict(dataset="wine", einet=dict(D=2, R=2, structure="bottom-up")),
        dict(dataset="digits", einet=dict(D=3, R=1, I=3)), dict(dataset="wine", einet=dict(D=0, R=3, I=3)),
        dict(dataset="wine", dist="binomial", einet=dict(D=2, R=1)),
        dict(dataset="wine", dist="binomial", einet=dict(D=1, R=2, layer_type="einsum")),
        dict(dataset="wine", dist="categorical", n_bits=2, einet=dict(D=2, R=2)),
        dict(dataset="wine", dist="categorical", n_bits=3, einet=dict(D=1, R=1, layer_type="linsum2")),
    ]
    V = {"normal": 2, "binomial": 256, "categorical": None}
    insts = []
    for disc in (False, True):
        for j, v in enumerate(variants):
            if not THOROUGH and disc and v.get("dist") == "binomial" and j % 2:
                continue
            c = conf(num_classes=3 if disc else 1, **copy.deepcopy(v))
            lit, err = guarded(lit_of, models_pl.SpnDiscriminative if disc else models_pl.SpnGenerative, c)
            name = ("disc " if disc else "gen ") + " ".join(f"{k}={w}" for k, w in v.items())
            if err:
                ck.violation(f"build {name}", {"error": err})
                continue
            sh = shapes[c.dataset]
            e = c.einet
            want = dict(num_features=sh[1] * sh[2], num_channels=sh[0], num_sums=e.S, num_leaves=e.I, num_repetitions=e.R,
                        depth=e.D, num_classes=3 if disc else 1, layer_type=e.layer_type, structure=e.structure,
                        dropout=c.dropout)
            leaf = {"normal": "norm", "binomial": "binom", "categorical": "cat"}[c.dist]
            vals = V[c.dist] or 2**c.n_bits
            inst = logc.LInst(want, leaf, vals, 3, 0.2 if leaf == "binom" else 2, 5, name, 0)
            _, err = guarded(logc.install, inst, lit.spn, random.Random(RNG.random()))
            if err:
                ck.violation(f"configuration of {name}", {"error": err})
                continue
            lit.eval()
            inst.lit, inst.c, inst.sh, inst.disc = lit, c, sh, disc
            models.append(inst.m)
            insts.append(inst)
            flags("the model has the configured fields", inst,
                  **{k: getattr(lit.spn.config, k) == w for k, w in want.items()})

    rec = logc.LogRec(ck, insts)

    def batch(inst, n):
        rows = rec.rows(inst, n, tails=False)
        if inst.c.dist == "binomial":      # values near the middle carry the mass
            rows = [[[min(255, max(0, int(RNG.gauss(128, 20)))) if RNG.random() < 0.9 else RNG.randrange(256) for _ in ch]
                     for ch in r] for r in rows]
        x = torch.tensor(rows, dtype=torch.float32)
        if inst.c.dist == "binomial":
            x = x / 255
        x = x.view(n, *inst.sh)
        if RNG.random() < 0.3:
            x = x.transpose(0, 1).contiguous().transpose(0, 1)
        return rows, x

    for inst in insts:
        lit = inst.lit
        for mode in ("train", "val", "test", "test", "test") if not THOROUGH else ("train", "val", "test", "test", "test") * 4:
            n = RNG.choice([1, 2, 3, 5, 7])
            rows, x = batch(inst, n)
            y = torch.tensor([RNG.randrange(3) for _ in range(n)])
            x0, y0 = x.clone(), y.clone()
            lit.log.clear()
            sd0 = {k: t.clone() for k, t in lit.state_dict().items()}
            which = RNG.randrange(3)
            lit.train(mode == "train")
            if mode == "train":
                out, err = guarded(lambda: lit.training_step((x, y), RNG.randrange(5)))
            elif mode == "val":
                out, err = guarded(lambda: lit.validation_step((x, y), RNG.randrange(5)))
            else:
                out, err = guarded(lambda: lit.test_step((x, y), RNG.randrange(5), which))
            lit.eval()
            if not err and mode != "test" and (not torch.is_tensor(out) or out.dim() != 0):
                err = "no scalar loss"
            log = [dict(name=a, v=milli(b)) for a, b in lit.log]
            kw = dict(step=mode, set=which, xs=rows, log=log, obs=0 if err or mode == "test" else milli(out), red="mean")
            if inst.disc:
                ev("disc", f"{mode} step", err=err, inst=inst, ys=[int(a) + 1 for a in y], **kw)
            else:
                ev("gen", f"{mode} step", err=err, inst=inst, **kw)
            grads = True
            if mode == "train" and not err:
                lit.zero_grad()
                _, err = guarded(lambda: out.backward())
                grads = not err and all(p.grad is not None and bool(p.grad.isfinite().all()) for n_, p in
                                        lit.named_parameters() if p.requires_grad)
                lit.zero_grad()
            flags(f"{mode} step leaves its surroundings alone", inst, data=torch.equal(x, x0), labels=torch.equal(y, y0),
                  parameters=all(torch.equal(t, sd0[k]) for k, t in lit.state_dict().items()), gradients=grads)
        if not inst.disc:
            for red in ("mean", "sum"):
                rows, x = batch(inst, 4)
                x = x * 255 if inst.c.dist == "binomial" else x
                out, err = guarded(lambda: lit.negative_log_likelihood(x, reduction=red))
                ev("gen", f"negative_log_likelihood, {red}", err=err, inst=inst, step="direct", set=0, xs=rows, log=[],
                   obs=0 if err else milli(out), red=red)
            out, err = guarded(lambda: lit.negative_log_likelihood(x))
            ev("gen", "negative_log_likelihood", err=err, inst=inst, step="direct", set=0, xs=rows, log=[],
               obs=0 if err else milli(out), red="mean")
            bad = {}
            for red in ("none", "", "Mean", None, "max"):
                out, err = guarded(lambda: lit.negative_log_likelihood(x, reduction=red))
                bad[f"refuses {red!r}"] = "ValueError" in err
            flags("unknown reductions", inst, **bad)
            for diff in (False, True):
                if diff and not inst.c.dist == "normal":
                    continue
                for n in (1, 5, 16):
                    s, err = guarded(lambda: lit.generate_samples(num_samples=n, differentiable=diff))
                    ok = not err and tuple(s.shape) == (n, *inst.sh)
                    flags(f"generate_samples(differentiable={diff})", inst, err=err, shape=ok,
                          range=ok and (inst.c.dist != "binomial" or bool(((s >= 0) & (s <= 1)).all())))
                    if ok:
                        q = (s.detach().double().view(n, 1, -1) * 25500).round().clamp(-1e8, 1e8).long().tolist()
                        for row in q[:4]:
                            ev("modes", f"generate_samples(differentiable={diff})", inst=inst,
                               x=[[logc.NOVAL] * inst.F], obs=row)
        opt, err = guarded(lambda: lit.configure_optimizers())
        ok = not err and len(opt) == 2 and len(opt[0]) == 1
        ids = {id(p) for p in lit.parameters()}
        flags("configure_optimizers", inst, err=err, one=ok,
              all_parameters=ok and {id(p) for g in opt[0][0].param_groups for p in g["params"]} == ids,
              rate=ok and abs(opt[0][0].param_groups[0]["lr"] - inst.c.lr) < 1e-12)

    # learning rate schedule
    for E in (4, 7, 11, 12, 13, 19, 33):
        c = conf(epochs=E, lr=RNG.choice([0.1, 0.003]))
        lit = models_pl.SpnGenerative(c, steps_per_epoch=1)
        got = []

        def go():
            (o,), (sch,) = lit.configure_optimizers()
            for _ in range(E):
                got.append(round(o.param_groups[0]["lr"] / c.lr * 100000))
                o.step()
                sch.step()
        _, err = guarded(go)
        ev("lr", f"schedule for {E} epochs", err=err, epochs=E, obs=got)

    # class mixture of the training script
    import main as script

    for inst in insts:
        rows, x = batch(inst, 4)
        x = x * 255 if inst.c.dist == "binomial" else x
        for ys in (None, [RNG.randrange(3 if inst.disc else 1) for _ in rows]):
            out, err = guarded(lambda: script.log_likelihoods(inst.lit.spn(x), None if ys is None else torch.tensor(ys)))
            ok = not err and out.numel() == len(rows)
            ev("post1", "log_likelihoods of the training script" + (" with targets" if ys else ""), inst=inst,
               err=err or ("" if ok else "shape"), xs=rows, ys=[y + 1 for y in ys] if ys else [],
               obs=[milli(v) for v in out.view(-1)] if ok else [])

    # its test run: average loss and accuracy over the whole loader, however it is cut into batches
    import io
    import re
    from contextlib import redirect_stdout
    from types import SimpleNamespace

    def pixels(inst, x):
        """images whose quantised values are x"""
        bits = inst.c.n_bits
        return (x * 2 ** (8 - bits) if inst.c.dist == "categorical" else x) / 255

    quantised = [i for i in insts if i.c.dist in ("binomial", "categorical")]
    for inst in quantised:
        script.n_bits, script.n_bins, script.has_gauss_dist = inst.c.n_bits, 2**inst.c.n_bits, False
        for n, size in ((5, 5), (5, 2), (4, 3), (1, 1)):
            rows, x = batch(inst, n)
            x = x if inst.c.dist == "binomial" else pixels(inst, x)
            ys = [RNG.randrange(inst.m["C"]) for _ in rows]
            ds = torch.utils.data.TensorDataset(x, torch.tensor(ys))
            script.args = SimpleNamespace(classification=inst.disc)
            before = {k: t.clone() for k, t in inst.lit.spn.state_dict().items()}
            x0 = x.clone()

            def tested():
                with redirect_stdout(io.StringIO()) as out:
                    script.test(inst.lit.spn, "cpu", torch.utils.data.DataLoader(ds, batch_size=size), "Some")
                text = out.getvalue()
                loss = re.search(r"Some set: Average loss: (\S+)", text)
                acc = re.search(r"Accuracy: (\S+)", text)
                return float(loss.group(1)), float(acc.group(1)) if acc else None
            got, err = guarded(tested)
            ev("test", f"test run of the script, {n} rows in batches of {size}", inst=inst, err=err, xs=rows, ys=[y + 1 for y in ys],
               obs=0 if err else milli(got[0]), acc=-1 if err or got[1] is None else round(got[1] * 100))
            flags("test run of the script leaves its surroundings alone", inst, data=torch.equal(x, x0),
                  parameters=all(torch.equal(t, before[k]) for k, t in inst.lit.spn.state_dict().items()))

    # its training epochs: one step against the gradient of the objective per batch
    for inst in [i for i in quantised if not i.disc] * (3 if THOROUGH else 1):
        script.n_bits, script.n_bins, script.has_gauss_dist = inst.c.n_bits, 2**inst.c.n_bits, False
        model = copy.deepcopy(inst.lit.spn)
        n = RNG.choice([11, 13])
        rows, x = batch(inst, n)
        x = x if inst.c.dist == "binomial" else pixels(inst, x)
        x0 = x.clone()
        size = 3
        debug, dry = RNG.choice([(False, False), (False, False), (True, False), (False, True)])
        per = 1 if dry else 3 if debug else -(-n // size)
        lr, epochs = 0.01, 2
        steps, losses, marks = [], [], []
        params = lambda: {k: p.detach().clone() for k, p in model.named_parameters()}  # noqa: E731

        class Spy(torch.utils.data.DataLoader):
            def __iter__(self):
                for k, b in enumerate(super().__iter__()):
                    marks.append((k, params(), b))
                    yield b

        def backward(loss):
            losses.append(float(loss))
            loss.backward()

        script.fabric = SimpleNamespace(backward=backward)
        args = SimpleNamespace(debug=debug, dry_run=dry, classification=False, log_interval=RNG.choice([1, 2, 3]))
        ds = torch.utils.data.TensorDataset(x, torch.zeros(n).long())
        ends = []

        def fit():
            opt = torch.optim.SGD(model.parameters(), lr=lr)
            model.eval()
            for e in range(epochs):
                s0 = len(losses)
                script.train(args, model, "cpu", Spy(ds, batch_size=size), opt, e + 1)
                del marks[len(losses):]          # a batch that was fetched, but not used
                ends.append((len(losses) - s0, params(), model.training))
        _, err = guarded(fit, limit=200)
        tag = f"training epochs of the script with {inst.c.dist} leaves debug={debug} dry_run={dry}"
        if not err:
            after = [m for _, m, _ in marks[1:]] + [ends[-1][1]]
            used = 0
            for j, (k, p, b) in enumerate(marks):
                ref_m = copy.deepcopy(model)
                ref_m.load_state_dict({**ref_m.state_dict(), **p})
                q = (b[0] * 255).round()
                q = q if inst.c.dist == "binomial" else q.div(2 ** (8 - inst.c.n_bits)).floor()
                ref = -ref_m(q.long()).logsumexp(-1).mean()
                ref.backward()
                grads = {a: w.grad for a, w in ref_m.named_parameters()}
                moved = [bool(torch.allclose(after[j][a] - p[a], -lr * g, atol=3e-6 + 1e-3 * lr * float(g.abs().max())))
                         for a, g in grads.items() if g is not None]
                steps.append(dict(epoch=j // per, batch=k, of=per, before=j, loss=milli(losses[j]), ref=milli(ref),
                                  fresh=any(not torch.equal(after[j][a], p[a]) for a in p), against=all(moved)))
        ev("run", tag, err=err, inst=inst, epochs=epochs, steps=steps)
        flags(tag, inst, data=torch.equal(x, x0), training=not err and all(t for _, _, t in ends))

    # refused models
    for cls in (models_pl.SpnGenerative, models_pl.SpnDiscriminative):
        for name in ("spn", "", "Einet", "mlp"):
            _, err = guarded(lambda: cls(conf(model=name), steps_per_epoch=1))
            flags(f"{cls.__name__} with model {name!r}", refused="ValueError" in err)
    _, err = guarded(lambda: models_pl.make_einet(conf(dist="poisson")))
    flags("unknown leaf distribution", refused="ValueError" in err)
    for d in Dist:
        if d in (Dist.PIECEWISE_LINEAR, Dist.MULTIVARIATE_NORMAL):
            continue
        for ds in ("wine", "digits"):
            lit, err = guarded(lambda: models_pl.SpnGenerative(conf(dist=d.value, dataset=ds, num_classes=1), 1))
            x = torch.randint(0, 4, (3, *shapes[ds])).float()
            out, err2 = guarded(lambda: lit.training_step((x / 255 if d == Dist.BINOMIAL else x, torch.zeros(3).long()), 0))
            flags(f"a step with {d.value} leaves on {ds}", err=err or err2, finite=not err2 and bool(out.isfinite()))

    # convolutional circuits and mixtures: the step is the model's own likelihood
    for kw in (dict(model="convpc"), dict(model="convpc", convpc=dict(channels=[3, 2], order="prod-sum", structure="bottom-up",
                                                                       kernel_size=2)),
               dict(mixture=True, num_classes=3), dict(model="convpc", mixture=True, num_classes=2)):
        for dist in ("normal", "binomial"):
            c = conf(dataset="digits", dist=dist, **kw)
            lit, err = guarded(lit_of, models_pl.SpnGenerative, c)
            if err:
                flags(f"step of {kw} {dist}", err=err)
                continue
            x = torch.randint(0, 256, (6, 1, 8, 8)).float()
            raw = x / 255 if dist == "binomial" else x
            raw0 = raw.clone()
            if c.mixture:
                lit.spn.initialize(data=raw)
            with torch.no_grad():
                ref, err = guarded(lambda: -lit.spn(x).double().mean())
                out, err2 = guarded(lambda: lit.training_step((raw, torch.zeros(6)), 0))
            cls_ok = not (err or err2)
            flags(f"step of {kw} {dist}", err=err or err2, same=cls_ok and abs(float(ref - out)) <= 1e-4 * (1 + abs(float(ref))),
                  data=torch.equal(raw, raw0), logged=cls_ok and [a for a, _ in lit.log] == ["Train/loss"])
            s, err = guarded(lambda: lit.generate_samples(num_samples=5, differentiable=False))
            flags(f"samples of {kw} {dist}", err=err, shape=not err and tuple(s.shape) == (5, 1, 8, 8),
                  range=not err and (dist != "binomial" or bool(((s >= 0) & (s <= 1)).all())))

    # whole runs through the trainer
    import logging

    import lightning.pytorch as pl
    from lightning.pytorch.loggers import Logger

    logging.getLogger("lightning.pytorch").setLevel(logging.ERROR)
    logging.getLogger("lightning.pytorch.utilities.rank_zero").setLevel(logging.ERROR)

    class Quiet(Logger):
        images = 0
        name = property(lambda self: "q")
        version = property(lambda self: "0")

        def log_metrics(self, metrics, step=None):
            pass

        def log_hyperparams(self, *a, **k):
            pass

        def log_image(self, key, images, **k):
            self.images += len(images)

    for cls, kw, epochs in ((models_pl.SpnGenerative, dict(dist="binomial"), 2), (models_pl.SpnGenerative, dict(dist="normal"), 3),
                            (models_pl.SpnDiscriminative, dict(dist="normal", num_classes=3), 2),
                            (models_pl.SpnDiscriminative, dict(dist="binomial", num_classes=3), 2)):
        c = conf(dataset="digits", epochs=epochs, lr=0.02, einet=dict(D=2, R=2, I=3, layer_type=RNG.choice(["linsum", "einsum"])), **kw)
        tag = f"{cls.__name__} run with {kw['dist']} leaves"
        gen = cls is models_pl.SpnGenerative
        steps = []

        def whole():
            torch.manual_seed(RNG.randrange(10**6))
            lit = cls(c, steps_per_epoch=3)
            x = torch.randint(0, 256, (14, 1, 8, 8)).float()
            if c.dist == "binomial":
                x = x / 255
            else:
                x = x / 64
            y = torch.randint(0, 3, (14,))
            ds = torch.utils.data.TensorDataset(x, y)
            x0 = x.clone()
            inner = lit.training_step
            prev = dict(ver=None, n=0)
            params = lambda: {k: p.detach().clone() for k, p in lit.named_parameters()}  # noqa: E731

            def step(train_batch, batch_idx):
                b, k = train_batch, batch_idx
                now = params()
                if prev["ver"] is not None:
                    st = steps[-1]
                    st["against"] = against(prev["ver"], now, prev["grad"])
                    st["fresh"] = any(not torch.equal(now[a], prev["ver"][a]) for a in now)
                before = sum(s["fresh"] for s in steps)
                ref_m = copy.deepcopy(lit.spn)
                data = b[0] * 255.0 if c.dist == "binomial" else b[0]
                with torch.no_grad():
                    if gen:
                        ref = -ref_m(data).mean()
                    else:
                        ll = ref_m(data)
                        ref = -(ll - ll.logsumexp(1, keepdim=True))[torch.arange(len(ll)), b[1]].mean()
                loss = inner(b, k)
                idx = [int((x0.view(14, -1) == r.view(-1)).all(1).nonzero()[0]) for r in b[0]]
                want = list(range(5 * k, min(14, 5 * k + 5)))
                g = torch.autograd.grad(loss, [p for p in lit.parameters() if p.requires_grad], retain_graph=True)
                prev.update(ver=now, grad=dict(zip([n_ for n_, p in lit.named_parameters() if p.requires_grad], g)))
                steps.append(dict(epoch=lit.current_epoch, batch=k if idx == want else 99, of=3, before=before,
                                  loss=milli(loss), ref=milli(ref), fresh=True, against=True))
                return loss

            def against(a, b, grad):
                # Adam: the first step is opposite to the gradient in every coordinate
                if len(steps) > 1:
                    return True
                for k, g in grad.items():
                    big = g.abs() > 1e-4
                    if not bool((((b[k] - a[k]) * g)[big] < 0).all()):
                        return False
                return True

            lit.training_step = step
            log = Quiet()
            tr = pl.Trainer(max_epochs=epochs, logger=log, enable_checkpointing=False, enable_progress_bar=False,
                            enable_model_summary=False, accelerator="cpu", default_root_dir=SCRATCH, log_every_n_steps=1,
                            num_sanity_val_steps=0)
            tr.fit(lit, torch.utils.data.DataLoader(ds, batch_size=5, shuffle=False),
                   torch.utils.data.DataLoader(ds, batch_size=7))
            res = tr.test(lit, [torch.utils.data.DataLoader(ds, batch_size=14)] * 3, verbose=False)
            with torch.no_grad():
                data = x * 255.0 if c.dist == "binomial" else x
                ll = copy.deepcopy(lit.spn).eval()(data)
                post = ll - ll.logsumexp(1, keepdim=True)
                want = float(-ll.mean()) if gen else float((post.argmax(1) == y).float().mean())
            got = {k: v for r in res for k, v in r.items()}
            names = [f"Test/{s}_" + ("nll" if gen else "accuracy") for s in ("train", "val", "test")]
            return torch.equal(x, x0), log.images, [abs(got.get(n_, 1e9) - want) <= 1e-4 * (1 + abs(want)) for n_ in names], sorted(got) == sorted(names)

        out, err = guarded(whole, limit=200)
        ev("run", tag, err=err, epochs=epochs, steps=steps)
        if not err:
            flags(tag, data=out[0], images=not gen or out[1] == epochs, tested=all(out[2]), names=out[3])

    r = run_tlc("Training", "SPECIFICATION Spec\nINVARIANT Conforms\n", dict(models=models, events=events), extra=["-continue"],
                timeout=800)
    ck.traces += len(events)
    ck.extra["modules"] = len(insts)
    ck.judge(events, r, lambda e: e["tag"], "Training")


main("C25", run)
