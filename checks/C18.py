"""C18: a multi-distribution leaf gives each feature its own distribution."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, MachineryError, guarded, main, run_tlc  # noqa: E402


def forms():
    import numpy as np
    import torch

    return [list, tuple, np.array, torch.tensor]


def scope_event(torch, s, F, form):
    """Which distribution variable models each feature, as seen by every kind of call."""
    from simple_einet.layers.distributions.bernoulli import Bernoulli
    from simple_einet.layers.distributions.multidistribution import MultiDistributionLayer
    from simple_einet.layers.distributions.normal import Normal
    from simple_einet.sampling_utils import SamplingContext

    P = len(s)
    fams = [Normal if (p + F) % 2 else Bernoulli for p in range(P)]
    leaf, err = guarded(lambda: MultiDistributionLayer([(form(sc), fam, {}) for sc, fam in zip(s, fams)], F, 1, 2))
    e = dict(s=s, F=F, accepted=not err, err="", calls=[])
    if err:
        return e
    code = {}
    for p, (sc, d) in enumerate(zip(s, leaf.dists)):
        for j in range(len(sc)):
            v = 1 + 4 * p + j
            code[v] = [p + 1, j + 1]
            if isinstance(d, Normal):
                d.means.data[0, 0, j] = float(v)
                d.logvar.data[0, 0, j] = -20.0
            else:
                d.probs.data[0, 0, j] = float(v)

    def note(name, vals):
        e["calls"].append(dict(call=name, owner=[code.get(int(round(float(v))), [0, 0]) for v in vals]))

    # likelihood: a Bernoulli variable tells its logit, a Normal one its mean
    x1, x0 = torch.ones(1, 1, F), torch.zeros(1, 1, F)
    ll, er = guarded(lambda: (leaf(x1), leaf(x0)))
    if er:
        e["err"] = er
        return e
    own = []
    for f in range(F):
        a, b = ll[0][0, 0, f, 0, 0], ll[1][0, 0, f, 0, 0]
        if abs(float(a - b)) < 40:
            own.append(a - b)
        else:   # Normal with variance exp(-20): the difference is (2 mu - 1) / (2 exp(-20))
            own.append(((a - b) * 2 * torch.exp(torch.tensor(-20.0)) + 1) / 2)
    note("likelihood", own)
    pr, er = guarded(lambda: leaf.get_params())
    if er:
        e["err"] = er
        return e
    pr = pr if pr.dim() == 6 else pr.unsqueeze(-1)
    note("parameters", pr[0, 0, :, 0, 0, 0])
    # the selected leaves' parameters and samples
    for ret in (True, False):
        ctx = SamplingContext(num_samples=4, indices_out=torch.zeros(4, F, dtype=torch.long),
                              indices_repetition=torch.zeros(4, dtype=torch.long), return_leaf_params=ret)
        y, er = guarded(lambda: leaf.sample(ctx))
        if er:
            e["err"] = er
            return e
        if ret:
            note("returned parameters", y[0, 0, :, 0])
        else:
            # Normal variables emit their mean, Bernoulli ones only 0 or 1
            own = []
            for f in range(F):
                q = next(((p, j) for p, sc in enumerate(s) for j, g in enumerate(sc) if g == f), None)
                v = float(y[0, 0, f])
                if q is None:
                    own.append(0)
                elif fams[q[0]] is Normal:
                    own.append(v)
                else:
                    own.append(1 + 4 * q[0] + q[1] if v in (0.0, 1.0) else 0)
            note("samples", own)
    # marginalised features only
    for f in range(F):
        m, er = guarded(lambda: leaf(x1, marginalized_scopes=[f]))
        if er:
            e["err"] = er
            return e
        z = (m[0, 0, :, 0, 0] == 0).tolist()
        if z != [g == f for g in range(F)]:
            e["err"] = f"marginalising {f} silences {z}"
    return e


def run(ck):
    import circ
    import drive
    import logc
    from circ import Inst, cfg

    torch = drive.torch
    # ---- scope lists
    events = []
    for F, elems, lists, cap in ((2, 3, 3, 400), (3, 4, 3, 900), (4, 5, 2, 300)):
        r = run_tlc("MultiScopes", "SPECIFICATION Spec\nINVARIANT Exact\nPROPERTY Tight\nINVARIANT Emit\n",
                    dict(F=F, elems=elems, lists=lists, events=[]), timeout=300)
        if r.rc != 0:
            raise MachineryError(r.out[-2000:])
        ck.add_tlc(r)
        alls = sorted({str(s): s for s in r.emitted}.values(), key=str)
        valid = [s for s in alls if sorted(v for p in s for v in p) == list(range(F))]
        rest = [s for s in alls if s not in valid]
        near = [s for s in rest if len({v for p in s for v in p} & set(range(F))) >= F - 1]
        for s in valid + RNG.sample(near, min(cap, len(near))) + RNG.sample(rest, min(cap // 3, len(rest))):
            events.append(scope_event(torch, s, F, RNG.choice(forms())))
    ck.extra["scope_lists"] = len(events)
    r = run_tlc("MultiTrace", "SPECIFICATION TSpec\nINVARIANT Conforms\n", dict(F=0, elems=0, lists=0, events=events),
                extra=["-continue"], timeout=300)
    ck.traces += len(events)
    ck.judge(events, r, lambda e: f"scopes {e['s']} accepted={e['accepted']} {e['err'][:60]}", "MultiTrace")

    # ---- exact circuits with such leaves
    M = [
        (cfg(4, 1, R=1, K=2), [([3, 0], "binom"), ([1, 2], "cat")]),
        (cfg(5, 2, R=2, C=2, K=2), [([4], "bern"), ([2, 0], "cat"), ([1, 3], "binom")]),
        (cfg(4, 1, R=2, K=2, structure="bottom-up"), [([2, 1], "bern"), ([3, 0], "cat")]),
        (cfg(3, 1, R=1, C=2, K=2, layer="einsum"), [([1], "cat"), ([2, 0], "bern")]),
        (cfg(3, 1, R=2, K=2, CH=2, layer="linsum2"), [([0, 2], "cat"), ([1], "bern")]),
        (cfg(4, 0, R=1, K=3), [([0, 1, 2, 3], "cat")]),
        (cfg(4, 2, R=2, K=2), [([0, 1], "bern"), ([2, 3], "cat")]),
        (cfg(4, 1, R=1, K=2), [([2], "cat"), ([0], "cat"), ([3], "cat"), ([1], "bern")]),
        (cfg(4, 1, R=1, C=2, K=2, layer="linsum2"), [([3], "binom"), ([1], "binom"), ([0], "binom"), ([2], "binom")]),
        (cfg(4, 1, R=2, K=2, structure="bottom-up"), [([1], "bern"), ([0], "bern"), ([2], "bern"), ([3], "bern")]),
    ]
    insts = []
    for j, (c, parts) in enumerate(M):
        i = Inst(c, "multi", V=2, leafden=3, wden=3, name=f"multi{j}-{c['structure'][:3]}-{c['layer_type']}")
        i.multi = parts
        insts.append(i)
    insts = circ.make(insts, ck)
    rec = drive.Rec(ck, insts)
    N = 60000 if THOROUGH else 15000
    for inst in insts:
        C = inst.cfg["num_classes"]
        rec.wf(inst)
        xs = list(circ.all_inputs(inst, True))
        rec.dens(inst, RNG.sample(xs, min(len(xs), 400 if THOROUGH else 60)), "likelihood with NaN")
        for _ in range(6):
            pat = RNG.sample(range(inst.F), RNG.randrange(1, inst.F + 1))
            rows = [circ.rand_input(inst, RNG, 0.2) for _ in range(3)]
            want = [[[-1 if f in pat else v for f, v in enumerate(ch)] for ch in r] for r in rows]
            rec.dens(inst, rows, "marginalized_scopes", spec_xs=want, marginalized_scopes=drive.shuffled(pat))
        for c in range(C):
            rec.sample(inst, N, cls=c + 1, tag="sample", pairs=True, **({"real_cls": c} if C > 1 else {}))
        ev = drive.evidence_rows(inst, RNG, 3, cap=100)
        rec.conditional(inst, ev, N // 3, "conditional")
        rows = [rec.any_(inst)] + drive.evidence_rows(inst, RNG, 16)
        s, err = guarded(lambda: inst.model.mpe(evidence=circ.encode(inst, rows)))
        if err:
            rec.ev(inst, "mpe", "mpe", err=err)
        else:
            rec.mpe(inst, circ.decode(inst, s), rows, "mpe")
        # parameters of the sampled leaves
        K, R = inst.cfg["num_leaves"], inst.cfg["num_repetitions"]
        for b in circ.base_leaf(inst.model).dists:
            for name in ("logits", "probs"):
                p = getattr(b, name, None)
                if p is not None and p.dim() >= 5:
                    ids = torch.arange(K).view(K, 1) + K * torch.arange(R).view(1, R)
                    p.data += 2e-3 * ids.view(*[1] * 3, K, R, *[1] * (p.dim() - 5))
        kw = {"class_index": C - 1} if C > 1 else {}
        p, err = guarded(lambda: inst.model.sample(num_samples=N, return_leaf_params=True, **kw))
        if not err and (p.dim() != 4 or tuple(p.shape[:3]) != (N, inst.CH, inst.F)):
            err = f"shape {tuple(p.shape)}"
        if err:
            rec.ev(inst, "hist", "leaf parameters", err=err, obs=[])
        else:
            rec.hist(inst, drive.leaf_ids(inst, p), None, C, "leaf parameters", ids=K * R, emit="leaf", cap=400)
    rec.run()

    # ---- mixed families, any magnitude
    parts = []
    for j, sh in enumerate(logc.SHAPES[: None if THOROUGH else 14]):
        F = sh[0]
        idx = list(range(F))
        RNG.shuffle(idx)
        k = RNG.randrange(2, min(F, 4) + 1)
        cuts = sorted(RNG.sample(range(1, F), k - 1))
        fams = [("norm", 2), ("cat", 3), ("bern", 2), ("binom", 4), ("cat", 2), ("binom", 2)]
        RNG.shuffle(fams)
        fams[j % 3] = ("norm", 2)
        if j % 4 == 3 and F >= 6:                        # several of one kind and size
            k = F // 2
            cuts = [2 * p for p in range(1, k)]
            fams = [fams[0]] * k
        parts.append([(idx[a:b], *fams[p]) for p, (a, b) in enumerate(zip([0] + cuts, cuts + [F]))])
    big = []
    for j, (sh, pt) in enumerate(zip(logc.SHAPES, parts)):
        F, d, R, C, K, S, CH, layer, st = sh
        i = logc.LInst(circ.cfg(F, d, R, C, K, S, CH, layer, st), "multi", 0, 3, 8, 8,
                       f"mixed{j}-{st[:3]}-{layer}-d{d}-F{F}-R{R}", 77 + j + 1000 * RNG.randrange(1000), parts=pt,
                       form=RNG.choice(forms()))
        got, err = guarded(logc.build, i)
        if err:
            ck.violation(f"build {i.name}", {"config": str(i.cfg), "parts": pt, "error": err})
        else:
            big.append(i)
    lrec = logc.LogRec(ck, big)
    n = 16 if THOROUGH else 6
    for inst in big:
        C = inst.cfg["num_classes"]
        lrec.ll(inst, lrec.rows(inst, n, RNG.choice([0, 0.3, 0.6])), "likelihood")
        ev = lrec.rows(inst, n, RNG.choice([0.3, 0.7, 1.0]))
        x = lrec.encode(inst, ev)
        for tag, f, sl in (("mpe", lambda: inst.model.mpe(evidence=x), 0),
                           ("conditional", lambda: inst.model.sample(evidence=x), 18000),
                           ("differentiable mpe", lambda: inst.model.mpe(evidence=x, is_differentiable=True), 0)):
            s, err = guarded(f)
            lrec.reach(inst, ev, s, tag, err, slack=sl)
        anyx = [[[logc.NOVAL] * inst.F for _ in range(inst.CH)]] * n
        s, err = guarded(lambda: inst.model.sample(num_samples=n, **({"class_index": C - 1} if C > 1 else {})))
        lrec.reach(inst, anyx, s, "sample", err, slack=18000, cls=C)
    ck.extra["instances"] = len(insts) + len(big)
    lrec.run()


main("C18", run)
