"""C16: returned leaf parameters belong to the leaves that are sampled."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, guarded, main  # noqa: E402


def run(ck):
    import circ
    import drive

    insts = circ.make(circ.grid() + circ.rand_insts(150 if THOROUGH else 25), ck)
    rec = drive.Rec(ck, insts)
    N = 60000 if THOROUGH else 15000
    for inst in insts:
        C, K, R = (inst.cfg[k] for k in ("num_classes", "num_leaves", "num_repetitions"))
        # parameters that identify their leaf
        # (shifted by far too little to matter)
        bl = circ.base_leaf(inst.model)
        for b in (bl.dists if inst.leaf == "multi" else [bl]):
            for name in ("logits", "logits_p", "probs", "logvar", "stds"):
                p = getattr(b, name, None)
                if p is not None and p.dim() >= 5:
                    ids = drive.torch.arange(K).view(K, 1) + K * drive.torch.arange(R).view(1, R)
                    p.data += 2e-3 * ids.view(*[1] * 3, K, R, *[1] * (p.dim() - 5))
        xs = drive.evidence_rows(inst, RNG, 2, cap=60)
        mrows = drive.evidence_rows(inst, RNG, 6)
        for diff in (False, True):
            d = " (differentiable)" if diff else ""
            calls = [("leaf parameters", dict(num_samples=N, **({"class_index": C - 1} if C > 1 else {})), C, None)]
            if C > 1:
                calls.append(("leaf parameters, no class", dict(num_samples=N), 0, None))
            calls.append(("leaf parameters given evidence", dict(evidence=circ.encode(inst, xs).repeat(N // 2, 1, 1)), 0, xs))
            for tag, kw, cls, ev in calls:
                n = kw["evidence"].shape[0] if ev else N
                p, err = guarded(lambda: inst.model.sample(return_leaf_params=True, is_differentiable=diff, **kw))
                if not err and (p.dim() != 4 or tuple(p.shape[:3]) != (n, inst.CH, inst.F)):
                    err = f"shape {tuple(p.shape)}"
                if err:
                    rec.ev(inst, "hist", tag + d, err=err, obs=[])
                    continue
                ids = drive.leaf_ids(inst, p)
                if ev is None:
                    rec.hist(inst, ids, None, cls, tag + d, ids=K * R, emit="leaf", cap=400)
                else:
                    ids = ids.view(n // len(xs), len(xs), inst.CH, inst.F)
                    for j, x in enumerate(xs):
                        rec.hist(inst, ids[:, j], x, cls, tag + d, ids=K * R, emit="leaf", cap=400)
            for tag, kw in (("leaf parameters of mpe", dict(evidence=circ.encode(inst, mrows), is_mpe=True)),):
                p, err = guarded(lambda: inst.model.sample(return_leaf_params=True, is_differentiable=diff, **kw))
                if not err and (p.dim() != 4 or tuple(p.shape[:3]) != (len(mrows), inst.CH, inst.F)):
                    err = f"shape {tuple(p.shape)}"
                if err:
                    rec.ev(inst, "mpe", tag + d, err=err)
                else:
                    rec.mpe(inst, drive.leaf_ids(inst, p), mrows, tag + d, ids=True)
    ck.extra["instances"] = len(insts)
    rec.run()


main("C16", run)
