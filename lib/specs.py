"""Runs of the specifications alone (design level), on the exported circuits."""
import drive
from vlib import MachineryError, run_tlc


def sampler(ck, insts, rng, n_ev=2, timeout=600):
    """Check the sampling state machine on the given instances."""
    models = [i.m for i in insts]
    starts = []
    for j, inst in enumerate(insts):
        anyx = [[-1] * inst.F for _ in range(inst.CH)]
        C = inst.cfg["num_classes"]
        rows = [anyx] + drive.evidence_rows(inst, rng, n_ev, min_holes=1)
        for x in rows:
            for mpe in (False, True):
                for cls in ([0, C] if C > 1 and x is anyx else [0]):
                    starts.append(dict(m=j + 1, x=x, cls=cls, mpe=mpe))
    cfg = "SPECIFICATION Spec\n" + "".join(
        f"INVARIANT {i}\n" for i in ("LocalBalance", "EvidenceKept", "Decomposes", "Complete", "Supported"))
    r = run_tlc("Sampler", cfg, dict(models=models, starts=starts), timeout=timeout)
    if r.rc != 0:
        raise MachineryError(f"the specification of the sampler violates {r.violated}:\n" + r.out[-3000:])
    ck.add_tlc(r)
    ck.extra["sampler_spec_states"] = r.states
    return r
