"""C22: saving and restoring a model preserves it completely, at any point of its life."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, main  # noqa: E402


def run(ck):
    import session

    rp = session.Replay(ck)
    for j, sj in enumerate(session.subjects()):
        probes = session.alphabet(sj, RNG, ("fwd", "det", "seed"))
        for via in ("deepcopy", "pickle", "save", "load"):
            op = dict(k="copy", via=via, src=1)
            rp.run_history(sj, [op] + probes, RNG)
            pre = [dict(k="leaf", v=1), dict(k="sum", v=1)] + RNG.sample(probes, 4)
            rp.run_history(sj, pre + [op] + RNG.sample(probes, 6) + [dict(k="sum", v=0), op] + RNG.sample(probes, 4), RNG)
        A = session.alphabet(sj, RNG, ("fwd", "det", "cache", "smp", "seed", "set", "mode", "copy", "ckpt", "fault"))
        for h in session.histories(ck, A, 25, simulate=60 if THOROUGH else 10):
            rp.run_history(sj, h, RNG)
        A = session.alphabet(sj, RNG, ("set", "copy", "ckpt", "cachex")) + RNG.sample(probes, 3)
        for h in session.histories(ck, A, 4 if THOROUGH else 3, cap=2000 if THOROUGH else 120):
            rp.run_history(sj, h, RNG)
    rp.run(timeout=3000 if THOROUGH else 800)


main("C22", run)
