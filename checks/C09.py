"""C09: results never depend on earlier calls, not even on failed ones."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, main  # noqa: E402


def run(ck):
    import session

    rp = session.Replay(ck)
    faults = 0
    for sj in session.subjects():
        # histories drawn by TLC
        A = session.alphabet(sj, RNG, ("fwd", "det", "cache", "smp", "seed", "fail", "fault", "set", "mode", "rng"))
        for h in session.histories(ck, A, 24, simulate=60 if THOROUGH else 8):
            rp.run_history(sj, h, RNG)
        # the same tensor filled with new data
        for _ in range(6 if THOROUGH else 2):
            A = session.alphabet(sj, RNG, ("buf", "set", "mode"))
            for h in session.histories(ck, A, 12, simulate=6 if THOROUGH else 3):
                rp.run_history(sj, h, RNG)
        # a fault at every point of a call, then probes
        n = sj.n
        probes = [dict(k="smp", a=0, seed=0), dict(k="fwd", rows=[1, n + 1, n + 2, 4], mg=0, ci=0), dict(k="smp", a=1, seed=2),
                  dict(k="mpe", rows=[n + 1, n + 3], mg=0, v=0), dict(k="smp", a=1, seed=0)]
        if "post" in sj.caps:
            probes.append(dict(k="post", rows=[2, n + 2]))
        for a in range(6):
            for seed in ((0, 3) if a in (0, 2, 4) else (0,)):
                op = dict(k="fail", a=3 + a, seed=seed, n=0)
                rp.run_history(sj, [op] + probes[:2], RNG)
                total = sj.n_inject(3 + a, seed)
                pts = range(1, total)
                if not THOROUGH:
                    pts = RNG.sample(pts, min(len(pts), 9))
                for k in pts:
                    pr = RNG.sample(probes, 3)
                    rp.run_history(sj, [dict(op, n=k, base=RNG.random() < 0.3)] + pr, RNG)
                    faults += 1
    ck.extra["fault_points"] = faults
    rp.run(timeout=3000 if THOROUGH else 800)


main("C09", run)
