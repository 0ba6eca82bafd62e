"""C10: seeded sampling is reproducible and leaves the global random state untouched."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, main  # noqa: E402


def run(ck):
    import session

    rp = session.Replay(ck)
    some = RNG.sample(range(len(session.subjects())), 2)
    for j, sj in enumerate(session.subjects()):
        # every pair of calls of a small alphabet, in both orders
        A = [dict(k="smp", a=a, seed=s) for a in RNG.sample(range(8), 3) for s in (0, 1, 2)] + [
            dict(k="rng", v=4), dict(k="fail", a=3, seed=2, n=RNG.randrange(10**6)), dict(k="fail", a=2, seed=1)]
        for h in session.histories(ck, A, 3 if THOROUGH else 2):
            rp.run_history(sj, h, RNG)
        A = session.alphabet(sj, RNG, ("fwd", "smp", "seed", "fail", "fault", "set", "rng", "mode"))
        for h in session.histories(ck, A, 30, simulate=60 if THOROUGH else 8):
            rp.run_history(sj, h, RNG)
        # seeds that differ in a single bit
        base = RNG.randrange(1, 1000)
        ops = [dict(k="smp", a=a, seed=base) for a in (0, 1)]
        for k in range(8, 31):
            ops += [dict(k="smp", a=RNG.choice([0, 0, 1]), seed=base + 2**k)]
        rp.run_history(sj, ops + ops[:2], RNG)
        # seeds of either sign
        ops = []
        for _ in range(3):
            s = RNG.randrange(1, 10**6)
            for a in RNG.sample(range(8), 2):
                ops += [dict(k="smp", a=a, seed=s + 1), dict(k="smp", a=a, seed=-s), dict(k="smp", a=a, seed=s + 1)]
        rp.run_history(sj, ops, RNG)
        # no two of many numbers near powers of two and ten are the same seed
        if THOROUGH or j in some:
            near = sorted({b + d for b in [2**k for k in range(4, 31)] + [10**k for k in range(1, 10)] for d in (*range(-3, 10), -15, -17)})
            RNG.shuffle(near)
            for part in (near[::2], near[1::2]):
                rp.run_history(sj, [dict(k="smp", a=0, seed=s + 1) for s in [*range(10), *[s for s in part if s > 9]]], RNG, oracle=False)
        # every argument list with several seeds, between random other states
        ops = []
        for a in range(9):
            for s in (1, 2, 3, 1, 70001):
                ops += [dict(k="smp", a=a, seed=s)] + ([dict(k="smp", a=RNG.randrange(8), seed=0)] if RNG.random() < 0.3 else [])
            for k in (5, 5, 6):
                ops += [dict(k="rng", v=k), dict(k="smp", a=a, seed=0)]
        rp.run_history(sj, ops, RNG)
    rp.run(timeout=3000 if THOROUGH else 800)


main("C10", run)
