"""C11: the leaf cache is transparent until it is reset."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, main  # noqa: E402


def run(ck):
    import session

    rp = session.Replay(ck)
    subs = [s for s in session.subjects() if "cache" in s.caps]
    for j, sj in enumerate(subs):
        A = session.alphabet(sj, RNG, ("cachex", "set"))
        hs = session.histories(ck, A, 5 if THOROUGH else 4, cap=4000 if THOROUGH else 250, timeout=900)
        for h in hs:
            rp.run_history(sj, h, RNG)
        A = session.alphabet(sj, RNG, ("fwd", "cache", "cachex", "set", "smp", "det", "mode", "fault"))
        for h in session.histories(ck, A, 30, simulate=80 if THOROUGH else 15):
            rp.run_history(sj, h, RNG)
    # many indices, large batches
    many = session.Replay(ck)
    many.NC = 40
    for sj in subs:
        n = 2 * sj.n
        for _ in range(4 if THOROUGH else 1):
            ops = []
            for step in range(110):
                z = RNG.random()
                if z < 0.04:
                    ops.append(dict(k="leaf", v=RNG.randrange(3), style=RNG.randrange(3)))
                elif z < 0.06:
                    ops.append(dict(k="sum", v=RNG.randrange(3), style=RNG.randrange(3)))
                elif z < 0.07:
                    ops.append(dict(k="reset"))
                else:
                    ci = step % 40 + 1 if z < 0.8 else RNG.randrange(1, 41)
                    ops.append(dict(k="fwd", rows=[RNG.randint(1, n) for _ in range(RNG.choice([1, 2, 2, 3]))], mg=RNG.choice([0, 0, 1]),
                                    ci=ci, g=RNG.randrange(2)))
            # small and large numbers, numbers that agree in their last digits or bits
            base = RNG.sample(range(8), 4)
            big = [2**k for k in range(3, 31)] + [10**k for k in range(1, 10)] + [1000003, 65521, 10007, 8191]
            far = {m + d + RNG.choice(base) for m in big for d in (0, 0, -1, 1)} - set(base)
            sj.ci_map = RNG.choice([None, base + RNG.sample(sorted(far), 36)])
            many.run_history(sj, ops, RNG)
            sj.ci_map = None
        # pairs of indices
        for _ in range(6 if THOROUGH else 2):
            base = RNG.randrange(8)
            sj.ci_map = [base] + [base + m for m in RNG.sample(big, 39)]
            ops = [dict(k="fwd", rows=[j % n + 1], mg=0, ci=j + 1, g=j % 2) for j in RNG.sample(range(40), 40)]
            ops += [dict(k="fwd", rows=[RNG.randint(1, n)], mg=0, ci=j + 1) for j in range(40)]
            many.run_history(sj, ops, RNG)
            sj.ci_map = None
        for size in RNG.sample([65, 129, 300, 513, 700, 1025, 1500], 7 if THOROUGH else 3):
            R = [[RNG.randint(1, n) for _ in range(size)] for _ in range(2)]
            S = [RNG.randint(1, n) for _ in range(5)]
            ops = [dict(k="fwd", rows=R[0], mg=0, ci=1, g=RNG.randrange(2)), dict(k="fwd", rows=R[0], mg=0, ci=0),
                   dict(k="fwd", rows=R[1], mg=0, ci=2), dict(k="leaf", v=1, style=1), dict(k="fwd", rows=R[0], mg=0, ci=1, g=1),
                   dict(k="fwd", rows=S, mg=0, ci=2), dict(k="reset"), dict(k="fwd", rows=S, mg=0, ci=1),
                   dict(k="fwd", rows=R[1], mg=0, ci=1)]
            many.run_history(sj, ops, RNG, oracle=size < 600)
    many.run(timeout=3000 if THOROUGH else 800)
    rp.run(timeout=3000 if THOROUGH else 800)


main("C11", run)
