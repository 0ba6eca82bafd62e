"""C12: inputs stay untouched, layouts are equivalent, rows are independent."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, main  # noqa: E402


def run(ck):
    import session

    rp = session.Replay(ck)
    for j, sj in enumerate(session.subjects()):
        for _ in range(12 if THOROUGH else 3):
            A = session.alphabet(sj, RNG, ("fwd", "layout", "det", "smp", "seed"))
            rp.run_history(sj, A, RNG)
            A = session.alphabet(sj, RNG, ("fwd", "layout", "det"))
            for h in session.histories(ck, A, 14, simulate=12 if THOROUGH else 3):
                rp.run_history(sj, h, RNG)
        # big batches of repeated and permuted rows
        n = 2 * sj.n
        for size in (1, 2, 7, 64, 300):
            rows = [RNG.randint(1, n) for _ in range(size)]
            rp.run_history(sj, [dict(k="fwd", rows=rows, mg=m, ci=0, layout=L) for m in (0, 2) for L in ("3d", "4dt")]
                           + [dict(k="mpe", rows=[sj.n + 1 + r % sj.n for r in rows], mg=m, v=0, layout=L)
                              for m in (0, 1) for L in ("3d", "4d")]
                           + ([dict(k="post", rows=rows)] if "post" in sj.caps else []), RNG)
        rows = [RNG.randint(1, n) for _ in range(1100)]
        rp.run_history(sj, [dict(k="fwd", rows=rows, mg=0, ci=0, layout="3d")], RNG)
        if "post" in sj.caps:
            rp.run_history(sj, [dict(k="post", rows=rows)], RNG)
    rp.run(timeout=3000 if THOROUGH else 800)


main("C12", run)
