"""Black-box conformance of any density: events for DistTrace (only recorded numbers are
compared with each other and with exact integer bookkeeping)."""
from drive import torch
from vlib import run_tlc

UNIT = 2**24


class DistRec:
    def __init__(self, ck):
        self.ck = ck
        self.events = []

    def ev(self, k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        self.events.append(kw)
        self.ck.sample(kw)

    @staticmethod
    def units(p, unit=UNIT):
        p = p.detach().double()
        q = torch.where(p.isfinite(), p * unit, torch.full_like(p, -1.0)).round().clamp(-1, 2**30)
        return q.long().tolist()

    def normalised(self, tag, ll, err, cell=1.0, tol=400):
        """ll: [N, C] log densities of all assignments."""
        if err:
            return self.ev("norm", tag, err=err)
        p = ll.detach().double().exp() * cell
        for c in range(p.shape[1]):
            col = p[:, c]
            # many small entries are summed before rounding
            if len(col) > 4000:
                col = torch.stack([b.sum() for b in col.split(len(col) // 500)])
            self.ev("norm", tag + f" class {c}", obs=self.units(col), tol=tol)

    def finite(self, tag, ll, err):
        if err:
            return self.ev("count", tag, err=err)
        bad = (ll.isnan() | (ll == float("inf")) | (ll == -float("inf"))).sum()
        self.ev("count", tag, obs=int(bad), exp=0, n=ll.numel())

    def equal(self, tag, a, b, err="", tol=2e-5, unit=2**20):
        """Two recorded tensors (log densities) that should agree as densities / numbers."""
        if not err and a.shape != b.shape:
            err = f"shapes {tuple(a.shape)} {tuple(b.shape)}"
        if err:
            return self.ev("same", tag, err=err)
        a, b = a.detach().double().reshape(-1), b.detach().double().reshape(-1)
        both = (a.isnan() & b.isnan()) | (a == b)
        d = torch.where(both, torch.zeros_like(a), (a - b).abs() / (1 + b.abs()))
        d = torch.where(d.isfinite(), d, torch.full_like(d, 1e3)).clamp(max=1e3)
        self.ev("same", tag, obs=int((d.max() * unit).round()) if len(d) else 0, tol=int(tol * unit) + 1, n=len(d))

    def marginal(self, tag, p, parts, tol=600):
        """p = sum of parts (densities)."""
        self.ev("marg", tag, obs=self.units(p.reshape(1))[0], parts=self.units(parts.reshape(-1)), tol=tol)

    def freq(self, tag, counts, weights, other=0, err=""):
        """counts[j] draws of outcome j, proportional to the recorded densities weights[j]."""
        if err:
            return self.ev("freq", tag, err=err)
        w = weights.detach().double()
        w = w / w.sum()
        self.ev("freq", tag, obs=[int(c) for c in counts], w=self.units(w), other=int(other), N=int(sum(counts)) + int(other))

    def quantiles(self, tag, z, err=""):
        """z should be standard normal: the sixteenths of its distribution occur equally often."""
        if err:
            return self.ev("freq", tag, err=err)
        z = z.detach().double()
        edges = [-1.5341205443525463, -1.1503493803760079, -0.8871465590188759, -0.6744897501960817, -0.4887764111146695,
                 -0.31863936396437514, -0.15731068461017067]
        edges = torch.tensor(edges + [0.0] + [-e for e in reversed(edges)], dtype=torch.float64)
        bad = ~z.isfinite()
        cnt = torch.bincount(torch.bucketize(z[~bad], edges), minlength=16)
        self.freq(tag, cnt.tolist(), torch.ones(16), other=int(bad.sum()))

    def flags(self, tag, **obs):
        self.ev("flags", tag, obs={k: bool(v) for k, v in obs.items()})

    def run(self, timeout=600):
        if not self.events:
            return
        r = run_tlc("DistTrace", "SPECIFICATION Spec\nINVARIANT Conforms\n", dict(events=self.events), extra=["-continue"],
                    timeout=timeout)
        self.ck.traces += len(self.events)
        self.ck.judge(self.events, r, lambda e: e["tag"], "DistTrace")
        return r
