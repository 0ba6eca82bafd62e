"""C29: initialising Gaussian leaves from data centres them on the data."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc, setup_paths  # noqa: E402


def run(ck):
    setup_paths()
    torch = load_torch()
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal, RatNormal
    from simple_einet.mixture import Mixture
    from simple_einet.sampling_utils import init_einet_stats

    r = run_tlc("InitStats", "SPECIFICATION SSpec\nINVARIANT WholeColumn\nINVARIANT VarLaw\nCONSTANTS\nValues = {0, 1, 4}\n"
                f"MaxLen = {7 if THOROUGH else 5}\n", {}, extra=["-deadlock"])
    if r.rc != 0:
        raise MachineryError(f"InitStats: {r.violated}\n" + r.out[-2000:])
    ck.add_tlc(r)
    events = []

    def ev(k, tag, err="", **kw):
        kw.update(k=k, tag=tag, err=err)
        events.append(kw)
        ck.sample({a: (b if not isinstance(b, list) else b[:2]) for a, b in kw.items()})

    def flags(tag, err="", **obs):
        ev("flags", tag, err=err, obs={k: bool(v) for k, v in obs.items()})

    def units(t):
        q = t.detach().double() * 200
        return torch.where(q.isfinite(), q, torch.full_like(q, 1e7)).clamp(-1e7, 1e7).round().long().tolist()

    def loader(x, size, form):
        """form: how the batches are delivered"""
        y = torch.zeros(len(x))
        if form == "list":
            return [(x[j:j + size], y[j:j + size]) for j in range(0, len(x), size)]
        ds = torch.utils.data.TensorDataset(x, y)
        return torch.utils.data.DataLoader(ds, batch_size=size, shuffle=form == "shuffled")

    for n in range(120 if THOROUGH else 40):
        st = "bottom-up" if n % 4 == 3 else "top-down"
        CH = RNG.choice([1, 1, 2, 3])
        hw = RNG.choice([(1, 4), (2, 3), (1, 7), (3, 3)])
        F = hw[0] * hw[1]
        R = RNG.choice([1, 2, 5])
        K = RNG.choice([1, 3, 8])
        cfg = EinetConfig(num_features=F, num_channels=CH, num_sums=2, num_leaves=K, num_repetitions=R, depth=RNG.choice([0, 1, 2]),
                          num_classes=RNG.choice([1, 2]), leaf_type=Normal, structure=st)
        N = RNG.choice([2, 17, 41, 60])
        size = RNG.choice([1, 2, 7, N - 1, N, 20])
        # sorted data: batches differ from one another
        off = RNG.choice([0, 0, 60, -300])
        x = torch.stack([off + torch.randint(-5, 6, (N,)) // RNG.choice([1, 2, 5]) + RNG.randrange(-4, 5) for _ in range(CH * F)], 1)
        if n % 3 == 0:
            x = x.sort(dim=0)[0]
        if n % 5 == 0:
            x[-1] += 5                      # the last row is far out
        cols = x.t().tolist()
        form = RNG.choice(["list", "loader", "shuffled"])
        layout = RNG.choice(["flat", "image"])
        xr = x.float().view(N, CH, *hw) if layout == "image" else x.float().view(N, CH, F)
        mix = n % 4 == 1
        tag = f"{st} F={F} CH={CH} K={K} R={R} rows={N} batch={size} {form} {layout} mixture={mix}"

        def build():
            m = Mixture(3, cfg) if mix else Einet(cfg)
            return m, (list(m.models) if mix else [m])
        got, err = guarded(build)
        if err:
            flags(f"model {tag}", err=err)
            continue
        m, nets = got
        before = {k: v.clone() for k, v in m.state_dict().items()}
        x0 = xr.clone()
        _, err = guarded(lambda: init_einet_stats(m, loader(xr, size, form)))
        if err:
            ev("init", tag, err=err)
            continue
        same = all(torch.equal(v.nan_to_num(), before[k].nan_to_num()) for k, v in m.state_dict().items() if not k.endswith(("means", "logvar")))
        every = []
        for net in nets:
            leaf = getattr(net.leaf, "base_leaf", net.leaf)
            mu, var = leaf.means[0].flatten(0, 1).flatten(1), leaf.logvar[0].exp().flatten(0, 1).flatten(1)
            every.append(mu.detach().clone())
            ev("init", tag, cols=cols, mean=units(mu), var=units(var), kk=K, rr=R)
        moving = float(x.double().mean(0).std()) > 0.1
        with torch.no_grad():
            ll, err = guarded(lambda: m(xr[:3]) if not mix else nets[0](xr[:3]))
        flags(f"around {tag}", err=err, others=same, data=torch.equal(xr, x0),
              parameters=all(isinstance(p, torch.nn.Parameter) and p.requires_grad and p.dtype == torch.float32
                             for net in nets for q, p in net.named_parameters() if q.endswith(("means", "logvar"))),
              components=not moving or len(nets) == 1 or not torch.equal(every[0], every[1]),
              works=not err and bool(ll.isfinite().all()))
    # models with other leaves are left alone
    for leaf, kw in ((Categorical, dict(num_bins=3)), (RatNormal, dict())):
        m = Einet(EinetConfig(num_features=4, num_sums=2, num_leaves=2, num_repetitions=2, depth=1, leaf_type=leaf, leaf_kwargs=kw))
        before = {k: v.clone() for k, v in m.state_dict().items()}
        _, err = guarded(lambda: init_einet_stats(m, loader(torch.randint(0, 3, (9, 4)).float(), 4, "list")))
        flags(f"other leaves {leaf.__name__}", err=err, unchanged=all(torch.equal(v, before[k]) for k, v in m.state_dict().items()))

    r = run_tlc("InitTrace", "SPECIFICATION Spec\nINVARIANT Conforms\n", dict(events=events), extra=["-continue"], timeout=600)
    ck.traces += len(events)
    ck.judge(events, r, lambda e: e["tag"], "InitTrace")


main("C29", run)
