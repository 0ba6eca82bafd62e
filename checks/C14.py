"""C14: dropout acts only in training mode and never removes every child of a sum."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from vlib import RNG, THOROUGH, MachineryError, guarded, load_torch, main, run_tlc, setup_paths  # noqa: E402


def run(ck):
    setup_paths()
    torch = load_torch()
    import circ
    from circ import Inst, cfg

    shapes = [
        (cfg(3, 0, K=3), "cat", "sum3"), (cfg(3, 0, R=2, C=2, K=2), "cat", "sum2-r2-c2"),
        (cfg(4, 1, K=3, C=2), "cat", "linsum3-c2"), (cfg(4, 2, K=2, S=2), "cat", "linsum-d2"),
        (cfg(5, 2, K=2, S=2, C=2), "bern", "linsum-d2-c2"), (cfg(3, 1, R=2, K=2), "bern", "linsum-r2"),
        (cfg(3, 1, R=3, K=2), "bern", "linsum-r3"), (cfg(4, 1, K=2, layer="linsum2"), "cat", "linsum2-d1"),
        (cfg(4, 2, K=2, layer="linsum2"), "cat", "linsum2-d2"), (cfg(4, 1, K=2, R=2, layer="linsum2"), "bern", "linsum2-r2"),
        (cfg(4, 1, K=3, layer="einsum"), "cat", "einsum3"), (cfg(4, 1, K=2, C=2, layer="einsum"), "cat", "einsum-c2"),
        (cfg(4, 2, K=2, S=2, layer="einsum"), "bern", "einsum-d2"), (cfg(2, 1, R=2, K=2, layer="einsum"), "bern", "einsum-r2"),
        (cfg(4, 1, K=2, structure="bottom-up"), "bern", "bu-d1"), (cfg(3, 1, K=2, R=2, structure="bottom-up"), "bern", "bu-r2-pad"),
        (cfg(4, 2, K=2, S=2, structure="bottom-up"), "cat", "bu-d2"), (cfg(3, 0, K=2, R=3, structure="bottom-up"), "bern", "bu-d0-r3"),
        (cfg(4, 1, K=4), "bern", "linsum4"), (cfg(3, 1, K=1, R=4), "bern", "linsum1-r4"),
    ]
    rates = [(1, 2), (1, 4), (3, 4)]
    insts = []
    for j, (c, leaf, name) in enumerate(shapes):
        for q in (rates if THOROUGH else [rates[(j + s) % 3] for s in range(2)]):
            k = dict(c)
            k["dropout"] = q[0] / q[1]
            inst = Inst(k, leaf, V=2, wden=5, leafden=3, name=f"{name}-p{q[0]}/{q[1]}")
            inst.rate = q
            insts.append(inst)
    insts = circ.make(insts, ck)
    events = []

    def ev(inst, k, tag, err="", **kw):
        kw.update(k=k, m=insts.index(inst) + 1, tag=f"{tag} [{inst.name}]", err=err)
        events.append(kw)
        ck.sample(kw)

    N = 60000 if THOROUGH else 12000
    for inst in insts:
        m = inst.model
        rows = [circ.rand_input(inst, RNG, p) for p in ((0, 0.4, 0.0) if THOROUGH else (0, 0.4))]
        for x in rows:
            xr = circ.encode(inst, [x]).repeat(N, 1, 1)
            m.train()
            before = [p.detach().clone() for p in m.parameters()]
            ll, err = guarded(lambda: m(xr))
            if err:
                ev(inst, "drop", "training likelihood", err=err, x=x, obs=[], N=N, rate=inst.rate)
                continue
            v = torch.tensor(circ.scaled(inst, ll))
            u, cnt = v.unique(dim=0, return_counts=True)
            # values that differ by floating point noise only are one outcome
            obs = {}
            for val, n in zip(u.tolist(), cnt.tolist()):
                key = next((k2 for k2 in list(obs)[-3:] if all(abs(a - b) <= 1 + abs(a) // 2**17 for a, b in zip(k2, val))),
                           tuple(val))
                obs[key] = obs.get(key, 0) + n
            ev(inst, "drop", "training likelihood", x=x, obs=[dict(v=list(a), c=n) for a, n in obs.items()], N=N,
               rate=list(inst.rate))
            same = all(torch.equal(a, b) for a, b in zip(before, m.parameters()))
            again, _ = guarded(lambda: m(xr))
            ev(inst, "flags", "training call", obs=dict(finite=bool(ll.isfinite().all()), parameters_unchanged=same,
                                                         fresh_masks=not torch.equal(ll, again)
                                                         if inst.cfg["num_leaves"] * inst.cfg["num_repetitions"] > 1 and
                                                         (inst.cfg["depth"] > 0 or inst.cfg["structure"] == "top-down" or
                                                          inst.cfg["num_repetitions"] > 1) else True))
            # gradients in training mode
            m.zero_grad()
            _, err = guarded(lambda: m(xr[:50]).sum().backward())
            ev(inst, "flags", "training gradients", err=err,
               obs=dict(finite=all(p.grad is None or bool(p.grad.isfinite().all()) for p in m.parameters())))
            m.zero_grad()
        # evaluation: dropout has no effect whatever its rate
        m.eval()
        xs = circ.encode(inst, [circ.rand_input(inst, RNG, 0.3) for _ in range(20)])
        g0 = torch.get_rng_state()
        a, err = guarded(lambda: m(xs))
        b, err2 = guarded(lambda: m(xs))
        untouched = torch.equal(g0, torch.get_rng_state())
        twin = Inst({**inst.cfg, "dropout": 0.0}, inst.leaf, V=2, wden=5, leafden=3, name=inst.name + " without dropout")
        j = insts.index(inst)
        got, errb = guarded(circ.build, twin, 1000 + j)
        sd = {k: v for k, v in m.state_dict().items() if not k.endswith("dropout")}
        _, errl = guarded(lambda: twin.model.load_state_dict(sd, strict=False))
        c, err3 = guarded(lambda: twin.model(xs))
        twin.model.train()
        d, err4 = guarded(lambda: twin.model(xs))
        ok = not (err or err2 or err3 or err4 or errb or errl)
        ev(inst, "flags", "evaluation mode", err=err or err2 or err3 or err4 or errb or errl,
           obs=dict(deterministic=ok and torch.equal(a, b), no_randomness=untouched, rate_irrelevant=ok and torch.equal(a, c),
                    zero_rate_in_training=ok and torch.equal(a, d)))
        # switching back and forth
        m.train()
        guarded(lambda: m(xs))
        m.eval()
        e, err = guarded(lambda: m(xs))
        ev(inst, "flags", "evaluation after training", err=err, obs=dict(same=ok and not err and torch.equal(a, e)))
        s1, err = guarded(lambda: m.sample(num_samples=5, seed=3, **({"class_index": 0} if inst.cfg["num_classes"] > 1 else {})))
        s2, err2 = guarded(lambda: twin.model.eval().sample(num_samples=5, seed=3, **({"class_index": 0} if inst.cfg["num_classes"] > 1 else {})))
        q1, err3 = guarded(lambda: m.mpe(evidence=xs))
        q2, err4 = guarded(lambda: twin.model.mpe(evidence=xs))
        ev(inst, "flags", "sampling in evaluation mode", err=err or err2 or err3 or err4,
           obs=dict(samples=not (err or err2) and torch.equal(s1, s2), mpe=not (err3 or err4) and torch.equal(q1, q2)))
    # large circuits, high rates
    from simple_einet.einet import Einet, EinetConfig
    from simple_einet.layers.distributions.normal import Normal

    for layer, st in (("linsum", "top-down"), ("linsum2", "top-down"), ("einsum", "top-down"), ("linsum", "bottom-up")):
        for p in (0.05, 0.5, 0.9, 0.99):
            for K in (1, 2, 10):
                net = Einet(EinetConfig(num_features=17, num_sums=K, num_leaves=K, num_repetitions=3, num_classes=2, depth=3,
                                        leaf_type=Normal, layer_type=layer, structure=st, dropout=p))
                net.train()
                x = torch.randn(200, 1, 17)
                x[torch.rand(x.shape) < 0.1] = float("nan")
                ll, err = guarded(lambda: net(x))
                net.eval()
                full, err2 = guarded(lambda: net(x))
                ok = not err and not err2
                # never above the full circuit
                events.append(dict(k="flags", m=1, tag=f"large circuit {layer} {st} p={p} K={K}", err=err or err2, obs=dict(
                    finite=ok and bool(ll.isfinite().all()), below=ok and bool((ll <= full + 1e-3).all()))))
    r = run_tlc("Dropout", "SPECIFICATION Spec\nINVARIANT Conforms\nINVARIANT Lawful\n",
                dict(models=[i.m for i in insts], events=events), extra=["-continue"], timeout=800)
    if r.violated == "Lawful":
        raise MachineryError("Dropout: removal increased a likelihood")
    ck.traces += len(events)
    ck.extra["instances"] = len(insts)
    ck.judge(events, r, lambda e: e["tag"], "Dropout")


main("C14", run)
