"""Convolutional circuits as instances of Circuit and LogCircuit: the pixels are the leaf
regions, sum layers have weights per pixel, windows are "pool" layers.  The layers are derived
from the configuration (not read from the real object)."""
import itertools
import random

import circ
import logc
from vlib import RNG, load_torch, setup_paths

setup_paths()
torch = load_torch()


class Net:
    """A ConvPc with the calling conventions of an Einet (features instead of pixels)."""

    def __init__(self, conv, H, W, CH):
        self.conv, self.H, self.W, self.CH = conv, H, W, CH
        self.leaf = conv.leaf_data

    def _img(self, x):
        return x.reshape(x.shape[0], self.CH, self.H, self.W) if x.dim() == 3 else x

    def _flat(self, s, n=None):
        want = (s.shape[0] if n is None else n, self.CH, self.H, self.W)
        if tuple(s.shape) != want:
            raise ValueError(f"image of shape {tuple(s.shape)} instead of {want}")
        return s.reshape(want[0], self.CH, self.H * self.W)

    def __call__(self, x, *a, **k):
        ll = self.conv(self._img(x), *a, **k)
        if tuple(ll.shape) != (x.shape[0],):
            raise ValueError(f"likelihoods of shape {tuple(ll.shape)}")
        return ll.view(-1, 1)

    def sample(self, num_samples=None, evidence=None, raw=False, **k):
        if evidence is None:
            return self._flat(self.conv.sample(num_samples=num_samples, **k), num_samples)
        e = evidence if raw else self._img(evidence)
        e0 = e.clone()
        s = self.conv.sample(evidence=e, num_samples=num_samples, **k)
        if not torch.equal(torch.nan_to_num(e, -7.5), torch.nan_to_num(e0, -7.5)):
            raise ValueError("evidence modified")
        if s.shape != e.shape:
            raise ValueError(f"completion of shape {tuple(s.shape)} instead of {tuple(e.shape)}")
        return s.reshape(evidence.shape)

    def mpe(self, evidence=None, **k):
        if evidence is None:
            return self.sample(num_samples=k.pop("num_samples", 1), is_mpe=True, **k)
        return self.sample(evidence=evidence, is_mpe=True, **k)

    def parameters(self):
        return self.conv.parameters()

    def zero_grad(self, **k):
        self.conv.zero_grad(**k)


def plan(st, order, channels, H, W, kernel):
    """Layers from the pixels to the root: (t, ...) with sizes of their outputs."""
    out = []
    h, w = H, W

    def sm(ci, co):
        out.append(dict(t="sum", si=ci, so=co, h=h, w=w))

    def pool(kh, kw, c):
        nonlocal h, w
        assert h % kh == 0 and w % kw == 0
        grp = [[(y * kh + dy) * w + x * kw + dx + 1 for dy in range(kh) for dx in range(kw)]
               for y in range(h // kh) for x in range(w // kw)]
        h, w = h // kh, w // kw
        out.append(dict(t="pool", si=c, so=c, h=h, w=w, grp=grp))

    def both(ci, co, kh, kw, order):
        if order == "sum-prod":
            sm(ci, co)
            pool(kh, kw, co)
        else:
            pool(kh, kw, ci)
            sm(ci, co)

    if st == "bottom-up":
        for a, b in zip(channels, channels[1:]):
            both(a, b, kernel, kernel, order)
        both(channels[-1], 1, h, w, "prod-sum")
    else:
        n = len(channels)
        pool(H // 2**n, W // 2**n, channels[0])
        for a, b in zip([channels[0]] + list(channels), channels):
            both(a, b, 2, 2, order)
        sm(channels[-1], 1)
    assert (h, w) == (1, 1), (st, channels, H, W)
    return out


def make_conv(st, order, channels, H, W, CH, kernel, leaf_type, leaf_kwargs):
    from simple_einet.conv_pc import ConvPc, ConvPcConfig
    from simple_einet.data import Shape

    c = ConvPcConfig(channels=list(channels), kernel_size=kernel, num_channels=CH, num_classes=1, leaf_type=leaf_type,
                     leaf_kwargs=leaf_kwargs, structure=st, order=order)
    return ConvPc(c, Shape(channels=CH, height=H, width=W)).eval()


def sum_params(conv, layers):
    """The logits of the sum layers, in the order of the layers."""
    leaf = {id(p) for p in conv.leaf_data.parameters()}
    ps = [p for p in conv.parameters() if p.requires_grad and id(p) not in leaf]
    sums = [L for L in layers if L["t"] == "sum"]
    if len(ps) != len(sums):
        raise circ.BuildError("sum layers")
    if any(tuple(p.shape) != (L["so"], L["si"], L["h"], L["w"]) for p, L in zip(ps, sums)):
        # parameters may be registered from the root to the pixels
        ps = ps[::-1]
    for p, L in zip(ps, sums):
        if tuple(p.shape) != (L["so"], L["si"], L["h"], L["w"]):
            raise ValueError(f"logits of shape {tuple(p.shape)} where the configuration has {L}")
    return ps


def build(inst, seed):
    """inst.conv = (structure, order, channels, H, W, CH, kernel)"""
    st, order, channels, H, W, CH, kernel = inst.conv
    rng = random.Random(seed)
    torch.manual_seed(seed)
    lt, kw = circ.leaf_setup(inst)
    conv = make_conv(st, order, channels, H, W, CH, kernel, lt, kw)
    inst.model = Net(conv, H, W, CH)
    m = dict(F=H * W, CH=CH, K=channels[0], R=1, C=1, leafDen=inst.leafden, V=[[inst.V] * (H * W) for _ in range(CH)])
    m["leaf"] = circ.set_leaf(inst, rng)
    m["reg"] = [[[f + 1] for f in range(H * W)]]
    pl = plan(st, order, channels, H, W, kernel)
    ps = iter(sum_params(conv, pl))
    layers = []
    den = inst.leafden ** (H * W * CH)
    fi = H * W
    for L in pl:
        fo = L["h"] * L["w"]
        if L["t"] == "pool":
            layers.append(dict(t="pool", fi=fi, fo=fo, so=L["so"], si=L["si"], den=1, w=[], grp=L["grp"]))
        else:
            # many sums: their weights are zero, one half or one
            d = 1 if L["si"] == 1 else max(inst.wden, L["si"]) if fo <= 4 else 2
            w = torch.zeros(L["so"], L["si"], L["h"], L["w"])
            for o, y, x in itertools.product(range(L["so"]), range(L["h"]), range(L["w"])):
                row = circ.int_rows(rng, L["si"], d, zero_ok=fo > 4)
                w[o, :, y, x] = torch.tensor(row, dtype=torch.float32)
            next(ps).data.copy_(circ.log_w(w) + rng.uniform(-1, 1))
            layers.append(dict(t="sum", fi=fi, fo=fo, so=L["so"], si=L["si"], den=d, grp=[],
                               w=w.permute(2, 3, 1, 0).reshape(fo, L["si"], L["so"], 1).long().tolist()))
            den *= d**fo
        fi = fo
    m["layers"] = layers
    m["mix"], m["mixDen"] = [[1]], 1
    inst.den = m["den"] = den
    m["sc"] = max(1, 2**28 // den)
    if den * m["sc"] > 2**29:
        raise circ.BuildError(f"denominator too large: {den}")
    inst.m = m
    return inst


def inst(st, order, channels, H, W, CH=1, kernel=2, leaf="ind", V=None, leafden=1, wden=3):
    V = V or (max(channels[0], 2) if leaf in ("ind", "norm", "ratnorm") else 2)
    i = circ.Inst(circ.cfg(H * W, 0, 1, 1, channels[0], 1, CH), leaf, V=V, leafden=leafden, wden=wden,
                  name=f"{st[:3]}-{order}-{'.'.join(map(str, channels))}-{H}x{W}x{CH}-k{kernel}-{leaf}")
    i.conv = (st, order, channels, H, W, CH, kernel)
    return i


def grid():
    out = []
    for order in ("sum-prod", "prod-sum"):
        out += [
            inst("bottom-up", order, [2, 3], 2, 2, leaf="ind"), inst("bottom-up", order, [2, 2], 2, 4, leaf="norm"),
            inst("bottom-up", order, [3], 2, 2, leaf="cat", V=3, leafden=3), inst("bottom-up", order, [2, 3], 2, 4, leaf="ind", V=3),
            inst("bottom-up", order, [2, 3, 2], 4, 4, leaf="ind"), inst("bottom-up", order, [3, 2], 3, 6, kernel=3, leaf="ind"),
            inst("bottom-up", order, [2, 2], 2, 2, CH=2, leaf="bern", leafden=2, wden=2),
            inst("bottom-up", order, [1, 2], 2, 2, leaf="cat", leafden=4), inst("bottom-up", order, [2, 1, 2], 4, 4, leaf="norm"),
            inst("bottom-up", order, [2, 2], 2, 2, leaf="binom", leafden=4),
            inst("top-down", order, [2], 2, 2, leaf="cat", leafden=3), inst("top-down", order, [3], 2, 4, leaf="ind"),
            inst("top-down", order, [2], 4, 2, leaf="ratnorm"), inst("top-down", order, [2, 3], 4, 4, leaf="ind"),
            inst("top-down", order, [2], 4, 4, leaf="ind"), inst("top-down", order, [2], 2, 6, leaf="norm", V=3),
            inst("top-down", order, [1], 2, 2, leaf="cat", leafden=4), inst("top-down", order, [3, 2], 4, 4, leaf="norm"),
            inst("top-down", order, [2], 2, 2, CH=3, leaf="ind"),
        ]
    return out


# ---------------------------------------------------------------- logarithmic domain
def log_build(li):
    st, order, channels, H, W, CH, kernel = li.conv
    rng = random.Random(li.seed)
    torch.manual_seed(li.seed)
    from simple_einet.layers.distributions.categorical import Categorical
    from simple_einet.layers.distributions.normal import Normal

    lt, kw = (Normal, {}) if li.leaf == "norm" else (Categorical, {"num_bins": li.V})
    conv = make_conv(st, order, channels, H, W, CH, kernel, lt, kw)
    li.model = Net(conv, H, W, CH)
    m = logc.install_leaf(li, rng)
    m["reg"] = [[[f + 1] for f in range(H * W)]]
    pl = plan(st, order, channels, H, W, kernel)
    ps = iter(sum_params(conv, pl))
    layers = []
    fi = H * W
    for L in pl:
        fo = L["h"] * L["w"]
        rec = dict(t=L["t"], fi=fi, fo=fo, so=L["so"], si=L["si"], w=[], grp=L.get("grp", []))
        if L["t"] == "sum":
            w = logc.ints(rng, (L["so"], L["si"], L["h"], L["w"]), li.spread)
            next(ps).data.copy_(w / 1000)
            rec["w"] = w.permute(2, 3, 1, 0).reshape(fo, L["si"], L["so"], 1).long().tolist()
        layers.append(rec)
        fi = fo
    m["layers"], m["mix"] = layers, [[0]]
    li.m = m
    return li


def log_insts(n_random=0, seed0=0):
    shapes = [("bottom-up", "sum-prod", [3, 4, 2], 8, 4, 1, 2), ("bottom-up", "prod-sum", [2, 3, 4], 4, 8, 2, 2),
              ("bottom-up", "sum-prod", [2, 3], 9, 6, 1, 3), ("top-down", "sum-prod", [3, 2, 4], 8, 8, 1, 2),
              ("top-down", "prod-sum", [3, 2, 4], 8, 16, 1, 2), ("top-down", "sum-prod", [4, 3], 8, 12, 3, 2),
              ("top-down", "prod-sum", [5], 6, 10, 1, 2), ("bottom-up", "prod-sum", [4], 3, 5, 2, 2)]
    for _ in range(n_random):
        st = RNG.choice(["bottom-up", "top-down"])
        n = RNG.choice([1, 2, 2, 3])
        k = RNG.choice([2, 2, 3]) if st == "bottom-up" and n <= 2 else 2
        base = k ** (n - 1) if st == "bottom-up" else 2**n
        shapes.append((st, RNG.choice(["sum-prod", "prod-sum"]), [RNG.randrange(1, 5) for _ in range(n)],
                       base * RNG.choice([1, 1, 2]), base * RNG.choice([1, 2, 3]), RNG.choice([1, 1, 2, 3]), k))
    out = []
    for i, sh in enumerate(shapes):
        for kind in ("mild", "extreme"):
            leaf = "norm" if (i + (kind == "extreme")) % 2 else "cat"
            st, order, channels, H, W, CH, kernel = sh
            spread, lsp, msp = (2, 3, 6) if kind == "mild" else (60, 25, 40)
            li = logc.LInst(circ.cfg(H * W, 0, 1, 1, channels[0], 1, CH), leaf, 3, spread, lsp, msp,
                            f"log{i}-{kind}-{st[:3]}-{order}-{'.'.join(map(str, channels))}-{H}x{W}x{CH}-k{kernel}-{leaf}",
                            seed0 * 1000 + 13 * i + (kind == "extreme") + 10**5 * RNG.randrange(100))
            li.conv = sh
            out.append(li)
    return out
