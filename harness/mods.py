"""Random non-convolutional modules, with the descriptions of their input and output fields."""
from common import *
from fields import *

PW = ("p_relu", "p_elu", "p_sigmoid", "p_tanh")


def sup(rep, flag):
    return flag in rep.supported_nonlinearities


def sub_size(rep, pre):
    s = [int(q.split("_")[-1]) for q in rep.supported_nonlinearities if q.startswith(pre)]
    return s[0] if len(s) == 1 else None


def inner_size(d, g):
    """size of the sub-fields of an induced description"""
    if d["t"] == "ind":
        return size(sub_desc(g, [d["a"], d["m"]]), d["d"])
    return 1


def pool(b, sp, r, ok, lim, n=2, kinds=("irrep", "reg", "quo", "ind", "cob", "sum", "res"), tries=14):
    out = []
    for _ in range(tries):
        d = desc(sp["g"], r, lim, kinds)
        if ok(b.rep(d), d) and d not in out and b.rep(d).name not in [b.rep(x).name for x in out]:
            out.append(d)          # (the library tells representations apart by their names)
        if len(out) == n:
            break
    return out


def mix(g, r, ds, lim, nmax=4):
    out = []
    for _ in range(r.randrange(1, nmax + 1)):
        d = r.choice(ds)
        if sum(size(g, x) for x in out) + size(g, d) <= lim:
            out.append(d)
    return out or [min(ds, key=lambda d: size(g, d))]


def typ(b, sp, r, ok, lim=12, n=2, nmax=4, fallback=True, **kw):
    ds = pool(b, sp, r, ok, lim, n, **kw)
    if not ds:
        if not fallback:
            return None
        ds = [irrep(0, 0)]
    return mix(sp["g"], r, ds, lim, nmax)


TRIV = irrep(0, 0)


def gates_type(r, gated, gate=None):
    """gates and gated fields in a random interleaving: (descriptions, labels)"""
    items = [("gate", gate or TRIV)] * len(gated) + [("gated", d) for d in gated]
    m = r.random()
    if m < .3:
        return [d for _, d in items], None
    if m < .8:
        r.shuffle(items)
    return [d for _, d in items], [k for k, _ in items]


class Mod:
    """a module, its fields, and what is needed to judge it"""

    def __init__(self, kind, M, din, dout, **kw):
        self.kind, self.M, self.din, self.dout = kind, M, din, dout
        self.sub = None          # subgroup of the output space, if it is another one
        self.pix = True          # acts on each pixel on its own
        self.geo = None
        self.pars = {}
        self.two = False         # takes (gates, fields)
        self.__dict__.update(kw)


def is_orth(d):
    return d["t"] != "cob" and all(is_orth(x) for x in d.get("s", []))


KINDS = ["pointwise", "relu", "elu", "norm", "inorm", "gated1", "gated2", "igated", "concat", "vector", "gpool", "normpool", "inormpool",
         "maxpool", "maxpoola", "avgpool", "avgpoola", "adaptavg", "adaptmax", "normmax", "innerbn", "normbn", "inormbn", "gbn",
         "upsample", "mask", "restrict", "disentangle", "reshuffle", "identity"]
PIXEL = [k for k in KINDS if k not in ("maxpool", "maxpoola", "avgpool", "avgpoola", "adaptavg", "adaptmax", "normmax", "upsample", "mask")]


def window(r, dil=True):
    k = r.choice([1, 2, 2, 3, 3, 4])
    s = r.choice([None, 1, 2, 3])
    p = r.choice([0, 0, 1]) if k > 1 else 0
    d = r.choice([1, 1, 2]) if dil else 1
    return k, s, p, d


def make(kind, b, sp, r, lim=12):
    """a random module of this kind, or None when the space has none"""
    g = sp["g"]
    T = b.type
    pw = lambda rep, d: sup(rep, "pointwise")
    nm = lambda rep, d: sup(rep, "norm")
    if kind == "pointwise":
        ds = typ(b, sp, r, pw, lim)
        f = r.choice(PW)
        return Mod(kind, enn.PointwiseNonLinearity(T(ds), f), ds, ds, pars=dict(f=f))
    if kind == "relu":
        ds = typ(b, sp, r, pw, lim)
        ip = r.random() < .3
        return Mod(kind, enn.ReLU(T(ds), inplace=ip), ds, ds, pars=dict(inplace=ip))
    if kind == "elu":
        ds = typ(b, sp, r, pw, lim)
        al, ip = r.choice([1., .5, 2.]), r.random() < .3
        return Mod(kind, enn.ELU(T(ds), alpha=al, inplace=ip), ds, ds, pars=dict(alpha=al, inplace=ip))
    if kind == "norm":
        ds = typ(b, sp, r, nm, lim, n=3)
        f = r.choice(["n_relu", "n_sigmoid", "squash"])
        bias = f != "squash" and r.random() < .6
        return Mod(kind, enn.NormNonLinearity(T(ds), f, bias), ds, ds, pars=dict(f=f, bias=bias))
    if kind in ("inorm", "inormpool"):
        ds = typ(b, sp, r, lambda rep, d: sub_size(rep, "induced_norm") is not None, lim, n=3, fallback=False, kinds=("ind", "ind", "quo", "reg"))
        if ds is None:
            return None
        if kind == "inormpool":
            return Mod(kind, enn.InducedNormPool(T(ds)), ds, [TRIV] * len(ds))
        f = r.choice(["n_relu", "n_sigmoid", "squash"])
        bias = f != "squash" and r.random() < .6
        return Mod(kind, enn.InducedNormNonLinearity(T(ds), f, bias), ds, ds, pars=dict(f=f, bias=bias))
    if kind in ("gated1", "gated2"):
        gd = typ(b, sp, r, lambda rep, d: sup(rep, "gated"), lim, n=3, nmax=4)
        if kind == "gated2":
            return Mod(kind, enn.GatedNonLinearity2((T([TRIV] * len(gd)), T(gd))), [TRIV] * len(gd) + gd, gd, two=True,
                       pars=dict(gates=["gate"] * len(gd) + ["gated"] * len(gd), drop=True))
        ds, labels = gates_type(r, gd)
        drop = r.random() < .6
        M = enn.GatedNonLinearity1(T(ds), labels, drop_gates=drop)
        lab = labels or ["gate"] * len(gd) + ["gated"] * len(gd)
        return Mod(kind, M, ds, [d for d, k in zip(ds, lab) if k == "gated" or not drop], pars=dict(gates=lab, drop=drop))
    if kind == "igated":
        if g["c"]:
            return None
        qs = [q for q in ids_of(g) if 1 <= len(elems(g)) // len(elems(sub_desc(g, q))) <= 6]
        q = r.choice(qs)
        irr = irreps_of(sub_desc(g, q))
        gd = [ind(q[0], q[1], d) for d in r.sample(irr, min(len(irr), 2))]
        gd = [d for d in gd if sub_size(b.rep(d), "induced_gated") is not None]
        if not gd:
            return None
        gd = mix(g, r, gd, lim, 3)
        gate = quo(*q)
        if not sup(b.rep(gate), "induced_gate"):
            return None
        ds, labels = gates_type(r, gd, gate)
        drop = r.random() < .6
        M = enn.InducedGatedNonLinearity1(T(ds), labels, drop_gates=drop)
        lab = labels or ["gate"] * len(gd) + ["gated"] * len(gd)
        return Mod(kind, M, ds, [d for d, k in zip(ds, lab) if k == "gated" or not drop], pars=dict(gates=lab, drop=drop))
    if kind == "concat":
        if g["c"]:
            return None
        ds = typ(b, sp, r, lambda rep, d: sup(rep, "concatenated"), lim, n=3, kinds=("irrep", "reg", "quo", "quo", "quo", "ind", "res", "sum"))
        f = r.choice(["c_relu", "c_sigmoid", "c_tanh"])
        return Mod(kind, enn.ConcatenatedNonLinearity(T(ds), f), ds, [{"t": "dbl", "d": d} for d in ds], pars=dict(f=f))
    if kind == "vector":
        if sp["s"] != "rot" or g["c"] or g["n"] < 2 or g["n"] > 12:
            return None
        ds = [REG] * r.choice([1, 2, 3])
        out = irrep(0, 1) if g["n"] > 2 else rsum(irrep(0, 1), irrep(0, 1))
        return Mod(kind, enn.VectorFieldNonLinearity(T(ds)), ds, [out] * len(ds))
    if kind == "gpool":
        ds = typ(b, sp, r, pw, lim, n=3)
        return Mod(kind, enn.GroupPooling(T(ds)), ds, [TRIV] * len(ds))
    if kind == "normpool":
        ds = typ(b, sp, r, lambda rep, d: is_orth(d), lim, n=3)
        return Mod(kind, enn.NormPool(T(ds)), ds, [TRIV] * len(ds))
    if kind == "innerbn":
        ds = typ(b, sp, r, pw, lim, n=3)
        aff, trk = r.random() < .8, r.random() < .85
        return Mod(kind, enn.InnerBatchNorm(T(ds), affine=aff, track_running_stats=trk), ds, ds, pars=dict(affine=aff, track=trk))
    if kind in ("normbn", "inormbn"):
        ok = nm if kind == "normbn" else (lambda rep, d: sub_size(rep, "induced_norm") is not None)
        ds = typ(b, sp, r, lambda rep, d: ok(rep, d) and not rep.contains_trivial(), lim, n=3, fallback=False, tries=30,
                 **({} if kind == "normbn" else dict(kinds=("ind",))))
        if ds is None:
            return None
        aff = r.random() < .8
        C = enn.NormBatchNorm if kind == "normbn" else enn.InducedNormBatchNorm
        return Mod(kind, C(T(ds), affine=aff), ds, ds, pars=dict(affine=aff))
    if kind == "gbn":
        ds = typ(b, sp, r, lambda rep, d: True, lim, n=3)
        aff = r.random() < .8
        return Mod(kind, enn.GNormBatchNorm(T(ds), affine=aff), ds, ds, pars=dict(affine=aff))
    if kind in ("maxpool", "maxpoola", "avgpool", "normmax"):
        k, s, p, d = window(r, kind in ("maxpool", "normmax"))
        if 2 * p > k:
            p = 0
        if kind == "normmax":
            ds = typ(b, sp, r, lambda rep, d_: is_orth(d_), lim, n=3)
            M = enn.NormMaxPool(T(ds), k, s, p, d, r.random() < .3)
        elif kind == "avgpool":
            ds = typ(b, sp, r, lambda rep, d_: True, lim)
            M = enn.PointwiseAvgPool(T(ds), k, s, p, r.random() < .3)
        else:
            ds = typ(b, sp, r, pw, lim)
            if kind == "maxpool":
                M = enn.PointwiseMaxPool(T(ds), k, s, p, d, r.random() < .3)
            else:
                M = enn.PointwiseMaxPoolAntialiased(T(ds), k, s, p, 1, r.random() < .3, sigma=r.choice([.3, .6, 1.]))
        return Mod(kind, M, ds, ds, pix=False, geo=dict(k=k, s=s or k, p=p, d=d))
    if kind == "avgpoola":
        ds = typ(b, sp, r, lambda rep, d_: True, lim)
        sg, s = r.choice([.33, .66, 1.]), r.choice([1, 2, 3])
        p = r.choice([None, None, 0, 1])
        k = 2 * int(round(3 * sg)) + 1
        return Mod(kind, enn.PointwiseAvgPoolAntialiased(T(ds), sg, s, p), ds, ds, pix=False,
                   geo=dict(k=k, s=s, p=(k - 1) // 2 if p is None else p, d=1))
    if kind in ("adaptavg", "adaptmax"):
        ds = typ(b, sp, r, pw, lim)
        o = r.choice([1, 2, 3, 5])
        C = enn.PointwiseAdaptiveAvgPool if kind == "adaptavg" else enn.PointwiseAdaptiveMaxPool
        return Mod(kind, C(T(ds), o), ds, ds, pix=False, geo=dict(o=o))
    if kind == "upsample":
        ds = typ(b, sp, r, lambda rep, d_: True, lim)
        return Mod(kind, enn.R2Upsampling(T(ds), **r.choice([dict(scale_factor=2), dict(scale_factor=3), dict(size=7), dict(size=(6, 6)),
                                                             dict(scale_factor=2, align_corners=True), dict(size=8, align_corners=True)])),
                   ds, ds, pix=False, geo=dict(o=0))
    if kind == "mask":
        ds = typ(b, sp, r, lambda rep, d_: True, lim)
        S_, mg = r.choice([3, 4, 5, 6]), r.choice([0., 2., 20., 40.])
        return Mod(kind, enn.MaskModule(T(ds), S_, mg), ds, ds, pix=False, geo=dict(n=S_, margin=mg))
    if kind == "restrict":
        ds = typ(b, sp, r, lambda rep, d_: True, lim)
        if g["c"]:
            ids = [[-1, m] for m in (1, 2, 3, 4, 8)] + ([[a, m] for a in (0, 630, 1260, 17) for m in (1, 2, 4) if a * m < TURN] if g["k"] == "D" else [])
            if g["k"] == "D":
                ids += [[-1, -1]]
        else:
            ids = ids_of(g)
        q = r.choice(ids)
        if sp["s"] in ("triv", "flip") and q[0] >= 0:
            return None
        M = enn.RestrictionModule(T(ds), space_id(sp, q))
        return Mod(kind, M, ds, [res(g, q[0], q[1], d) for d in ds], sub=q)
    if kind == "disentangle":
        ds = typ(b, sp, r, lambda rep, d_: True, lim, n=3)
        M = enn.DisentangleModule(T(ds))
        return Mod(kind, M, ds, None)
    if kind == "reshuffle":
        ds = typ(b, sp, r, lambda rep, d_: True, lim, n=3)
        pm = list(range(len(ds)))
        r.shuffle(pm)
        return Mod(kind, enn.ReshuffleModule(T(ds), pm), ds, [ds[i] for i in pm], pars=dict(perm=pm))
    if kind == "identity":
        ds = typ(b, sp, r, lambda rep, d_: True, lim, n=3)
        return Mod(kind, enn.IdentityModule(T(ds)), ds, ds)
    raise ValueError(kind)


def randomise(M, r):
    """trained parameters and statistics"""
    with torch.no_grad():
        for n, p in M.named_parameters():
            if n.endswith("eps") or n.endswith("mask"):
                continue
            p.copy_(torch.randn_like(p) * .7 + .3)
        for n, p in M.named_buffers():
            if n.endswith("running_var"):
                p.copy_(torch.rand_like(p) * 3 + .2)
            elif n.endswith("running_mean"):
                p.copy_(torch.randn_like(p) * .5)


def lay(t, k):
    """the same values in another memory layout"""
    if t.dim() != 4 or k == 0:
        return t
    if k == 1:
        return t.contiguous(memory_format=torch.channels_last)
    if k == 2:
        return t.transpose(2, 3).contiguous().transpose(2, 3)
    if k == 3:
        return t.transpose(0, 1).contiguous().transpose(0, 1)
    b, c, h, w = t.shape
    u = torch.full((b + 1, c + 3, 2 * h + 1, w + 2), 77., dtype=t.dtype)
    v = u[1:, 2:2 + c, 1::2, 1:1 + w]
    v.copy_(t)
    return v


def call(mod, x, prec):
    """forward pass on a raw (batch, channel, h, w) array (in a memory layout that depends on the values)"""
    M = mod.M
    t = torch.tensor(np.array(x, copy=True, order="C"), dtype=prec)
    k = max(0, int(abs(float(t.double().sum())) * 1e3) % 9 - 4)
    if mod.two:
        n = M.in_type[0].size
        return M(enn.GeometricTensor(lay(t[:, :n].clone(), k), M.in_type[0]), enn.GeometricTensor(lay(t[:, n:].clone(), k), M.in_type[1]))
    return M(enn.GeometricTensor(lay(t, k), M.in_type))


def irrep_desc(rep):
    """description of a library irrep, from its documented attributes (None: not an irrep)"""
    if len(rep.irreps) != 1:
        return None
    nm = rep.irreps[0]
    t = nm.split("_")[-1].strip()
    try:
        if "," in t:
            j, k = t.split(",")
            return irrep(int(j), int(k))
        return irrep(0, int(t))
    except ValueError:
        return None
