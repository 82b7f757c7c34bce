"""Declared output types and predicted shapes."""
from common import *
from fields import *
from mods import *
import p11, p16

SAME = [k for k in PIXEL]
WIN = ["maxpool", "maxpoola", "avgpool", "avgpoola", "normmax", "adaptavg", "adaptmax", "upsample", "mask"]
CONV = ["conv", "tconv", "diff"]
OTHER = ["fdrop", "pdrop", "seq"]


def cases(tier, seed, gen):
    cs = []
    sps = ex_spaces()
    for it in range(4 if tier == "quick" else 40):
        for n, sp in enumerate(sps):
            for kind in SAME + WIN * 2 + CONV + OTHER:
                if kind in SAME and (n + it) % 3:
                    continue
                cs.append({"key": f"{kind}/{sp['s']}{sp['g']['n']}", "sp": sp, "kind": kind, "it": it, "n": len(cs)})
    return cs


def pair(r, f):
    """one or two values of an option"""
    a = f()
    return (a, (a, a)) if r.random() < .5 else ((lambda b: ((a, b), (a, b)))(f()))


def q0(**kw):
    return dict(dict(k=1, s=1, p=0, d=1, ceil=False, op=0, o=1, num=1, den=1), **kw)


def windowed(kind, b, sp, r, lim=10):
    """(module, per-axis geometry: [name, [q_h, q_w]])"""
    T = b.type
    pw = lambda rep, d: sup(rep, "pointwise")
    ds = typ(b, sp, r, pw if kind in ("maxpool", "maxpoola", "adaptavg", "adaptmax") else (lambda rep, d: True), lim)
    ceil = r.random() < .4
    if kind in ("maxpool", "maxpoola", "avgpool", "normmax"):
        ka, kk = pair(r, lambda: r.choice([1, 2, 3, 4, 5]))
        sa, ss = pair(r, lambda: r.choice([1, 2, 3, 4]))
        if r.random() < .3:
            sa, ss = None, kk
        pa, pp = pair(r, lambda: r.choice([0, 0, 1, 2]))
        if any(2 * p > k for p, k in zip(pp, kk)):
            pa, pp = 0, (0, 0)
        da, dd = (1, (1, 1)) if kind in ("maxpoola", "avgpool") else pair(r, lambda: r.choice([1, 1, 2, 3]))
        if kind == "maxpool":
            M = enn.PointwiseMaxPool(T(ds), ka, sa, pa, da, ceil)
        elif kind == "normmax":
            M = enn.NormMaxPool(T(ds), ka, sa, pa, da, ceil)
        elif kind == "avgpool":
            M = enn.PointwiseAvgPool(T(ds), ka, sa, pa, ceil)
        else:
            M = enn.PointwiseMaxPoolAntialiased(T(ds), ka, sa, pa, 1, ceil, sigma=r.choice([.3, .6, 1.]))
        return M, ds, "aamax" if kind == "maxpoola" else "win", [q0(k=kk[a], s=ss[a], p=pp[a], d=dd[a], ceil=ceil) for a in (0, 1)]
    if kind == "avgpoola":
        sg = r.choice([.33, .66, 1., 1.3])
        k = 2 * int(round(3 * sg)) + 1
        sa, ss = pair(r, lambda: r.choice([1, 2, 3]))
        pa, pp = (None, ((k - 1) // 2,) * 2) if r.random() < .5 else pair(r, lambda: r.choice([0, 1, 2]))
        return enn.PointwiseAvgPoolAntialiased(T(ds), sg, sa, pa), ds, "win", [q0(k=k, s=ss[a], p=pp[a]) for a in (0, 1)]
    if kind in ("adaptavg", "adaptmax"):
        oa, oo = pair(r, lambda: r.choice([1, 2, 3, 5]))
        C = enn.PointwiseAdaptiveAvgPool if kind == "adaptavg" else enn.PointwiseAdaptiveMaxPool
        return C(T(ds), oa), ds, "fixed", [q0(o=oo[a]) for a in (0, 1)]
    if kind == "upsample":
        mode = r.choice(["bilinear", "nearest"])
        al = mode == "bilinear" and r.random() < .4
        if r.random() < .5:
            num, den = r.choice([(2, 1), (3, 1), (1, 1), (3, 2)])
            return (enn.R2Upsampling(T(ds), scale_factor=num if den == 1 else num / den, mode=mode, align_corners=al), ds, "scale",
                    [q0(num=num, den=den)] * 2)
        oa, oo = pair(r, lambda: r.choice([1, 4, 7, 9]))
        return enn.R2Upsampling(T(ds), size=oa, mode=mode, align_corners=al), ds, "fixed", [q0(o=oo[a]) for a in (0, 1)]
    if kind == "mask":
        S_ = r.choice([1, 2, 3, 4, 7]) if False else r.choice([2, 3, 4, 7])
        return enn.MaskModule(T(ds), S_, r.choice([0., 5.])), ds, "fixed", [q0(o=S_)] * 2
    raise ValueError(kind)


def conv_pair(kind, b, sp, r):
    """convolutions with different padding per axis and output padding"""
    g = sp["g"]
    ds, do = rand_type(g, r, 6, 3), rand_type(g, r, 6, 3)
    k, s, d = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3]), r.choice([1, 2])
    if kind == "tconv":
        p, op = r.choice([0, 1, 2]), r.randrange(0, max(s, d))
        M = enn.R2ConvTransposed(b.type(ds), b.type(do), k, padding=p, output_padding=op, stride=s, dilation=d, bias=r.random() < .5)
        return M, ds, "tconv", [q0(k=k, s=s, p=p, d=d, op=op)] * 2
    ph, pw = r.choice([0, 1, 2]), r.choice([0, 1, 2])
    if kind == "diff":
        k = r.choice([3, 5])
        M = enn.R2Diffop(b.type(ds), b.type(do), kernel_size=k, padding=(ph, pw), stride=s, dilation=d, maximum_order=r.choice([1, 2]))
    else:
        M = enn.R2Conv(b.type(ds), b.type(do), k, padding=(ph, pw), stride=s, dilation=d, padding_mode=r.choice(["zeros", "replicate"]))
    return M, ds, "win", [q0(k=k, s=s, p=ph, d=d), q0(k=k, s=s, p=pw, d=d)]


def plen(geom, q, n):
    if geom == "win":
        m = n + 2 * q["p"] - q["d"] * (q["k"] - 1) - 1
        return (m // q["s"]) + 1 if m >= 0 else 0
    if geom == "tconv":
        return (n - 1) * q["s"] - 2 * q["p"] + q["d"] * (q["k"] - 1) + q["op"] + 1
    if geom == "aamax":
        return 0 if n + 2 * q["p"] < q["k"] else (n + 4 * q["p"] - q["k"]) // q["s"] + 1
    return {"same": n, "fixed": q["o"], "scale": n * q["num"] // q["den"]}[geom]


def wrong_types(b, sp, r, ds):
    """field types which are not the given one"""
    g = sp["g"]
    T = b.type(ds)
    out = []
    pm = ds[::-1]
    if pm != ds and [b.rep(d) for d in pm] != [b.rep(d) for d in ds]:
        out.append(("permuted", b.type(pm)))
    out.append(("longer", b.type(ds + [ds[0]])))
    if len(ds) > 1:
        out.append(("shorter", b.type(ds[:-1])))
    if any(b.rep(d) != b.rep(TRIV) for d in ds):
        out.append(("trivial", b.type([TRIV] * T.size)))
    else:
        o = [d for d in irreps_of(g) if size(g, d) == 1 and d != TRIV]
        if o:
            out.append(("signed", b.type([o[0]] * len(ds))))
    others = [s for s in ex_spaces() if s["s"] != sp["s"] or s["g"] != g]
    o = Builder(r.choice(others))
    out.append(("space", o.type([TRIV] * T.size)))
    if sp["s"] in ("flip", "fliprot"):
        o = Builder(dict(sp, ax2=(sp["ax2"] + 1260) % TURN))
        if o.gs.fibergroup == b.gs.fibergroup:
            try:
                out.append(("axis", enn.FieldType(o.gs, list(T.representations))))
            except Exception:
                pass
    return out


def seq(b, sp, r):
    """a chain of layers: (module, descriptions of the input, geometry per layer)"""
    g = sp["g"]
    ds = rand_type(g, r, 6, 3)
    ms, geos, cur = [], [], b.type(ds)
    for _ in range(r.choice([1, 2, 3])):
        k, s, p = r.choice([1, 3, 3, 2]), r.choice([1, 1, 2]), r.choice([0, 1])
        m = r.random()
        if m < .5:
            nx = b.type(rand_type(g, r, 6, 3))
            M = enn.R2Conv(cur, nx, k, padding=p, stride=s)
            geo = ("win", [q0(k=k, s=s, p=p)] * 2)
            cur = nx
        elif m < .7:
            M = enn.PointwiseAvgPool(cur, k, s, 0)
            geo = ("win", [q0(k=k, s=s)] * 2)
        elif m < .85:
            M = enn.R2Upsampling(cur, scale_factor=2)
            geo = ("scale", [q0(num=2)] * 2)
        else:
            M = enn.IdentityModule(cur)
            geo = ("same", [q0()] * 2)
        ms.append(M)
        geos.append(geo)
    return enn.SequentialModule(*ms), ds, geos


def covered(q, n):
    """every pooling window meets the input"""
    m = n + 2 * q["p"] - q["d"] * (q["k"] - 1) - 1
    o = -(-m // q["s"]) + 1 if q["ceil"] else m // q["s"] + 1
    return all(any(0 <= a * q["s"] - q["p"] + q["d"] * k < n for k in range(q["k"])) for a in range(o)
               if not q["ceil"] or a * q["s"] < n + q["p"])


def run(case, h):
    r = rng(h)
    for _ in range(8):
        try:
            return (yield from run1(case, r))
        except ValueError as ex:        # an empty basis is refused
            if "is empty" not in str(ex):
                raise


def run1(case, r):
    sp, kind = case["sp"], case["kind"]
    b = Builder(sp)
    two = False
    if kind in WIN:
        M, ds, geom, qs = windowed(kind, b, sp, r)
        geos = [(geom, qs)]
    elif kind in CONV:
        if r.random() < .5:
            M, ds, geom, qs = conv_pair(kind, b, sp, r)
        else:
            M, q, ds, _ = p11.layer(kind, b, sp, r)
            geom = "tconv" if kind == "tconv" else "win"
            qs = [q0(k=q["k"], s=q["s"], p=q["ph"], d=q["d"]), q0(k=q["k"], s=q["s"], p=q["pw"], d=q["d"])]
        geos = [(geom, qs)]
    elif kind == "seq":
        M, ds, geos = seq(b, sp, r)
    elif kind in ("fdrop", "pdrop"):
        M, ds = p16.mk("field" if kind == "fdrop" else "point", b, sp, r, .5, r.random() < .3)
        geos = [("same", [q0()] * 2)]
    else:
        m = make(kind, b, sp, r, 10)
        if m is None:
            return
        M, ds, two = m.M, m.din, m.two
        geos = [("same", [q0()] * 2)]
    if kind == "tconv" and M.weights.numel() == 0:
        return
    M.train(r.random() < .5)
    mode = getattr(M, "padding_mode", "zeros")
    key = case["key"]
    for _ in range(3):
        bt = r.choice([1, 2, 3])
        hw = None
        for _ in range(30):
            c = [r.randrange(1, 12), r.randrange(1, 12)]
            if kind == "mask":
                c = [qs[0]["o"]] * 2
            n, ok = list(c), True
            for geom, q in geos:
                nn_ = [plen(geom, q[a], n[a]) for a in (0, 1)]
                ok = ok and min(nn_) >= 1 and (mode == "zeros" or max(q[0]["p"], q[1]["p"]) < min(n))
                if kind in ("maxpool", "normmax", "maxpoola"):
                    ok = ok and covered(q[0], n[0]) and covered(q[1], n[1])
                n = nn_
            if ok and n[0] * n[1] < 4000:
                hw = c
                break
        if hw is None:
            continue
        if kind in ("innerbn", "normbn", "inormbn", "gbn") and M.training and bt * hw[0] * hw[1] == 1:
            bt = 2
        c = sum(size(sp["g"], d) for d in ds)
        x = torch.randn(bt, c, *hw)
        if two:
            n = M.in_type[0].size
            args = [enn.GeometricTensor(x[:, :n].clone(), M.in_type[0]), enn.GeometricTensor(x[:, n:].clone(), M.in_type[1])]
        else:
            args = [enn.GeometricTensor(x, M.in_type)]
        ty = [a.type for a in args]
        out = M(*args)
        pred = M.evaluate_output_shape(*[tuple(a.tensor.shape) for a in args])
        yield {"op": "shape", "key": key, "inp": list(x.shape), "out": list(out.tensor.shape), "pred": [int(v) if v == int(v) else -1 for v in pred],
               "typed": out.type == M.out_type, "outsize": M.out_type.size, "kept": all(a.type is t for a, t in zip(args, ty)),
               "hs": [{"geom": g_, "q": q[0]} for g_, q in geos], "ws": [{"geom": g_, "q": q[1]} for g_, q in geos]}
    if hw is None:
        return
    if two:
        for w, t in wrong_types(b, sp, r, ds[len(ds) // 2:]):
            y = enn.GeometricTensor(torch.randn(2, t.size, *hw), t)
            if t != M.in_type[1]:
                yield {"op": "wrong", "key": key, "what": w, "raised": raises(lambda: M(enn.GeometricTensor(torch.randn(2, M.in_type[0].size, *hw), M.in_type[0]), y))[1] != ""}
        return
    for w, t in wrong_types(b, sp, r, ds):
        yield {"op": "wrong", "key": key, "what": w, "raised": raises(lambda: M(enn.GeometricTensor(torch.randn(2, t.size, *hw), t)))[1] != ""}
    yield {"op": "wrong", "key": key, "what": "raw", "raised": raises(lambda: M(torch.randn(2, M.in_type.size, *hw)))[1] != ""}
    if all(d["t"] in ("irrep", "reg", "quo", "ind") for d in ds):
        t = Builder(sp).type(ds)
        M.eval()
        y, err = raises(lambda: M(enn.GeometricTensor(torch.randn(2, t.size, *hw), t)))
        yield {"op": "same", "key": key, "what": err, "ok": err == "" and y.type == M.out_type}
