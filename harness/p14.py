"""Each field is processed on its own, by the documented formula."""
from common import *
from fields import *
from mods import *

FORM = ["pointwise", "relu", "elu", "norm", "inorm", "concat", "vector", "gpool", "normpool", "inormpool", "innerbn", "normbn", "inormbn",
        "identity", "gated1", "gated2", "igated", "gbn", "reshuffle", "maxpool", "avgpool", "normmax", "adaptavg", "adaptmax", "upsample", "mask"]
INDEP = ["disentangle", "gbn", "restrict", "maxpoola", "avgpoola", "reshuffle", "norm", "inorm", "innerbn", "normbn", "inormbn", "upsample", "normmax"]


HOM = ["relu", "vector", "gpool", "normpool", "inormpool", "identity", "reshuffle", "normmax", "maxpool", "avgpool", "adaptavg", "adaptmax", "upsample", "mask"]


def cases(tier, seed, gen):
    cs = []
    for it in range(5 if tier == "quick" else 50):
        for sp in ex_spaces():
            for op, ks in (("form", FORM), ("indep", INDEP)):
                for kind in ks:
                    if kind == "vector" and sp["s"] != "rot":
                        continue
                    cs.append({"key": f"{op}/{kind}/{sp['s']}{sp['g']['n']}", "sp": sp, "kind": kind, "it": it, "op": op})
    return cs


def put(t, vals):
    with torch.no_grad():
        t.copy_(torch.tensor(vals, dtype=t.dtype).reshape(t.shape))


SQ = [4, 9, 16, 25, 36, 64]


def bn_params(M, r, affine, per_irrep=None):
    """sets the statistics and parameters, returns one record per stored entry"""
    named = dict(M.named_parameters())
    named.update(dict(M.named_buffers()))
    ps = []
    for n in sorted(named):
        if not n.endswith("running_var"):
            continue
        pre = n[:-len("running_var")]
        k = named[n].numel()
        v = [r.choice(SQ) for _ in range(k)]
        put(named[n], [a / 16 for a in v])
        w, mu, bi = [8] * k, [0] * k, [0] * k
        if pre + "weight" in named:
            w = [r.randrange(-12, 13) for _ in range(k)]
            put(named[pre + "weight"], [a / 8 for a in w])
        if per_irrep is None:
            if pre + "running_mean" in named:
                mu = [r.randrange(-8, 9) for _ in range(k)]
                put(named[pre + "running_mean"], [a / 8 for a in mu])
            if pre + "bias" in named:
                bi = [r.randrange(-8, 9) for _ in range(k)]
                put(named[pre + "bias"], [a / 8 for a in bi])
            ps += [list(q) for q in zip(v, w, mu, bi)]
        else:
            triv = per_irrep[pre]           # for each irrep of this representation: trivial?
            nf, ni, nt = named[n].shape[0], named[n].shape[1], sum(triv)
            ms = [r.randrange(-8, 9) for _ in range(nf * nt)]
            bs = [r.randrange(-8, 9) for _ in range(nf * nt)] if pre + "bias" in named else [0] * (nf * nt)
            if nt:
                put(named[pre + "running_mean"], [a / 8 for a in ms])
                if pre + "bias" in named:
                    put(named[pre + "bias"], [a / 8 for a in bs])
            for f in range(nf):
                rec, t = [], 0
                for j in range(ni):
                    a = f * ni + j
                    if triv[j]:
                        rec.append([v[a], w[a], ms[f * nt + t], bs[f * nt + t]])
                        t += 1
                    else:
                        rec.append([v[a], w[a], 0, 0])
                ps.append(rec)
    return ps


def milli(t):
    a = t.detach().double().numpy()
    bad = int((~np.isfinite(a)).sum())
    return np.clip(np.rint(np.where(np.isfinite(a), a, 0) * 1000), -2e8, 2e8).astype(int), bad


def fibres(t):
    """(b, c, h, w) -> list of channel vectors"""
    return np.moveaxis(t, 1, -1).reshape(-1, t.shape[1]).tolist()


def run(case, h):
    r, sp, kind = rng(h), case["sp"], case["kind"]
    g = sp["g"]
    b = Builder(sp)
    key = case["key"]
    m = make(kind, b, sp, r, 12)
    if m is None:
        return
    M = m.M
    prec = torch.float64 if r.random() < .3 else torch.float32
    c = sum(size(g, d) for d in m.din)
    if case["op"] == "indep":
        randomise(M, r)
        M.eval()
        M.to(prec)
        if m.pars.get("track") is False:
            return
        n = m.geo.get("n", 4) if m.geo else 2
        if m.geo and "k" in m.geo:
            n = m.geo["d"] * (m.geo["k"] - 1) + 2
        x = np.random.uniform(-2, 2, (1, c, n, n))
        f = r.randrange(len(m.din))
        sz = [size(g, d) for d in m.din]
        off = sum(sz[:f])
        x2 = x.copy()
        x2[:, off:off + sz[f]] += np.random.uniform(-2, 2, (1, sz[f], n, n))
        y, y2 = call(m, x, prec).tensor, call(m, x2, prec).tensor
        if kind == "reshuffle":
            o = m.pars["perm"].index(f)
            off = sum(sz[i] for i in m.pars["perm"][:o])
        d, bad = milli((y - y2).abs().amax((0, 2, 3)))
        yield {"op": "indep", "key": key, "kind": kind, "din": m.din, "f": f, "first": off + 1, "last": off + sz[f], "diff": d.tolist(), "bad": bad}
        return
    M.eval()
    ev = {"key": key, "kind": kind, "g": g, "din": m.din}
    q = {"f": {"relu": "relu", "elu": "elu"}.get(kind, m.pars.get("f", "")), "al2": int(2 * m.pars.get("alpha", 1.)), "bias": bool(m.pars.get("bias", False))}
    ps = [[0]]
    if kind in ("norm", "inorm") and m.pars["bias"]:
        p = M.log_bias
        v = [r.randrange(-20, 5) for _ in range(p.numel())]
        put(p, [a / 8 for a in v])
        ps = [[a] for a in v]
    elif kind in ("gated1", "gated2", "igated"):
        v = [r.randrange(-12, 13) for _ in range(M.bias.numel())]
        put(M.bias, [a / 8 for a in v])
        ps = v
    elif kind in ("innerbn", "normbn", "inormbn"):
        if m.pars.get("track") is False:
            return
        ps = bn_params(M, r, m.pars["affine"])
    elif kind == "gbn":
        if any(d["t"] not in ("irrep", "sum", "cob") for d in m.din):
            m.din = [d for d in m.din if d["t"] in ("irrep", "sum", "cob")] or [irreps_of(g, 1)[0]]
            m.M = M = enn.GNormBatchNorm(b.type(m.din), affine=m.pars["affine"])
            M.eval()
            ev["din"] = m.din
            c = sum(size(g, d) for d in m.din)
        tr = {}
        for d in m.din:
            ir = [d] if d["t"] == "irrep" else d["s"] if d["t"] == "sum" else d["d"]["s"] if d["d"]["t"] == "sum" else [d["d"]]
            tr[b.rep(d).name + "_"] = [x["j"] == 0 and x["k"] == 0 for x in ir]
        ps = bn_params(M, r, m.pars["affine"], tr)
    M.to(prec)
    # positively homogeneous functions are judged at other magnitudes as well
    hom = kind in HOM or (kind == "norm" or kind == "inorm") and q["f"] == "n_relu" and not q["bias"] or q["f"] in ("p_relu", "c_relu")
    sc = r.choice([1., 1e-4, 1e4]) if hom else 1.
    if m.pix:
        x = np.random.randint(-16, 17, (r.choice([1, 2]), c, r.choice([1, 2]), r.choice([1, 3])))
        if r.random() < .15:
            x[:, :, 0, 0] = 0
        y = call(m, x * (sc / 8.), prec).tensor / sc
        yi, bad = milli(y)
        ev.update(x=fibres(x), y=fibres(yi), bad=bad)
        if kind == "reshuffle":
            ev.update(op="shuffle", perm=[i + 1 for i in m.pars["perm"]])
        elif kind in ("gated1", "gated2", "igated"):
            ev.update(op="gated", induced=kind == "igated", labels=m.pars["gates"], drop=m.pars["drop"], ps=ps)
        elif kind == "gbn":
            ev.update(op="gbn", ps=ps)
        else:
            ev.update(op="field", q=q, ps=ps, tol=8 if kind in ("norm", "inorm", "innerbn", "normbn", "inormbn") else 3)
        yield ev
        return
    # spatial modules
    G_ = m.geo
    hh, ww = r.choice([3, 4, 5]), r.choice([3, 4, 5])
    if kind == "mask":
        hh = ww = G_["n"]
        rad = (hh - 1) / 2 * (1 - G_["margin"] / 100)
        q = {"t4": int(math.floor(4 * rad * rad + 1e-9))}
    elif kind in ("adaptavg", "adaptmax"):
        q = {"o": G_["o"]}
    elif kind == "upsample":
        kw = r.choice([dict(scale_factor=2), dict(scale_factor=3), dict(size=(r.choice([2, 6, 7]), r.choice([5, 6, 8]))), dict(size=7)])
        al, mode = r.random() < .4, r.choice(["bilinear", "bilinear", "nearest"])
        m.M = M = enn.R2Upsampling(M.in_type, mode=mode, align_corners=al if mode == "bilinear" else False, **kw)
        q = {"align": al, "mode": mode}
    else:
        lo = G_["d"] * (G_["k"] - 1) + 1
        hh, ww = lo + r.choice([0, 1, 2]), lo + r.choice([0, 1, 3])
        q = dict(k=G_["k"], s=G_["s"], p=G_["p"], d=G_["d"], ceil=False)
    x = np.random.randint(-16, 17, (1, c, hh, ww))
    y = call(m, x * (sc / 8.), prec).tensor / sc
    yi, bad = milli(y)
    ev.update(op="window", q=q, x=x[0].tolist(), y=yi[0].tolist(), bad=bad)
    yield ev
