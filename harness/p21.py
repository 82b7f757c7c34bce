"""Lives of networks up to and after their export to plain PyTorch."""
import io, copy
from common import *
from fields import *
from mods import sup, TRIV

SHARD = 2_500_000
OK = ["identity", "restrict", "relu", "elu", "dropout", "maxpool", "maxpoola", "adaptavg", "adaptmax", "upsample", "conv", "tconv", "diff",
      "gpool", "innerbn"]
NOT = ["gpool!", "innerbn!", "norm", "avgpool", "avgpoola", "normpool", "gbn", "fielddrop", "mask", "pointwise", "reshuffle", "normmax"]
FORMS = ["seq", "seq", "nested", "list", "deep"]


def cases(tier, seed, gen):
    sps = ex_spaces()
    cs = []
    for n, g in enumerate(gen):
        sp = sps[n % len(sps)]
        cs.append({"key": f"{sp['s']}{sp['g']['n']}", "sp": sp, "ops": g["ops"], "needs": g["needs"], "first": OK[(n // len(sps) + n) % len(OK)], "form": FORMS[(n // 7) % 5]})
    for it in range(1 if tier == "quick" else 6):
        for sp in sps:
            for n, k in enumerate(OK + NOT):
                cs.append({"key": f"export/{k}/{sp['s']}{sp['g']['n']}", "sp": sp, "one": k, "it": it, "form": FORMS[(n + it) % 5]})
    return cs


def pw_pool(b, sp, r, lim=6):
    out = [TRIV]
    for _ in range(8):
        d = desc(sp["g"], r, lim, ("reg", "quo", "irrep"))
        if sup(b.rep(d), "pointwise") and d not in out:
            out.append(d)
    return out


def fits(n, k, s, p, d):
    return n + 2 * p - d * (k - 1) - 1 >= 0


def olen(n, k, s, p, d):
    return (n + 2 * p - d * (k - 1) - 1) // s + 1


class Net:
    """a chain of stages on a space"""

    def __init__(self, b, sp, r, shapes, any_fields=False):
        self.b, self.sp, self.r, self.shapes = b, sp, r, [tuple(s) for s in shapes]
        self.pool = pw_pool(b, sp, r)
        self.mods, self.ts, self.done = [], [], False
        self.ds = self.fields()

    def fields(self, ordered=None, lim=10):
        r, g = self.r, self.sp["g"]
        pool = r.sample(self.pool, min(len(self.pool), 2))
        out = []
        for _ in range(r.randrange(1, 5)):
            d = r.choice(pool)
            if sum(size(g, x) for x in out) + size(g, d) <= lim:
                out.append(d)
        if (r.random() < .85) if ordered is None else ordered:
            out.sort(key=lambda d: (size(g, d), self.pool.index(d)))
        return out or [TRIV]

    def sizes(self):
        return [size(self.sp["g"], d) for d in self.ds]

    def add(self, M, k, ds=None, shapes=None, track=True):
        self.ts.append({"k": k, "sizes": self.sizes(), "track": track})
        self.mods.append(M)
        self.ds = self.ds if ds is None else ds
        self.shapes = self.shapes if shapes is None else shapes
        return True

    def stage(self, kind):
        """append a stage of this kind (False: not possible here)"""
        r, b, sp = self.r, self.b, self.sp
        if self.done:
            return False
        T = b.type(self.ds)
        pw = all(sup(q, "pointwise") for q in T.representations)
        lo, hi = min(min(s) for s in self.shapes), max(max(s) for s in self.shapes)
        sz = self.sizes()
        contig = all(sz[a] != sz[c] or all(sz[m] == sz[a] for m in range(a, c)) for a in range(len(sz)) for c in range(a, len(sz)))
        if kind in ("conv", "tconv", "diff"):
            for _ in range(8):
                dout = self.fields()
                k = r.choice([1, 2, 3, 3, 4, 5]) if kind != "diff" else r.choice([3, 3, 4, 5])
                s, d, p = r.choice([1, 1, 2]), r.choice([1, 1, 1, 2]), r.choice([0, 1, 1, 2])
                mode = r.choice(["zeros", "zeros", "reflect", "replicate", "circular"]) if kind != "tconv" else "zeros"
                groups = 2 if len(self.ds) % 2 == 0 and len(dout) % 2 == 0 and self.ds[:len(self.ds) // 2] == self.ds[len(self.ds) // 2:] \
                    and dout[:len(dout) // 2] == dout[len(dout) // 2:] and r.random() < .6 else 1
                op = 0
                if kind == "tconv":
                    op = r.choice([0, 1]) if max(s, d) > 1 else 0
                    new = [tuple((n - 1) * s - 2 * p + d * (k - 1) + op + 1 for n in q) for q in self.shapes]
                    good = min(min(q) for q in new) >= 1 and max(max(q) for q in new) <= 20
                else:
                    new = [tuple(olen(n, k, s, p, d) for n in q) for q in self.shapes]
                    good = fits(lo, k, s, p, d) and (mode == "zeros" or p < lo)
                if not good:
                    continue
                kw = dict(padding=p, stride=s, dilation=d, groups=groups, bias=r.random() < .7)
                To = b.type(dout)
                try:
                    if kind == "conv":
                        M = enn.R2Conv(T, To, k, padding_mode=mode, **kw)
                    elif kind == "tconv":
                        M = enn.R2ConvTransposed(T, To, k, output_padding=op, **kw)
                    else:
                        M = enn.R2Diffop(T, To, kernel_size=k, maximum_order=r.choice([1, 2]), padding_mode=mode, **kw)
                except ValueError as ex:
                    if "empty" in str(ex):
                        continue
                    raise
                if M.weights.numel() == 0:
                    continue
                return self.add(M, kind, dout, new)
            return False
        if kind == "identity":
            return self.add(enn.IdentityModule(T), kind)
        if kind == "restrict":
            g = sp["g"]
            ids = [[-1, 1], [-1, 2]] if g["c"] else [q for q in ids_of(g) if sp["s"] not in ("triv", "flip") or q[0] < 0]
            self.done = True
            return self.add(enn.RestrictionModule(T, space_id(sp, r.choice(ids))), kind)
        if kind == "upsample":
            if hi > 7:
                return False
            kw = r.choice([dict(scale_factor=2), dict(scale_factor=3), dict(size=7), dict(size=(6, 5)), dict(scale_factor=2, align_corners=True),
                           dict(size=8, align_corners=True), dict(scale_factor=2, mode="nearest"), dict(size=(5, 9), mode="nearest")])
            f = lambda q: tuple(n * kw["scale_factor"] for n in q) if "scale_factor" in kw else (kw["size"] if isinstance(kw["size"], tuple) else (kw["size"],) * 2)
            return self.add(enn.R2Upsampling(T, **kw), kind, None, [f(q) for q in self.shapes])
        if not pw:
            return False
        if kind == "relu":
            return self.add(enn.ReLU(T, inplace=r.random() < .4), kind)
        if kind == "elu":
            return self.add(enn.ELU(T, alpha=r.choice([1., .5, 2.]), inplace=r.random() < .4), kind)
        if kind == "dropout":
            return self.add(enn.PointwiseDropout(T, p=r.choice([.3, .5, .9]), inplace=r.random() < .3), kind)
        if kind in ("maxpool", "maxpoola"):
            k, s, d = r.choice([1, 2, 2, 3, (2, 3)]), r.choice([None, 1, 2, 3, (1, 2)]), r.choice([1, 1, 2]) if kind == "maxpool" else 1
            k2 = k if isinstance(k, tuple) else (k, k)
            p = r.choice([0, 0, 1]) if min(k2) > 1 and d == 1 else 0
            s2 = k2 if s is None else s if isinstance(s, tuple) else (s, s)
            if not all(fits(q[a], k2[a], s2[a], p, d) for q in self.shapes for a in (0, 1)):
                return False
            ceil = r.random() < .4
            if kind == "maxpool":
                M = enn.PointwiseMaxPool(T, k, s, p, d, ceil)
                new = [tuple(olen(q[a], k2[a], s2[a], p, d) for a in (0, 1)) for q in self.shapes]
            else:
                M = enn.PointwiseMaxPoolAntialiased(T, k, s, p, 1, ceil, sigma=r.choice([.3, .6, 1.]))
                new = [tuple((q[a] + 2 * p - k2[a] + 1 - 1) // s2[a] + 1 for a in (0, 1)) for q in self.shapes]
            return self.add(M, kind, None, new)
        if kind in ("adaptavg", "adaptmax"):
            o = r.choice([1, 2, 3, (2, 3)])
            C = enn.PointwiseAdaptiveAvgPool if kind == "adaptavg" else enn.PointwiseAdaptiveMaxPool
            return self.add(C(T, o), kind, None, [o if isinstance(o, tuple) else (o, o)] * len(self.shapes))
        if kind == "gpool":
            return len(set(sz)) == 1 and self.add(enn.GroupPooling(T), kind, [TRIV] * len(self.ds))
        if kind == "innerbn":
            return contig and self.add(enn.InnerBatchNorm(T, eps=r.choice([1e-5, .1, 1.]), momentum=r.choice([.1, .5, 1.]), affine=r.random() < .8), kind)
        if kind == "gpool!":
            return len(set(sz)) > 1 and self.add(enn.GroupPooling(T), "gpool", [TRIV] * len(self.ds))
        if kind == "innerbn!":
            trk = contig and r.random() < .5
            return (not contig or not trk) and self.add(enn.InnerBatchNorm(T, track_running_stats=trk or not contig), "innerbn", track=trk or not contig)
        M = {"norm": lambda: enn.NormNonLinearity(T), "avgpool": lambda: enn.PointwiseAvgPool(T, 2) if lo >= 2 else None,
             "avgpoola": lambda: enn.PointwiseAvgPoolAntialiased(T, .6, 2), "normpool": lambda: enn.NormPool(T),
             "gbn": lambda: enn.GNormBatchNorm(T), "fielddrop": lambda: enn.FieldDropout(T), "mask": lambda: None,
             "pointwise": lambda: enn.PointwiseNonLinearity(T, "p_sigmoid"), "reshuffle": lambda: enn.ReshuffleModule(T, list(reversed(range(len(self.ds))))),
             "normmax": lambda: enn.NormMaxPool(T, 2, padding=1)}[kind]()
        self.done = True
        return M is not None and self.add(M, kind)


def assemble(mods, form, cut):
    if form == "list":
        return enn.ModuleList(mods)
    if form == "nested" and len(mods) > 1:
        return enn.SequentialModule(enn.SequentialModule(*mods[:cut]), enn.SequentialModule(*mods[cut:]))
    if form == "deep" and len(mods) > 1:
        return enn.SequentialModule(mods[0], enn.SequentialModule(enn.SequentialModule(*mods[1:])))
    return enn.SequentialModule(*mods)


def apply(o, x, equiv):
    """what the (exported) network computes"""
    chain = list(o) if isinstance(o, (enn.ModuleList, torch.nn.ModuleList)) else [o]
    if equiv:
        y = enn.GeometricTensor(x, chain[0].in_type)
        for m in chain:
            y = m(y)
        return y.tensor
    for m in chain:
        x = m(x)
    return x


CONVS = (enn.R2Conv, enn.R2ConvTransposed, enn.R2Diffop)
PREC = {"single": torch.float32, "double": torch.float64}


def params(o):
    """(name, parameter, belongs to a convolution)"""
    for mn, m in o.named_modules():
        for n, p in m.named_parameters(recurse=False):
            yield mn + "." + n, p, isinstance(m, CONVS)


def stats(o):
    return {n: q for n, q in o.named_buffers() if n.split(".")[-1] in ("running_mean", "running_var", "num_batches_tracked")}


def put(o, val, how=0, only=None):
    ps = [(n, p) for n, p, c in params(o) if only is None or c == only]
    with torch.no_grad():
        if how == 0:
            for n, p in ps:
                p.copy_(val[n])
        elif how == 1:
            for n, p in ps:
                p.data = val[n].to(p.dtype).clone()
    if how == 2 and ps:
        opt = torch.optim.SGD([p for _, p in ps], lr=1.)
        for n, p in ps:
            p.grad = p.data - val[n].to(p.dtype)
        opt.step()
        opt.zero_grad()


def build(case, h, kinds, shapes, s):
    r = random.Random(s)
    b = Builder(case["sp"])

    def one():
        rr = random.Random(s + 1)
        net = Net(b, case["sp"], rr, shapes)
        n = rr.randrange(1, 5)
        for k in kinds(rr, n):
            net.stage(k)
        return net
    return one


def run(case, h):
    r = rng(h)
    key = case["key"]
    if "one" in case:
        yield from single(case, h, r)
        return
    shapes = [(r.choice([5, 6, 7]), r.choice([5, 6, 7])), (r.choice([5, 8]), r.choice([6, 9]))]
    first = case["first"]

    def kinds(rr, n):
        ks = [rr.choice(["conv", "conv", "tconv", "diff", "innerbn"])] + [rr.choice(OK) for _ in range(n)] + ["innerbn"]
        ks.insert(rr.randrange(0, len(ks) + 1), first)
        return ks
    net = None
    for _ in range(12):
        s = r.randrange(2 ** 30)
        one = build(case, h, kinds, shapes, s)
        net = one()
        if any(t["k"] == first for t in net.ts):
            break
    cut = r.randrange(1, max(2, len(net.mods)))
    make = lambda: assemble(one().mods, case["form"], cut)
    o0 = make()
    V = [{n: torch.randn_like(p, dtype=torch.float64) * .6 + (.2 if not c else 0.) for n, p, c in params(o0)} for _ in range(3)]
    S = [{n: q.clone().double() for n, q in stats(o0).items()}]
    cin = net.mods[0].in_type.size
    X = [torch.randn(r.choice([1, 2]), cin, *q, dtype=torch.float64) for q in shapes]
    if r.random() < .2:
        X[1] = X[1].contiguous(memory_format=torch.channels_last)
    put(o0, V[0])
    objs, plain, snaps, prec = [o0], [False], [], ["single"]
    events = []

    def look():
        out = []
        for k, o in enumerate(objs):
            if not plain[k] and o.training:
                out.append([])
                continue
            y = [apply(o, x.clone().to(PREC[prec[k]]), not plain[k]).detach() for x in X]
            out.append([v.double().numpy() for v in y] + [all(v.dtype == PREC[prec[k]] for v in y)])
        return out
    err, npass = "", 0
    rows = [dict(o=None, out=look())]
    for op in case["ops"]:
        i = op["i"] - 1
        o, k = objs[i], op["o"]
        ev = dict(o=op, pure=True, raised="")
        if k == "train":
            o.train()
        elif k == "eval":
            o.eval()
        elif k == "pass":
            npass += 1
            x = torch.randn(3, cin, *shapes[npass % 2], dtype=PREC[prec[i]]) * 1.5 + .3
            apply(o, x, True)
            S.append({n: q.clone().double() for n, q in stats(o).items()})
        elif k == "update":
            put(o, V[op["v"]], op["how"])
        elif k == "cast":
            o.to(PREC[op["p"]])
            prec[i] = op["p"]
        elif k == "save":
            f = io.BytesIO()
            torch.save(o.state_dict(), f)
            snaps.append(f)
        elif k == "load":
            f = snaps[op["s"] - 1]
            f.seek(0)
            o.load_state_dict(torch.load(f))
        elif k == "copy":
            objs.append(copy.deepcopy(o))
            plain.append(plain[i])
            prec.append(prec[i])
        elif k == "export":
            e = o.export()
            objs.append(e)
            plain.append(True)
            prec.append(prec[i])
            ev["pure"] = isinstance(e, torch.nn.Module) and not any(isinstance(m, enn.EquivariantModule) for m in e.modules())
        elif k == "again":
            e = make().export().to(PREC[prec[i]])
            f = io.BytesIO()
            torch.save(o.state_dict(), f)
            f.seek(0)
            e.load_state_dict(torch.load(f))
            objs.append(e)
            plain.append(True)
            prec.append(prec[i])
        ev["out"] = look()
        rows.append(ev)
    refs = []
    for c, w, s_ in case["needs"]:
        o = make().double()
        put(o, V[w], 0, False)
        put(o, V[c], 0, True)
        with torch.no_grad():
            for n, q in stats(o).items():
                q.copy_(S[s_][n])
        o.eval()
        refs.append([apply(o, x.clone(), True).detach().numpy() for x in X])
    m = max([float(np.abs(y).max()) for f in refs for y in f] + [1e-6])
    sc = 100000. / m
    pts = [[tuple(r.randrange(d) for d in y.shape) for _ in range(14)] for y in refs[0]] if refs else []

    def pack(ys):
        v, bad, shp = [], 0, []
        for n in range(2):
            shp.append(list(ys[n].shape))
            good = refs and ys[n].shape == refs[0][n].shape
            a, k = ints([float(ys[n][p]) * sc if good else 0. for p in pts[n]], 1, 10 ** 7)
            v.append(a)
            bad += k
        return {"v": v, "bad": bad, "shp": shp}

    yield {"op": "net", "key": key, "ts": net.ts, "form": case["form"], "refs": [dict(key=k, **pack(f)) for k, f in zip(case["needs"], refs)]}
    for ev in rows[0 if False else 1:]:
        outs = [dict(det=bool(q), dtype=bool(q[2]) if q else True, **(pack(q) if q else {"v": [[], []], "bad": 0, "shp": [[], []]})) for q in ev["out"]]
        yield {"op": "step", "key": key, "o": ev["o"], "pure": ev["pure"], "outs": outs}


def single(case, h, r):
    """one export of a network around one stage, supported or not"""
    k = case["one"]
    shapes = [(6, 7), (5, 5)]
    for _ in range(25):
        s = r.randrange(2 ** 30)
        b = Builder(case["sp"])
        rr = random.Random(s)
        net = Net(b, case["sp"], rr, shapes)
        if k in ("gpool!", "innerbn!"):
            net.ds = net.fields(ordered=False)
        if rr.random() < .5:
            net.stage("relu" if rr.random() < .5 else "identity")
        if not net.stage(k):
            continue
        if rr.random() < .4 and not net.done:
            net.stage("elu")
        if rr.random() < .25:           # a long chain
            for _ in range(rr.randrange(8, 12)):
                net.stage(rr.choice(["identity", "elu", "innerbn", "innerbn", "relu"]))
        o = assemble(net.mods, case["form"], 1)
        put(o, {n: torch.randn_like(p, dtype=torch.float64) * .6 + .2 for n, p, c in params(o)})
        cin = net.mods[0].in_type.size
        o.train()
        for q in shapes:
            apply(o, torch.randn(3, cin, *q) * 1.5 + .3, True)
        pr = torch.float64 if r.random() < .3 else torch.float32
        o.to(pr)
        e, raised = raises(o.export)
        o.eval()
        yv = [dict(v=[], w=[], bad=0, same=True)]
        if e is not None:
            yv = []
            for q in shapes:
                x = torch.randn(2, cin, *q, dtype=pr)
                y = apply(o, x.clone(), True).detach()
                z = apply(e, x.clone(), False).detach()
                p = [tuple(r.randrange(d) for d in y.shape) for _ in range(14)]
                good = y.shape == z.shape
                a, c, bad, _ = norm([float(y[t]) for t in p], [float(z[t]) if good else 0. for t in p], to=100000,
                                    floor=max(.01 * float(y.abs().max()), 1e-3))
                yv.append({"v": a, "w": c, "bad": bad, "same": good and y.dtype == z.dtype})
        yield {"op": "single", "key": case["key"], "ts": net.ts, "raised": raised, "out": yv, "form": case["form"]}
        return
