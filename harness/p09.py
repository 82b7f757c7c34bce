"""Differential operators: constraint, dimension, stencils, cache."""
import os, pickle, tempfile, shutil
from common import *
from e2cnn.kernels import EmptyBasisException
from e2cnn.diffops import DiscretizationArgs, store_cache, load_cache
import e2cnn.diffops.utils as du
from p08 import spaces, pairs

SC = 1000


def cases(tier, seed, gen):
    cs = []
    for it in range(3 if tier == "quick" else 20):
        for sp in spaces(tier):
            cs.append({"key": f"{sp['s']}{sp['g']['n']}/{sp['ax2']}", "sp": sp, "it": it, "n": 3 if tier == "quick" else 6})
    for it in range(12 if tier == "quick" else 60):
        cs.append({"key": "stencil", "what": "stencil", "it": it})
    for it in range(6 if tier == "quick" else 20):
        cs.append({"key": "cache", "what": "cache", "it": it})
    return cs


def points(s, dil=1.):
    c = (np.arange(s) - (s - 1) / 2) * dil
    X, Y = np.meshgrid(c, -c)
    return np.stack([X, Y]).reshape(2, -1)


def some_space(r):
    sp = r.choice([space("triv"), space("flip", ax2=0), space("flip", ax2=700), space("rot", 4), space("rot", 3), space("rot", -1),
                   space("fliprot", 2, 2520), space("fliprot", 4, 0), space("fliprot", 3, 630), space("fliprot", -1, 630)])
    return sp


def build(gs, sp, din, dout, power, disc, F):
    rin, rout = lib_rep_of(gs.fibergroup, sp["g"], din), lib_rep_of(gs.fibergroup, sp["g"], dout)
    kw = {} if sp["g"]["c"] else {"maximum_frequency": F}
    return gs.build_diffop_basis(rin, rout, power, disc, **kw)


def run_cache(case, r):
    scr = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    os.chdir(scr)
    reqs = []
    for _ in range(r.randrange(1, 5)):
        sp = some_space(r)
        irr = irreps_of(sp["g"], 2)
        s = r.choice([3, 5, 5, 4])
        reqs.append((sp, r.choice(irr), r.choice(irr), r.choice([0, 1]), s, r.choice([None, None, .3]), r.choice([1., 1., 2.])))

    def compute(some):
        out = []
        for sp, a, b, power, s, ang, dil in some:
            gs = lib_space(sp, 4)
            try:
                B = build(gs, sp, a, b, power, DiscretizationArgs(angle_offset=ang), 1)
            except EmptyBasisException:
                out.append(None)
                continue
            mask = np.array([at["order"] < s for at in B])
            out.append(B.sample_masked(points(s, dil), mask) if mask.any() else None)
        return out

    path = r.choice(["c.pickle", "sub/dir/c.pickle", os.path.join(scr, "abs", "x.pickle"), None])
    args = () if path is None else (path,)
    # a process that computes, stores, and goes on
    first = compute(reqs)
    err = raises(store_cache, *args)[1]
    again = compute(reqs)
    stored = dict(getattr(du, "_DIFFOP_CACHE", {}))
    # a fresh process that loads first (perhaps after computing some), then computes
    rd, wr = os.pipe()
    pre = r.random() < .4
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            for nm in ("_DIFFOP_CACHE", "_1D_KERNEL_CACHE"):
                if hasattr(du, nm):
                    getattr(du, nm).clear()
            if pre:
                compute(reqs[:1])
            e = raises(load_cache, *args)[1]
            now = getattr(du, "_DIFFOP_CACHE", stored)
            kept = all(k in now and np.array_equal(now[k], v) for k, v in stored.items())
            with os.fdopen(wr, "wb") as f:
                pickle.dump((compute(reqs), e, kept), f)
            code = 0
        finally:
            os._exit(code)
    os.close(wr)
    with os.fdopen(rd, "rb") as f:
        data = f.read()
    os.waitpid(pid, 0)
    os.chdir("/")
    shutil.rmtree(scr, ignore_errors=True)
    second, e2, kept = pickle.loads(data)
    eq = lambda u, v: (u is None) == (v is None) and (u is None or (u.shape == v.shape and np.allclose(u, v, atol=1e-12)))
    same = all(eq(a, b) and eq(a, c) for a, b, c in zip(first, second, again))
    yield {"op": "cache", "key": "cache", "same": bool(same), "kept": bool(kept), "err": err + e2, "n": len(reqs), "path": str(path)[:20]}


def run_stencil(case, r):
    for _ in range(6):
        sp = some_space(r)
        gs = lib_space(sp, 4)
        irr = irreps_of(sp["g"], 2)
        s = r.choice([1, 2, 3, 3, 4, 5, 5, 7])
        u = r.choice([0, 0, 1260, 700, 333])
        disc = DiscretizationArgs(angle_offset=u * TAU / TURN if u or r.random() < .3 else None)
        try:
            B = build(gs, sp, r.choice(irr), r.choice(irr), r.choice([0, 1]), disc, r.choice([1, 2, 3]))
        except EmptyBasisException:
            continue
        at = list(B)
        ok = [k for k in range(B.dim) if at[k]["order"] < s and at[k]["order"] <= 4]
        if not ok:
            continue
        mask = np.zeros(B.dim, dtype=bool)
        for k in ok:
            mask[k] = r.random() < .8
        if not mask.any():
            mask[ok[0]] = True
        p = points(s)
        W = B.sample_masked(p, mask)
        for q, k in enumerate(np.nonzero(mask)[0][:4]):
            i, j = r.randrange(B.shape[0]), r.randrange(B.shape[1])
            w, bad = ints(W[i, j, q], SC, 10 ** 6)
            yield {"op": "stencil", "key": "stencil", "s": s, "ang": u, "p": np.rint(2 * p.T).astype(int).tolist(),
                   "c": ints(B.coefficients[k][i, j], SC, 10 ** 6)[0], "w": w, "bad": bad}


def run(case, h):
    r = rng(h)
    if case.get("what") == "cache":
        yield from run_cache(case, r)
        return
    if case.get("what") == "stencil":
        yield from run_stencil(case, r)
        return
    sp = case["sp"]
    g = sp["g"]
    gs = lib_space(sp, 4)
    for din, dout in pairs(sp, r, case["n"]):
        rin, rout = lib_rep_of(gs.fibergroup, g, din), lib_rep_of(gs.fibergroup, g, dout)
        F = T = -1
        kw = {}
        if not g["c"]:
            m = r.random()
            if m < .7:
                F = r.choice([0, 1, 2, 3, 4, 5])
            elif m < .85:
                T = r.choice([0, 1])
            else:
                F, T = r.choice([1, 3, 5]), r.choice([0, 1])
            if F >= 0:
                kw["maximum_frequency"] = F
            if T >= 0:
                kw["maximum_offset"] = T
        power = r.choice([0, 0, 1, 2, 3])
        ev = {"op": "basis", "key": case["key"], "sp": sp, "din": din, "dout": dout, "F": F, "T": T, "Fall": 9, "power": power}
        try:
            B = gs.build_diffop_basis(rin, rout, power, DiscretizationArgs(), **kw)
        except EmptyBasisException:
            yield dict(ev, dim=0, empty=True, len=0, shape=[0, 0], attrs=True)
            continue
        at = list(B)
        attrs = len(at) == B.dim and all(a["idx"] == k for k, a in enumerate(at)) and B.maximum_order == max(a["order"] for a in at)
        for k, a in enumerate(at):
            b = B[k]
            attrs = attrs and set(a) == set(b) and all(np.all(np.asarray(a[q]) == np.asarray(b[q])) for q in a)
        yield dict(ev, dim=B.dim, empty=False, len=len(B), shape=list(B.shape), attrs=bool(attrs))
        small = [k for k in range(B.dim) if at[k]["order"] <= 9]
        pick = sorted(r.sample(small, min(len(small), 10)))
        if pick:
            C = [ints(B.coefficients[k], SC, 300000) for k in pick]
            for e in some_elems(g, r, 3)[1:] if not g["c"] else some_elems(g, r, 4)[2:]:
                th = r.randrange(TURN)
                f, u = iso(sp, e)
                thg = (u - th if f else u + th) % TURN
                yield {"op": "sym", "key": case["key"], "sp": sp, "din": din, "dout": dout, "F": F, "power": power, "e": e, "th": th,
                       "thg": thg, "d": r.choice([210, 300, 77]), "C": [c[0] for c in C], "bad": sum(c[1] for c in C),
                       "mu": [int(at[k]["frequency"]) for k in pick], "order": [int(at[k]["order"]) for k in pick],
                       "lap": [int(at[k]["power"]) for k in pick]}
        if B.dim <= 36:
            deg = max(c.shape[-1] for c in B.coefficients)
            n = B.shape[0] * B.shape[1]
            M = np.zeros((B.dim, n, deg, deg))
            for k, c in enumerate(B.coefficients):
                M[k, :, c.shape[-1] - 1, :c.shape[-1]] = c.reshape(n, -1)
            M = M.reshape(B.dim, -1)
            M = M / np.maximum(np.abs(M).max(1, keepdims=True), 1e-12)
            import scipy.linalg
            _, _, piv = scipy.linalg.qr(M, pivoting=True, mode="economic")
            M = M[:, piv[:B.dim]]
            yield {"op": "indep", "key": case["key"], "M": ints(M, 10000, 300000)[0],
                   "L": ints(np.linalg.pinv(M, rcond=1e-6), 10000, 400000)[0]}
    # whole layers: number of weights for a given maximal order, Laplacian power and choice of operators
    for _ in range(3):
        din, dout = pairs(sp, r, 2)[r.randrange(3)]
        mo = r.choice([0, 1, 2, 2, 3, 4])
        tin, tout = lib_type(gs, sp, [din]), lib_type(gs, sp, [dout])
        kw = {}
        power = r.choice([-1, -1, 0, 1, 2])
        if power >= 0:
            kw["maximum_power"] = power
        filt = r.choice(["none", "none", "any", "not1", "even"])
        if filt != "none":
            kw["basis_filter"] = {"any": lambda a: True, "not1": lambda a: a["order"] != 1, "even": lambda a: a["order"] % 2 == 0}[filt]
        if r.random() < .4:
            kw["kernel_size"] = mo + r.choice([1, 2, 3])
        else:
            kw["accuracy"] = r.choice([1, 2]) if mo else None
        try:
            L = enn.R2Diffop(tin, tout, maximum_order=mo, bias=False, initialize=False, **kw)
            n = int(L.weights.numel())
        except (EmptyBasisException, ValueError) as ex:
            n = 0
            if not ("empty" in str(ex).lower() or isinstance(ex, EmptyBasisException)):
                raise
        yield {"op": "layer", "key": case["key"], "sp": sp, "din": din, "dout": dout, "maxorder": mo, "dim": n, "power": power, "filt": filt}
