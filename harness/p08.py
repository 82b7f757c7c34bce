"""Kernel bases: constraint, dimension, independence, attributes."""
from common import *
from e2cnn.kernels import EmptyBasisException
from p07 import spaces as sp07

UNI = [[[1, 1], [0, 1]], [[2, 1], [1, 1]], [[0, 1], [1, 0]], [[1, 0], [-1, 1]]]
UNI3 = [[[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]]


def spaces(tier):
    sps = [space("triv")] + [space("flip", ax2=a) for a in (0, 1260, 2520, 700, 6300, -420)]
    ns = (2, 3, 4, 5, 6, 7, 8, -1) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, -1)
    sps += [space("rot", n) for n in ns]
    for n in ns:
        sps += [space("fliprot", n, a) for a in ((2520, 0, 630, 6300) if tier == "quick" else (2520, 0, 1260, 630, 77, 6300, -1260))]
    return sps


def comps(g, r):
    """composite representations of moderate size"""
    irr = irreps_of(g, 3)
    k = r.randrange(6)
    if k == 0 and not g["c"] and len(elems(g)) <= 8:
        return REG
    if k == 1 and not g["c"]:
        ids = [q for q in ids_of(g) if 1 < len(elems(g)) // len(elems(sub_desc(g, q))) <= 6]
        if ids:
            return quo(*r.choice(ids))
    if k == 2 and not g["c"]:
        ids = [q for q in ids_of(g) if len(elems(g)) // len(elems(sub_desc(g, q))) <= 3]
        q = r.choice(ids)
        d = ind(q[0], q[1], r.choice(irreps_of(sub_desc(g, q))))
        if size(g, d) <= 6:
            return d
    if k == 3:
        d = r.choice(irr)
        n = size(g, d)
        if n == 2:
            return cob(r.choice(UNI), d)
        t = rsum(d, r.choice(irr))
        n = size(g, t)
        return cob(r.choice(UNI if n == 2 else UNI3), t)
    ds = [r.choice(irr) for _ in range(r.choice([1, 2, 2, 3]))]
    return rsum(*ds) if len(ds) > 1 else ds[0]


def pairs(sp, r, n):
    g = sp["g"]
    irr = irreps_of(g, 3)
    out = []
    allp = [(a, b) for a in irr for b in irr]
    r.shuffle(allp)
    out += allp[:n]
    for _ in range(max(2, n // 2)):
        out.append((comps(g, r), comps(g, r)))
    return out


def cases(tier, seed, gen):
    cs = []
    for it in range(4 if tier == "quick" else 24):
        for sp in spaces(tier):
            cs.append({"key": f"{sp['s']}{sp['g']['n']}/{sp['ax2']}", "sp": sp, "it": it, "n": 5 if tier == "quick" else 9})
    return cs


def grid_sample(B, th, rad):
    p = np.stack([rad * np.cos(th), rad * np.sin(th)])
    return B.sample(p)


def run(case, h):
    r, sp = rng(h), case["sp"]
    g = sp["g"]
    gs = lib_space(sp, 4)
    T2R = TAU / TURN
    for din, dout in pairs(sp, r, case["n"]):
        rin, rout = lib_rep_of(gs.fibergroup, g, din), lib_rep_of(gs.fibergroup, g, dout)
        F = T = -1
        kw = {}
        if not g["c"]:
            m = r.random()
            if m < .7:
                F = r.choice([0, 1, 2, 3, 4, 5, 6])
                if size(g, din) * size(g, dout) <= 4 and r.random() < .3:
                    F = r.choice([7, 9, 13, 17])
            elif m < .85:
                T = r.choice([0, 1, 2])
            else:
                F, T = r.choice([1, 3, 6]), r.choice([0, 1])
            if F >= 0:
                kw["maximum_frequency"] = F
            if T >= 0:
                kw["maximum_offset"] = T
        nr = r.choice([1, 1, 2])
        rings = [r.choice([0., 1., 2.])] if nr == 1 else r.choice([[0., 1.], [1., 2.5], [0.5, 2.]])
        sigma = r.choice([.6, [.5 + .2 * k for k in range(nr)]])
        nin, nout = size(g, din), size(g, dout)
        ev = {"op": "basis", "key": case["key"], "sp": sp, "din": din, "dout": dout, "F": F, "T": T, "Fall": 9, "rings": nr}
        try:
            B = gs.build_kernel_basis(rin, rout, sigma=sigma, rings=rings, **kw)
        except EmptyBasisException:
            yield dict(ev, dim=0, empty=True, len=0, shape=[0, 0], attrs=True)
            continue
        at = list(B)
        attrs = len(at) == B.dim and all(a["idx"] == k for k, a in enumerate(at))
        sg = [sigma] * nr if isinstance(sigma, float) else sigma
        for k, a in enumerate(at):
            b = B[k]
            attrs = attrs and set(a) == set(b) and all(np.all(np.asarray(a[q]) == np.asarray(b[q])) for q in a)
            attrs = attrs and any(abs(a["radius"] - rings[q]) < 1e-9 and abs(a["sigma"] - sg[q]) < 1e-9 for q in range(nr))
        yield dict(ev, dim=B.dim, empty=False, len=len(B), shape=list(B.shape), attrs=bool(attrs))
        base = {"key": case["key"], "sp": sp, "din": din, "dout": dout}
        pick = sorted(r.sample(range(B.dim), min(B.dim, 24)))
        K = lambda s, j: [s[:, :, b, j] for b in pick]
        rad = r.choice([.5, 1., 1.7, 2.2])
        for e in some_elems(g, r, 4)[1:] if not g["c"] else some_elems(g, r, 5)[2:]:
            th = r.randrange(TURN)
            f, u = iso(sp, e)
            thg = (u - th if f else u + th) % TURN
            s = grid_sample(B, np.array([th, thg]) * T2R, rad)
            k1, b1 = ints(np.array(K(s, 0)), 10000, 300000)
            k2, b2 = ints(np.array(K(s, 1)), 10000, 300000)
            yield dict(base, op="constraint", e=e, th=th, thg=thg, K=k1, Kg=k2, bad=b1 + b2)
        mu = [int(at[b]["frequency"]) for b in pick]
        s = B.sample(np.zeros((2, 1)))
        k0, b0 = ints(np.array(K(s, 0)), 10000, 300000)
        yield dict(base, op="origin", els=some_elems(g, r, 5), K=k0, bad=b0, mu=mu)
        th, d = r.randrange(TURN), r.choice([210, 300, 450, 77])
        s = grid_sample(B, np.array([th, th + d, th + 2 * d]) * T2R, rad)
        rad2 = rad + r.choice([-.4, .5])
        s2 = grid_sample(B, np.array([th]) * T2R, rad2)
        pf = lambda q, k: math.exp(-.5 * (q - at[k]["radius"]) ** 2 / at[k]["sigma"] ** 2)
        yield dict(base, op="freq", F=F, mu=mu, d=d, A0=ints(np.array(K(s, 0)), 10000, 300000)[0], A1=ints(np.array(K(s, 1)), 10000, 300000)[0],
                   A2=ints(np.array(K(s, 2)), 10000, 300000)[0], R0=ints(np.array(K(s2, 0)), 10000, 300000)[0],
                   prof1=ints([pf(rad, k) for k in pick], 10000)[0], prof2=ints([pf(rad2, k) for k in pick], 10000)[0])
        # a certificate of linear independence: rows = elements, a well conditioned choice of as many samples
        if B.dim <= 40:
            ths = np.array([r.randrange(TURN) for _ in range(40)] if F <= 6 else [k * TURN // 126 for k in range(126)]) * T2R
            s = np.concatenate([grid_sample(B, ths, max(q, .4)) for q in rings], -1)
            M = s.transpose(2, 0, 1, 3).reshape(B.dim, -1)
            import scipy.linalg
            _, _, piv = scipy.linalg.qr(M, pivoting=True, mode="economic")
            M = M[:, piv[:B.dim]]
            L = np.linalg.pinv(M, rcond=1e-6)
            yield dict(base, op="indep", M=ints(M, 10000, 300000)[0], L=ints(L, 10000, 400000)[0])
