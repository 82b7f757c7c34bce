"""Random field types: descriptions and the library objects built from them."""
from common import *

UNI = [[[1, 1], [0, 1]], [[2, 1], [1, 1]], [[0, 1], [1, 0]], [[1, 0], [-1, 1]]]
UNI3 = [[[1, 1, 0], [0, 1, 1], [0, 0, 1]], [[0, 1, 0], [0, 0, 1], [1, 0, 0]]]


def desc(g, r, lim=8, kinds=("irrep", "reg", "quo", "ind", "cob", "sum", "res")):
    """a random representation of at most the given size"""
    irr = irreps_of(g, 3)
    for _ in range(20):
        k = r.choice(kinds)
        d = None
        if k == "irrep":
            d = r.choice(irr)
        elif k == "reg" and not g["c"] and len(elems(g)) <= lim:
            d = REG
        elif k in ("quo", "ind") and not g["c"]:
            ids = [q for q in ids_of(g) if len(elems(g)) // len(elems(sub_desc(g, q))) <= lim]
            q = r.choice(ids)
            d = quo(*q) if k == "quo" else ind(q[0], q[1], r.choice(irreps_of(sub_desc(g, q))))
        elif k == "cob":
            b = r.choice(irr)
            if size(g, b) == 1:
                b = rsum(b, r.choice(irr))
            d = cob(r.choice(UNI if size(g, b) == 2 else UNI3), b)
        elif k == "sum":
            d = rsum(*[r.choice(irr) for _ in range(r.choice([2, 2, 3]))])
        elif k == "res" and not g["c"]:
            d = restricted(g, r, lim)
        if d is not None and size(g, d) <= lim:
            return d
    return irr[0]


def restricted(g, r, lim):
    """restriction of a representation of a larger finite group to this one (None: none fits)"""
    n = g["n"]
    if g["k"] == "D":
        P = G("D", n * r.choice([2, 3]))
        q = [r.randrange(P["n"] // n), n] if n > 1 else None
    else:
        q = [-1, n]
        P = r.choice([G("C", 2 * n), G("C", 3 * n), G("D", n), G("D", 2 * n)])
        if n == 2 and r.random() < .6:
            P = G("D", r.choice([1, 2, 3, 4]))
            q = [r.randrange(P["n"]), 1]
    if q is None:
        return None
    ds = irreps_of(P)
    if r.random() < .4:
        ds = [quo(*i) for i in ids_of(P) if len(elems(P)) // len(elems(sub_desc(P, i))) <= lim] or ds
    return res(P, q[0], q[1], r.choice(ds))


def rand_type(g, r, lim=9, nmax=4, distinct=2, kinds=("irrep", "reg", "quo", "ind", "cob", "sum", "res")):
    """fields drawn (with repetitions, in any order) from a few representations"""
    pool = [desc(g, r, lim, kinds) for _ in range(distinct)]
    while len([d for d in pool if d["t"] == "res"]) > 1:      # (restrictions to different subgroups may share a name)
        pool.remove([d for d in pool if d["t"] == "res"][-1])
    ds, n = [], r.randrange(1, nmax + 1)
    for _ in range(n):
        d = r.choice(pool)
        if sum(size(g, x) for x in ds) + size(g, d) <= lim:
            ds.append(d)
    return ds or [irreps_of(g, 1)[0]]


class Builder:
    """builds every description once, so that equal fields are one representation"""

    def __init__(self, sp, maxf=4):
        self.sp, self.gs, self.mem = sp, lib_space(sp, maxf), {}

    def rep(self, d):
        import json
        k = json.dumps(d, sort_keys=True)
        if k not in self.mem:
            self.mem[k] = lib_rep_of(self.gs.fibergroup, self.sp["g"], d)
        return self.mem[k]

    def type(self, ds):
        return enn.FieldType(self.gs, [self.rep(d) for d in ds])


def exact_elems(sp, square=True):
    g = sp["g"]
    es = elems(g) if not g["c"] else [[f, u] for f in ((0, 1) if g["k"] == "D" else (0,)) for u in range(0, TURN, 630)]
    return [e for e in es if iso(sp, e)[1] % (1260 if square else 2520) == 0]


def norm(*arrs, to=10000, floor=0.):
    """arrays scaled together so that the largest value (or the given floor: what is smaller may be all rounding) is `to`; (int lists..., number of non-finite values, largest value)"""
    ns = [np.asarray(a.detach().double().numpy() if isinstance(a, torch.Tensor) else a, dtype=float) for a in arrs]
    bad = int(sum((~np.isfinite(a)).sum() for a in ns))
    ns = [np.where(np.isfinite(a), a, 0.) for a in ns]
    m = max([float(np.abs(a).max()) if a.size else 0. for a in ns] + [0.])
    m = max(m, floor)
    sc = to / m if m > 1e-12 else 0.
    return [np.rint(a * sc).astype(int).tolist() for a in ns] + [bad, m]


SPACES_EX = [("triv", 1, 0), ("flip", 2, 0), ("flip", 2, 1260), ("flip", 2, 2520), ("flip", 2, 3780), ("rot", 2, 0), ("rot", 4, 0), ("rot", 8, 0), ("rot", -1, 0),
             ("rot", 12, 0), ("fliprot", 2, 2520), ("fliprot", 2, 1260), ("fliprot", 4, 2520), ("fliprot", 4, 0), ("fliprot", 4, 1260), ("fliprot", 3, 2520),
             ("fliprot", 6, 0), ("fliprot", 8, 630), ("fliprot", 8, 2520), ("fliprot", -1, 2520), ("fliprot", -1, 0), ("fliprot", -1, 777), ("fliprot", 4, 630),
             ("fliprot", 5, 1260), ("flip", 2, 6300), ("fliprot", 4, -1260), ("fliprot", 2, 7560), ("rot", 3, 0), ("rot", 5, 0), ("rot", 6, 0), ("rot", 10, 0), ("fliprot", 7, 0)]


def ex_spaces():
    return [space(*a) for a in SPACES_EX]
