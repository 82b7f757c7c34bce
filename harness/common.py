"""Encodings shared by all harnesses: groups, elements, representations and
arrays as the JSON values the specification reads."""
import math, random
import numpy as np
import torch
import e2cnn
from e2cnn import group as egroup, gspaces, nn as enn
from e2cnn.group import cyclic_group, dihedral_group, so2_group, o2_group, directsum, change_basis

TURN = 5040
TAU = 2 * math.pi
BAD = -7   # an element that is not on the lattice / not decodable


# ---------------------------------------------------------------- groups
def G(k, n, c=False):
    return {"k": k, "n": n, "c": c}

SO2 = G("C", TURN, True)
O2 = G("D", TURN, True)


def lib_group(g, maxf=4):
    if g["c"]:
        return so2_group(maxf) if g["k"] == "C" else o2_group(maxf)
    return cyclic_group(g["n"]) if g["k"] == "C" else dihedral_group(g["n"])


def desc_group(G_):
    """description of a library group object (from its observable attributes)"""
    t = type(G_).__name__
    if t == "SO2":
        return SO2
    if t == "O2":
        return O2
    if t == "CyclicGroup":
        return G("C", int(G_.order()))
    if t == "DihedralGroup":
        return G("D", int(G_.order()) // 2)
    return {"k": t, "n": 0, "c": False}


def dec(g, e):
    """lattice element [f, r] -> library element"""
    f, r = e
    if g["c"]:
        return r * TAU / TURN if g["k"] == "C" else (f, r * TAU / TURN)
    return r if g["k"] == "C" else (f, r)


def enc(g, x):
    """library element -> [f, r]; [BAD, BAD] if it is not an element"""
    try:
        if g["k"] == "C":
            f, r = 0, x
        else:
            f, r = x
        if g["c"]:
            u = float(r) * TURN / TAU
            k = round(u)
            if not math.isfinite(u) or abs(u - k) > 1e-3:
                return [BAD, BAD]
            r = k % TURN
        else:
            if int(r) != r:
                return [BAD, BAD]
            r = int(r)
        if int(f) != f:
            return [BAD, BAD]
        return [int(f), int(r)]
    except Exception:
        return [BAD, BAD]


def elems(g):
    return [[f, r] for f in ((0, 1) if g["k"] == "D" else (0,)) for r in range(g["n"])]


def lib_id(g, id_):
    """subgroup identifier [axis, M] (axis -1: none, M -1: continuous) -> library id"""
    a, m = id_
    if g["k"] == "C":
        return m
    if g["c"]:
        return (None if a == -1 else a * TAU / TURN, m)
    return (None if a == -1 else a, m)


def sub_desc(g, id_):
    a, m = id_
    if m == -1:
        return G("C" if a == -1 else "D", TURN, True)
    if a >= 0 and m == 1:
        return G("C", 2)
    return G("C" if a == -1 else "D", m)


def ids_of(g):
    res = []
    n = g["n"]
    for m in range(1, n + 1):
        if n % m:
            continue
        res.append([-1, m])
        if g["k"] == "D":
            res += [[a, m] for a in range(n // m)]
    return res


# ---------------------------------------------------------------- representations
def irrep(j, k):
    return {"t": "irrep", "j": j, "k": k}


def rsum(*s):
    return {"t": "sum", "s": list(s)}


REG = {"t": "reg"}


def quo(a, m):
    return {"t": "quo", "a": a, "m": m}


def ind(a, m, d):
    return {"t": "ind", "a": a, "m": m, "d": d}


def res(g, a, m, d):
    return {"t": "res", "g": g, "a": a, "m": m, "d": d}


def cob(q, d):
    q = np.array(q)
    qi = np.rint(np.linalg.inv(q)).astype(int)
    assert np.array_equal(q @ qi, np.eye(len(q), dtype=int))
    return {"t": "cob", "q": q.tolist(), "qi": qi.tolist(), "d": d}


_uid = [0]


def lib_rep(g, d, maxf=6):
    """build the representation with the library's own constructors"""
    Gr = lib_group(g, maxf)
    return lib_rep_of(Gr, g, d)


def lib_rep_of(Gr, g, d):
    t = d["t"]
    if t == "irrep":
        return Gr.irrep(d["k"]) if g["k"] == "C" else Gr.irrep(d["j"], d["k"])
    if t == "reg":
        return Gr.regular_representation
    if t == "quo":
        return Gr.quotient_representation(lib_id(g, [d["a"], d["m"]]))
    if t == "ind":
        sg, _, _ = Gr.subgroup(lib_id(g, [d["a"], d["m"]]))
        return Gr.induced_representation(lib_id(g, [d["a"], d["m"]]),
                                         lib_rep_of(sg, sub_desc(g, [d["a"], d["m"]]), d["d"]))
    if t == "sum":
        _uid[0] += 1
        return directsum([lib_rep_of(Gr, g, x) for x in d["s"]], name=f"sum_{_uid[0]}")
    if t == "cob":
        _uid[0] += 1
        return change_basis(lib_rep_of(Gr, g, d["d"]), np.array(d["q"], dtype=float), name=f"cob_{_uid[0]}")
    if t == "res":
        P = lib_group(d["g"], 6)
        return P.restrict_representation(lib_id(d["g"], [d["a"], d["m"]]), lib_rep_of(P, d["g"], d["d"]))
    raise ValueError(t)


# ---------------------------------------------------------------- own model of the matrices
def mul(g, a, b):
    return [(a[0] + b[0]) % 2, (a[1] - b[1] if a[0] else a[1] + b[1]) % g["n"]]


def inv(g, a):
    return list(a) if a[0] else [0, (-a[1]) % g["n"]]


def onedim(g, k):
    return k == 0 or (not g["c"] and 2 * k == g["n"])


def embed(g, id_, h):
    a, m = id_
    if a >= 0 and m == 1:
        return [h[1], (h[1] * a) % g["n"]]
    q = 1 if m == -1 else g["n"] // m
    return [h[0], (h[1] * q + h[0] * max(a, 0)) % g["n"]]


def mat(g, d, e):
    """the matrix the specification assigns to d at e (float); every use of it is re-checked by TLC"""
    t = d["t"]
    if t == "irrep":
        u = d["k"] * e[1] * TAU / g["n"]
        c, s = math.cos(u), math.sin(u)
        if onedim(g, d["k"]):
            return np.array([[-c if d["j"] and e[0] else c]])
        return np.array([[c, s], [s, -c]]) if e[0] else np.array([[c, -s], [s, c]])
    if t == "sum":
        ms = [mat(g, x, e) for x in d["s"]]
        n = sum(len(m) for m in ms)
        out = np.zeros((n, n))
        p = 0
        for m in ms:
            out[p:p + len(m), p:p + len(m)] = m
            p += len(m)
        return out
    if t == "cob":
        return np.array(d["q"]) @ mat(g, d["d"], e) @ np.array(d["qi"])
    if t == "res":
        return mat(d["g"], d["d"], embed(d["g"], [d["a"], d["m"]], e))
    if t == "dbl":
        A = mat(g, d["d"], e)
        return np.kron(np.maximum(A, 0), np.eye(2)) + np.kron(np.maximum(-A, 0), np.eye(2)[::-1])
    if t == "reg":
        es = elems(g)
        out = np.zeros((len(es), len(es)))
        for i, x in enumerate(es):
            out[es.index(mul(g, e, x)), i] = 1
        return out
    if t in ("quo", "ind"):
        id_ = [d["a"], d["m"]]
        sg = sub_desc(g, id_)
        sub = {tuple(embed(g, id_, h)): h for h in elems(sg)}
        sd = irrep(0, 0) if t == "quo" else d["d"]
        es = elems(g)
        seen, reps, rep_of = set(), [], {}
        for x in es:
            if tuple(x) in seen:
                continue
            reps.append(x)
            for s in sub:
                y = tuple(mul(g, x, s))
                seen.add(y)
                rep_of[y] = len(reps) - 1
        sz = len(mat(sg, sd, [0, 0]))
        out = np.zeros((len(reps) * sz, len(reps) * sz))
        for i, r in enumerate(reps):
            gr = mul(g, e, r)
            j = rep_of[tuple(gr)]
            h = sub[tuple(mul(g, inv(g, reps[j]), gr))]
            out[j * sz:(j + 1) * sz, i * sz:(i + 1) * sz] = mat(sg, sd, h)
        return out
    raise ValueError(t)


def size(g, d):
    return len(mat(g, d, [0, 0]))


# ---------------------------------------------------------------- spaces
def space(s, n=1, ax2=2520):
    """s: triv | flip | rot | fliprot; n = -1: continuous; ax2: twice the axis angle in 1/TURN"""
    if s == "triv":
        return {"s": s, "g": G("C", 1), "ax2": 0}
    if s == "flip":
        return {"s": s, "g": G("C", 2), "ax2": ax2}
    k = "C" if s == "rot" else "D"
    return {"s": s, "g": G(k, TURN, True) if n == -1 else G(k, n), "ax2": 0 if s == "rot" else ax2}


def lib_space(sp, maxf=4):
    ax = sp["ax2"] / 2 * TAU / TURN
    n = -1 if sp["g"]["c"] else sp["g"]["n"]
    kw = dict(maximum_frequency=maxf) if n == -1 else {}
    if sp["s"] == "triv":
        return gspaces.TrivialOnR2()
    if sp["s"] == "flip":
        return gspaces.Flip2dOnR2(axis=ax)
    if sp["s"] == "rot":
        return gspaces.Rot2dOnR2(n, **kw)
    return gspaces.FlipRot2dOnR2(n, axis=ax, **kw)


def space_id(sp, id_):
    """the identifier the space's restrict() takes"""
    return lib_id(sp["g"], id_)


def sub_space(sp, id_):
    H = sub_desc(sp["g"], id_)
    a, m = id_
    if sp["s"] == "triv":
        return sp
    if a < 0:
        if m == 1:
            return {"s": "triv", "g": H, "ax2": 0}
        return dict(sp, g=H)
    return {"s": "flip" if m == 1 else "fliprot", "g": H, "ax2": (sp["ax2"] + a * (TURN // sp["g"]["n"])) % TURN}


def iso(sp, e):
    u = e[1] * (TURN // sp["g"]["n"])
    if sp["s"] == "triv":
        return [0, 0]
    if sp["s"] == "flip":
        return [1, sp["ax2"] % TURN] if e[1] else [0, 0]
    if sp["s"] == "rot":
        return [0, u % TURN]
    return [e[0], (u + e[0] * sp["ax2"]) % TURN]


def exact(sp, e):
    return iso(sp, e)[1] % 1260 == 0


def act_pixels(sp, e, x):
    """exact action on the last two axes of an array"""
    f, u = iso(sp, e)
    if f:
        x = x[..., ::-1, :]
    return np.rot90(x, u // 1260, axes=(-2, -1)).copy()


def fibre(g, ds, e):
    return mat(g, rsum(*ds), e)


def act(sp, ds, e, x):
    """the specification's action on a field (batch, channel, h, w)"""
    return act_pixels(sp, e, np.einsum("oc,bc...->bo...", fibre(sp["g"], ds, e), x))


def lib_type(gs, sp, ds):
    return enn.FieldType(gs, [lib_rep_of(gs.fibergroup, sp["g"], d) for d in ds])


def irreps_of(g, maxf=3):
    if g["c"]:
        return [irrep(0, 0)] + [irrep(0 if g["k"] == "C" else 1, k) for k in range(0 if g["k"] == "D" else 1, maxf + 1)]
    res = []
    for k in range(g["n"] // 2 + 1):
        for j in ((0,) if g["k"] == "C" else (0, 1)):
            if g["k"] == "D" and j == 0 and not onedim(g, k):
                continue
            res.append(irrep(j, k))
    return res


def reps_of(g, lim=12):
    """representation descriptions offered for field types"""
    res = irreps_of(g)
    if not g["c"]:
        if len(elems(g)) <= lim:
            res.append(REG)
        for id_ in ids_of(g):
            n = len(elems(g)) // len(elems(sub_desc(g, id_)))
            if 1 < n <= lim:
                res.append(quo(*id_))
    return res


def some_elems(g, r, n):
    if not g["c"]:
        es = elems(g)
        return es if len(es) <= n else [[0, 0]] + r.sample(es[1:], n - 1)
    fs = (0, 1) if g["k"] == "D" else (0,)
    es = [[f, u] for f in fs for u in (0, 1260, 2520, 3780)]
    es = [[0, 0]] + r.sample(es[1:], min(len(es) - 1, n // 2))
    while len(es) < n:
        es.append([r.choice(fs), r.choice([630, 1, 5039, r.randrange(TURN)])])
    return es


# ---------------------------------------------------------------- arrays
CLIP = 30000


class NonFinite:
    """counts values that could not be encoded"""


def ints(a, scale, clip=None):
    """array -> (nested int lists, number of values not finite or beyond the clip)"""
    clip = clip or CLIP
    a = np.asarray(a.detach().cpu().numpy() if isinstance(a, torch.Tensor) else a, dtype=float) * scale
    bad = ~np.isfinite(a) | (np.abs(a) > clip)
    a = np.where(np.isfinite(a), a, clip)
    a = np.clip(a, -clip, clip)
    return np.rint(a).astype(int).tolist(), int(bad.sum())


def imat(m, scale=10000):
    """matrix at scale S (entries up to ~20)"""
    return ints(m, scale, 200000)[0]


def rng(h):
    return random.Random(h)


def raises(f, *a, **k):
    """(value, exception name or '')"""
    try:
        return f(*a, **k), ""
    except Exception as ex:
        return None, type(ex).__name__
