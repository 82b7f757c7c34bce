"""Irreps: completeness, frequencies, decomposition multiplicities."""
from common import *
from p03 import parse_irreps


def cases(tier, seed, gen):
    ns = list(range(1, 13)) if tier == "quick" else list(range(1, 21)) + [24]
    cs = []
    for k in "CD":
        for n in ns:
            if 5040 % n:
                continue
            cs.append({"key": f"{k}{n}", "g": G(k, n), "what": "irreps", "order": (n * 7) % 3})
            if n <= (8 if tier == "quick" else 12):
                cs.append({"key": f"{k}{n}", "g": G(k, n), "what": "decomp", "tier": tier})
    for g in (SO2, O2):
        for mf in (0, 1, 3, 7, 12):
            cs.append({"key": "cont", "g": g, "what": "cont", "maxf": mf, "growth": mf % 2})
    return cs


def freqs(g, irr):
    f = int(irr.attributes["frequency"])
    return [int(irr.attributes["flip_frequency"]) if g["k"] == "D" else 0, f]


def one(g, irr, es):
    return {"jk": freqs(g, irr), "name": parse_irreps(g, [irr.name])[0], "size": int(irr.size),
            "sumsq": int(irr.sum_of_squares_constituents), "trivial": bool(irr.is_trivial()),
            "contains": bool(irr.contains_trivial()), "irr": bool(irr.irreducible),
            "self": parse_irreps(g, irr.irreps),
            "mats": [imat(irr(dec(g, e))) for e in es], "chars": [ints(irr.character(dec(g, e)), 10000, 10 ** 6)[0] for e in es]}


def run(case, h):
    g, r = case["g"], rng(h)
    if case["what"] == "cont":
        if case["growth"]:
            lib_group(g, max(0, case["maxf"] - 2))
        Gr = lib_group(g, case["maxf"])
        names = sorted(parse_irreps(g, Gr.irreps.keys()))
        es = [[f, u] for f in ((0, 1) if g["k"] == "D" else (0,)) for u in (0, 1, 630, 1260, r.randrange(TURN), 5039)]
        ks = sorted({0, 1, 2, case["maxf"], case["maxf"] + 3})
        irrs = [Gr.irrep(k) if g["k"] == "C" else Gr.irrep(1, k) for k in ks]
        yield {"op": "cont", "key": case["key"], "g": g, "maxf": case["maxf"], "names": names, "els": es,
               "irreps": [one(g, i, es) for i in irrs], "want": [[0 if g["k"] == "C" else 1, k] for k in ks],
               "triv": one(g, Gr.trivial_representation, es)}
        bad = []
        for j, k in ((0, -1), (0, 2), (2, 1), (1, -1)):
            if g["k"] == "C" and j:
                continue
            bad.append([[j, k], raises(Gr.irrep, *((k,) if g["k"] == "C" else (j, k)))[1] != ""])
        yield {"op": "bad", "key": case["key"], "g": g, "bad": bad}
        return
    Gr = lib_group(g)
    es = elems(g)
    if case["what"] == "irreps":
        if case["order"]:
            raises(lambda: Gr.regular_representation)
        irrs = list(Gr.irreps.items())
        yield {"op": "irreps", "key": case["key"], "g": g, "keys": parse_irreps(g, [k for k, _ in irrs]),
               "irreps": [one(g, v, es) for _, v in irrs], "triv": one(g, Gr.trivial_representation, es)}
        for _, v in irrs:
            jk = freqs(g, v)
            w = Gr.irrep(jk[1]) if g["k"] == "C" else Gr.irrep(*jk)
            yield {"op": "get", "key": case["key"], "g": g, "jk": jk, "same": bool(w == v), "irr": one(g, w, es[:4]), "els": es[:4]}
        bad = []
        n = g["n"]
        for j in ((0,) if g["k"] == "C" else (0, 1, 2)):
            for k in range(-1, n + 2):
                bad.append([[j, k], raises(Gr.irrep, *((k,) if g["k"] == "C" else (j, k)))[1] != ""])
        yield {"op": "bad", "key": case["key"], "g": g, "bad": bad}
        return
    # representations whose decomposition the library states
    reps = [("reg", Gr.regular_representation)]
    ids = ids_of(g)
    for id_ in ids:
        reps.append((f"quo{id_}", Gr.quotient_representation(lib_id(g, id_))))
    big = [x for x in ([12, 24] if g["n"] in (2, 3, 4, 6) else [2 * g["n"]]) if x % g["n"] == 0]
    for b in big:
        P = dihedral_group(b)
        sid = (0 if g["k"] == "D" else None, g["n"])
        if g["k"] == "D" and g["n"] == 1:
            continue
        for irr in list(P.irreps.values()):
            reps.append((f"res{b}", P.restrict_representation(sid, irr)))
    for name, rep in reps:
        chars = [ints(np.trace(rep(dec(g, e))), 10000, 10 ** 7)[0] for e in es]
        yield {"op": "decomp", "key": f"{case['key']} {name}", "g": g, "irreps": parse_irreps(g, rep.irreps), "chars": chars,
               "size": int(rep.size), "contains": bool(rep.contains_trivial()), "trivial": bool(rep.is_trivial())}
    # decomposing matrices
    from e2cnn.group.representation import build_from_discrete_group_representation
    names = list(Gr.irreps)
    for t in range(3):
        sel = [r.choice(names) for _ in range(r.randrange(1, 5))]
        D = directsum([Gr.irreps[s] for s in sel], name=f"D{t}")
        Q, _ = np.linalg.qr(np.random.randn(D.size, D.size))
        mats = {e: Q @ D(e) @ Q.T for e in Gr.elements}
        rep = build_from_discrete_group_representation(mats, f"R{t}", Gr, [])
        chars = [ints(np.trace(mats[dec(g, e)]), 10000, 10 ** 7)[0] for e in es]
        yield {"op": "decomp", "key": f"{case['key']} built", "g": g, "irreps": parse_irreps(g, rep.irreps), "chars": chars,
               "size": int(rep.size), "contains": bool(rep.contains_trivial()), "trivial": bool(rep.is_trivial())}
