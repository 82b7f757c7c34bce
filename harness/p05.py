"""Regular, quotient, induced representations: coset actions."""
from common import *


def cases(tier, seed, gen):
    ns = [1, 2, 3, 4, 5, 6, 8] if tier == "quick" else [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12]
    lim = 24 if tier == "quick" else 40
    cs = []
    for k in "CD":
        for n in ns:
            g = G(k, n)
            cs.append({"key": f"{k}{n}reg", "g": g, "what": "reg"})
            for id_ in ids_of(g):
                cs.append({"key": f"{k}{n}quo{id_}", "g": g, "what": "quo", "id": id_})
                sg = sub_desc(g, id_)
                idx = len(elems(g)) // len(elems(sg))
                subs = []
                for f in range(sg["n"] // 2 + 1):
                    for j in ((0,) if sg["k"] == "C" else (0, 1)):
                        if sg["k"] == "D" and j == 0 and not (f == 0 or 2 * f == sg["n"]):
                            continue
                        subs.append(irrep(j, f))
                for d in subs:
                    if size(sg, d) * idx <= lim:
                        cs.append({"key": f"{k}{n}ind{id_}", "g": g, "what": "ind", "id": id_, "d": d})
    for f in range(0, 8):
        cs.append({"key": f"O2ind{f}", "g": O2, "what": "ind", "id": [-1, -1], "d": irrep(0, f)})
    # many of them from one group object, in a shuffled order: none may stand in for another one
    r = rng(seed)
    for k in "CD":
        for n in ns:
            here = [dict(c) for c in cs if c["g"] == G(k, n)]
            for v in range(1 if tier == "quick" else 3):
                r.shuffle(here)
                cs.append({"key": f"{k}{n}many", "g": G(k, n), "what": "many", "list": here[:24]})
    return cs


def blocks(m, sz):
    """(target block of each column block, the blocks, the largest remaining entry)"""
    n = m.shape[0] // sz
    t, bl = [], []
    rest = m.copy()
    for c in range(n):
        norms = [np.abs(m[i * sz:(i + 1) * sz, c * sz:(c + 1) * sz]).sum() for i in range(n)]
        k = int(np.argmax(norms))
        t.append(k + 1)
        bl.append(imat(m[k * sz:(k + 1) * sz, c * sz:(c + 1) * sz]))
        rest[k * sz:(k + 1) * sz, c * sz:(c + 1) * sz] = 0
    return t, bl, int(round(np.abs(rest).max() * 10000))


def run(case, h):
    if case["what"] == "many":
        for c in case["list"]:
            for ev in run(dict(c, key=case["key"]), h):
                yield ev
        return
    g, r = case["g"], rng(h)
    Gr = lib_group(g, 3)
    if case["what"] == "reg":
        rep, sz, id_, d = Gr.regular_representation, 1, [-1, 1], irrep(0, 0)
    elif case["what"] == "quo":
        id_, d, sz = case["id"], irrep(0, 0), 1
        rep = Gr.quotient_representation(lib_id(g, id_))
    else:
        id_, d = case["id"], case["d"]
        sg, _, _ = Gr.subgroup(lib_id(g, id_))
        rep0 = lib_rep_of(sg, sub_desc(g, id_), d)
        rep = Gr.induced_representation(lib_id(g, id_), rep0)
        sz = size(sub_desc(g, id_), d)
    if g["c"]:
        es = [[0, 0], [1, 0]] + [[f, u] for f in (0, 1) for u in (1, 630, 1260, 2520, r.randrange(TURN), 5039)]
    else:
        es = elems(g)
    ev = {"op": "coset", "key": case["key"], "g": g, "id": id_, "d": d, "sz": sz, "size": int(rep.size), "els": es}
    if rep.size % sz:
        ev["rows"] = []
    else:
        ev["rows"] = [list(blocks(rep(dec(g, e)), sz)) for e in es]
    ev["chars"] = [ints(rep.character(dec(g, e)), 10000, 10 ** 7)[0] for e in es]
    yield ev
    yield {"op": "again", "key": case["key"],
           "same": bool((Gr.regular_representation if case["what"] == "reg" else
                         Gr.quotient_representation(lib_id(g, id_)) if case["what"] == "quo" else
                         Gr.induced_representation(lib_id(g, id_), rep0)) == rep)}
