"""Inclusion and restriction maps of subgroups."""
from common import *

CONT_M = [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16]


def cases(tier, seed, gen):
    ns = [1, 2, 3, 4, 5, 6, 8, 9, 10, 12, 16] if tier == "quick" else list(range(1, 25)) + [28, 30, 36]
    cs = []
    for k in "CD":
        for n in ns:
            g = G(k, n)
            ids = ids_of(g)
            cs.append({"key": f"{k}{n}", "g": g, "ids": ids, "tier": tier})
    r = rng(seed)
    for m in CONT_M:
        cs.append({"key": f"SO2>{m}", "g": SO2, "ids": [[-1, m]], "tier": tier})
        q = TURN // m
        axes = sorted({0, q // 2, q - 1, r.randrange(q), r.randrange(q)})
        cs.append({"key": f"O2>{m}", "g": O2, "ids": [[-1, m]] + [[a, m] for a in axes], "tier": tier})
    cs.append({"key": "O2>cont", "g": O2, "ids": [[-1, -1], [0, -1], [1260, -1], [630, -1], [3001, -1]], "tier": tier})
    for c in list(cs):
        # the same, requested in another order in another process
        if len(c["ids"]) > 2:
            ids = c["ids"][:]
            r.shuffle(ids)
            cs.append(dict(c, ids=ids, key=c["key"] + "-shuffled"))
    return cs


def mem_opt(g, x):
    return [] if x is None else enc(g, x)


def turned(g, e, k):
    """an element of a continuous group, its angle given with k additional turns"""
    x = dec(g, e)
    return x if not k else x + k * TAU if g["k"] == "C" else (x[0], x[1] + k * TAU)


def run(case, h):
    g, r = case["g"], rng(h)
    Gr = lib_group(g)
    subs = []
    for id_ in case["ids"]:
        sg, up, down = Gr.subgroup(lib_id(g, id_))
        subs.append((id_, sg, up, down))
    for id_, sg, up, down in subs:
        sd = sub_desc(g, id_)
        if sd["c"]:
            hs = [[f, u] for f in ((0, 1) if sd["k"] == "D" else (0,)) for u in [0, 1, TURN - 1, r.randrange(TURN), r.randrange(TURN), 2520]]
        else:
            hs = elems(sd)
        if g["c"]:
            es = []
            for hh in hs[:16]:
                es.append(embed(g, id_, hh))
            es += [[f, r.choice([0, 1, TURN - 1, r.randrange(TURN), TURN // 4, TURN // 2, 3 * TURN // 4])]
                   for f in ((0, 1) if g["k"] == "D" else (0,)) for _ in range(12)]
            es += [[1 - e[0] if g["k"] == "D" else 0, e[1]] for e in es[:6]]
        else:
            es = elems(g)
        n = len(hs)
        if n * n > 80:
            prod = [(r.choice(hs), r.choice(hs)) for _ in range(60)]
        else:
            prod = [(a, b) for a in hs for b in hs]
        if sd["c"]:
            prod = [(a, b) for a in hs[:5] for b in hs[-5:]]
        yield {"op": "sub", "key": case["key"], "g": g, "id": id_, "sg": desc_group(sg),
               "up": [[hh, enc(g, up(turned(sd, hh, k)))] for hh in hs for k in ((0, r.choice([-1, 1])) if sd["c"] else (0,))],
               "down": [[e, mem_opt(sd, down(turned(g, e, k)))] for e in es for k in ((0, r.choice([-2, -1, 1, 2])) if g["c"] else (0,))],
               "prod": [[a, b, enc(g, Gr.combine(up(dec(sd, a)), up(dec(sd, b)))), enc(g, up(sg.combine(dec(sd, a), dec(sd, b))))]
                        for a, b in prod],
               "same": bool(Gr.subgroup(lib_id(g, id_))[0] == sg)}
        # two steps down
        if not sd["c"]:
            ids2 = ids_of(sd)
        else:
            ids2 = [[-1, 4], [-1, 3]] if sd["k"] == "C" else [[-1, 4], [0, 1], [7, 3], [0, 4], [-1, -1]]
        if len(ids2) > 6 and case["tier"] == "quick":
            ids2 = r.sample(ids2, 6)
        for id2 in ids2:
            ssg, up2, down2 = sg.subgroup(lib_id(sd, id2))
            sd2 = sub_desc(sd, id2)
            hs2 = elems(sd2) if not sd2["c"] else [[0, 1], [0, 5039], [0, 77]]
            yield {"op": "two", "key": case["key"], "g": g, "id": id_, "id2": id2, "sg": desc_group(ssg),
                   "up": [[x, enc(g, up(up2(dec(sd2, x)))), mem_opt(sd2, down2(down(up(up2(dec(sd2, x))))))] for x in hs2]}
    # identifiers the group does not have
    bad = []
    if not g["c"]:
        n = g["n"]
        bad = [[-1, m] for m in (n + 1, 2 * n) if n % m] + [[-1, m] for m in range(2, n) if n % m][:3]
        if g["k"] == "D":
            bad += [[n // m, m] for m in range(1, n + 1) if n % m == 0][:3]
    for id_ in bad:
        _, ex = raises(Gr.subgroup, lib_id(g, id_))
        yield {"op": "bad", "key": case["key"], "g": g, "id": id_, "raised": ex != ""}
