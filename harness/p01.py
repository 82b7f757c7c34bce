"""Group axioms and the planar meaning of the elements."""
from common import *


def groups(tier):
    ns = list(range(1, 11)) + [12, 14, 16] if tier == "quick" else list(range(1, 25)) + [28, 30, 36]
    return [G(k, n) for k in "CD" for n in ns]


def cases(tier, seed, gen):
    cs = [{"key": f"{g['k']}{g['n']}", "g": g, "tier": tier} for g in groups(tier)]
    n = 6 if tier == "quick" else 60
    for g in (SO2, O2):
        cs += [{"key": f"{g['k']}cont", "g": g, "lat": i, "tier": tier} for i in range(n)]
    return cs


def run(case, h):
    g, r = case["g"], rng(h)
    Gr = lib_group(g)
    yield {"op": "group", "g": g, "key": case["key"], "order": int(Gr.order()), "id": enc(g, Gr.identity),
           "again": bool(lib_group(g) == Gr) and not bool(lib_group(g) != Gr),
           "kind": desc_group(Gr), "same": bool(lib_group(g) is Gr),
           "others": [bool(Gr == o) for o in (cyclic_group(17), dihedral_group(17), cyclic_group(g["n"] + 1 if not g["c"] else 3))],
           "elements": [] if Gr.elements is None else [enc(g, e) for e in Gr.elements],
           "testing": [enc(g, e) for e in Gr.testing_elements()] if not g["c"] else [],
           "nnames": len(Gr.elements_names) if Gr.elements is not None else -1}
    if not g["c"]:
        es = elems(g)
        pairs = [(a, b) for a in es for b in es]
        if len(pairs) > 700 and case["tier"] == "quick":
            pairs = [(a, a) for a in es] + r.sample(pairs, 650)
        sing = es
        extra = [([0, g["n"]], False), ([0, -1], False), ([0, g["n"] + 3], False)]
        if g["k"] == "D":
            extra += [([1, g["n"]], False), ([2, 0], False), ([-1, 0], False), ([1, -1], False)]
        for a, _ in extra:
            yield {"op": "member", "g": g, "key": case["key"], "a": a, "res": bool(Gr.is_element(dec(g, a)))}
    else:
        # angles on the lattice, with many near and across 0 / 2 pi
        pick = lambda: [r.choice([0, 1]) if g["k"] == "D" else 0,
                        r.choice([0, 1, 2, TURN - 1, TURN - 2, TURN // 2, TURN // 4, 3 * TURN // 4, r.randrange(TURN), r.randrange(TURN)])]
        pairs = [(pick(), pick()) for _ in range(60)]
        sing = [pick() for _ in range(20)]
    # objects that denote no element at all
    n = g["n"]
    if g["k"] == "C":
        foreign = [None, "e", [0.] if g["c"] else [0], (0., 0.) if g["c"] else (0, 0)] + ([] if g["c"] else [.5, float(n) + .5])
    elif g["c"]:
        foreign = [None, .5, [0, .5], (0,), (0, .5, .5), (2, .5), (-1, .5), ("f", .5), (.5, .5), (0, None)]
    else:
        foreign = [None, 0, [0, 0], (0,), (0, 0, 0), (2, 0), (-1, 0), ("f", 0), (0, .5), (.5, 0), (0, None), (1, n), (0, -1), (1, -n)]
    yield {"op": "foreign", "g": g, "key": case["key"], "what": [repr(x) for x in foreign], "res": [bool(Gr.is_element(x)) for x in foreign]}
    for a in sing:
        x = dec(g, a)
        yield {"op": "inv", "g": g, "key": case["key"], "a": a, "res": enc(g, Gr.inverse(x)),
               "mem": bool(Gr.is_element(x)), "rmem": bool(Gr.is_element(Gr.inverse(x))),
               "self": bool(Gr.equal(x, x)),
               "back": bool(Gr.equal(Gr.inverse(Gr.inverse(x)), x)),
               "unit": bool(Gr.equal(Gr.combine(x, Gr.inverse(x)), Gr.identity))}
    for a, b in pairs:
        x, y = dec(g, a), dec(g, b)
        z = Gr.combine(x, y)
        ev = {"op": "mul", "g": g, "key": case["key"], "a": a, "b": b, "res": enc(g, z),
              "eq": bool(Gr.equal(x, y)), "rmem": bool(Gr.is_element(z)),
              "anti": bool(Gr.equal(Gr.inverse(z), Gr.combine(Gr.inverse(y), Gr.inverse(x))))}
        c = r.choice(pairs)[0]
        w = dec(g, c)
        ev["c"] = c
        ev["l"] = enc(g, Gr.combine(z, w))
        ev["r"] = enc(g, Gr.combine(x, Gr.combine(y, w)))
        if g["c"]:
            # representatives outside [0, 2 pi) denote the same element
            off = r.choice([-2, -1, 1, 2]) * TAU
            x2 = x + off if g["k"] == "C" else (x[0], x[1] + off)
            ev["wrap"] = bool(Gr.equal(x, x2))
            ev["res2"] = enc(g, Gr.combine(x2, y))
            eps = r.choice([1e-3, 1e-5]) * r.choice([-1, 1])
            x3 = x + eps if g["k"] == "C" else (x[0], x[1] + eps)
            ev["far"] = bool(Gr.equal(x, x3))
        yield ev
