"""Programs over the representation constructors (generated by GenRep.tla)."""
from common import *


def cases(tier, seed, gen):
    cs = [{"key": "prog", "ops": b["ops"]} for b in gen]
    # every irrep and regular representation of many groups
    for k in "CD":
        for n in list(range(1, 11)) + [12]:
            g = G(k, n)
            ops = [{"o": "start", "g": g}]
            for j in ((0,) if k == "C" else (0, 1)):
                for f in range(n // 2 + 1):
                    if k == "D" and j == 0 and not (f == 0 or 2 * f == n):
                        continue
                    ops.append({"o": "irrep", "j": j, "k": f})
            if k == "C" or n <= 6:
                ops.append({"o": "reg"})
            cs.append({"key": f"{k}{n}", "ops": ops})
    for g in (SO2, O2):
        ops = [{"o": "start", "g": g}] + [{"o": "irrep", "j": j, "k": f} for j in ((0,) if g["k"] == "C" else (1,)) for f in range(0, 9)]
        cs.append({"key": "cont", "ops": ops})
    return cs


def parse_irreps(g, names):
    res = []
    for n in names:
        t = n[len("irrep_"):]
        p = [int(x) for x in t.split(",")]
        res.append(p if len(p) == 2 else [0, p[0]])
    return res


def shear(n, w):
    E = np.eye(n, dtype=int)
    if n > 1:
        E[0, 1] = 1
    P = np.zeros((n, n), dtype=int)
    for i in range(n):
        P[i, (i + w) % n] = 1
    return E @ P


def observe(g, rep, r, nmax=8):
    if g["c"]:
        es = [[f, r.choice([0, 1, 420, 630, 1260, 2520, 5039, r.randrange(TURN)])] for f in ((0, 1) if g["k"] == "D" else (0,)) for _ in range(3)]
    else:
        es = elems(g)
        if len(es) > nmax:
            es = [[0, 0], [0, 1]] + ([[1, 0]] if g["k"] == "D" else []) + r.sample(es, nmax - 3)
    pairs = [(r.choice(es), r.choice(es)) for _ in range(4)]
    L = lambda e: imat(rep(dec(g, e)))
    ev = {"size": int(rep.size), "els": es, "mats": [L(e) for e in es],
          "pairs": [[a, b, L(a), L(b), L(mul(g, a, b)), L(inv(g, a))] for a, b in pairs],
          "irreps": parse_irreps(g, rep.irreps), "q": imat(rep.change_of_basis), "qi": imat(rep.change_of_basis_inv),
          "chars": [ints(rep.character(dec(g, e)), 10000, 10 ** 7)[0] for e in es]}
    return ev


def run(case, h):
    r = rng(h)
    g, stack, Gr = None, [], None
    uid = 0
    for o in case["ops"]:
        uid += 1
        if o["o"] == "start":
            g = o["g"]
            Gr = lib_group(g, 3)
            stack = []
            yield {"op": "step", "key": case["key"], "o": o, "isgroup": desc_group(Gr) == g}
            continue
        if o["o"] in ("irrep", "reg", "quo", "ind"):
            d = dict(o, t=o["o"])
            if o["o"] == "ind":
                d["d"] = irrep(o["j"], o["k"])
            stack.append(lib_rep_of(Gr, g, d))
        elif o["o"] == "sum":
            b, a = stack.pop(), stack.pop()
            stack.append(directsum([a, b], name=r.choice(["S", f"S{uid}"])) if r.random() < .7 else a + b)
        elif o["o"] == "sumq":
            parts = stack[-o["n"]:]
            del stack[-o["n"]:]
            stack.append(directsum(parts, change_of_basis=shear(sum(x.size for x in parts), o["w"]).astype(float), name=r.choice(["Q", f"Q{uid}"])))
        elif o["o"] == "cob":
            a = stack.pop()
            stack.append(change_basis(a, shear(a.size, o["w"]).astype(float), name=r.choice(["B", f"B{uid}"])))
        elif o["o"] == "res":
            a = stack.pop()
            id_ = [o["a"], o["m"]]
            rep = Gr.restrict_representation(lib_id(g, id_), a) if r.random() < .5 else a.restrict(lib_id(g, id_))
            g = sub_desc(g, id_)
            Gr = rep.group
            stack = [rep]
        elif o["o"] == "dec":
            a = stack[-1]
            els = list(Gr.elements)
            mats = {e: a(e) for e in els}
            if not all(np.allclose(m @ m.T, np.eye(a.size)) for m in mats.values()):
                continue      # the decomposition is only defined for orthogonal matrices
            from e2cnn.group.representation import build_from_discrete_group_representation
            stack[-1] = build_from_discrete_group_representation(mats, f"dec{uid}", Gr, [])
        ev = {"op": "step", "key": case["key"], "o": o, "isgroup": desc_group(stack[-1].group) == g}
        ev.update(observe(g, stack[-1], r))
        if o["o"] == "dis":
            from e2cnn.group import disentangle
            P, reps = disentangle(stack[-1])
            ev["P"] = imat(P)
            ev["parts"] = [[imat(x(dec(g, e))) for x in reps] for e in ev["els"]]
        yield ev
