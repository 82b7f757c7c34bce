"""Restriction histories (generated by GenRestr.tla)."""
from common import *
from p03 import parse_irreps


def cases(tier, seed, gen):
    return [{"key": "hist", "ops": b["ops"]} for b in gen]


def obs(g, rep, r):
    es = some_elems(g, r, 8)
    return {"sg": desc_group(rep.group), "size": int(rep.size), "els": es, "mats": [imat(rep(dec(g, e))) for e in es],
            "chars": [ints(rep.character(dec(g, e)), 10000, 10 ** 7)[0] for e in es],
            "irreps": parse_irreps(g, rep.irreps), "q": imat(rep.change_of_basis), "qi": imat(rep.change_of_basis_inv)}


KIND = {"TrivialOnR2": "triv", "Flip2dOnR2": "flip", "Rot2dOnR2": "rot", "FlipRot2dOnR2": "fliprot"}


def run(case, h):
    r = rng(h)
    slots = []
    uid = 0
    yield {"op": "reset", "key": "hist"}
    for o in case["ops"]:
        uid += 1
        if o["o"] == "grow":
            lib_group(o["g"], o["f"])
            yield {"op": "grow", "key": "hist", "o": o}
            continue
        if o["o"] == "field":
            sp, id_ = o["sp"], [o["a"], o["m"]]
            gs = lib_space(sp, 2)
            ft = lib_type(gs, sp, o["ds"])
            x = torch.randint(-4, 5, (1, ft.size, 5, 5)).float()
            sub, up, down = gs.restrict(space_id(sp, id_))
            same = True
            if o["via"] == 0:
                ftr = ft.restrict(space_id(sp, id_))
            elif o["via"] == 1:
                m = enn.RestrictionModule(ft, space_id(sp, id_))
                y = m(enn.GeometricTensor(x, ft))
                same = bool(torch.equal(y.tensor, x)) and y.type == m.out_type
                ftr = m.out_type
            else:
                y = enn.GeometricTensor(x, ft).restrict(space_id(sp, id_))
                same = bool(torch.equal(y.tensor, x))
                ftr = y.type
            sg = sub_desc(sp["g"], id_)
            es = some_elems(sg, r, 6)
            ssp = sub_space(sp, id_)
            tr = lambda t, e: ints(t.transform(x, e).flatten(), 1000, 200000)[0]
            g3 = torch.arange(1, 10).float().view(1, 1, 3, 3)
            triv = enn.FieldType(ftr.gspace, [ftr.gspace.trivial_repr])
            grid = [[int(round(float(v))) for v in triv.transform(g3, dec(sg, e)).flatten()] if exact(ssp, e) else [] for e in es]
            dn = [down(up(dec(sg, e))) for e in es]
            yield {"op": "field", "key": "hist", "o": o, "sg": desc_group(ftr.gspace.fibergroup),
                   "kind": KIND.get(type(ftr.gspace).__name__, "?"), "els": es,
                   "up": [enc(sp["g"], up(dec(sg, e))) for e in es],
                   "down": [[] if d is None else enc(sg, d) for d in dn],
                   "mats": [imat(ftr.representation(dec(sg, e))) for e in es],
                   "y1": [tr(ft, dec(sp["g"], embed(sp["g"], id_, e))) for e in es], "y2": [tr(ftr, dec(sg, e)) for e in es],
                   "grid": grid, "same": same and ftr.size == ft.size and len(ftr) == len(ft)}
            continue
        if o["o"] == "make":
            g = o["g"]
            rep = lib_rep_of(lib_group(g, r.randrange(0, 3)), g, o["d"])
            slots.append((g, rep))
            yield dict({"op": "rep", "key": "hist", "o": o}, **obs(g, rep, r))
        elif o["o"] == "sum":
            g, a = slots[o["slot"] - 1]
            rep = directsum([a, lib_rep_of(a.group, g, o["d"])], name=r.choice(["sum", "sum", f"sum{uid}"]))      # (names need not be unique)
            slots.append((g, rep))
            yield dict({"op": "rep", "key": "hist", "o": o}, **obs(g, rep, r))
        elif o["o"] == "twin":
            g, id_ = o["g"], [o["a"], o["m"]]
            sg = sub_desc(g, id_)
            G_ = lib_group(g, 7)
            for d in o["ds"]:
                one = lib_rep_of(G_, g, d)
                one = directsum([one], name="twin") if r.random() < .7 else change_basis(one, np.eye(one.size), "twin")
                rep = G_.restrict_representation(lib_id(g, id_), one) if r.random() < .5 else one.restrict(lib_id(g, id_))
                slots.append((sg, rep))
                yield dict({"op": "rep", "key": "hist", "o": {"o": "twin", "g": g, "a": o["a"], "m": o["m"], "d": d}}, **obs(sg, rep, r))
        elif o["o"] == "res":
            g, a = slots[o["slot"] - 1]
            id_ = [o["a"], o["m"]]
            rep = a.group.restrict_representation(lib_id(g, id_), a) if r.random() < .5 else a.restrict(lib_id(g, id_))
            sg = sub_desc(g, id_)
            slots.append((sg, rep))
            yield dict({"op": "rep", "key": "hist", "o": o}, **obs(sg, rep, r))
        elif o["o"] == "look":
            g, a = slots[o["slot"] - 1]
            yield dict({"op": "rep", "key": "hist", "o": o}, **obs(g, a, r))
