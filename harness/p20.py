"""Programs that build and run containers."""
from collections import OrderedDict
from common import *
from fields import *
from p18 import World

SHARD = 2_500_000
LB = ["", "B", "a", "c_1", "zz"]


def cases(tier, seed, gen):
    sps = ex_spaces()
    cs = [{"key": f"{sps[n % len(sps)]['s']}{sps[n % len(sps)]['g']['n']}", "sp": sps[n % len(sps)], "ops": q["ops"]} for n, q in enumerate(gen)]
    for S in range(1, 12 if tier == "quick" else 30):
        for mg in (0, 2, 10, 25, 50):
            cs.append({"key": f"mask/{S}/{mg}", "S": S, "margin": mg, "sp": sps[(S + mg) % len(sps)]})
    return cs


class Scale(enn.EquivariantModule):
    def __init__(self, T, v):
        super().__init__()
        self.in_type = self.out_type = T
        self.v = float(v)

    def forward(self, x):
        assert x.type == self.in_type
        return enn.GeometricTensor(x.tensor * self.v, self.out_type)

    def evaluate_output_shape(self, s):
        return tuple(s)


class Choose(enn.EquivariantModule):
    def __init__(self, T, ix):
        super().__init__()
        self.in_type, self.out_type = T, enn.FieldType(T.gspace, [T.representations[i] for i in ix])
        st = np.cumsum([0] + [r.size for r in T.representations])
        self.ch = [c for i in ix for c in range(st[i], st[i + 1])]

    def forward(self, x):
        assert x.type == self.in_type
        return enn.GeometricTensor(x.tensor[:, self.ch], self.out_type)

    def evaluate_output_shape(self, s):
        return (s[0], self.out_type.size, *s[2:])


class Two(enn.EquivariantModule):
    def __init__(self, T, v):
        super().__init__()
        self.in_type, self.out_type, self.v = (T, T), T, float(v)

    def forward(self, x, y):
        assert x.type == self.in_type[0] and y.type == self.in_type[1]
        return enn.GeometricTensor(x.tensor * self.v + y.tensor, self.out_type)

    def evaluate_output_shape(self, s, t):
        return tuple(s)


def nodes(m):
    return 1 + sum(nodes(x) for x in m.get("m", [])) + sum(nodes(x["m"]) for x in m.get("ms", []))


def plain(t):
    """fibres, one per sample and position"""
    return t.tensor.detach().movedim(1, -1).reshape(-1, t.tensor.shape[1]).round().long().tolist()


def run(case, h):
    if "S" in case:
        yield from mask(case, h)
        return
    r, sp = rng(h), case["sp"]
    key = case["key"]
    W = World(sp, r)
    ids = [lib_id(sp["g"], q) for q in (ids_of(sp["g"]) if not sp["g"]["c"] else [[-1, 2], [-1, 4]])]
    ids = [1] if sp["s"] == "triv" else [1, 2] if sp["s"] == "flip" else ids
    id_ = r.choice(ids)
    sub = W.space(W.spaces[0].restrict(id_)[0])
    rmap = [W.tok(sub, W.spaces[0].fibergroup.restrict_representation(id_, q)) for q in list(W.reps[0])]
    names = lambda s: sorted(q.name for q in W.reps[s])
    sz = [[q.size for q in reps] for reps in W.reps]
    rk = [[names(s).index(q.name) + 1 for q in reps] for s, reps in enumerate(W.reps)]
    ty = lambda T: dict(zip(("sp", "fs"), W.find(T)))
    chans = lambda D: sum(sz[D["sp"] - 1][t - 1] for t in D["fs"])
    lib = lambda D: enn.FieldType(W.spaces[D["sp"] - 1], [W.reps[D["sp"] - 1][t - 1] for t in D["fs"]])

    def fresh(n=5, s=1):
        return {"sp": s, "fs": [r.randrange(1, len(W.reps[s - 1]) + 1) for _ in range(r.randrange(1, n + 1))]}

    def data(T, shape=None):
        b, hw = shape or (r.choice([1, 2]), r.choice([(1, 1), (2, 1), (1, 2)]))
        x = torch.tensor(np.random.randint(-5, 6, (b, T.size, *hw)), dtype=torch.float32)
        if r.random() < .2:
            x = x.transpose(0, 1).contiguous().transpose(0, 1)
        return enn.GeometricTensor(x, T)

    def leaf(D, k, v):
        """(module, description) of a single module on type D"""
        T = lib(D)
        n = len(D["fs"])
        if k == 1:
            return enn.IdentityModule(T), {"k": "id", "T": D}
        if k == 2 and all("pointwise" in q.supported_nonlinearities for q in T.representations):
            return enn.ReLU(T), {"k": "relu", "T": D}
        if k == 3:
            ix = list(range(n))
            r.shuffle(ix)
            arg = list(ix)
            M = enn.ReshuffleModule(T, arg)
            assert arg == ix
            return M, {"k": "select", "T": D, "ix": ix}
        if k == 4:
            ix = [r.randrange(n) for _ in range(r.randrange(1, min(n, 4) + 1))]
            return Choose(T, ix), {"k": "select", "T": D, "ix": ix}
        if k == 5 and D["sp"] == 1 and max(D["fs"]) <= len(rmap):
            return enn.RestrictionModule(T, id_), {"k": "restrict", "T": D, "sub": sub, "map": rmap}
        return Scale(T, v), {"k": "scale", "T": D, "v": v}

    def order(D, lb, re):
        """positions, sorted as the documentation of the branching modules says"""
        k = lambda p: (lb[p], sz[D["sp"] - 1][D["fs"][p] - 1], rk[D["sp"] - 1][D["fs"][p] - 1])[:re]
        return sorted(range(len(lb)), key=k)

    def branch(D, lb, re, l):
        return {"sp": D["sp"], "fs": [D["fs"][p] for p in order(D, lb, re) if lb[p] == l]}

    def io(M):
        ins = M.in_type if isinstance(M.in_type, tuple) else (M.in_type,)
        return {"ins": [ty(T) for T in ins], "out": ty(M.out_type)}

    slots, used = [], set()
    for _ in range(4):
        slots.append(leaf(fresh(4), r.choice([1, 2, 3, 6]), 2))
    yield {"op": "begin", "key": key, "sz": sz, "rk": rk, "mods": [m for _, m in slots]}
    out_of = lambda q: ty(slots[q][0].out_type)
    for a in case["ops"]:
        o, s, t, d, f, v, ks, re = a["o"], a["s"] - 1, a["t"] - 1, a["d"] - 1, a["f"], a["v"], a["ks"], a["re"]
        M, m = slots[s]
        D0 = out_of(s) if f <= 7 and chans(out_of(s)) <= 24 and len(out_of(s)["fs"]) <= 8 else fresh(6)
        lb = a["lb"][:len(D0["fs"])]
        if o == "leaf":
            M2, m2 = leaf(D0, ks[0], v)
            slots[d] = (M2, m2)
            yield {"op": "build", "key": key, "d": d + 1, "m": m2, "raised": False, "argsok": True, **io(M2)}
        elif o == "seq":
            parts, cur = [], None
            for j, q in enumerate(a["ss"]):
                P, p = slots[q - 1]
                if cur is not None and ty(P.in_type) != cur and (r.random() < .85 or cur["sp"] > 2):
                    P, p = leaf(cur, ks[j], v)
                    parts.append((P, p, p))
                else:
                    parts.append((P, p, {"k": "slot", "s": q}))
                cur = ty(P.out_type)
            if f == 12 and cur["sp"] <= 2 and chans(cur) <= 24:       # a long one
                for j in range(r.randrange(6, 11)):
                    P, p = leaf(cur, r.choice([1, 2, 3, 3, 6]), -1)
                    parts.append((P, p, p))
                    cur = ty(P.out_type)
            if sum(nodes(p) for _, p, _ in parts) > 40:
                continue
            mods = [P for P, _, _ in parts]
            od = OrderedDict((f"m{j}x", P) for j, P in enumerate(mods))
            before = list(od.items())
            res, ex = raises(lambda: enn.SequentialModule(*mods) if f % 2 else enn.SequentialModule(od))
            ev = {"op": "build", "key": key, "d": d + 1, "m": {"k": "seq", "m": [q for _, _, q in parts]}, "raised": ex != "",
                  "argsok": list(od.items()) == before}
            if not ex:
                ev.update(io(res))
                used |= {id(P) for P in mods}
                slots[d] = (res, {"k": "seq", "m": [p for _, p, _ in parts]})
            yield ev
        elif o == "append":
            P, p = slots[t]
            if m["k"] != "seq" or id(M) in used or s == t or nodes(m) + nodes(p) > 40:
                continue
            _, ex = raises(M.add_module, f"late{len(m['m'])}", P)
            ev = {"op": "append", "key": key, "s": s + 1, "t": t + 1, "raised": ex != ""}
            if not ex:
                used.add(id(P))
                slots[s] = (M, {"k": "seq", "m": m["m"] + [p]})
                ev.update(io(M))
            yield ev
        elif o in ("multi", "branch"):
            T = lib(D0)
            names_ = [LB[l] for l in lb]
            arg = list(names_)
            if o == "branch":
                B = enn.BranchingModule(T, arg, reshuffle=re)
                x = data(T)
                x0 = x.tensor.clone()
                ys = B(x)
                inv = {n: k for k, n in enumerate(LB)}
                keys_ = [inv.get(n, 0) for n in ys]
                shp = B.evaluate_output_shape(tuple(x.shape))
                yield {"op": "branch", "key": key, "T": D0, "lb": lb, "re": re, "keys": keys_, "types": [ty(B.out_type[n]) for n in ys],
                       "outs": [{"T": ty(q.type), "y": plain(q)} for q in ys.values()], "x": plain(x), "kept": torch.equal(x.tensor, x0) and x.type == T,
                       "shapes": set(shp) == set(ys) and all(tuple(shp[n]) == tuple(ys[n].shape) for n in ys), "argsok": arg == names_}
                continue
            parts = []
            todo = sorted(set(lb))
            r.shuffle(todo)
            rest = list(todo)
            while rest:
                l = rest.pop(0)
                Dl = branch(D0, lb, re, l)
                same = [q for q in todo if branch(D0, lb, re, q) == Dl]
                fit = [q for q in range(4) if ty(slots[q][0].in_type) == Dl and ty(slots[q][0].out_type)["sp"] == 1 and nodes(slots[q][1]) < 10]
                if len(same) > 1 and r.random() < .5:
                    l2 = r.choice(same)
                    parts.append((Two(lib(Dl), v), {"k": "two", "T": Dl, "v": v}, None, [l, l2]))
                    rest = [q for q in rest if q != l2]
                elif fit and r.random() < .7:
                    q = r.choice(fit)
                    parts.append((slots[q][0], slots[q][1], {"k": "slot", "s": q + 1}, [l]))
                else:
                    k = r.choice([1, 2, 3, 4, 6])
                    P, p = leaf(Dl, k, r.choice([2, -1, 3]))
                    parts.append((P, p, None, [l]))
                if r.random() < .15:
                    P, p = leaf(Dl, 6, v)
                    parts.append((P, p, None, [l]))
            if D0["sp"] != 1 or sum(nodes(p) for _, p, _, _ in parts) > 30:
                continue
            bad = r.random()
            if bad < .06 and len(parts) > 1:
                parts.pop()
            elif bad < .12:
                P, p = leaf(fresh(3), 6, v)
                parts[0] = (P, p, None, parts[0][3] if len(parts[0][3]) == 1 else parts[0][3][:1])
            elif bad < .18:
                parts[-1] = (*parts[-1][:3], [4] * len(parts[-1][3]))
            elif bad < .24:
                lb = lb + [lb[0]] if r.random() < .5 else lb[:-1]
                names_ = [LB[l] for l in lb]
                arg = list(names_)
            elif bad < .3 and sub != 1 and len(parts) > 1:
                Dl = branch(D0, lb, re, parts[-1][3][0])
                P, p = leaf(Dl, 5, v)
                parts[-1] = (P, p, None, parts[-1][3][:1])
            mods = [(P, LB[ls[0]] if len(ls) == 1 and (r.random() < .7) else [LB[l] for l in ls]) for P, _, _, ls in parts]
            before = [(P, l if isinstance(l, str) else list(l)) for P, l in mods]
            res, ex = raises(lambda: enn.MultipleModule(T, arg, mods, reshuffle=re))
            full = {"k": "multi", "T": D0, "lb": lb, "re": re, "ms": [{"m": p, "ls": ls} for _, p, _, ls in parts]}
            ev = {"op": "build", "key": key, "d": d + 1, "raised": ex != "", "argsok": arg == names_ and mods == before,
                  "m": dict(full, ms=[{"m": q or p, "ls": ls} for _, p, q, ls in parts])}
            if not ex:
                ev.update(io(res))
                used |= {id(P) for P, _ in mods}
                slots[d] = (res, full)
            yield ev
        elif o == "merge":
            Ts = [fresh(3) for _ in range(3)]
            if f % 2:
                Ts[1] = Ts[0]
            parts = []
            for j, l in enumerate(a["ss"][:3]):
                l = (l - 1) % 3 + 1
                if l <= 2 and f % 2 and r.random() < .5:
                    parts.append((Two(lib(Ts[0]), v), {"k": "two", "T": Ts[0], "v": v}, r.choice([[1, 2], [2, 1], [l, l]])))
                else:
                    parts.append((*leaf(Ts[l - 1], r.choice([1, 2, 3, 4, 6]), r.choice([2, -1, 3])), [l]))
            if r.random() < .15 and sub != 1 and len(parts) > 1 and max(Ts[0]["fs"]) <= len(rmap):
                parts[-1] = (*leaf(Ts[0], 5, 1), [1])
            mods = [(P, LB[ls[0]] if len(ls) == 1 and r.random() < .6 else [LB[l] for l in ls]) for P, _, ls in parts]
            before = [(P, l if isinstance(l, str) else list(l)) for P, l in mods]
            res, ex = raises(lambda: enn.MergeModule(mods))
            ev = {"op": "merge", "key": key, "m": {"k": "merge", "ms": [{"m": p, "ls": ls} for _, p, ls in parts]}, "raised": ex != "", "argsok": mods == before}
            if not ex:
                shp = (r.choice([1, 2]), r.choice([(1, 1), (2, 1)]))
                xs = [data(lib(D), shp) for D in Ts]
                x0 = [x.tensor.clone() for x in xs]
                dd = {LB[l + 1]: x for l, x in enumerate(xs)}
                d0 = dict(dd)
                y = res(dd)
                ev.update(out=ty(res.out_type), ot=ty(y.type), y=plain(y), xs=[{"T": D, "x": plain(x)} for D, x in zip(Ts, xs)],
                          kept=dd == d0 and all(torch.equal(x.tensor, q) for x, q in zip(xs, x0)))
            yield ev
        elif o == "run":
            if nodes(m) > 40 or M.in_type.size > 40 or M.out_type.size > 60:
                continue
            if r.random() < .3:
                M.train(r.random() < .5)
            x = data(M.in_type)
            x0 = x.tensor.clone()
            y = M(x)
            if y.tensor.numel() and float(y.tensor.abs().max()) > 1e6:
                continue
            yield {"op": "run", "key": key, "s": s + 1, "x": plain(x), "y": plain(y), "ot": ty(y.type),
                   "kept": torch.equal(x.tensor, x0) and x.type == M.in_type and tuple(M.evaluate_output_shape(tuple(x.shape))) == tuple(y.shape)}
        elif o == "wrong":
            D = fresh(4)
            if f % 3 == 0 and len(ty(M.in_type)["fs"]) > 1:
                D = ty(M.in_type)
                D["fs"] = D["fs"][1:] + D["fs"][:1]
            yield {"op": "wrong", "key": key, "s": s + 1, "T": D, "raised": raises(lambda: M(data(lib(D))))[1] != ""}
        elif o == "list":
            L, P = enn.ModuleList([M]), [M]
            for q in a["ss"]:
                X = slots[q - 1][0]
                k = r.randrange(4)
                if k == 0:
                    L.append(X), P.append(X)
                elif k == 1:
                    i = r.randrange(len(P) + 1)
                    L.insert(i, X), P.insert(i, X)
                elif k == 2:
                    L.extend([X, M]), P.extend([X, M])
                else:
                    i = r.randrange(len(P))
                    L[i] = X
                    P[i] = X
            alien = torch.nn.ReLU()
            rej = all(raises(q)[1] != "" for q in (lambda: L.append(alien), lambda: L.insert(0, alien), lambda: L.extend([alien]), lambda: L.__setitem__(0, alien),
                                                   lambda: enn.ModuleList([M, alien]), lambda: enn.SequentialModule(alien)))
            yield {"op": "list", "key": key, "got": [id(q) % 2 ** 30 for q in L], "want": [id(q) % 2 ** 30 for q in P], "rejected": rej}


def mask(case, h):
    r, sp, S, mg = rng(h), case["sp"], case["S"], case["margin"]
    b = Builder(sp)
    T = b.type(rand_type(sp["g"], r, 6))
    M = enn.MaskModule(T, S, margin=mg)
    x = enn.GeometricTensor(torch.ones(2, T.size, S, S), T)
    y = M(x)
    w = y.tensor[0, 0]
    v = enn.GeometricTensor(torch.randn(2, T.size, S, S), T)
    v0 = v.tensor.clone()
    z = M(v)
    yield {"op": "mask", "key": case["key"], "S": S, "margin": mg, "w": ints(w, 1e6, 2e6)[0],
           "uniform": bool((y.tensor == w).all()) and bool(torch.allclose(z.tensor, v0 * w, atol=1e-6)), "kept": torch.equal(v.tensor, v0),
           "typed": y.type == T, "rejected": raises(lambda: M(enn.GeometricTensor(torch.ones(1, T.size, S + 1, S), T)))[1] != ""}
