"""Programs over geometric tensors."""
from common import *
from fields import *

SHARD = 2_500_000


def cases(tier, seed, gen):
    sps = [s for s in ex_spaces()]
    return [{"key": f"{sps[n % len(sps)]['s']}{sps[n % len(sps)]['g']['n']}", "sp": sps[n % len(sps)], "ops": q["ops"]} for n, q in enumerate(gen)]


class World:
    """spaces and, per space, the representations fields may have; tokens are positions"""

    def __init__(self, sp, r):
        self.b = Builder(sp)
        g = sp["g"]
        self.spaces = [self.b.gs]
        self.reps = [[]]
        for _ in range(4):
            self.tok(1, self.b.rep(desc(g, r, 5)))
        # different representations may have the same name (one a user made up)
        a, c = self.reps[0][0], self.reps[0][-1]
        first = self.tok(1, directsum([a, c], name="made up"))
        if r.random() < .3:
            second = self.tok(1, directsum([a, c, a], name="made up"))
        else:
            second = self.tok(1, change_basis(directsum([a, c], name="other"), np.diag([2.] + [1.] * (a.size + c.size - 1)), name="made up"))
        self.namesakes = {first: second, second: first}
        # a second space with the same group, where there is one
        if sp["s"] in ("flip", "fliprot"):
            self.other = self.space(lib_space(dict(sp, ax2=(sp["ax2"] + 630) % TURN)))
        else:
            self.other = self.space(lib_space(space("flip", 2, 0)))
        for d in (irrep(0, 0), irrep(0, 1)):
            self.tok(self.other, self.spaces[self.other - 1].fibergroup.trivial_representation if d["k"] == 0 else
                     self.spaces[self.other - 1].fibergroup.regular_representation if not g["c"] else self.spaces[self.other - 1].fibergroup.trivial_representation)

        # where the groups agree, fields of either space may have any of the representations
        self.alike = self.spaces[self.other - 1].fibergroup == self.b.gs.fibergroup
        if self.alike:
            for q in list(self.reps[0]):
                self.tok(self.other, q)

    def space(self, gs):
        for k, s in enumerate(self.spaces):
            if s == gs:
                return k + 1
        self.spaces.append(gs)
        self.reps.append([])
        return len(self.spaces)

    def tok(self, s, rep):
        for k, q in enumerate(self.reps[s - 1]):
            if q == rep:
                return k + 1
        self.reps[s - 1].append(rep)
        return len(self.reps[s - 1])

    def find(self, t):
        """(space, field tokens) of a library type; 0 for anything unknown"""
        s = next((k + 1 for k, q in enumerate(self.spaces) if q == t.gspace), 0)
        if not s:
            return 0, []
        return s, [next((k + 1 for k, q in enumerate(self.reps[s - 1]) if q == x), 0) for x in t.representations]

    def obs(self, t):
        s, fs = self.find(t.type)
        x = t.tensor.detach()
        sh = list(t.shape)
        ok = sh == list(t.size()) and t.type.size == sh[1] and bool(torch.equal(x.round(), x))
        y = x.reshape(sh + [1] * (4 - len(sh))).long().tolist()
        return {"sp": s if ok else 0, "fs": fs, "nd": len(sh), "prec": {torch.float32: 32, torch.float64: 64}.get(x.dtype, 0),
                "lens": [sh[0], *(sh[2:] + [1] * (4 - len(sh)))], "data": y}


def item(a):
    n = lambda v: None if v == 99 else v
    return a["a"] if a["k"] == "i" else Ellipsis if a["k"] == "e" else slice(n(a["a"]), n(a["b"]), n(a["c"]))


def run(case, h):
    r, sp = rng(h), case["sp"]
    W = World(sp, r)
    key = case["key"]

    def fresh(s=1):
        reps = W.reps[s - 1]
        fs, tot = [], 0
        for _ in range(r.randrange(1, 6)):
            q = r.choice(reps)
            if tot + q.size <= 11:
                fs.append(q)
                tot += q.size
        fs = fs or [min(reps, key=lambda q: q.size)]
        T = enn.FieldType(W.spaces[s - 1], fs)
        nd = r.choice([4, 4, 4, 2, 3])
        sh = (r.choice([1, 2, 3]), T.size, *[r.choice([1, 2, 3]) for _ in range(nd - 2)])
        x = torch.tensor(np.random.randint(-9, 10, sh), dtype=r.choice([torch.float32, torch.float32, torch.float64]))
        m = r.random()
        if m < .2:
            x = x.transpose(0, 1).contiguous().transpose(0, 1)
        elif m < .3 and nd == 4:
            x = x.contiguous(memory_format=torch.channels_last)
        return enn.GeometricTensor(x, T)

    def twin(t):
        """another tensor of the same type and shape"""
        x = torch.tensor(np.random.randint(-9, 10, tuple(t.shape)), dtype=r.choice([t.tensor.dtype, torch.float32]))
        T = t.type if r.random() < .5 else enn.FieldType(t.type.gspace, list(t.type.representations))
        s, fs = W.find(t.type)
        if s == 1 and r.random() < .3:      # ... or of one with the same names
            q = enn.FieldType(t.type.gspace, [W.reps[0][W.namesakes.get(k, k) - 1] for k in fs])
            T = q if q.size == T.size else T
        return enn.GeometricTensor(x, T)

    def alien(t):
        """a tensor on the other space over the same grid, with the same fields where the groups agree"""
        s, fs = W.find(t.type)
        reps = list(t.type.representations) if s == 1 and W.alike else [r.choice(W.reps[W.other - 1]) for _ in range(2)]
        if not all(q in W.reps[W.other - 1] for q in reps):
            return fresh(W.other)
        T = enn.FieldType(W.spaces[W.other - 1], reps)
        return enn.GeometricTensor(torch.tensor(np.random.randint(-9, 10, (t.shape[0], T.size, *t.shape[2:])), dtype=t.tensor.dtype), T)

    mem = [fresh() for _ in range(3)]
    mem.append(twin(mem[0]))
    # every subgroup a program restricts to, with the image of every representation
    table = {}

    def image(s, id_):
        gs = W.spaces[s - 1]
        t = W.space(gs.restrict(id_)[0])
        return t, [W.tok(t, gs.fibergroup.restrict_representation(id_, q)) for q in list(W.reps[s - 1])]

    plan = []
    ids = [lib_id(sp["g"], q) for q in (ids_of(sp["g"]) if not sp["g"]["c"] else [[-1, 2], [-1, 4], [-1, 1]])]
    if sp["s"] in ("triv",):
        ids = [1]
    if sp["s"] == "flip":
        ids = [1, 2]
    ids = r.sample(ids, min(2, len(ids)))
    for id_ in ids:
        table[(1, repr(id_))] = image(1, id_)
    sizes = lambda: [[q.size for q in reps] for reps in W.reps]
    all_ = lambda: [W.obs(t) for t in mem]
    yield {"op": "begin", "key": key, "sizes": sizes(), "mem": all_()}

    for a in case["ops"]:
        o, s, t, d = a["o"], a["s"], a["t"], a["d"]
        S, T = mem[s - 1], mem[t - 1]
        ev = {"op": o, "key": key, "s": s, "d": d, "raised": False, "argsok": True}
        if any(x.tensor.numel() and float(x.tensor.abs().max()) > 4e5 for x in mem):
            return
        if o == "new":
            k = a["f"]
            mem[d - 1] = twin(S) if k <= 2 else (alien(S) if r.random() < .7 else fresh(W.other)) if k == 3 and W.reps[W.other - 1] else fresh()
        elif o == "reject":
            n = S.type.size
            bad = [lambda: enn.GeometricTensor(torch.zeros(1, n + 1, 2, 2), S.type), lambda: enn.GeometricTensor(torch.zeros(n), S.type),
                   lambda: enn.GeometricTensor(np.zeros((1, n, 2, 2)), S.type), lambda: S * torch.ones(2),
                   lambda: S[[0]], lambda: S[:, [0]], lambda: S[0, 0, 0, 0, 0], lambda: S[torch.tensor([0])], lambda: enn.tensor_directsum([])]
            ev["raised"] = raises(r.choice(bad))[1] != ""
        elif o == "slice":
            it = a["it"]
            while sum(x["k"] == "e" for x in it) > 1:
                q = max(k for k, x in enumerate(it) if x["k"] == "e")
                it = it[:q] + it[q + 1:]
            nd = S.tensor.dim()
            if len(it) > nd and any(x["k"] == "e" for x in it):
                it = [x for x in it if x["k"] != "e"]
            ix = tuple(item(x) for x in it)
            res, ex = raises(lambda: S[ix[0] if len(ix) == 1 else ix])
            ev.update(it=it, raised=ex != "")
            if not ex:
                mem[d - 1] = res
        elif o == "split":
            br = list(a["br"])
            L = len(S.type)
            if r.random() < .5 and br != [99]:
                br = sorted(r.sample(range(1, L), r.randrange(0, L)))
            arg = None if br == [99] else list(br) if r.random() < .8 else tuple(br)
            res, ex = raises(lambda: S.split(arg))
            ev.update(br=br, raised=ex != "", argsok=arg is None or list(arg) == br)
            if not ex:
                p = r.randrange(len(res))
                ev.update(p=p + 1, outs=[W.obs(x) for x in res])
                mem[d - 1] = res[p]
        elif o == "dsum":
            ss = a["ss"]
            ts = [mem[k - 1] for k in ss]
            if sum(x.type.size for x in ts) > 20:
                continue
            arg = list(ts)
            res, ex = raises(lambda: enn.tensor_directsum(arg))
            ev.update(ss=ss, raised=ex != "", argsok=len(arg) == len(ts) and all(x is y for x, y in zip(arg, ts)))
            if not ex:
                mem[d - 1] = res
        elif o in ("add", "sub", "iadd", "isub"):
            if S.type == T.type and S.shape != T.shape:
                continue
            if o[0] == "i" and S.type == T.type:
                if S.tensor.data_ptr() != T.tensor.data_ptr() or S.tensor.stride() != T.tensor.stride():
                    if S.tensor.untyped_storage().data_ptr() == T.tensor.untyped_storage().data_ptr():
                        continue    # overlapping operands: undefined
            ev["t"] = t
            if o in ("add", "sub"):
                res, ex = raises((lambda: S + T) if o == "add" else (lambda: S - T))
                ev["raised"] = ex != ""
                if not ex:
                    mem[d - 1] = res
            else:
                import operator
                res, ex = raises((operator.iadd if o == "iadd" else operator.isub), S, T)
                ev.update(raised=ex != "", same=ex != "" or res is S)
        elif o in ("mul", "imul"):
            v = a["v"]
            q = [float(v), torch.tensor(float(v)), torch.tensor([float(v)]), float(v)][a["f"] - 1]
            ev["v"] = v
            if o == "mul":
                res, ex = raises((lambda: q * S) if a["f"] in (2, 4) else (lambda: S * q))
                ev["raised"] = ex != ""
                if not ex:
                    mem[d - 1] = res
            else:
                import operator
                res, ex = raises(operator.imul, S, q)
                ev.update(raised=ex != "", same=ex != "" or res is S)
        elif o == "restrict":
            k, fs = W.find(S.type)
            id_ = ids[a["f"] % len(ids)]
            if (k, repr(id_)) not in table or max(fs) > len(table[(k, repr(id_))][1]):
                continue
            res, ex = raises(lambda: S.restrict(id_))
            sub, m = table[(k, repr(id_))]
            ev.update(raised=ex != "", sub=sub, map=m)
            if not ex:
                mem[d - 1] = res
        elif o == "ident":
            if S.tensor.dim() != 4 or not S.tensor.numel():
                continue
            e = S.type.fibergroup.identity
            res, ex = raises((lambda: S.transform(e)) if a["f"] < 3 else (lambda: S.transform_fibers(e)))
            if not ex:      # representations are floating-point matrices
                x = res.tensor.round()
                if float((x - res.tensor).abs().max()) > 1e-3:
                    raise ValueError("identity transforms entries")
                res.tensor.copy_(x)
                mem[d - 1] = res
            ev["raised"] = ex != ""
        elif o == "to":
            p = [torch.float32, torch.float64][a["f"] % 2]
            res = S.to(p) if a["f"] < 3 else S.to(dtype=p)
            ev.update(prec=32 if p == torch.float32 else 64)
            mem[d - 1] = res
        ev["mem"] = all_()
        yield ev
