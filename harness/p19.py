"""Programs over field types."""
from common import *
from fields import *
from p18 import World

SHARD = 2_500_000


def cases(tier, seed, gen):
    sps = ex_spaces()
    return [{"key": f"{sps[n % len(sps)]['s']}{sps[n % len(sps)]['g']['n']}", "sp": sps[n % len(sps)], "ops": q["ops"]} for n, q in enumerate(gen)]


def compare(S, T):
    return {"eq": bool(S == T), "eqr": bool(T == S), "ne": bool(S != T), "hasheq": hash(S) == hash(T), "inset": T in {S},
            "alien": bool(S == list(S.representations)) or bool(S == None) or bool(S == repr(S))}


def run(case, h):
    r, sp = rng(h), case["sp"]
    W = World(sp, r)
    key = case["key"]
    lists = [[] for _ in range(4)]      # the list objects handed to the constructor

    def mk(s, toks, d):
        lists[d] = [W.reps[s - 1][(t - 1) % len(W.reps[s - 1])] for t in toks]
        arg = lists[d] if r.random() < .8 else tuple(lists[d])
        return enn.FieldType(W.spaces[s - 1], arg)

    mem = [mk(1, [r.randrange(1, len(W.reps[0]) + 1) for _ in range(r.randrange(1, 5))], d) for d in range(4)]
    ids = [lib_id(sp["g"], q) for q in (ids_of(sp["g"]) if not sp["g"]["c"] else [[-1, 2], [-1, 4], [-1, 1]])]
    ids = [1] if sp["s"] == "triv" else [1, 2] if sp["s"] == "flip" else ids
    ids = r.sample(ids, min(2, len(ids)))
    table = {}
    for id_ in ids:
        gs = W.spaces[0]
        t = W.space(gs.restrict(id_)[0])
        table[repr(id_)] = t, [W.tok(t, gs.fibergroup.restrict_representation(id_, q)) for q in list(W.reps[0])]

    def obs(T):
        s, fs = W.find(T)
        return {"sp": s, "fs": fs}
    all_ = lambda: [obs(T) for T in mem]
    ir = {}

    def itok(n):
        return ir.setdefault(str(n), len(ir) + 1)
    yield {"op": "begin", "key": key, "sizes": [[q.size for q in reps] for reps in W.reps],
           "irreps": [[[itok(n) for n in q.irreps] for q in reps] for reps in W.reps], "mem": all_()}
    for a in case["ops"]:
        o, s, t, d, f = a["o"], a["s"], a["t"], a["d"], a["f"]
        S, T = mem[s - 1], mem[t - 1]
        ev = {"op": o, "key": key, "s": s, "t": t, "d": d, "raised": False, "argsok": True}
        if o == "new":
            k = W.other if f == 1 else 1
            if f <= 3 and k == 1:      # a list equal to another slot's
                q, fs = W.find(S)
                if f == 3 and q == 1:       # or one with the same names
                    fs = [W.namesakes.get(x, x) for x in fs]
                mem[d - 1] = mk(q, fs, d - 1)
                ev.update(sp=q, fs=fs)
            else:
                fs = [(x - 1) % len(W.reps[k - 1]) + 1 for x in a["fs"]]
                mem[d - 1] = mk(k, fs, d - 1)
                ev.update(sp=k, fs=fs)
            ev["argsok"] = [W.tok(ev["sp"], q) for q in lists[d - 1]] == ev["fs"]
            if f == 5:
                bad = [lambda: enn.FieldType(W.spaces[0], []), lambda: enn.FieldType(W.spaces[0], [W.reps[0][0], lib_rep(G("C", 7), irrep(0, 1))])]
                yield {"op": "reject", "key": key, "raised": all(raises(b)[1] != "" for b in bad)}
        elif o == "late":
            # the caller goes on using the list it built the type from
            L = lists[s - 1]
            if not L:
                continue
            m = r.randrange(3)
            if m == 0:
                L.append(L[0])
            elif m == 1:
                L.pop()
            else:
                L[0] = r.choice(W.reps[0])
        elif o == "select":
            ix = a["ix"]
            if r.random() < .5 and ix:
                ix = [x % len(S) for x in ix]
            arg = list(ix)
            res, ex = raises(lambda: S.index_select(arg))
            ev.update(ix=ix, raised=ex != "", argsok=arg == ix)
            if not ex:
                mem[d - 1] = res
                lists[d - 1] = []
        elif o == "sorted":
            mem[d - 1] = S.sorted()
            lists[d - 1] = []
        elif o == "add":
            if len(S) + len(T) > 10:
                continue
            res, ex = raises(lambda: S + T)
            ev["raised"] = ex != ""
            if not ex:
                mem[d - 1] = res
                lists[d - 1] = []
        elif o == "group":
            lb = [["a", "b", "a, b"][x - 1] for x in a["lb"][:len(S)]]
            lb += ["b"] * (len(S) - len(lb))
            if f == 1:
                yield {"op": "reject", "key": key, "raised": raises(lambda: S.group_by_labels(lb + ["a"]))[1] != ""}
            arg = list(lb)
            res, ex = raises(lambda: S.group_by_labels(arg))
            ev.update(lb=lb, raised=ex != "", argsok=arg == lb)
            if not ex:
                ks = list(res.keys())
                ev.update(keys=ks, outs=[obs(res[k]) for k in ks])
        elif o == "restrict":
            k, fs = W.find(S)
            id_ = ids[f % len(ids)]
            sub, m = table[repr(id_)]
            if k != 1 or max(fs) > len(m):
                continue
            res, ex = raises(lambda: S.restrict(id_))
            ev.update(raised=ex != "", sub=sub, map=m)
            if not ex:
                mem[d - 1] = res
                lists[d - 1] = []
        elif o == "cmp":
            ev.update(compare(S, T))
        elif o == "look":
            k, fs = W.find(S)
            reps = W.reps[k - 1]
            Gr = W.spaces[k - 1].fibergroup
            g = desc_group(Gr)
            e = dec(g, r.choice(some_elems(g, r, 8)))
            if f % 2:
                S.representation
            ev.update(len=len(S), size=int(S.size), starts=[int(x) for x in S.fields_start], ends=[int(x) for x in S.fields_end],
                      iter=[W.tok(k, q) for q in S], names=[itok("n" + x) for x in S.fields_names()], namesof=[itok("n" + q.name) for q in reps],
                      irreps=[itok(n) for n in S.irreps], group=S.fibergroup == Gr and S.gspace == W.spaces[k - 1],
                      rho=imat(S.representation(e)), rhos=[imat(q(e)) for q in reps], tol=20,
                      cob=imat(S.get_dense_change_of_basis() if f % 3 else S.representation.change_of_basis),
                      cobi=imat(S.get_dense_change_of_basis_inv() if f % 3 else S.change_of_basis_inv.toarray()),
                      cobs=[imat(q.change_of_basis) for q in reps], cobis=[imat(q.change_of_basis_inv) for q in reps])
        ev["mem"] = all_()
        yield ev
        if o == "new" and f == 3 and s != d:
            yield dict(compare(mem[s - 1], mem[d - 1]), op="cmp", key=key, s=s, t=d, d=d, raised=False, argsok=True, mem=all_())
