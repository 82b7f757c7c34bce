"""The descriptions of a layer's weights, checked against the filters the weights produce."""
from common import *
from fields import *
import p11
from e2cnn.nn import init


def cases(tier, seed, gen):
    cs = []
    for it in range(3 if tier == "quick" else 40):
        for sp in ex_spaces():
            for kind in ("conv", "tconv", "diff"):
                cs.append({"key": f"{kind}/{sp['s']}{sp['g']['n']}/{sp['ax2']}", "sp": sp, "kind": kind, "it": it})
    for it in range(1 if tier == "quick" else 12):
        for sp in ex_spaces():
            cs.append({"key": f"delta/{sp['s']}{sp['g']['n']}/{sp['ax2']}", "sp": sp, "kind": "delta", "it": it})
    return cs


RUNS = 1500


def same(a, b):
    if set(a) != set(b):
        return False
    return all(np.all(np.asarray(a[k]) == np.asarray(b[k])) for k in a)


def entry(a):
    return {"id": a["id"], "idx": int(a["idx"]), "inf": int(a["in_field_position"]), "outf": int(a["out_field_position"]),
            "ini": int(a["in_irrep_idx"]), "outi": int(a["out_irrep_idx"]), "inp": int(a["in_irreps_position"]),
            "outp": int(a["out_irreps_position"]), "ini_name": str(a["in_irrep"]), "outi_name": str(a["out_irrep"]),
            "inr": a["in_repr"], "outr": a["out_repr"]}


def blocks(K, ti, to):
    """norms of the blocks of a filter (out, in, ...) between irreps"""
    K = np.asarray(K, dtype=float)
    K = np.einsum("ab,bc...->ac...", np.linalg.inv(block(to)), K)
    K = np.einsum("ab...,bc->ac...", K, block(ti))
    cut = lambda t: np.cumsum([0] + [t.fibergroup.irreps[i].size for q in t.representations for i in q.irreps])
    ci, co = cut(ti), cut(to)
    return np.array([[np.sqrt((K[co[o]:co[o + 1], ci[i]:ci[i + 1]] ** 2).sum()) for i in range(len(ci) - 1)] for o in range(len(co) - 1)])


def block(t):
    n = t.size
    B, p = np.zeros((n, n)), 0
    for q in t.representations:
        B[p:p + q.size, p:p + q.size] = q.change_of_basis
        p += q.size
    return B


def delta(case, r):
    sp = case["sp"]
    g, b = sp["g"], Builder(sp)
    for _ in range(3):
        ds = rand_type(g, r, 9, 4, kinds=("irrep", "reg", "quo", "sum"))
        t = b.type(ds)
        k = r.choice([1, 3, 5])
        kw = {"rings": [0., .5, 1.], "frequencies_cutoff": 3.} if k > 1 and r.random() < .4 else {}
        L = enn.R2Conv(t, t, k, bias=False, initialize=False, **kw)
        L.weights.data.fill_(float("nan"))      # nothing is read from memory that was never set
        init.deltaorthonormal_init(L.weights.data, L.basisexpansion)
        F = L.expand_parameters()[0].detach().numpy().astype(float)
        c = F[:, :, k // 2, k // 2].copy()
        F[:, :, k // 2, k // 2] = 0.
        kk, bad = ints(c @ c.T, 10000, 10 ** 6)
        yield {"op": "delta", "key": case["key"], "kk": kk, "bad": bad, "off": int(min(np.abs(F).max() * 10000, 10 ** 6)), "k": k, "n": len(ds)}


def run(case, h):
    r, sp, kind = rng(h), case["sp"], case["kind"]
    if kind == "delta":
        yield from delta(case, r)
        return
    b = Builder(sp)
    done, layers = 0, []
    for _ in range(6):
        try:
            L, q, din, dout = p11.layer(kind, b, sp, r)
        except ValueError as ex:
            if "empty" in str(ex):
                continue
            raise
        if L.weights.numel() == 0:
            continue
        E = L.basisexpansion
        # the filter of one group: all outputs from the first inputs, or (transposed) the first outputs from all inputs
        if kind == "tconv":
            ti, to = L.in_type, b.type(dout[:len(dout) // q["groups"]])
        else:
            ti, to = b.type(din[:len(din) // q["groups"]]), L.out_type
        info = list(E.get_basis_info())
        names = list(E.get_basis_names())
        n = int(L.weights.numel())
        ds = [entry(a) for a in info]
        lookup = len(info) == n == len(names) == E.dimension()
        for k in r.sample(range(len(info)), min(len(info), 40)):
            lookup = lookup and same(info[k], E.get_element_info(k)) and same(info[k], E.get_element_info(info[k]["id"]))
        if n <= 400:
            yield {"op": "layer", "key": case["key"], "n": n, "ds": ds, "names": names, "lookup": bool(lookup),
                   "iin": [[str(x) for x in p.irreps] for p in ti.representations], "iout": [[str(x) for x in p.irreps] for p in to.representations],
                   "rin": [p.name for p in ti.representations], "rout": [p.name for p in to.representations]}
        for k in r.sample(range(n), min(n, 4)):
            with torch.no_grad():
                w = torch.zeros_like(L.weights)
                w[k] = 1.
                m = blocks(E(w).numpy(), ti, to)
            m, bad = ints(m / max(m.max(), 1e-9), 10000, 10 ** 6)
            yield {"op": "unit", "key": case["key"], "m": m, "bad": bad, "d": ds[k]}
        if done:
            layers.append(L)
            break
        # moments of the initial weights, from many initialisations
        torch.manual_seed(r.randrange(10 ** 6))
        w, s1, s2 = torch.zeros(L.weights.shape), 0., 0.
        for _ in range(RUNS):
            init.generalized_he_init(w, E, cache=True)
            s1, s2 = s1 + w.double(), s2 + w.double() ** 2
        mean, bad = ints(s1 / RUNS * math.sqrt(RUNS), 1000, 10 ** 6)
        tot = {}
        for a, v in zip(ds, (s2 / RUNS).tolist()):
            tot[a["outp"]] = tot.get(a["outp"], 0.) + v
        yield {"op": "moments", "key": case["key"], "mean": mean[:300], "bad": bad, "tot": [int(round(v * 1000)) for v in tot.values()]}
        layers.append(L)
        done += 1
        if done >= 2:
            break
    # remembered variances: the layers of this process, several times, in any order
    for _ in range(3 if layers else 0):
        L = r.choice(layers)
        s = r.randrange(10 ** 6)
        out = []
        for cache in (True, False):
            torch.manual_seed(s)
            w = torch.full(L.weights.shape, float("nan"))
            init.generalized_he_init(w, L.basisexpansion, cache=cache)
            out.append(ints(w[:200], 1000, 10 ** 7))
        yield {"op": "he", "key": case["key"], "a": out[0][0], "b": out[1][0], "bad": out[0][1] + out[1][1]}
