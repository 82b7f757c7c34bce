"""Non-convolutional modules are equivariant."""
from common import *
from fields import *
from mods import *


def cases(tier, seed, gen):
    cs = []
    for it in range(4 if tier == "quick" else 50):
        for sp in ex_spaces():
            for kind in KINDS:
                if kind == "vector" and sp["s"] != "rot":
                    continue
                cs.append({"key": f"{kind}/{sp['s']}{sp['g']['n']}/{sp['ax2']}", "sp": sp, "kind": kind, "it": it})
    return cs


def grid(m, r):
    """input size on which the windows are placed symmetrically"""
    q = m.geo or {}
    if "n" in q:
        return q["n"]
    if "o" in q:
        return r.choice([3, 4, 5, 6])
    if "k" in q:
        pp = 4 * q["p"] if m.kind == "maxpoola" else 2 * q["p"]
        ok = [n for n in range(1, 14) if n + pp - q["d"] * (q["k"] - 1) - 1 >= 0 and (n + pp - q["d"] * (q["k"] - 1) - 1) % q["s"] == 0
              and n + 2 * q["p"] >= q["d"] * (q["k"] - 1) + 1 and n >= q["d"]]
        return r.choice(ok[:3])
    return r.choice([1, 2, 3])


def run(case, h):
    r, sp, kind = rng(h), case["sp"], case["kind"]
    g = sp["g"]
    b = Builder(sp)
    m = make(kind, b, sp, r, 10)
    if m is None:
        return
    M = m.M
    randomise(M, r)
    training = "bn" in kind and r.random() < .4
    M.train(training)
    prec = torch.float64 if r.random() < .3 else torch.float32
    M.to(prec)
    n = grid(m, r)
    bt = 2 if training else 1
    c = sum(size(g, d) for d in m.din)
    if m.pars.get("track") is False:
        n = max(n, 2)           # batch statistics of a single value do not exist
    x = np.random.uniform(-3, 3, (bt, c, n, n))
    if n > 1 and r.random() < .2:
        x[:, :, 0, :1] = 0.
    spo = sp
    go = g
    if m.sub is not None:
        spo, go = sub_space(sp, m.sub), sub_desc(g, m.sub)
    if go["c"]:
        alle = [[f, u] for f in ((0, 1) if go["k"] == "D" else (0,)) for u in (0, 1260, 2520, 630, 17, 4000)]
    else:
        alle = elems(go)
    up = (lambda e: embed(g, m.sub, e)) if m.sub is not None else (lambda e: e)
    ex = [e for e in alle if iso(sp, up(e))[1] % 1260 == 0 and e != [0, 0]]
    tests = []
    if m.pix:
        tests.append((True, r.choice(alle)))
        tests.append((True, r.choice(alle)))
    if ex:
        tests.append((False, r.choice(ex)))
        if not m.pix:
            tests.append((False, r.choice(ex)))
    import copy
    for fib, e in tests:
        ue = up(e)
        gx = np.einsum("oc,bc...->bo...", fibre(g, m.din, ue), x)
        if not fib:
            gx = act_pixels(sp, ue, gx)
        st = copy.deepcopy(M.state_dict())
        y = call(m, x, prec)
        M.load_state_dict(st)
        gy = call(m, gx, prec)
        M.load_state_dict(st)
        k = r.randrange(bt)
        xi, gxi, bx, _ = norm(x[k], gx[k], to=9000)
        yi, gyi, by, _ = norm(y.tensor[k], gy.tensor[k], floor=1e-4 * np.abs(x).max())
        ev = {"op": "equiv", "key": case["key"], "kind": kind, "sp": sp, "spo": spo, "din": m.din, "dout": m.dout or [], "e": e, "fibre": fib,
              "x": xi, "gx": gxi, "y": yi, "gy": gyi, "bad": bx + by, "mode": "train" if training else "eval", "pars": str(m.pars), "geo": str(m.geo),
              "types": y.type == M.out_type and gy.type == M.out_type and y.tensor.dtype == prec}
        if m.sub is not None:
            ev["sub"] = m.sub
        rho = [np.array(q(dec(go, e))) for q in M.out_type.representations]
        N = sum(len(q) for q in rho)
        R, p = np.zeros((N, N)), 0
        for q in rho:
            R[p:p + len(q), p:p + len(q)] = q
            p += len(q)
        R = imat(R)
        if m.dout is None:
            ev["rho"] = R
            yield ev
        else:
            yield ev
            yield {"op": "rep", "key": case["key"], "spo": spo, "dout": m.dout, "e": e, "rho": R}
