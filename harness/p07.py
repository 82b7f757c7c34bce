"""The action on feature fields."""
from common import *


def spaces(tier):
    sps = [space("triv")] + [space("flip", ax2=a) for a in (0, 1260, 2520, 3780, 700, 6300, -1260)]
    ns = (2, 3, 4, 5, 6, 8, 12, 24, 30, -1) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 18, 20, 24, 30, 36, 60, -1)
    sps += [space("rot", n) for n in ns]
    for n in ns:
        sps += [space("fliprot", n, a) for a in ((2520, 0, 1260, 630, 840, 210, 6300) if tier == "quick" else (2520, 0, 1260, 630, 840, 315, 210, 420, 77, 5040, 6300, -1260, 8820))]
    return sps


def cases(tier, seed, gen):
    cs = []
    for rep in range(2 if tier == "quick" else 12):
        for n, sp in enumerate(spaces(tier)):
            cs.append({"key": f"{sp['s']}{sp['g']['n']}/{sp['ax2']}", "sp": sp, "it": rep})
    return cs


def run(case, h):
    r, sp = rng(h), case["sp"]
    g = sp["g"]
    gs = lib_space(sp, 4)
    pool = reps_of(g, 8)
    for it in range(3):
        ds = [r.choice(pool) for _ in range(r.randrange(1, 4))]
        while sum(size(g, d) for d in ds) > 12:
            ds.pop()
        if not ds:
            ds = [irrep(0, 0)]
        ft = lib_type(gs, sp, ds)
        es = some_elems(g, r, 6)
        ex = [e for e in (elems(g) if not g["c"] else [[f, u] for f in ((0, 1) if g["k"] == "D" else (0,)) for u in (0, 1260, 2520, 3780)])
              if exact(sp, e)]
        # exact part
        for _ in range(3):
            hh = r.choice([1, 2, 3, 4, 5])
            ww = hh if r.random() < .7 else r.choice([1, 2, 3, 4, 5])
            B = r.choice([1, 2])
            prec = torch.float64 if r.random() < .3 else torch.float32
            cand = ex if hh == ww else [e for e in ex if iso(sp, e)[1] % 2520 == 0]
            a, b = r.choice(cand), r.choice(cand)
            x = torch.randint(-9, 10, (B, ft.size, hh, ww)).to(prec)
            x0 = x.clone()
            t = enn.GeometricTensor(x, ft)
            I = lambda z: ints(z, 10000, 10 ** 7)[0]
            if r.random() < .5:
                ya = t.transform(dec(g, a))
                yab = ya.transform(dec(g, b))
                ym = t.transform(dec(g, mul(g, b, a)))
                typ = ya.type == ft and yab.type == ft
                ya, yab, ym = ya.tensor, yab.tensor, ym.tensor
            else:
                ya = ft.transform(x, dec(g, a))
                yab = ft.transform(ya, dec(g, b))
                ym = ft.transform(x, dec(g, mul(g, b, a)))
                typ = True
            yid = ft.transform(x, dec(g, [0, 0]))
            if g["c"] and r.random() < .6:
                # the product of two angles off the lattice, as the group itself computes it
                m = mul(g, b, a)
                u = r.choice([r.uniform(0, 6.28), 1.1, .3, 5.])
                z = (lambda f, v: (f, v)) if g["k"] == "D" else (lambda f, v: v)
                p, q = z(0, u), z(m[0], m[1] * TAU / TURN - u)
                ym = ft.transform(x, gs.fibergroup.combine(p, q))
            typ = typ and all(z.dtype == prec for z in (ya, yab, ym, yid))
            yield {"op": "exact", "key": case["key"], "sp": sp, "ds": ds, "h": hh, "w": ww, "a": a, "b": b,
                   "x": ints(x, 1)[0], "ya": I(ya), "yab": I(yab), "ym": I(ym), "yid": I(yid), "typ": typ,
                   "kept": bool(torch.equal(x, x0))}
        # fibres only, for every element
        a, b = r.choice(es), r.choice(es)
        x = torch.randint(-9, 10, (2, ft.size, 2, 3)).to(torch.float64 if r.random() < .3 else torch.float32)
        t = enn.GeometricTensor(x, ft)
        ya = t.transform_fibers(dec(g, a))
        yab = ya.transform_fibers(dec(g, b))
        I = lambda z: ints(z, 10000, 10 ** 7)[0]
        yield {"op": "fibre", "key": case["key"], "sp": sp, "ds": ds, "a": a, "b": b, "h": 2, "w": 3, "x": ints(x, 1)[0],
               "ya": I(ya.tensor), "yab": I(yab.tensor), "ym": I(t.transform_fibers(dec(g, mul(g, b, a))).tensor),
               "rho": imat(ft.representation(dec(g, a))), "typ": ya.tensor.dtype == x.dtype and ya.type == ft}
        # the planar meaning of every element: a linear signal, observed around the centre
        n = 21
        c = np.arange(n) - (n - 1) / 2
        X, Y = np.meshgrid(c, -c)
        tt = enn.FieldType(gs, [gs.trivial_repr])
        for e in es:
            z = torch.tensor(np.stack([X, Y])[:, None]).float()
            y = tt.transform(z, dec(g, e)).numpy()
            m = (n - 1) // 2
            pts = [(0, 0), (1, 0), (0, 1), (-2, 1), (3, 2)]       # (x, y)
            yield {"op": "plane", "key": case["key"], "sp": sp, "e": e, "pts": [list(p) for p in pts],
                   "vals": [[ints(y[0, 0, m - p[1], m + p[0]], 10000, 10 ** 6)[0], ints(y[1, 0, m - p[1], m + p[0]], 10000, 10 ** 6)[0]] for p in pts]}
