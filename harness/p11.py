"""Convolution layers commute with the exact symmetries of the grid."""
from common import *
from fields import *


def cases(tier, seed, gen):
    cs = []
    for it in range(6 if tier == "quick" else 60):
        for sp in ex_spaces():
            for kind in ("conv", "tconv", "diff"):
                cs.append({"key": f"{kind}/{sp['s']}{sp['g']['n']}/{sp['ax2']}", "sp": sp, "kind": kind, "it": it})
    return cs


FCO = [None, 1., 2., 3., -2., -3., lambda q: 3]


def layer(kind, b, sp, r, uneven=False):
    """a random layer: (layer, geometry, input descriptions, output descriptions)"""
    g = sp["g"]
    groups = r.choice([1, 1, 1, 2, 3])
    lim = 9 if groups == 1 else 4
    nmax = 4 if groups == 1 else 2
    din, dout = rand_type(g, r, lim, nmax), rand_type(g, r, lim, nmax)
    if r.random() < .2:
        dout = din
    elif groups == 1 and r.random() < .2:      # many fields, alternating
        a, c = r.sample(rand_type(g, r, 4, 1) + rand_type(g, r, 4, 1, kinds=("irrep", "reg", "cob")), 2)
        long = ([a, c] * 4)[:r.choice([3, 5, 7, 8])]
        din, dout = (long, dout) if r.random() < .5 else (din, long)
    din, dout = din * groups, dout * groups
    if uneven and groups > 1 and r.random() < .1:          # groups which differ: refused, or steerable all the same
        r.shuffle(din)
        r.shuffle(dout)
    k = r.choice([1, 2, 3, 3, 4, 5])
    s, d = r.choice([1, 1, 2, 3]), r.choice([1, 1, 2])
    p = r.choice([0, 0, 1, 2])
    mode = r.choice(["zeros", "zeros", "reflect", "replicate", "circular"])
    kw = dict(stride=s, dilation=d, groups=groups, bias=r.random() < .7, recompute=r.random() < .2)
    r.uneven = any(t[i] != t[i % (len(t) // groups)] for t in (din, dout) for i in range(len(t)))
    ti, to = b.type(din), b.type(dout)
    if r.random() < .25:
        kw["maximum_offset"] = r.choice([0, 1])
    if kind == "diff":
        k = r.choice([3, 3, 4, 5])
        order = r.choice([0, 1, 2, 2, 3]) if k > 3 else r.choice([0, 1, 2])
        m = r.random()
        if m < .2:
            kw["smoothing"] = r.choice([.7, 1.2])
        elif m < .35:
            kw["rbffd"] = True
        if r.random() < .2:
            kw["maximum_power"] = r.choice([0, 1])
        if r.random() < .15:
            kw["basis_filter"] = lambda a: a["order"] != 1
        if r.random() < .2:
            kw["accuracy"] = 2
            L = enn.R2Diffop(ti, to, padding=p, padding_mode=mode, maximum_order=order, **kw)
            k = L.kernel_size
        else:
            L = enn.R2Diffop(ti, to, kernel_size=k, padding=p, padding_mode=mode, maximum_order=order, **kw)
    else:
        f = r.choice(FCO)
        if f is not None:
            kw["frequencies_cutoff"] = f
        if r.random() < .3:
            kw["sigma"] = r.choice([.5, .9])
        mr = math.sqrt(2) * (k - 1) * d / 2
        if r.random() < .3:
            kw["rings"] = r.choice([[0.], [mr / 2], [.3 * mr, .99 * mr]]) if mr > 0 else [0.]
        if r.random() < .15:
            kw["basis_filter"] = lambda a: a["frequency"] != 1
        if kind == "conv":
            L = enn.R2Conv(ti, to, k, padding=p, padding_mode=mode, **kw)
        else:
            mode = "zeros"
            p = r.choice([0, 0, 1])
            L = enn.R2ConvTransposed(ti, to, k, padding=p, **kw)
    return L, dict(k=k, s=s, d=d, ph=p, pw=p, mode=mode, groups=groups), din, dout


def fits(kind, q, n):
    """sizes the layer can process with an aligned output grid"""
    if kind == "tconv":
        return (n - 1) * q["s"] - 2 * q["ph"] + q["d"] * (q["k"] - 1) + 1 >= 1
    m = n + 2 * q["ph"] - q["d"] * (q["k"] - 1) - 1
    return m >= 0 and m % q["s"] == 0 and (q["mode"] == "zeros" or q["ph"] < n)


def randomise(L, r):
    with torch.no_grad():
        L.weights.copy_(torch.randn_like(L.weights) * (torch.rand_like(L.weights) < .8))
        if L.bias is not None:
            L.bias.copy_(torch.randn_like(L.bias))


def run(case, h):
    r, sp, kind = rng(h), case["sp"], case["kind"]
    g = sp["g"]
    b = Builder(sp)
    done = 0
    for _ in range(6):
        try:
            L, q, din, dout = layer(kind, b, sp, r, True)
        except ValueError as ex:        # an empty basis is refused
            if "empty" in str(ex):
                continue
            raise
        except AssertionError:
            if r.uneven:
                continue
            raise
        except Exception as ex:
            if type(ex).__name__ == "RuntimeError" and "NaN" in str(ex):
                continue
            raise
        sizes = [n for n in range(2, 14) if fits(kind, q, n)]
        if not sizes or L.weights.numel() == 0:
            continue
        randomise(L, r)
        n = r.choice(sizes[:3])
        w = n
        es = exact_elems(sp)
        if r.random() < .25:
            w = r.choice(sizes[:4])
            es = exact_elems(sp, w == n)
        es = [e for e in es if e != [0, 0]] or [[0, 0]]
        x = np.random.randint(-9, 10, (1, L.in_type.size, n, w)).astype(float)
        mode = r.choice(["train", "eval"])
        L.train(mode == "train")
        prec = torch.float64 if r.random() < .3 else torch.float32
        L.to(prec)
        f = lambda z: L(enn.GeometricTensor(torch.tensor(z, dtype=prec), L.in_type))
        y = f(x)
        # terms of this size may cancel exactly, leaving their rounding errors
        fl = 1e-3 * np.abs(x).max() * float(L.weights.detach().abs().max())
        for e in r.sample(es, min(len(es), 2)):
            gx = act(sp, din, e, x)
            gy = f(gx)
            xi, gxi, bx, _ = norm(x[0], gx[0], to=9000)
            yi, gyi, by, mx = norm(y.tensor[0], gy.tensor[0], floor=fl)
            yield {"op": "equiv", "key": case["key"], "sp": sp, "din": din, "dout": dout, "e": e, "q": q, "mode": mode,
                   "x": xi, "gx": gxi, "y": yi, "gy": gyi, "bad": bx + by, "kind": kind,
                   "types": y.type == L.out_type and gy.type == L.out_type}
        # translations: with circular padding a shift by the stride moves the output by one
        if kind != "tconv" and q["mode"] == "circular" and n % q["s"] == 0 and w % q["s"] == 0 and \
                2 * q["ph"] == q["d"] * (q["k"] - 1):
            u, v = r.randrange(n // q["s"]), r.randrange(w // q["s"])
            gy = f(np.roll(x, (u * q["s"], v * q["s"]), (2, 3)))
            yi, gyi, by, _ = norm(y.tensor[0], gy.tensor[0], floor=fl)
            yield {"op": "shift", "key": case["key"], "u": u, "v": v, "y": yi, "gy": gyi, "bad": by}
        done += 1
        if done >= 2:
            return
