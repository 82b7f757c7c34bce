"""Histories of the life of convolution layers (generated by the specification)."""
import io, copy
from common import *
from fields import *
from p11 import layer, ex_spaces, fits
import p11


def cases(tier, seed, gen):
    r = random.Random(seed)
    sps = ex_spaces()
    cs = []
    for n, g in enumerate(gen):
        sp = sps[n % len(sps)]
        kind = ("conv", "tconv", "diff")[(n // len(sps)) % 3]
        cs.append({"key": f"{kind}/{sp['s']}{sp['g']['n']}", "sp": sp, "kind": kind, "ops": g["ops"]})
    return cs


def put(L, w, how):
    if how == 0:
        with torch.no_grad():
            L.weights.copy_(w[0])
            if L.bias is not None:
                L.bias.copy_(w[1])
    elif how == 1:
        L.weights.data = w[0].clone()
        if L.bias is not None:
            L.bias.data = w[1].clone()
    else:
        # one step of gradient descent that lands on the wanted values
        opt = torch.optim.SGD(L.parameters(), lr=1.)
        L.weights.grad = L.weights.data - w[0]
        if L.bias is not None:
            L.bias.grad = L.bias.data - w[1]
        opt.step()
        opt.zero_grad()


def run(case, h):
    r, sp, kind = rng(h), case["sp"], case["kind"]
    b = Builder(sp)
    q = None
    for _ in range(30):
        s = r.randrange(2 ** 30)
        try:
            L, q, din, dout = layer(kind, b, sp, random.Random(s))
        except ValueError:
            q = None
            continue
        sizes = [n for n in range(2, 16) if fits(kind, dict(q, s=1), n)]
        if sizes and L.weights.numel() and q["k"] <= 3 and L.in_type.size * L.out_type.size <= 40:
            break
        q = None
    if q is None:
        return
    make = lambda: layer(kind, b, sp, random.Random(s))[0]
    n, m = r.choice(sizes[:3]), r.choice(sizes[:3])
    V = [[torch.randn_like(L.weights), None if L.bias is None else torch.randn_like(L.bias)] for _ in range(4)]
    V[3] = [V[1][0] + V[2][0], None if L.bias is None else V[1][1] + V[2][1]]
    V = [[a.detach(), None if c is None else c.detach()] for a, c in V]
    x = torch.tensor(np.random.randint(-3, 4, (1, L.in_type.size, n, m)), dtype=torch.float32)
    F, Bs = [], []
    orc = make()
    for v in V:
        put(orc, v, 0)
        f, c = orc.expand_parameters()
        F.append(f.detach().double().numpy())
        Bs.append(np.zeros(L.out_type.size) if c is None else c.detach().double().numpy())
    sc = 3000 / max(1e-9, max(float(np.abs(a).max()) for a in F + Bs))

    def out(o):
        if isinstance(o, enn.EquivariantModule):
            y = o(enn.GeometricTensor(x, o.in_type))
            return y.tensor
        return o(x)

    y0 = out(orc)
    sh = list(y0.shape[1:])
    pts = [[r.randrange(k) for k in sh] for _ in range(10)]
    I = lambda a: ints(a * sc, 1, 10 ** 7)[0]
    yield {"op": "layer", "key": case["key"], "kind": kind, "q": q, "x": ints(x[0], 1)[0], "F": [I(f) for f in F], "b": [I(c) for c in Bs],
           "pts": [[k + 1 for k in p] for p in pts], "op_": 0}
    objs, snaps = [make()], []
    put(objs[0], V[0], 0)

    def look():
        ys, shs, bad = [], [], 0
        for o in objs:
            y = out(o).detach()
            shs.append(list(y.shape[1:]))
            v, k = ints([float(y[(0,) + tuple(p)]) * sc for p in pts] if list(y.shape[1:]) == sh else [0.] * 10, 1, 10 ** 8)
            ys.append(v)
            bad += k
        return {"ys": ys, "shs": shs, "bad": bad, "key": case["key"]}

    yield dict(op="begin", **look())
    for op in case["ops"]:
        o = objs[op["i"] - 1]
        k = op["o"]
        if k == "train":
            o.train()
        elif k == "eval":
            o.eval()
        elif k == "cast":
            o.double()
            o.float()
        elif k == "update":
            put(o, V[op["v"]], op["how"])
        elif k == "save":
            f = io.BytesIO()
            torch.save(o.state_dict(), f)
            snaps.append(f)
        elif k == "load":
            f = snaps[op["s"] - 1]
            f.seek(0)
            o.load_state_dict(torch.load(f))
        elif k == "copy":
            objs.append(copy.deepcopy(o))
        elif k == "fresh":
            objs.append(make())
            put(objs[-1], V[op["v"]], 0)
        elif k == "export":
            objs.append(o.export())
        yield dict(op="step", o=op, **look())
