"""Histories of dropout layers."""
import copy
from common import *
from fields import *
from mods import *

PC = [0, 10, 25, 30, 50, 50, 75, 90, 100]


def cases(tier, seed, gen):
    sps = ex_spaces()
    cs = []
    for n, q in enumerate(gen):
        for kind in ("field", "point"):
            sp = sps[n % len(sps)]
            cs.append({"key": f"{kind}/{sp['s']}{sp['g']['n']}", "sp": sp, "kind": kind, "ops": q["ops"]})
    for it in range(2 if tier == "quick" else 20):
        for kind in ("field", "point"):
            for pc in (10, 25, 50, 75, 90):
                sp = sps[(it * 10 + pc) % len(sps)]
                cs.append({"key": f"stat/{kind}/{pc}", "sp": sp, "kind": kind, "stat": True, "pc": pc, "it": it})
    return cs


def enc_map(t, scale=1000):
    """one fibre per sample and position"""
    v = t.detach().double()
    bad = int((~torch.isfinite(v)).sum())
    v = torch.nan_to_num(v, 0., 0., 0.)
    v = v.movedim(1, -1).reshape(-1, t.shape[1]) * scale
    return torch.round(v.clamp(-1e7, 1e7)).long().tolist(), bad


def mk(kind, b, sp, r, p, ip, lim=12):
    if kind == "point":
        ds = typ(b, sp, r, lambda rep, d: sup(rep, "pointwise"), lim, n=3, nmax=5)
        return enn.PointwiseDropout(b.type(ds), p, ip), ds
    ds = typ(b, sp, r, lambda rep, d: True, lim, n=3, nmax=5)
    return enn.FieldDropout(b.type(ds), p, ip), ds


def run(case, h):
    r, sp, kind = rng(h), case["sp"], case["kind"]
    g = sp["g"]
    b = Builder(sp)
    if case.get("stat"):
        M, ds = mk(kind, b, sp, r, case["pc"] / 100, r.random() < .5)
        sz = [size(g, d) for d in ds]
        x = torch.rand(24, sum(sz), 6, 6) + .5
        y = M(enn.GeometricTensor(x.clone(), M.in_type)).tensor
        z = (y == 0).numpy()
        u = np.cumsum([0] + sz[:-1]) if kind == "field" else np.arange(sum(sz))
        z = z[:, u]
        pairs = []
        for ax in (0, 1, 2, 3):
            if z.shape[ax] > 1:
                a, c = np.take(z, range(0, z.shape[ax] - 1, 2), ax), np.take(z, range(1, z.shape[ax], 2), ax)
                pairs.append([int(a.size), int((a == c).sum())])
        y2 = M(enn.GeometricTensor(x.clone(), M.in_type)).tensor
        z2 = (y2 == 0).numpy()[:, u]
        pairs.append([int(z.size), int((z == z2).sum())])
        z, pairs = z.ravel()[:20000], [[n, a] for n, a in pairs if n < 20000]
        yield {"op": "stat", "key": case["key"], "pc": case["pc"], "n": int(z.size), "d": int(z.sum()), "pairs": pairs}
        return
    pc, ip = r.choice(PC), r.random() < .5
    M, ds = mk(kind, b, sp, r, pc / 100, ip)
    sz = [size(g, d) for d in ds]
    c = sum(sz)
    prec = r.choice([torch.float32, torch.float32, torch.float64])
    if r.random() < .1:
        for p in (-.1, 1.5):
            yield {"op": "reject", "key": case["key"], "raised": raises(lambda: mk(kind, b, sp, r, p, ip))[1] != ""}

    def fresh():
        hw = r.choice([(1, 1), (2, 2), (1, 3), (3, 2)])
        v = np.random.randint(1, 17, (r.choice([1, 2, 3]), c, *hw)) * np.random.choice([-1, 1], (1, c, 1, 1))
        t = torch.tensor(v / 8., dtype=prec)
        m = r.random()
        if m < .2:
            t = t.transpose(2, 3)
        elif m < .3:
            t = t.contiguous(memory_format=torch.channels_last)
        return enn.GeometricTensor(t, M.in_type)
    mem = [fresh(), fresh()]
    yield {"op": "new", "key": case["key"], "mem": [enc_map(t.tensor)[0] for t in mem], "pc": pc, "inplace": ip}
    for a in case["ops"]:
        o = a["o"]
        if o == "mode":
            M.train(a["m"] == "train")
            yield {"op": "mode", "key": case["key"], "m": a["m"]}
        elif o == "copy":
            M = copy.deepcopy(M)
            yield {"op": "copy", "key": case["key"]}
        elif o == "data":
            mem[a["s"] - 1] = fresh()
            yield {"op": "data", "key": case["key"], "s": a["s"], "x": enc_map(mem[a["s"] - 1].tensor)[0]}
        else:
            t = mem[a["s"] - 1]
            x, b0 = enc_map(t.tensor)
            if max([abs(v) for q in x for v in q] + [0]) > 9e5 or b0:
                return
            out = M(t)
            y, bad = enc_map(out.tensor)
            after, _ = enc_map(t.tensor)
            yield {"op": "pass", "key": case["key"], "kind": kind, "sizes": sz, "pc": pc, "inplace": ip, "s": a["s"], "x": x, "y": y, "after": after,
                   "bad": bad, "typed": out.type == M.in_type and out.tensor.dtype == prec}
