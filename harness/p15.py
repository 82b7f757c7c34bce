"""Histories of batch-normalisation layers (generated by the specification)."""
import io, copy
from common import *
from fields import *
from mods import *
from p14 import milli, fibres

KB = ["innerbn", "normbn", "inormbn", "gbn"]


def cases(tier, seed, gen):
    sps = ex_spaces()
    cs = []
    for n, g in enumerate(gen):
        sp = sps[(n // len(KB)) % len(sps)]
        kind = KB[n % len(KB)]
        cs.append({"key": f"{kind}/{sp['s']}{sp['g']['n']}", "sp": sp, "kind": kind, "ops": g["ops"]})
    return cs


def run(case, h):
    r, sp, kind = rng(h), case["sp"], case["kind"]
    g = sp["g"]
    b = Builder(sp)
    m = make(kind, b, sp, r, 10)
    if m is None:
        return
    ds = m.din
    if kind == "gbn":
        ds = [d for d in ds if d["t"] in ("irrep", "sum", "cob")] or [irreps_of(g, 1)[0]]
    kw = dict(eps=r.choice([1e-5, 1e-5, .5]), momentum=r.choice([.1, .1, .3, 1., 0., None]), affine=r.random() < .6)
    if kind == "innerbn" and r.random() < .2:
        kw["track_running_stats"] = False
    C = {"innerbn": enn.InnerBatchNorm, "normbn": enn.NormBatchNorm, "inormbn": enn.InducedNormBatchNorm, "gbn": enn.GNormBatchNorm}[kind]
    new = lambda: C(b.type(ds), **kw)
    M = new()
    c = sum(size(g, d) for d in ds)
    prec = torch.float64 if r.random() < .3 else torch.float32
    hw = r.choice([(1, 1), (2, 1), (1, 3), (2, 2)])
    bt = r.choice([2, 2, 3])
    X = [np.random.randint(-8, 9, (bt, c, *hw)) * r.choice([1, 1, 1]) + (r.randrange(-3, 4) if r.random() < .5 else 0) for _ in range(3)]
    X = [np.clip(x, -8, 8) for x in X]
    com = {"key": case["key"], "kind": kind, "g": g, "din": ds, "eps": int(round(kw["eps"] * 1e5)),
           "mom": -1 if kw["momentum"] is None else int(round(kw["momentum"] * 1000)), "track": kw.get("track_running_stats", True)}
    yield dict(com, op="new", kw=str(kw))
    M.to(prec)
    saved = None
    ops = case["ops"] + [{"o": "mode", "m": "eval"}, {"o": "pass", "b": 1}, {"o": "pass", "b": 2}]
    for a in ops:
        o = a["o"]
        if o == "pass":
            x = X[a["b"] - 1]
            t = torch.tensor(x / 8., dtype=prec)
            before = copy.deepcopy(M.state_dict())
            y = M(enn.GeometricTensor(t, M.in_type)).tensor
            same = all(torch.equal(before[k], v) for k, v in M.state_dict().items())
            yi, bad = milli(y)
            counts = [int(v) for k, v in M.named_buffers() if k.endswith("num_batches_tracked")]
            yield dict(com, op="pass", x=fibres(x), y=fibres(yi), bad=bad, same=same, intact=bool((t.numpy() == x / 8.).all()), counts=counts)
            continue
        if o == "mode":
            M.train(a["m"] == "train") if r.random() < .5 else (M.train() if a["m"] == "train" else M.eval())
        elif o == "reset":
            if not kw["affine"] and r.random() < .5:
                M.reset_parameters()
            else:
                M.reset_running_stats()
        elif o == "save":
            f = io.BytesIO()
            torch.save(M.state_dict(), f)
            saved = f.getvalue()
        elif o in ("load", "restore"):
            if o == "load":
                M = new().to(prec)
            M.load_state_dict(torch.load(io.BytesIO(saved)))
        elif o == "copy":
            M0, M = M, copy.deepcopy(M)
            with torch.no_grad():      # the abandoned original must not matter
                for p in list(M0.parameters()) + list(M0.buffers()):
                    p.zero_()
        yield dict(com, op="do", a=a)
