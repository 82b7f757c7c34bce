"""Histories of requests for bases and layers; every result is compared with the one of a process which made only
that request."""
import os, json, copy, hashlib
from common import *
from e2cnn.kernels import EmptyBasisException
from e2cnn.diffops import DiscretizationArgs, store_cache, load_cache

SPACES = [space("rot", 4), space("rot", 8), space("rot", 2), space("fliprot", 4, 2520), space("fliprot", 4, 0), space("fliprot", 4, 630),
          space("fliprot", 2, 2520), space("flip", ax2=2520), space("flip", ax2=0), space("rot", -1), space("fliprot", -1, 2520),
          space("fliprot", -1, 0)]
SHARED = {}


def get_space(i, own):
    if own:
        return lib_space(SPACES[i], 4)
    if i not in SHARED:
        SHARED[i] = lib_space(SPACES[i], 4)
    return SHARED[i]


def rep(gs, i, k):
    """0..5: representations of the space's group; 2, 3 and 4 carry the same name"""
    g, G_ = SPACES[i]["g"], gs.fibergroup
    irr = irreps_of(g, 2)
    one, last = irr[0], irr[-1]
    if k == 0:
        return G_.trivial_representation
    if k == 1:
        return G_.regular_representation if not g["c"] else directsum([lib_rep_of(G_, g, irr[-1]), lib_rep_of(G_, g, irr[0])], name="cont")
    if k == 5:
        return lib_rep_of(G_, g, last)
    if k == 4:
        return directsum([lib_rep_of(G_, g, x) for x in ((last, one) if size(g, last) == 1 else (one, one))], name="custom")
    base = directsum([lib_rep_of(G_, g, one), lib_rep_of(G_, g, irr[1] if size(g, irr[1]) == 1 else one)], name=f"base")
    q = np.array([[1., 1.], [0., 1.]] if k == 2 else [[1., 0.], [2., 1.]])
    return change_basis(base, q, name="custom")


TYPES = [(1,), (0, 1, 0), (2, 0), (3, 0), (4, 0)]


def ftype(gs, i, k):
    return enn.FieldType(gs, [rep(gs, i, x) for x in TYPES[k]])


THIRDS = [lambda d, k=k: d["idx"] % 3 == k for k in range(3)]     # two of these always keep equally many elements
FILT = [None, lambda d: d["radius"] > .5, lambda d: d["frequency"] < 2] + THIRDS
DFILT = [None, lambda d: d["order"] > 0, lambda d: d["order"] < 2] + THIRDS


def build(r):
    """the object of a request (or the exception's name)"""
    a, k = r["a"], r["k"]
    i = a["sp"]
    gs = get_space(i, a["own"])
    c = SPACES[i]["g"]["c"]
    kw = {}
    if k in ("kernel", "diffop") and not c:
        F, T = [3, 1, 2][a["F"]], [None, 0, 1][a["T"]]
        kw["maximum_frequency"] = F
        if T is not None:
            kw["maximum_offset"] = T
    if k == "kernel":
        return gs.build_kernel_basis(rep(gs, i, a["in"]), rep(gs, i, a["out"]), sigma=[[.6, .6], [.6, .7], .5][a["sig"]],
                                     rings=[[0., 1.], [0., 1.5], [1., 0.]][a["ring"]], **kw)
    if k == "diffop":
        disc = [DiscretizationArgs(), DiscretizationArgs(angle_offset=.3), DiscretizationArgs(method="gauss", smoothing=.8),
                DiscretizationArgs(method="gauss", smoothing=1.1), DiscretizationArgs(method="rbffd")][a["disc"]]
        return gs.build_diffop_basis(rep(gs, i, a["in"]), rep(gs, i, a["out"]), a["pow"], disc, **kw)
    ti, to = ftype(gs, i, a["in"]), ftype(gs, i, a["out"])
    kw = dict(dilation=1 + a["dil"], recompute=bool(a["rec"]), initialize=False)
    if a["off"]:
        kw["maximum_offset"] = a["off"] - 1
    if k == "dlayer":
        if a["ang"]:
            kw["angle_offset"] = [0, .3, .4][a["ang"]]
        if a["smo"] == 3:
            kw["rbffd"] = True
        elif a["smo"]:
            kw["smoothing"] = [0, .8, 1.1][a["smo"]]
        if a["filt"]:
            kw["basis_filter"] = DFILT[a["filt"]]
        if a["pow"]:
            kw["maximum_power"] = a["pow"] - 1
        return enn.R2Diffop(ti, to, kernel_size=[5, 3][a["ks"]], maximum_order=[2, 1, 0][a["ord"]], **kw)
    if a["sig"]:
        kw["sigma"] = [0, .5, .7][a["sig"]]
    if a["ring"]:
        kw["rings"] = [0, [0., 1.], [1.]][a["ring"]]
    if a["filt"]:
        kw["basis_filter"] = FILT[a["filt"]]
    if a["fco"]:
        kw["frequencies_cutoff"] = [0, 1., lambda q: 2, -2.][a["fco"]]
    return (enn.R2Conv if k == "conv" else enn.R2ConvTransposed)(ti, to, [3, 5, 4][a["ks"]], **kw)


PTS = np.array([[.3, -.7], [1., 0.], [0., 1.3], [-1.1, .4], [0., 0.]]).T
GRID = np.stack(np.meshgrid(np.arange(-4., 5.), -np.arange(-4., 5.))).reshape(2, -1)


def digest(a):
    """a few fixed projections of an array"""
    a = np.asarray(a, dtype=float)
    v = a.reshape(-1)
    m = np.random.RandomState(len(v) % 10007).randn(10, len(v)) / math.sqrt(max(1, len(v)))
    return list(a.shape), m @ v


def fingerprint(r, obj):
    if isinstance(obj, str):
        return [-1, len(obj), sum(map(ord, obj))], 0
    if r["k"] in ("kernel", "diffop"):
        sh, v = digest(obj.sample(PTS if r["k"] == "kernel" else GRID * [1., 2., .5][(r["a"]["in"] + r["a"]["out"] + r["a"]["sp"]) % 3]))
        extra = [obj.dim]
    else:
        with torch.no_grad():
            d = obj.weights.shape[0]
            keep = obj.weights.data.clone()
            obj.weights.data.copy_(torch.cos(torch.arange(d).double() * 1.7 + .3).to(obj.weights.dtype))
            if obj.bias is not None:
                obj.bias.data.fill_(.25)
            n = obj.in_type.size
            x = torch.sin(torch.arange(n * 9 * 8).float() * .7).reshape(1, n, 9, 8)
            if r["a"]["dil"]:
                x = torch.cat([x, x], 2)
                x = torch.cat([x, x], 3)
            y = obj(enn.GeometricTensor(x, obj.in_type)).tensor
            obj.weights.data.copy_(keep)
            sh, v = digest(y)
        extra = [d]
    w, bad = ints(v, 1000, 10 ** 8)
    return extra + sh + w, bad


def make(r):
    try:
        return build(r)
    except (EmptyBasisException, ValueError, AssertionError, NotImplementedError) as ex:
        return type(ex).__name__


def reference(r):
    """fingerprint of the request in a forked copy of the still untouched process"""
    rd, wr = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = json.dumps(fingerprint(r, make(r)))
        except BaseException as ex:
            out = json.dumps([[-2, sum(map(ord, type(ex).__name__))], 0])
        os.write(wr, out.encode())
        os._exit(0)
    os.close(wr)
    buf = b""
    while True:
        c = os.read(rd, 65536)
        if not c:
            break
        buf += c
    os.close(rd)
    os.waitpid(pid, 0)
    return json.loads(buf)


def cases(tier, seed, gen):
    cs = [{"key": g["h"][0]["r"]["k"], "h": g["h"]} for g in gen]
    if tier != "quick" and len(cs) > 14000:
        r = random.Random(seed)
        cs = r.sample(cs, 14000)
    return cs


def env(e, obj):
    """an action of the environment on the object obtained last; True if the object itself was changed"""
    layer = isinstance(obj, torch.nn.Module)
    if e == "grow":
        so2_group(7), o2_group(6), cyclic_group(8).irrep(3)
        return False
    if e == "cache":
        scr = os.environ.get("VERIF_SCRATCH", "/tmp")
        f = os.path.join(scr, f"cache_{os.getpid()}.pickle")
        store_cache(f)
        load_cache(f)
        os.remove(f)
        return False
    if not layer:
        return False
    if e == "double":
        obj.double()
    elif e == "half":
        obj.half()
    elif e == "step":
        x = enn.GeometricTensor(torch.randn(1, obj.in_type.size, 11, 11), obj.in_type)
        opt = torch.optim.SGD(obj.parameters(), .1)
        obj(x).tensor.pow(2).mean().backward()
        opt.step()
    elif e == "eval":
        obj.eval()
    elif e == "copy":
        c = copy.deepcopy(obj)
        c.double()
        c.eval()
        return False
    else:
        return False
    return True


def run(case, h):
    refs = {}
    for s in case["h"]:
        if s["o"] == "req":
            k = json.dumps(s["r"], sort_keys=True)
            if k not in refs:
                refs[k] = reference(s["r"])
    yield {"op": "start", "key": case["key"]}
    objs = []
    for s in case["h"]:
        if s["o"] == "env":
            o = objs[-1]
            o[2] = env(s["e"], o[1]) or o[2]
            yield {"op": "env", "key": case["key"], "e": s["e"]}
        else:
            r = s["r"]
            obj = make(r)
            got, bad = fingerprint(r, obj)
            ref, badr = refs[json.dumps(r, sort_keys=True)]
            objs.append([r, obj, False])
            yield {"op": "request", "key": case["key"], "r": r, "got": got, "ref": ref, "bad": bad + badr}
    for n, (r, obj, touched) in enumerate(objs):
        if not touched:
            yield {"op": "later", "key": case["key"], "at": n + 1, "r": r, "got": fingerprint(r, obj)[0]}
