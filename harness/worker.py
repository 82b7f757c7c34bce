"""Drives the real e2cnn code through the cases of one property and records
what it observed as ndjson events.  Usage:
  worker.py PROP TIER SEED OUTDIR NPROC [--gen FILE] [--only FILE]
Every case runs in its own forked child of a process that only imported the
library, so that no case can influence another one."""
import sys, os, json, time, signal, traceback, importlib, multiprocessing, hashlib, warnings, gc
sys.dont_write_bytecode = True
warnings.filterwarnings("ignore")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("E2CNN_REPO", "/repo"))

CASE_TIMEOUT = 400


def run_case(mod, case, seed, out):
    import torch, numpy as np, random
    h = int(hashlib.sha256((json.dumps(case, sort_keys=True) + str(seed)).encode()).hexdigest()[:8], 16) % (2 ** 31)
    torch.manual_seed(h)
    np.random.seed(h)
    random.seed(h)
    torch.set_num_threads(1)
    events = []
    try:
        for e in mod.run(case, h):
            events.append(e)
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)
        where = " < ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-4:]))
        events.append({"op": "exc", "key": case.get("key", ""), "what": (type(ex).__name__ + ": " + str(ex))[:300],
                       "where": where})
    with open(out, "w") as f:
        for e in events:
            f.write(json.dumps(e) + "\n")


def worker(mod, cases, seed, outdir, w, counter, lock, shard_bytes):
    tmp = os.path.join(outdir, f"tmp_{w}.json")
    shard = 0
    fh = open(os.path.join(outdir, f"shard_{w}_{shard}.ndjson"), "w")
    size = 0
    while True:
        with lock:
            n = counter.value
            counter.value = n + 1
        if n >= len(cases):
            break
        if os.path.exists(tmp):
            os.remove(tmp)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                signal.signal(signal.SIGALRM, signal.SIG_DFL)
                signal.alarm(CASE_TIMEOUT)
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 1)
                run_case(mod, cases[n], seed, tmp)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        _, status = os.waitpid(pid, 0)
        lines = []
        if os.path.exists(tmp):
            with open(tmp) as f:
                lines = f.read().splitlines()
        if status != 0:
            sig = status & 0x7f
            lines.append(json.dumps({"op": "exc", "key": cases[n].get("key", ""),
                                     "what": f"child ended with status {status} (signal {sig})", "where": ""}))
        buf = []
        for s in lines:
            # tag every event with its case number
            buf.append('{"case": %d, %s' % (n, s[1:]) if s != "{}" else '{"case": %d}' % n)
        text = "\n".join(buf) + ("\n" if buf else "")
        if size and size + len(text) > shard_bytes:
            fh.close()
            shard += 1
            fh = open(os.path.join(outdir, f"shard_{w}_{shard}.ndjson"), "w")
            size = 0
        fh.write(text)
        size += len(text)
    fh.close()
    if os.path.exists(tmp):
        os.remove(tmp)


def main():
    prop, tier, seed, outdir, nproc = sys.argv[1:6]
    seed, nproc = int(seed), int(nproc)
    gen = only = None
    if "--gen" in sys.argv:
        gen = [json.loads(l) for l in open(sys.argv[sys.argv.index("--gen") + 1])]
    if "--only" in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index("--only") + 1]))
    import torch
    torch.set_num_threads(1)
    import rbf_standin
    rbf_standin.install()
    import e2cnn, e2cnn.nn, e2cnn.group, e2cnn.gspaces, e2cnn.kernels, e2cnn.diffops
    mod = importlib.import_module(prop.lower())
    # load what torch, numpy and scipy import lazily before forking (touches nothing of the library)
    import numpy, scipy.linalg, scipy.special, scipy.ndimage
    q = torch.nn.Parameter(torch.ones(2, 2))
    o = torch.optim.SGD([q], .1)
    torch.einsum("ij,jk->ik", q, q).sum().backward()
    o.step()
    import sympy.calculus.finite_diff as fd
    fd.finite_diff_weights(2, [-1, 0, 1], 0)
    numpy.linalg.svd(numpy.eye(3)), numpy.einsum("ij,jk", numpy.eye(2), numpy.eye(2)), numpy.random.RandomState(0)
    cases = [only] if only is not None else mod.cases(tier, seed, gen)
    with open(os.path.join(outdir, "cases.json"), "w") as f:
        json.dump(cases, f)
    gc.collect()
    gc.freeze()
    ctx = multiprocessing.get_context("fork")
    counter = ctx.Value("i", 0)
    lock = ctx.Lock()
    ps = []
    for w in range(nproc):
        p = ctx.Process(target=worker, args=(mod, cases, seed, outdir, w, counter, lock, getattr(mod, "SHARD", 6_000_000)))
        p.start()
        ps.append(p)
    for p in ps:
        p.join()
    sys.exit(max(abs(p.exitcode or 0) for p in ps))


if __name__ == "__main__":
    main()
