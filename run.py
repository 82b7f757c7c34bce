#!/usr/bin/env python3
"""Decide one property: model-check the specification, drive the real code,
let TLC judge the recorded traces against the specification.

  run.py PROP [--tier quick|thorough] [--replay FILE] [--keep]

exit 0: held on everything explored; exit 1: VIOLATION line printed."""
import sys, os, json, subprocess, tempfile, shutil, time, re, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
PY = os.environ.get("E2CNN_PY", "/opt/venv/bin/python")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from config import PROPS

NPROC = min(8, os.cpu_count() or 4)


def tlc(module, cfg, meta, extra=(), env=None, mem="1500m", timeout=3000):
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC", f"-Xmx{mem}", "-Xss64m", "-XX:TieredStopAtLevel=4", f"-Djava.io.tmpdir={meta}",
           "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta, "-config", cfg, *extra, module]
    p = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    return p.returncode, p.stdout + p.stderr


def states_of(out):
    m = re.findall(r"([\d,]+) states generated.*?, ([\d,]+) distinct states found", out)
    if m:
        return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))
    m = re.findall(r"number of states generated: ([\d,]+)", out)
    if m:
        return int(m[-1].replace(",", "")), 0
    return 0, 0


class Internal(Exception):
    pass


def model_check(args):
    name, cfg, extra, scratch = args
    meta = tempfile.mkdtemp(dir=scratch)
    t = time.time()
    rc, out = tlc(name + ".tla", cfg + ".cfg", meta, extra)
    if rc != 0:
        raise Internal(f"model {name}/{cfg} failed (rc {rc}):\n{out[-4000:]}")
    g, d = states_of(out)
    return {"model": name, "config": cfg, "states_generated": g, "distinct": d, "wall_s": round(time.time() - t, 1)}, out


def generate(g, tier, seed, scratch):
    """behaviours of the specification, one JSON object per printed line"""
    meta = tempfile.mkdtemp(dir=scratch)
    par = g["thorough"] if tier == "thorough" else g["quick"]
    extra = list(par)
    env = {"GEN_TIER": tier}
    if "-simulate" in extra:
        extra += ["-seed", str(seed), "-workers", "1"]
    rc, out = tlc(g["module"] + ".tla", g["cfg"] + ".cfg", meta, extra, env)
    if rc != 0:
        raise Internal(f"generator {g['module']} failed (rc {rc}):\n{out[-4000:]}")
    lines, seen = [], set()
    for l in out.splitlines():
        if l.startswith('"GEN '):
            s = json.loads(l)[4:]
            if s not in seen:
                seen.add(s)
                lines.append(s)
    lines.sort()
    if not lines:
        raise Internal(f"generator {g['module']} produced no behaviour:\n{out[-2000:]}")
    path = os.path.join(scratch, "gen.ndjson")
    with open(path, "w") as f:
        f.write("\n".join(lines) + "\n")
    gs, ds = states_of(out)
    return path, {"generator": g["module"], "behaviours": len(lines), "states_generated": gs, "distinct": ds}


def judge(args):
    module, shard, scratch = args
    meta = tempfile.mkdtemp(dir=scratch)
    rc, out = tlc(module + ".tla", "Judge.cfg", meta, ["-workers", "1"], {"TRACE": shard}, mem="2500m")
    with open(shard) as f:
        n = sum(1 for _ in f)
    fails = []
    for l in out.splitlines():
        if l.startswith('"FAIL '):
            fails.append(json.loads(json.loads(l)[5:]))
    ok = rc == 0
    detail = ""
    at = None
    if not ok:
        m = re.findall(r"^/\\ i = (\d+)", out, re.M)
        at = int(m[-1]) if m else None
        k = out.find("Error:")
        detail = out[k:k + 1500] if k >= 0 else out[-1500:]
    shutil.rmtree(meta, ignore_errors=True)
    return shard, n, fails, ok, at, detail, states_of(out)


def known_findings(prop):
    """lines 'finding: property=P key=<key> clause=<clause> -- <description>'"""
    res = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) clause=(\S+) -- (.*)", l.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3), m.group(4)))
    return res


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    replay = a[a.index("--replay") + 1] if "--replay" in a else None
    keep = "--keep" in a
    conf = PROPS[prop]
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"verif_{prop}_")
    evdir = os.path.join(HERE, "evidence")
    os.makedirs(os.path.join(evdir, "replay"), exist_ok=True)
    code = 0
    try:
        models, gen_info, gen_path = [], None, None
        pool = cf.ThreadPoolExecutor(NPROC)
        futs = []
        if not replay:
            for m in conf.get("models", []):
                name, cfg = m[0], m[1] if tier == "quick" else (m[2] if len(m) > 2 else m[1])
                futs.append(pool.submit(model_check, (name, cfg, ["-workers", "2"], scratch)))
            if conf.get("gen"):
                gen_path, gen_info = generate(conf["gen"], tier, seed, scratch)
        tr = os.path.join(scratch, "traces")
        os.makedirs(tr)
        env = dict(os.environ, PYTHONHASHSEED="0", MPLBACKEND="Agg", MPLCONFIGDIR=os.path.join(scratch, "mpl"),
                   CUDA_VISIBLE_DEVICES="", OMP_NUM_THREADS="1", MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1",
                   VERIF_SCRATCH=scratch)
        cmd = [PY, os.path.join(HERE, "harness", "worker.py"), prop, tier, str(seed), tr, str(NPROC)]
        if gen_path:
            cmd += ["--gen", gen_path]
        if replay:
            rp = json.load(open(replay))
            only = os.path.join(scratch, "only.json")
            json.dump(rp["case"], open(only, "w"))
            cmd += ["--only", only]
        th = time.time()
        h = subprocess.run(cmd, env=env, cwd=scratch, capture_output=True, text=True)
        t_h = time.time() - th
        violations = []
        cases = []
        if os.path.exists(os.path.join(tr, "cases.json")):
            cases = json.load(open(os.path.join(tr, "cases.json")))
        if h.returncode != 0 or not cases:
            violations.append(({"op": "harness"}, ["cannot-drive-the-code"], {}, (h.stderr or h.stdout)[-1500:]))
        shards = sorted(os.path.join(tr, f) for f in os.listdir(tr) if f.startswith("shard_"))
        shards = [s for s in shards if os.path.getsize(s) > 0]
        tj = time.time()
        n_events = 0
        judged = gst = 0
        samples = []
        ops = {}
        kf = known_findings(prop)
        kf_hit = {}
        total_viol = 0
        for shard, n, fails, ok, at, detail, st in pool.map(judge, [(conf["judge"], s, scratch) for s in shards]):
            lines = open(shard).read().splitlines()
            n_events += n
            gst += st[0]
            for l in lines:
                m = re.search(r'"op": "([^"]*)"', l)
                ops[m.group(1) if m else "?"] = ops.get(m.group(1) if m else "?", 0) + 1
            if lines and len(samples) < 2:
                samples.append(json.loads(lines[min(1, len(lines) - 1)][:200000]) if len(lines[min(1, len(lines) - 1)]) < 4000
                               else lines[min(1, len(lines) - 1)][:2000])
            judged += n if ok else ((at or 1) - 1)
            if not ok and (at is None or "Parsing or semantic" in detail or "OutOfMemory" in detail):
                raise Internal(f"judge {conf['judge']} could not run: {detail}")
            if not ok:
                ev = json.loads(lines[at - 1]) if at and at <= len(lines) else {}
                fails = fails + [{"at": at, "clauses": ["not-a-specified-behaviour"], "detail": detail}]
            for f in fails:
                i = f["at"]
                ev = json.loads(lines[i - 1]) if i and i <= len(lines) else {}
                key = ev.get("key", "")
                cl = []
                for c in f["clauses"]:
                    hit = [d for (k, cc, d) in kf if k == key and cc == c]
                    if hit:
                        kf_hit[(key, c)] = hit[0]
                    else:
                        cl.append(c)
                if cl:
                    total_viol += 1
                    case = cases[ev["case"]] if "case" in ev and ev["case"] < len(cases) else {}
                    if len(violations) < 20:
                        violations.append((ev, cl, case, f.get("detail", "")))
        t_j = time.time() - tj
        for fu in futs:
            info, _ = fu.result()
            models.append(info)
        for (k, c), d in sorted(kf_hit.items()):
            print(f"KNOWN-FINDING: property={prop} {d} (key={k} clause={c})")
        if conf.get("min_events") and not replay and not violations and n_events < conf["min_events"]:
            raise Internal(f"only {n_events} events recorded, {conf['min_events']} expected")
        for j, (ev, cl, case, detail) in enumerate(violations[:20]):
            rp = os.path.join(evdir, "replay", f"{prop}-{j}.json")
            json.dump({"property": prop, "clauses": cl, "event": ev, "case": case, "detail": detail}, open(rp, "w"), indent=1)
            if j < 5:
                what = {k: ev[k] for k in ("op", "key", "what", "where") if k in ev}
                print(f"  failing clauses {cl} at {json.dumps(what)[:400]} {detail[:300]}")
        if violations:
            code = 1
            print(f"VIOLATION property={prop} replay={os.path.join(evdir, 'replay', prop + '-0.json')}")
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
              "coverage": {"states": sum(m["distinct"] for m in models) + judged,
                           "transitions": sum(m["states_generated"] for m in models) + gst,
                           "traces_validated_against_impl": len(cases),
                           "events_judged": judged, "events_by_operation": ops, "models": models,
                           "generated": gen_info, "samples": samples or ["none"],
                           "explanation": conf.get("explain", ""),
                           "time_s": {"drive": round(t_h, 1), "judge": round(t_j, 1)}},
              "wall_s": round(time.time() - t0, 1), "violations": total_viol}
        if not replay:
            json.dump(ev, open(os.path.join(evdir, prop + ".json"), "w"), indent=1)
        print(f"{prop} {tier}: {len(cases)} cases, {n_events} events judged, models {[(m['config'], m['distinct']) for m in models]}, "
              f"{'VIOLATED' if code else 'held'}, {time.time() - t0:.1f}s (drive {t_h:.1f}, judge {t_j:.1f})")
    except Internal as ex:
        print("INTERNAL:", ex)
        code = 2
    finally:
        if keep:
            print("scratch kept:", scratch)
        else:
            shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


if __name__ == "__main__":
    main()
