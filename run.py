#!/usr/bin/env python3
"""Run one check:  run.py <property id> [quick|thorough]

  1. TLC model-checks the design modules of the property (MC_*.tla).
  2. The harness drives the code in /repo through the scenarios (those which
     TLC enumerated, plus seeded random ones) and records what it did.
  3. TLC validates the recorded trace against the specification
     (Trace_<id>.tla); every rejected step is a violation.

exit 0: held; exit 1: VIOLATION line(s); exit 2: the machinery failed.
"""
import json
import os
import re
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "harness"))
TLA = "/opt/veriftools/tla/tla2tools.jar"
CM = "/opt/veriftools/tla/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("DS_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
SPEC = os.path.join(HERE, "spec")
NPROC = os.cpu_count() or 4
OUT = os.environ.get("DS_OUT", os.path.join(HERE, "out"))       # development: parallel runs
EVID = os.path.join(OUT, "evidence") if "DS_OUT" in os.environ else os.path.join(HERE, "evidence")

from checks import CHECKS  # noqa: E402


class Broken(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def build():
    src = os.path.join(HERE, "java", "DSOverrides.java")
    cls = os.path.join(BUILD, "DSOverrides.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    subprocess.run(["javac", "-nowarn", "-cp", TLA, "-d", BUILD, src], check=True)


def tlc(module, cfg, workdir, env=None, workers=NPROC, timeout=800, simulate=None, heap="4g"):
    """Run TLC; returns dict(ok, out, states, distinct, rc)."""
    meta = os.path.join(workdir, "meta_" + module + "_" + os.path.basename(cfg))
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:DSOverrides",
           "-DTLA-Library=" + SPEC, "-cp", ":".join([BUILD, TLA, CM]), "tlc2.TLC",
           "-noGenerateSpecTE", "-metadir", meta, "-workers", str(workers),
           "-config", os.path.join(SPEC, cfg)]
    if simulate:
        cmd += simulate
    cmd += [os.path.join(SPEC, module + ".tla")]
    try:
        p = subprocess.run(cmd, cwd=workdir, env=e, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        out, rc = p.stdout, p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ex.stdout or b""
        out = out.decode() if isinstance(out, bytes) else out
        rc = 124
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dis = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=rc, out=out, states=dis, transitions=gen, ok=rc == 0)


def prove(module, work):
    """Check a TLAPS proof; the number of obligations, or None (e.g. a solver ran out of time)."""
    d = os.path.join(work, "proof")
    os.makedirs(d, exist_ok=True)
    shutil.copy(os.path.join(SPEC, "proofs", module + ".tla"), d)
    for stretch in ("1", "5"):
        try:
            p = subprocess.run(["tlapm", "--cleanfp", "--stretch", stretch, "-I", SPEC, "--threads", str(NPROC), module + ".tla"],
                               cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        except (subprocess.TimeoutExpired, FileNotFoundError):
            continue
        m = re.search(r"All (\d+) obligations proved", p.stdout)
        if p.returncode == 0 and m:
            return int(m.group(1))
    return None


def spawn_harness(pid, mode, shard, nshard, tier, seed, workdir, scen, extra_env, params):
    trace = os.path.join(workdir, f"trace_{mode}_{shard}.ndjson")
    env = {k: v for k, v in os.environ.items() if not k.startswith(("JAX_", "XLA_"))}
    env.update(JAX_PLATFORMS="cpu", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
               MKL_NUM_THREADS="1", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0",
               PYTHONPYCACHEPREFIX=os.path.join(workdir, "pyc"),
               XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
               TMPDIR=os.path.join(workdir, "tmp"),
               PYTHONPATH=REPO + ":" + os.path.join(HERE, "harness"))
    if mode == "x64":
        env["JAX_ENABLE_X64"] = "1"
    env.update(extra_env or {})
    cfg = dict(pid=pid, mode=mode, shard=shard, nshard=nshard, tier=tier, seed=seed,
               trace=trace, scen=scen, workdir=workdir, repo=REPO, params=params or {})
    f = open(os.path.join(workdir, f"harness_{mode}_{shard}.log"), "w")
    cov = ["-m", "coverage", "run", "-p", "--branch", "--data-file", os.environ["DS_COV"], "--source", REPO] if "DS_COV" in os.environ else []
    p = subprocess.Popen([PY, *cov, os.path.join(HERE, "harness", "main.py"), json.dumps(cfg)],
                         cwd=workdir, env=env, stdout=f, stderr=subprocess.STDOUT)
    return dict(p=p, trace=trace, log=f.name, mode=mode, shard=shard)


REJ = re.compile(r'<<\s*"REJECT",\s*(\d+),\s*\{(.*?)\}\s*>>', re.S)
SCN = re.compile(r'<<\s*"SCEN",\s*(.*?)>>', re.S)


def parse_scen(out):
    res = set()
    for m in SCN.finditer(out):
        body = m.group(1)
        items = re.findall(r'"([^"]*)"|(-?\d+)|(TRUE|FALSE)', body)
        res.add(tuple(a if a != "" or (not b and not c) else (int(b) if b else c == "TRUE")
                      for a, b, c in items))
    return sorted(res, key=lambda t: [str(x) for x in t])


def clauses(s):
    return sorted(re.findall(r'"([^"]*)"', s))


def load_known(pid):
    """Findings recorded but not repaired: "known: {json}" lines."""
    out = []
    for line in open(os.path.join(HERE, "known_findings.txt")):
        if line.startswith("known:"):
            k = json.loads(line[6:])
            if k["property"] == pid:
                out.append(k)
    return out


def is_known(known, ev, cl):
    for k in known:
        if set(cl) <= set(k["clauses"]) and all(ev.get(a) == b for a, b in k["match"].items()):
            return k
    return None


def brief(v, depth=0):
    if isinstance(v, dict):
        return {k: brief(x, depth + 1) for k, x in list(v.items())[:14]}
    if isinstance(v, list):
        if len(v) > 6:
            return [brief(x, depth + 1) for x in v[:4]] + [f"... ({len(v)} entries)"]
        return [brief(x, depth + 1) for x in v]
    return v


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    chk = CHECKS[pid]
    t0 = time.time()
    build()
    work = os.path.join(OUT, pid)
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(os.path.join(work, "tmp"))
    budget = float(os.environ.get("DS_BUDGET", "860" if tier == "thorough" else "840"))

    def left():
        return max(20.0, budget - (time.time() - t0))

    ev = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[])
    detail = dict(design_models=[], clauses=[], ops={}, modes=chk.get("modes", ["x64", "f32"]))
    violations = []

    # 1. design models
    scen = {}
    for mc in chk.get("mc", []):
        name, cfg = mc["module"], mc.get("cfg", mc["module"] + ".cfg")
        if tier == "thorough" and mc.get("thorough_cfg"):
            cfg = mc["thorough_cfg"]
        r = tlc(name, cfg, work, timeout=left(), env={"TIER": tier})
        if mc.get("expect") == "violation":
            # a design with the defect which the invariants are there to exclude
            if "is violated" not in r["out"]:
                raise Broken(f"defective design {name}/{cfg} was accepted:\n" + r["out"][-3000:])
            detail["design_models"].append(dict(module=name, cfg=cfg, expected_violation=True))
            continue
        if not r["ok"]:
            with open(os.path.join(work, name + ".out"), "w") as f:
                f.write(r["out"])
            raise Broken(f"design model {name} failed (rc {r['rc']}):\n" + r["out"][-3000:])
        ev["states"] += r["states"]
        ev["transitions"] += r["transitions"]
        sc = parse_scen(r["out"])
        scen[mc.get("name", name)] = sc
        detail["design_models"].append(dict(module=name, cfg=cfg, distinct_states=r["states"],
                                            states_generated=r["transitions"], scenarios=len(sc)))
        log(f"[{pid}] {name}/{cfg}: {r['states']} states, {len(sc)} scenarios")
    # 1b. what is proved for every bound (thorough; does not depend on the code)
    if tier == "thorough":
        for m in chk.get("proofs", []):
            n = prove(m, work)
            detail["design_models"].append(dict(module="proofs/" + m, proved=n is not None, obligations=n or 0))
            log(f"[{pid}] proof {m}: {n if n is not None else 'NOT PROVED'} obligations")
    scen_file = os.path.join(work, "scen.json")
    with open(scen_file, "w") as f:
        json.dump(scen, f)

    # 2. harness
    nsh = chk.get("shards", {}).get(tier, chk.get("shards", {}).get("quick", 3))
    jobs = [spawn_harness(pid, m, s, nsh, tier, seed, work, scen_file, chk.get("env"), chk.get("params"))
            for m in chk.get("modes", ["x64", "f32"]) for s in range(nsh)]
    deadline = time.time() + (left() * 0.75)
    for j in jobs:
        try:
            j["p"].wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            j["p"].kill()
            j["p"].wait()
            j["timeout"] = True
    merged = os.path.join(work, "trace.ndjson")
    nev = 0
    with open(merged, "w") as out:
        for j in jobs:
            if j.get("timeout"):
                tail = open(j["log"]).read()[-1500:]
                last = open(j["trace"] + ".last").read() if os.path.exists(j["trace"] + ".last") else "?"
                violations.append((dict(op="no_termination", scen=last, mode=j["mode"]), ["no_termination"]))
                log(f"harness {j['mode']}/{j['shard']} timed out in {last}\n{tail}")
            elif j["p"].returncode != 0:
                raise Broken(f"harness {j['mode']}/{j['shard']} failed:\n" + open(j["log"]).read()[-4000:])
            if os.path.exists(j["trace"]):
                for line in open(j["trace"]):
                    if line.endswith("\n"):
                        out.write(line)
                        nev += 1
    t_h = time.time()
    log(f"[{pid}] harness: {nev} events, {t_h - t0:.1f}s")
    if nev == 0 and not violations:
        raise Broken("harness recorded nothing")

    # 3. trace validation
    lines = None
    if nev:
        tmod = chk.get("trace", "Trace_" + pid)
        tcfg = chk.get("trace_cfg", "Trace.cfg")
        r = tlc(tmod, tcfg, work, env={"TRACE": merged, "TIER": tier}, timeout=left(),
                workers=chk.get("trace_workers", NPROC), heap="12g")
        with open(os.path.join(work, "tlc_trace.out"), "w") as f:
            f.write(r["out"])
        lines = open(merged).read().split("\n")
        rej = {int(m.group(1)): clauses(m.group(2)) for m in REJ.finditer(r["out"])}
        if r["rc"] != 0:
            if "java.lang.OutOfMemoryError" in r["out"] or r["rc"] == 124 or "Parsing or semantic analysis failed" in r["out"] \
                    or "Error: Evaluating" not in r["out"] and "The error occurred when TLC was evaluating" not in r["out"] \
                    and "evaluating the nested" not in r["out"] and "TLC encountered an unexpected exception" not in r["out"] and not rej:
                raise Broken(f"trace validation failed (rc {r['rc']}):\n" + r["out"][-4000:])
            if not rej:
                log(r["out"][-3000:])
                m = re.search(r"\bl = (\d+)", r["out"])
                k = int(m.group(1)) if m else 1
                rej[k] = ["malformed"]
        need = nev if chk.get("stateless", True) else None
        if r["rc"] == 0 and need is not None and r["states"] != need:
            raise Broken(f"TLC visited {r['states']} of {need} trace lines")
        ev["states"] += r["states"]
        ev["transitions"] += r["transitions"]
        ev["traces_validated_against_impl"] = nev
        cl_all = set()
        for k in rej:
            violations.append((json.loads(lines[k - 1]), rej[k]))
        for line in lines:
            if line:
                e = json.loads(line)
                key = e["op"] + "/" + e.get("mode", "")
                detail["ops"][key] = detail["ops"].get(key, 0) + 1
        step = max(1, nev // 4)
        ev["samples"] = [brief(json.loads(lines[i])) for i in range(0, nev, step)][:4]
        del cl_all
    log(f"[{pid}] validation done {time.time() - t0:.1f}s")

    known = load_known(pid)
    new, seen = [], {}
    for e, cl in violations:
        k = is_known(known, e, cl)
        if k:
            seen[k["id"]] = k
        else:
            new.append((e, cl))
    for k in seen.values():
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    ev.update(detail)
    os.makedirs(EVID, exist_ok=True)
    rec = dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=ev,
               assumptions=chk.get("assumptions", []), wall_s=round(time.time() - t0, 2),
               violations=len(new))
    with open(os.path.join(EVID, pid + ".json"), "w") as f:
        json.dump(rec, f, indent=1, allow_nan=True)
        f.write("\n")
    if new:
        rd = os.path.join(OUT, "replay")
        os.makedirs(rd, exist_ok=True)
        groups = {}
        for e, cl in new:
            groups.setdefault((e["op"], tuple(cl)), []).append(e)
        for n, ((op, cl), es) in enumerate(sorted(groups.items(), key=lambda kv: str(kv[0]))):
            path = os.path.join(rd, f"{pid}_{n}.json")
            with open(path, "w") as f:
                json.dump(dict(property=pid, tier=tier, seed=seed, op=op, clauses=list(cl),
                               count=len(es), events=es[:3]), f, indent=1)
            if n < 20:
                print(f"  {op} {list(cl)} x{len(es)} e.g. scen={es[0].get('scen')} mode={es[0].get('mode')}")
        print(f"VIOLATION property={pid} replay={os.path.join(rd, pid + '_0.json')}")
        return 1
    for f in os.listdir(work):
        if f.startswith("trace") or f in ("tmp", "pyc"):
            q = os.path.join(work, f)
            if os.environ.get("DS_KEEP"):
                continue
            shutil.rmtree(q, ignore_errors=True) if os.path.isdir(q) else os.remove(q)
    print(f"OK property={pid} tier={tier} states={ev['states']} events={nev} wall={time.time() - t0:.1f}s")
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as b:
        log("MACHINERY FAILURE: " + str(b))
        sys.exit(2)
