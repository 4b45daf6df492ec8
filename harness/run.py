"""Runs one check: model checking, replay into the code, trace validation.

usage: run.py ID [--tier quick|thorough] [--replay FILE]

Exit 0: held on everything explored.  Exit 1: VIOLATION lines printed.
Exit 2: the machinery itself failed.
"""
import argparse
import importlib
import json
import multiprocessing
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import warnings
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import lib  # noqa: E402

TLA = "/opt/veriftools/tla"
CP = ":".join([os.path.join(TLA, "tla2tools.jar"), os.path.join(TLA, "CommunityModules-deps.jar")])
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")


class MachineryError(Exception):
    pass


def build_java():
    src = os.path.join(VERIF, "java", "vf", "Rat.java")
    cls = os.path.join(BUILD, "vf", "Rat.class")
    if os.path.exists(cls) and os.path.getmtime(cls) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="javac", dir=BUILD)
    r = subprocess.run(["javac", "-cp", CP, "-d", tmp, src], capture_output=True, text=True)
    if r.returncode:
        raise MachineryError("javac: " + r.stdout + r.stderr)
    os.makedirs(os.path.join(BUILD, "vf"), exist_ok=True)
    for f in os.listdir(os.path.join(tmp, "vf")):
        os.replace(os.path.join(tmp, "vf", f), os.path.join(BUILD, "vf", f))
    shutil.rmtree(tmp)


def tlc(module, cfg, work, env=None, workers="auto", extra=(), timeout=3000, heap="3g"):
    """Runs TLC on spec/<module>.tla; returns (exit code, output)."""
    meta = tempfile.mkdtemp(prefix="md", dir=work)
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m",
           "-Djava.io.tmpdir=" + work,
           "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:vf.Rat",
           "-cp", CP + ":" + BUILD, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", cfg] + list(extra) + [module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return 124, "timeout"
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


STATS = re.compile(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left")


def stats(out):
    m = STATS.findall(out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def untla(s):
    """Value of a TLA+ string literal printed by TLC."""
    return json.loads(s)


def run_model(m, tier, work):
    """One design model: must pass; returns (states, distinct, behaviours)."""
    cfg = m["cfg"] if tier == "quick" else m.get("thorough_cfg", m["cfg"])
    code, out = tlc(m["module"], cfg, work, workers=m.get("workers", 4),
                    extra=["-deadlock"] + m.get("extra", []), timeout=m.get("timeout", 3000))
    if code != 0:
        raise MachineryError("design model %s (%s) failed, exit %d:\n%s" % (m["module"], cfg, code, out[-4000:]))
    gen, distinct = stats(out)
    if distinct == 0:
        raise MachineryError("design model %s explored nothing:\n%s" % (m["module"], out[-2000:]))
    beh = []
    for line in out.splitlines():
        if line.startswith('<<"GEN", '):
            beh.append(json.loads(untla(line[len('<<"GEN", '):-2])))
    beh.sort(key=lambda b: json.dumps(b, sort_keys=True))
    return gen, distinct, beh


_mod = None


class _Timeout(TimeoutError):
    pass


def _alarm(*_):
    raise _Timeout()


def _exec(item):
    i, scn, limit = item
    warnings.simplefilter("ignore")
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        ev = _mod.execute(scn)
    except _Timeout:
        ev = [{"ev": "hang"}]
    except RecursionError:
        ev = [{"ev": "crash", "what": "EXC:RecursionError"}]
    except MemoryError:
        ev = [{"ev": "crash", "what": "EXC:MemoryError"}]
    except Exception as e:
        import traceback
        ev = [{"ev": "crash", "what": lib.exc(e), "tb": traceback.format_exc()[-1500:]}]
    finally:
        signal.alarm(0)
    return i, ev


def execute_all(mod, scns, procs=8):
    global _mod
    _mod = mod
    limit = getattr(mod, "TIMEOUT", 20)
    items = [(i, s, limit) for i, s in enumerate(scns)]
    res = [None] * len(items)
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(procs) as pool:
        for i, ev in pool.imap_unordered(_exec, items, chunksize=max(1, min(64, len(items) // 64))):
            res[i] = ev
    return res


BAD = re.compile(r'^<<"BAD", (\d+), (\d+), (".*")>>$')


def validate(mod, scns, events, work):
    """Trace validation; returns (states, [(scenario index, event, clause)])."""
    path = os.path.join(work, "trace.ndjson")
    with open(path, "w") as f:
        for scn, ev in zip(scns, events):
            f.write(json.dumps({"setup": scn.get("setup", {}), "events": ev}) + "\n")
    code, out = tlc(mod.TRACE, mod.TRACE + ".cfg", work, env={"VF_TRACE": path}, workers=8,
                    heap=getattr(mod, "HEAP", "6g"))
    bad = []
    for line in out.splitlines():
        m = BAD.match(line)
        if m:
            bad.append((int(m.group(1)) - 1, int(m.group(2)), json.loads(m.group(3))))
    gen, distinct = stats(out)
    if code != 0:
        return code, out, gen, distinct, bad
    want = sum(len(e) + 1 for e in events)
    if distinct != want:
        raise MachineryError("trace validation of %s consumed %d states, expected %d:\n%s"
                             % (mod.TRACE, distinct, want, out[-3000:]))
    return 0, out, gen, distinct, bad


CHUNK = 40 * 1000 * 1000          # characters of trace given to one TLC run


def chunks(scns, events):
    """Ranges of scenarios whose traces are small enough for one TLC run."""
    lo, size = 0, 0
    for i, (scn, ev) in enumerate(zip(scns, events)):
        n = len(json.dumps(scn.get("setup", {}))) + len(json.dumps(ev))
        if i > lo and size + n > CHUNK:
            yield lo, i
            lo, size = i, 0
        size += n
    yield lo, len(scns)


def validate_all(mod, scns, events, work):
    """Trace validation, chunk by chunk; returns (generated, distinct, bad)."""
    gen = distinct = 0
    bad = []
    for lo, hi in chunks(scns, events):
        ss, es = scns[lo:hi], events[lo:hi]
        code, out, g, d, b = validate(mod, ss, es, work)
        gen, distinct = gen + g, distinct + d
        bad += [(lo + i, l, c) for i, l, c in b]
        if code == 0:
            continue
        if code == 124 or "OutOfMemory" in out or "Parsing or semantic analysis failed" in out:
            raise MachineryError("trace validation: exit %d\n%s" % (code, out[-3000:]))
        at = re.findall(r"^/\\ sc = (\d+)$", out, re.M)
        un = [int(at[-1]) - 1] if at else find_uninterpretable(mod, ss, es, work)
        if not un:
            raise MachineryError("trace validation: exit %d\n%s" % (code, out[-6000:]))
        if os.environ.get("VF_DEBUG"):
            print(out[-6000:])
        bad += [(lo + i, 0, "trace-not-interpretable") for i in un]
    return gen, distinct, bad


def find_uninterpretable(mod, scns, events, work):
    """Scenarios whose trace TLC cannot evaluate (malformed values)."""
    idx = list(range(len(scns)))

    def fails(ids):
        w = tempfile.mkdtemp(prefix="bis", dir=work)
        try:
            code, out, *_ = validate(mod, [scns[i] for i in ids], [events[i] for i in ids], w)
        finally:
            shutil.rmtree(w, ignore_errors=True)
        if code == 124:
            raise MachineryError("timeout in trace validation")
        return code != 0
    found = []
    stack = [idx]
    while stack and len(found) < 3:
        ids = stack.pop()
        if not fails(ids):
            continue
        if len(ids) == 1:
            found.append(ids[0])
            continue
        h = len(ids) // 2
        stack += [ids[h:], ids[:h]]
    return found


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))["findings"] if k["property"] == pid]


def scn_key(scn):
    return json.dumps(scn, sort_keys=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--max-show", type=int, default=5)
    ap.add_argument("--no-models", action="store_true")
    ap.add_argument("--keep")
    a = ap.parse_args()
    pid = a.id
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = a.tier if a.tier in ("quick", "thorough") else "quick"
    t0 = time.time()
    os.makedirs(os.path.join(VERIF, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=pid + "-", dir=os.path.join(VERIF, "work"))
    try:
        return check(pid, tier, seed, a, work, t0)
    except MachineryError as e:
        print("ERROR:", e)
        return 2
    finally:
        if a.keep:
            shutil.rmtree(a.keep, ignore_errors=True)
            shutil.copytree(work, a.keep)
        shutil.rmtree(work, ignore_errors=True)


def check(pid, tier, seed, a, work, t0):
    build_java()
    lib.setup_path()
    mod = importlib.import_module(pid.lower())
    if a.replay:
        scns = [json.load(open(a.replay))["scenario"]]
        models = []
    else:
        models = [] if a.no_models and not getattr(mod, "NEEDS_MODELS", False) else \
            [m for m in mod.MODELS if tier in m.get("tiers", ("quick", "thorough"))]
    # 1. the design
    msum = []
    behaviours = {}
    with ThreadPoolExecutor(4) as ex:
        futs = [(m, ex.submit(run_model, m, tier, work)) for m in models]
        for m, f in futs:
            gen, distinct, beh = f.result()
            msum.append({"model": m["module"], "cfg": m["cfg"], "generated": gen, "distinct": distinct,
                         "behaviours": len(beh)})
            behaviours[m.get("name", m["module"])] = beh
    t1 = time.time()
    # 2. the code
    if not a.replay:
        rng = random.Random(seed * 1000003 + int(pid[1:]))
        scns = mod.scenarios(tier, rng, behaviours)
    events = execute_all(mod, scns)
    t2 = time.time()
    # 3. the code against the specification
    gen, distinct, bad = validate_all(mod, scns, events, work)
    t3 = time.time()
    # 4. verdict
    known = load_known(pid)
    byscn = {}
    for i, l, clause in sorted(bad):
        byscn.setdefault(i, []).append((l, clause))
    viol, seen_known = [], {}
    for i, cl in sorted(byscn.items()):
        l0 = min(l for l, _ in cl)
        cls = sorted({c for l, c in cl if l == l0})
        key = scn_key(scns[i])
        k = next((k for k in known if k.get("status") == "known" and scn_key(k["scenario"]) == key
                  and set(cls) <= set(k["clauses"])), None)
        if k:
            seen_known[k["id"]] = k
        else:
            viol.append((i, l0, cls))
    for k in seen_known.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    nshow = 0
    clause_count = {}
    rdir = os.path.join(VERIF, "evidence", "replays")
    for i, l0, cls in viol:
        c = "+".join(cls)
        clause_count[c] = clause_count.get(c, 0) + 1
        if clause_count[c] > 1 or nshow >= a.max_show:
            continue
        nshow += 1
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%d.json" % (pid, nshow))
        with open(rp, "w") as f:
            json.dump({"property": pid, "clauses": cls, "event_index": l0,
                       "event": events[i][l0 - 1] if 0 < l0 <= len(events[i]) else None,
                       "scenario": scns[i], "events": events[i]}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  clause(s): %s  at event %d: %s" % (c, l0, json.dumps(
            events[i][l0 - 1] if 0 < l0 <= len(events[i]) else None)[:900]))
        print("  scenario: %s" % json.dumps(scns[i])[:900])
    if viol:
        print("clauses violated:", clause_count)
    nev = sum(len(e) for e in events)
    kinds = {}
    for es in events:
        for e in es:
            kinds[e.get("ev", "?")] = kinds.get(e.get("ev", "?"), 0) + 1
    if not a.replay:
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
            "coverage": {
                "states": sum(m["distinct"] for m in msum) + distinct,
                "transitions": sum(m["generated"] for m in msum) + gen,
                "traces_validated_against_impl": len(scns),
                "samples": [scns[j] for j in sorted({0, len(scns) // 2, len(scns) - 1})] if scns else [],
                "design_models": msum,
                "events_validated": nev, "events_by_kind": kinds,
                "behaviours_from_spec": sum(len(b) for b in behaviours.values()),
            },
            "wall_s": round(time.time() - t0, 2),
            "assumptions": getattr(mod, "ASSUMPTIONS", []),
            "violations": len(viol),
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s %s: %d scenarios, %d events, models %s, violations %d  [model %.1fs run %.1fs validate %.1fs]" % (
        pid, tier, len(scns), nev, [(m["model"], m["distinct"], m["behaviours"]) for m in msum], len(viol),
        t1 - t0, t2 - t1, t3 - t2))
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
