#!/usr/bin/env python3
"""Runs one property's check: builds the drivers from /repo, model-checks the
specification, lets the specification and a seeded generator produce calls,
executes them on the real code and validates the recorded trace with TLC."""
import argparse, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VC_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
DRV = os.path.join(VERIF, "driver")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
sys.path.insert(0, VERIF)
from vc import props  # noqa: E402


class Violation(Exception):
    def __init__(self, what, data):
        super().__init__(what)
        self.what, self.data = what, data


class Broken(Exception):
    pass


def sh(cmd, timeout, env=None, cwd=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, cwd=cwd,
                         start_new_session=True, text=True, errors="replace")
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, _ = p.communicate()
        return -999, out


def compile_tu(work, drv, i, tu, flags, extra={}):
    src, defs = tu
    obj = os.path.join(work, f"{drv}_{i}.o")
    cmd = ["g++", "-std=c++17", "-w", "-I" + REPO, "-I" + DRV] + flags.split() + defs.split() + \
          ["-c", os.path.join(DRV, src), "-o", obj]
    rc, out = sh(cmd, 600)
    if rc != 0 and rc != -999 and "internal compiler error" not in out and "Killed" not in out:
        raise Violation("the public interface no longer compiles as specified", dict(cmd=cmd, output=out[:2000] + out[-4000:], **extra))
    if rc != 0:
        raise Broken("compiler failed: " + out[-2000:])
    return obj


def tlc(module, cfg, work, env=None, workers=8, timeout=600, extra=()):
    meta = tempfile.mkdtemp(prefix="tlc_", dir=work)
    cmd = ["java", "-Xmx6g", "-Xss64m", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=4", "-cp", CP, "tlc2.TLC", "-noGenerateSpecTE", "-metadir", meta,
           "-workers", str(workers), "-config", cfg] + list(extra) + [module]
    t = time.time()
    rc, out = sh(cmd, timeout, env=env, cwd=SPEC)
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return dict(rc=rc, out=out, generated=gen, distinct=dist, wall=time.time() - t)


def tokens(call):
    s = [call["op"]]
    for k, v in call.items():
        if k in ("op", "src") or isinstance(v, (str, dict)):
            continue
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            v = [v]
        flat = []

        def rec(x):
            for y in x:
                rec(y) if isinstance(y, list) else flat.append(int(y))
        rec(v)
        s.append(k)
        s.append(str(len(flat)))
        s += map(str, flat)
    return " ".join(s)


def run_driver(exe, calls, work, name, timeout):
    """Executes calls; returns events (calls with obs). A crash or hang is a violation."""
    f = os.path.join(work, name + ".calls")
    with open(f, "w") as h:
        for c in calls:
            h.write(tokens(c) + "\n")
    rc, out = sh([exe, f], timeout, env={"ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=70:detect_stack_use_after_return=1",
                                         "UBSAN_OPTIONS": "halt_on_error=1:print_stacktrace=1"})
    events = [dict(c, obs=[]) for c in calls]
    done = -1
    finished = False
    cur = None
    for line in out.split("\n"):
        if line.startswith("DONE "):
            finished = True
        elif line.startswith("CRASH "):
            cur = int(line.split()[1])
        elif re.match(r"^\d+\.$", line):
            done = int(line[:-1])
        else:
            m = re.match(r"^(\d+)\|([^|]*)\|([^|]*)\|(\d+)\|([^|]*)\|(.*)$", line)
            if m:
                vals = [[int(z) for z in x.split(",")] for x in m.group(6).split()]
                events[int(m.group(1))]["obs"].append(dict(k=m.group(2), c=m.group(3), n=int(m.group(4)), e=m.group(5), v=vals))
    if rc == 3:
        raise Broken("driver rejected its input: " + out[-500:])
    if not finished or rc != 0:
        bad = cur if cur is not None and cur >= 0 else done + 1
        bad = min(bad, len(calls) - 1)
        raise Violation("the implementation " + ("did not finish" if rc == -999 else "crashed") + " executing a call",
                        dict(call=calls[bad], rc=rc, output=out[-5000:], driver=name))
    return events


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    r = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("{"):
                r.append(json.loads(line))
    return r


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--replay")
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--scale", type=float)
    a = ap.parse_args()
    pid = a.property
    P = props.PROPS[pid]
    tier = "thorough" if a.thorough else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    scale = a.scale if a.scale else (8.0 if a.thorough else 1.0)
    t0 = time.time()
    work = tempfile.mkdtemp(prefix="vc_%s_" % pid)
    evdir = os.path.join(VERIF, "evidence")
    rpdir = os.path.join(evdir, "replay", pid)
    os.makedirs(rpdir, exist_ok=True)
    stats = dict(calls=0, executions=0, observations=0, states=0, transitions=0, mc={}, traces=0, mc_calls=0, ops={}, sessions=0)
    samples, violations, known_seen = [], [], []

    def violation(what, data):
        name = os.path.join(rpdir, "v%d.json" % len(violations))
        json.dump(dict(property=pid, what=what, data=data, seed=seed), open(name, "w"), indent=1, default=str)
        violations.append(dict(what=what, replay=name))
        if len(violations) <= 5:
            print("VIOLATION property=%s replay=%s" % (pid, name))
            print("  " + what[:1500])
            sys.stdout.flush()

    code = 0
    try:
        pool = cf.ThreadPoolExecutor(8)
        # 1. start the builds
        objs = {}
        order = []
        for dname, d in P["drivers"].items():
            for i, tu in enumerate(d["tus"]):
                order.append((tu[2] if len(tu) > 2 else 1, dname, i, tu))
        order.sort(key=lambda x: -x[0])
        mcpool = cf.ThreadPoolExecutor(2)
        mcs = []
        if not a.replay:
            for m in P.get("mc", []):
                out = os.path.join(work, "export_%s_%d.ndjson" % (m["module"], len(mcs)))
                cfg = m.get("thorough_cfg", m["cfg"]) if a.thorough else m["cfg"]
                env = {"OUT": out, "TIER": tier, "SEED": str(seed), **m.get("env", {})}
                mcs.append((m, out, mcpool.submit(tlc, m["module"], cfg, work, env, m.get("workers", 4), 800,
                                                  [x.replace("@SEED", str(seed)) for x in (m.get("thorough_extra") if a.thorough else None) or m.get("extra", ())])))
        for w, dname, i, tu in order:
            objs.setdefault(dname, []).append(pool.submit(compile_tu, work, dname, i, tu[:2], P["drivers"][dname].get("flags", "-O0")))
        for dname, d in P["drivers"].items():
            objs.setdefault(dname, []).append(pool.submit(compile_tu, work, dname, "main", (d.get("main", "main.cpp"), ""), d.get("flags", "-O0")))
        # 2. calls
        calls = {d: [] for d in P["drivers"]}
        for m, out, fut in mcs:
            r = fut.result()
            if r["rc"] != 0:
                raise Broken("model checking of %s failed (the specification breaks its own laws)\n%s" % (m["module"], r["out"][-3000:]))
            stats["mc"].setdefault(m["module"] + ":" + os.path.basename(m["cfg"]) + "".join(" " + v for v in m.get("env", {}).values()), dict(distinct=r["distinct"], generated=r["generated"], wall=round(r["wall"], 1)))
            stats["states"] += r["distinct"]
            stats["transitions"] += r["generated"]
            if m.get("to"):
                ex = [json.loads(x) for x in open(out)]
                if m.get("convert"):
                    ex = m["convert"](ex, random.Random(seed), scale)
                for c in ex:
                    c["src"] = m["module"]
                stats["mc_calls"] += len(ex)
                calls[m["to"]] += ex
        if a.replay:
            rp = json.load(open(a.replay))
            data = rp["data"]
            for d in calls:
                calls[d] = [c for c in data.get("calls", [data.get("call")]) if c and data.get("driver", d) == d]
                for c in calls[d]:
                    c.pop("obs", None)
        else:
            for d, drv in P["drivers"].items():
                for g in drv.get("gens", []):
                    calls[d] += g(random.Random("%s/%s/%s" % (seed, d, g.__name__)), scale)
        for dname, d in P["drivers"].items():
            if d.get("codegen"):
                for i, (f, n) in enumerate(d["codegen"](calls[dname], work)):
                    objs[dname].append(pool.submit(compile_tu, work, dname, "gen%d" % i, (f, ""), d.get("flags", "-O0"), dict(driver=dname, calls=n)))
        # 3. link, run, validate
        for dname, d in P["drivers"].items():
            files = [f.result() for f in objs[dname]]
            exe = os.path.join(work, dname)
            rc, out = sh(["g++"] + d.get("flags", "-O0").split() + files + ["-o", exe] + d.get("libs", "").split(), 300)
            if rc != 0:
                raise Violation("the drivers no longer link", dict(output=out[-4000:]))
            if not calls[dname]:
                continue
            if d.get("expand"):
                calls[dname] = d["expand"](calls[dname])
            try:
                events = run_driver(exe, calls[dname], work, dname, d.get("timeout", 240))
            except Violation as v:
                violation(v.what, v.data)
                continue
            stats["calls"] += len(events)
            for e in events:
                stats["ops"][e["op"]] = stats["ops"].get(e["op"], 0) + 1
                stats["observations"] += len(e["obs"])
                stats["executions"] += sum(o["n"] for o in e["obs"])
            # known findings are set aside by their exact input
            keep = []
            for e in events:
                kf = [k for k in KF if k["property"] == pid and k.get("op") == e["op"] and all(e.get(x) == y for x, y in k["input"].items())]
                if kf:
                    known_seen.append((kf[0], e))
                keep.append(e)
            events = keep
            if d.get("fold"):
                events = d["fold"](events)
            trace = os.path.join(work, dname + ".ndjson")
            with open(trace, "w") as h:
                for e in events:
                    h.write(json.dumps({k: v for k, v in e.items() if k != "src"}) + "\n")
            module = d.get("trace", "TraceCalls")
            r = tlc(module + ".tla", module + ".cfg", work, {"TRACE": trace}, 8, 800, ["-continue"])
            stats["states"] += r["distinct"]
            stats["transitions"] += r["generated"]
            rej = sorted(set(int(x) for x in re.findall(r'"REJECT",\s*(\d+)', r["out"])))
            nev = d["count"](events) if d.get("count") else len(events)
            # an observed value so large that judging it leaves the integers of TLC: no
            # call of the generators has results of that size
            if not rej and "Overflow when computing" in r["out"]:
                ls = re.findall(r"/\\ l = (\d+)", r["out"])
                e = events[min(int(ls[-1]), len(events) - 1)] if ls else events[0]
                call = {x: y for x, y in e.items() if x not in ("obs", "src")}
                violation("an observed value is out of all range, at or near: " + json.dumps(call)[:800], dict(call=call, observed=e.get("obs"), driver=dname, calls=[call]))
                continue
            if not rej and (r["rc"] != 0 or r["distinct"] != nev):
                raise Broken("trace validation failed to run (%s): rc=%s distinct=%s of %s\n%s" % (dname, r["rc"], r["distinct"], nev, r["out"][-3000:]))
            stats["traces"] += len(events) - len(rej)
            if len(samples) < 6:
                for e in random.Random(seed).sample(events, min(2, len(events))):
                    samples.append(json.dumps(e)[:700])
            txt = {}
            for m in re.finditer(r'"REJECT",\s*(\d+),\s*(.*?)>>\s*\n(?=\S)', r["out"], re.S):
                txt.setdefault(int(m.group(1)), m.group(2)[:1200])
            for n in rej[:400]:
                e = events[n - 1]
                k = next((k for k, ev in known_seen if ev is e), None)
                if k:
                    k["_hit"] = True
                    continue
                violation("rejected: " + json.dumps({x: y for x, y in e.items() if x != "obs"})[:800] + " :: " + txt.get(n, ""),
                          dict(call={x: y for x, y in e.items() if x != "obs"}, observed=e.get("obs"), driver=dname,
                               calls=[{x: y for x, y in e.items() if x != "obs"}]))
        for k in KF:
            if k.get("_hit"):
                print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
        if violations:
            code = 1
    except Violation as v:
        violation(v.what, v.data)
        code = 1
    except Broken as b:
        print("BROKEN: " + str(b))
        code = 1 if violations else 2
    except Exception:
        traceback.print_exc()
        code = 2
    finally:
        if a.keep:
            print("kept", work)
        else:
            shutil.rmtree(work, ignore_errors=True)
    wall = time.time() - t0
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get("level", "model_checking"), wall_s=round(wall, 2),
              coverage=dict(states=stats["states"], transitions=stats["transitions"], traces_validated_against_impl=stats["traces"],
                            samples=samples or ["none"], implementation_executions=stats["executions"],
                            distinct_observations=stats["observations"], calls_from_model=stats["mc_calls"],
                            calls_per_operation=stats["ops"], model_runs=stats["mc"]),
              assumptions=P.get("assumptions", []), violations=len(violations))
    if code != 2 and not a.replay:
        json.dump(ev, open(os.path.join(evdir, pid + ".json"), "w"), indent=1)
    print("%s %s: %s calls, %s executions, %s observations, states %s, %s violations, %.1fs" % (
        pid, tier, stats["calls"], stats["executions"], stats["observations"], stats["states"], len(violations), wall))
    return code


KF = known_findings()
if __name__ == "__main__":
    sys.exit(main())
