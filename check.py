#!/usr/bin/env python3
"""Run the checks of the properties: check.py ID [quick|thorough]

Each check is a list of stages of profiles.py.  A stage runs TLC on a module
of spec/ (its invariants are checked on every state), replays the cases that
TLC prints on the real crate with the harness, or the other way around,
records the real crate with the harness and validates the trace with TLC.

Exit 0: held; 1: VIOLATION line; 2: the check itself failed.
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

ROOT = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(ROOT, "spec")
BUILD = os.path.join(ROOT, "build")
TARGET = os.path.join(BUILD, "target")
BIN = os.path.join(TARGET, "debug", "harness")
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
import profiles  # noqa: E402


class ToolError(Exception):
    pass


def run(cmd, **kw):
    """Run in a process group of its own, so that a time out ends all of it."""
    timeout = kw.pop("timeout", None)
    p = subprocess.Popen(cmd, start_new_session=True, **kw)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        raise ToolError(f"time out: {' '.join(cmd[:6])}")
    return p.returncode, out, err


def build():
    env = dict(os.environ, CARGO_TARGET_DIR=TARGET, CARGO_NET_OFFLINE="true")
    env.pop("RUSTFLAGS", None)
    for v in ("", ):
        # The time stamps of a copied tree are not reliable
        subprocess.run(["cargo", "clean", "--offline", "-q", "-p", "yaml-peg"], cwd=os.path.join(ROOT, "harness"),
                       env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    rc, out, err = run(["cargo", "build", "--offline", "-q"], cwd=os.path.join(ROOT, "harness"), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if rc != 0:
        raise ToolError("build failed\n" + err[-4000:])


def conf_of(conf):
    """Strings of the configuration to texts of the specification."""
    def chars(s):
        return [c if " " <= c <= "~" or c in "\t\n\r\f" else f"U+{ord(c):04X}" for c in s]

    def conv(v):
        if isinstance(v, profiles.Atom):
            return str(v)
        if isinstance(v, str):
            return chars(v)
        if isinstance(v, (list, tuple)):
            return [conv(x) for x in v]
        if isinstance(v, dict):
            return {k: conv(x) for k, x in v.items()}
        return v
    return conv(conf)


def tlc(work, name, module, conf=None, simulate=None, depth=None, workers=4, env=None, timeout=800,
        cfg=None, seed=1, view=None):
    """Run TLC, returns the printed lines and the statistics."""
    e = dict(os.environ, JAVA_TOOL_OPTIONS="-Xss64m -Xmx6g -XX:+UseParallelGC")
    if conf is not None:
        path = os.path.join(work, name + ".conf.json")
        with open(path, "w") as f:
            json.dump(conf_of(conf), f)
        e["CONF"] = path
    e.update(env or {})
    meta = tempfile.mkdtemp(prefix="tlc-", dir=work)
    cmd = ["tlc", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", cfg or module + ".cfg"]
    if simulate is not None:
        cmd += ["-simulate", f"num={simulate}", "-depth", str(depth or 100), "-seed", str(seed)]
    else:
        cmd += ["-seed", str(seed)]
    cmd.append(module + ".tla")
    log = os.path.join(work, name + ".tlc")
    with open(log, "w") as f:
        rc, _, _ = run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=timeout)
    shutil.rmtree(meta, ignore_errors=True)
    stats = {"states": 0, "transitions": 0}
    cases, other = set(), []
    with open(log) as f:
        for line in f:
            if line.startswith('"{'):
                cases.add(json.loads(line))
            else:
                if not line.startswith(("Parsing", "Semantic", "Linting", "Warning: Please")):
                    other.append(line)
    tail = "".join(other)
    m = re.search(r"([\d,]+) states generated, ([\d,]+) distinct states found, 0 states left", tail)
    if m:
        stats["transitions"], stats["states"] = (int(x.replace(",", "")) for x in m.groups())
    else:
        m = re.search(r"The number of states generated: ([\d,]+)", tail)
        if m:
            stats["transitions"] = stats["states"] = int(m.group(1).replace(",", ""))
    wrong = [x for x in other if "WRONG" in x]
    if rc != 0 and wrong:
        raise ToolError(f"{name}: the specification breaks its invariant: {json.loads(wrong[0])[:3000]}")
    if rc != 0 or not m:
        raise ToolError(f"TLC {name} ({module}) ended with {rc}\n{tail[-3000:]}")
    os.remove(log)
    return sorted(cases), other, stats


def replay(work, name, lines, timeout=600):
    """Replay the cases, returns [(case, message)] of the violated ones."""
    path = os.path.join(work, name + ".ndjson")

    def once(part, threads):
        with open(path, "w") as f:
            f.writelines(x + "\n" for x in part)
        rc, out, err = run([BIN, "replay", path, str(threads)], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=timeout)
        res = [json.loads(x) for x in out.split("\n") if x.startswith("{")]
        return rc, res, err

    def died(part):
        rc, res, _ = once(part, 1)
        return rc != 0

    rc, res, err = once(lines, 8)
    bad = [(lines[r["bad"]], r["msg"], r["tool"]) for r in res if "bad" in r]
    for _, msg, tool in bad:
        if tool:
            raise ToolError(f"{name}: {msg}")
    if rc != 0:
        # The process was ended by the code under test: find the case
        part = lines
        if "harness:" in err:
            raise ToolError(f"{name}: {err[-2000:]}")
        while len(part) > 1:
            half = part[:len(part) // 2]
            part = half if died(half) else part[len(half):]
        if not died(part):
            raise ToolError(f"{name}: harness ended with {rc}: {err[-2000:]}")
        bad.append((part[0], f"the process is ended ({rc}): {err.strip()[-300:]}", False))
    elif not bad and not any(r.get("done") == len(lines) for r in res):
        raise ToolError(f"{name}: incomplete replay")
    os.remove(path)
    return [(c, m) for c, m, _ in bad]


def record(work, name, kind, count, seed, extra=(), timeout=600):
    """Record the crate, returns the trace."""
    path = os.path.join(work, name + ".trace")
    with open(path, "w") as f:
        rc, _, err = run([BIN, "record", kind, str(seed), str(count), *extra], stdout=f, stderr=subprocess.PIPE,
                         text=True, errors="replace", timeout=timeout)
    return rc, path, err


def stage_cases(work, st, seed):
    """spec -> implementation"""
    cases, _, stats = tlc(work, st["name"], st["module"], conf=st.get("conf"), simulate=st.get("simulate"),
                          depth=st.get("depth"), workers=st.get("workers", 4), cfg=st.get("cfg"), seed=seed,
                          timeout=st.get("timeout", 800))
    if len(cases) < st.get("least", 1):
        raise ToolError(f"{st['name']}: only {len(cases)} cases")
    bad = replay(work, st["name"], cases)
    return {"stats": stats, "cases": len(cases), "bad": bad, "samples": cases[:1] + cases[len(cases) // 2:][:1]}


def stage_trace(work, st, seed):
    """implementation -> spec"""
    rc, path, err = record(work, st["name"], st["record"], st["count"], seed, [str(x) for x in st.get("args", [])])
    with open(path) as f:
        trace = f.read().rstrip("\n").split("\n")
    if rc != 0:
        if "harness:" in err:
            raise ToolError(f"{st['name']}: {err[-2000:]}")
        # The last input is recorded before it runs
        last = trace[-1] if trace else "{}"
        return {"stats": {"states": 0, "transitions": 0}, "cases": len(trace), "samples": trace[:1],
                "bad": [(json.dumps({"k": "record", "record": st["record"], "seed": seed, "count": st["count"],
                                     "last": last[:4000]}),
                         f"the recorded process is ended ({rc}): {err.strip()[-300:]}")]}
    if len(trace) < st.get("least", 1):
        raise ToolError(f"{st['name']}: only {len(trace)} records")
    _, other, stats = tlc(work, st["name"], st.get("module", "Validate"), env={"TRACE": path}, cfg=st.get("cfg"),
                          workers=st.get("workers", 4), seed=seed, timeout=st.get("timeout", 800))
    bad = []
    for line in other:
        m = re.match(r'<<"BAD", (\d+), (".*")>>', line)
        if m:
            i = int(m.group(1)) - 1
            bad.append((trace[i], "the specification expects " + json.loads(m.group(2))[:2000]))
        elif line.startswith('<<"BAD"'):
            bad.append((line.strip()[:2000], "recorded behaviour is not allowed"))
    os.remove(path)
    return {"stats": stats, "cases": len(trace), "bad": bad, "samples": trace[:1]}


def check(pid, tier, seed):
    t0 = time.time()
    prof = profiles.PROPERTIES[pid]
    stages = prof["stages"](tier)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix=f"run-{pid}-", dir=BUILD)
    results, bad = {}, []
    try:
        build()

        def one(st):
            t = time.time()
            r = (stage_trace if "record" in st else stage_cases)(work, st, seed)
            r["wall"] = round(time.time() - t, 1)
            return st["name"], r
        with cf.ThreadPoolExecutor(profiles.PARALLEL) as ex:
            futs = [ex.submit(one, st) for st in stages]
            errs = []
            for f in cf.as_completed(futs):
                try:
                    name, r = f.result()
                    results[name] = r
                    bad += [(name, *b) for b in r["bad"]]
                except ToolError as e:
                    errs.append(e)
        if errs and not bad:
            raise errs[0]
    finally:
        shutil.rmtree(work, ignore_errors=True)
    known = [x for x in read_known(pid)]
    news = []
    for name, case, msg in bad:
        k = next((x for x in known if x["input"] and x["input"] in case), None)
        if k:
            k["hit"] = True
        else:
            news.append((name, case, msg))
    for k in known:
        if k.get("hit"):
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    samples = []
    for name, r in results.items():
        for s in r["samples"]:
            samples.append({"stage": name, "case": s[:1500]})
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": sum(r["stats"]["states"] for r in results.values()),
            "transitions": sum(r["stats"]["transitions"] for r in results.values()),
            "traces_validated_against_impl": sum(r["cases"] for r in results.values()),
            "stages": {n: {"states": r["stats"]["states"], "conformance_cases": r["cases"],
                           "wall_s": r["wall"]} for n, r in results.items()},
            "samples": samples,
        },
        "assumptions": prof.get("assumptions", []),
        "wall_s": round(time.time() - t0, 1),
        "violations": len(news),
    }
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if news:
        os.makedirs(os.path.join(BUILD, "replay"), exist_ok=True)
        news.sort(key=lambda x: len(x[1]))
        name, case, msg = news[0]
        path = os.path.join(BUILD, "replay", f"{pid}.ndjson")
        with open(path, "w") as f:
            for _, c, _ in news[:50]:
                f.write(c + "\n")
        print(f"{len(news)} violations, the shortest ({name}): {msg[:2000]}")
        print(f"replay with: {BIN} replay {path} 1")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(f"{pid}: held on {ev['coverage']['traces_validated_against_impl']} cases, "
          f"{ev['coverage']['states']} states, {ev['wall_s']} s")
    return 0


def read_known(pid):
    """Known findings: property=ID | part of the case | what fails"""
    path = os.path.join(ROOT, "known-findings.txt")
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                m = re.match(r"finding: property=(\S+) \| (.*) \| (.*)", line)
                if m and m.group(1) == pid:
                    yield {"input": m.group(2), "what": m.group(3)}


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        return check(pid, tier, seed)
    except ToolError as e:
        print(f"check {pid}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
