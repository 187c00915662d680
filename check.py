#!/usr/bin/env python3
"""check.py <PROPERTY>: decides one property on /repo's current working tree.

Builds the monitors with /repo's sources, runs them, merges what they observed
into evidence/<PROPERTY>.json and prints a verdict:
  exit 0  held on everything explored (KNOWN-FINDING lines for listed findings)
  exit 1  VIOLATION property=<id> replay=<path>
  exit 2  error of the check itself (build failure, nothing observed, ...)

check.py --replay FILE     re-runs the single recorded case.
check.py --all             every property, one after another.
check.py --build           builds everything (setup).
"""
import concurrent.futures as cf
import json
import os
import re
import resource
import signal
import struct
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import vbuild  # noqa: E402
from registry import CHECKS  # noqa: E402

RUN = os.path.join(HERE, ".run")
KNOWN = os.path.join(HERE, "known_findings.jsonl")

ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:"
                    "hard_rss_limit_mb=6000:max_allocation_size_mb=3000:strict_string_checks=1:"
                    "handle_abort=0:print_suppressions=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4:report_signal_unsafe=0",
}


def limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    os.setpgid(0, 0)


def run_proc(cmd, env, timeout):
    """-> (rc or None on timeout, tail of output)"""
    log = env.pop("_LOG")
    with open(log, "wb") as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, env=env,
                             preexec_fn=limits, cwd=RUN, stdin=subprocess.DEVNULL)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            p.terminate()
            try:
                p.wait(3)
            except subprocess.TimeoutExpired:
                pass
            rc = None
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        p.wait()
    with open(log, "rb") as f:
        f.seek(0, 2)
        n = f.tell()
        f.seek(max(0, n - 200000))
        out = f.read().decode(errors="replace")
    return rc, out


def crash_info(out):
    """Classifies an abnormal end by the reports in its output."""
    sec = case = None
    m = re.search(r"VF-CRASH why=(\S+) section=(\S*) case=(-?\d+)", out)
    if m:
        sec, case = m.group(2), int(m.group(3))
    kind, msg = "abort", ""
    for pat, k in (
        (r"ERROR: AddressSanitizer: (\S+)[^\n]*", "asan"),
        (r"WARNING: ThreadSanitizer: ([^\n(]+)", "tsan"),
        (r"runtime error: ([^\n]+)", "ubsan"),
        (r"([\w./-]+:\d+: [^\n]*Assertion [^\n]+)", "assert"),
        (r"(terminate called[^\n]*)", "terminate"),
        (r"VF-CRASH why=(\S+)", "signal"),
    ):
        m = re.search(pat, out)
        if m:
            kind, msg = k, m.group(0)
            break
    sm = re.search(r"SUMMARY: [^\n]+", out)
    if sm:
        msg += " | " + sm.group(0)
    return sec or "?", case if case is not None else -1, kind, msg.strip()


class Outcome:
    def __init__(self):
        self.evaluations = 0
        self.events = {}
        self.samples = []
        self.hashes = set()
        self.violations = []   # dicts: key, section, case, msg, run, log
        self.inconclusive = []
        self.builds = []
        self.runs = []


def one(job):
    """Runs one shard of one run; retries once on timeouts or unexplained deaths."""
    exe, args, env, timeout, tag = job
    for attempt in (0, 1):
        outp = os.path.join(RUN, f"{tag}.{attempt}.json")
        for p in (outp, outp + ".hashes"):
            if os.path.exists(p):
                os.unlink(p)
        e = dict(os.environ)
        e.update(ENV)
        for k, v in env.items():
            e[k] = (ENV[k] + ":" + v) if k in ENV else v
        e["_LOG"] = os.path.join(RUN, f"{tag}.{attempt}.log")
        t = time.time()
        rc, out = run_proc([exe, *args, "--out", outp], e, timeout)
        res = None
        if os.path.exists(outp):
            try:
                with open(outp) as f:
                    res = json.load(f)
            except ValueError:
                res = None
        if rc in (0, 3) and res is not None:
            hashes = set()
            if os.path.exists(outp + ".hashes"):
                data = open(outp + ".hashes", "rb").read()
                hashes = set(struct.unpack(f"<{len(data) // 8}Q", data))
                os.unlink(outp + ".hashes")
            return {"ok": True, "res": res, "hashes": hashes, "wall": time.time() - t, "out": out, "tag": tag}
        if rc is None or rc in (-signal.SIGKILL, -signal.SIGTERM, -signal.SIGALRM):
            last = {"ok": False, "hang": rc != -signal.SIGKILL, "out": out, "tag": tag, "rc": rc, "wall": time.time() - t}
            continue  # retry once
        return {"ok": False, "hang": False, "out": out, "tag": tag, "rc": rc, "wall": time.time() - t}
    return last


def load_known(prop):
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line or line.startswith("#"):
                continue
            d = json.loads(line)
            if d.get("status") == "known" and d["property"] == prop:
                out.append(d)
    return out


def check(prop, tier, seed, only_run=None, extra_args=None):
    spec = CHECKS[prop]
    os.makedirs(RUN, exist_ok=True)
    oc = Outcome()
    t0 = time.time()
    jobs = []
    # build
    for r in spec["runs"]:
        if tier == "quick" and r.get("thorough_only"):
            continue
        if only_run and r["name"] != only_run:
            continue
        exe = vbuild.build(r["name"], r["harness"], r.get("config", "asan"),
                           sources=r.get("sources", "core"), extra=r.get("extra", ()),
                           defs=r.get("defs", ()), exclude=r.get("exclude", ()))
        shards = r.get("shards", 8)
        reps = r.get("repeat", 1) if tier == "quick" else r.get("repeat_thorough", r.get("repeat", 1))
        scale = r.get("scale", 1.0) if tier == "quick" else r.get("scale_thorough", r.get("scale", 1.0))
        timeout = r.get("timeout", 120) if tier == "quick" else r.get("timeout_thorough", 3600)
        for rep in range(reps):
            for k in range(shards):
                args = ["--seed", str(seed + 1000003 * rep), "--scale", str(scale), "--shard", f"{k}/{shards}"]
                args += list(r.get("args", ()))
                if tier == "thorough":
                    args.append("--thorough")
                if extra_args:
                    args += extra_args
                tag = f"{prop}-{r['name']}-{r.get('config', 'asan')}-{tier}-r{rep}s{k}-{os.getpid()}"
                jobs.append((r, (exe, args, r.get("env", {}), timeout, tag), seed + 1000003 * rep))
                if extra_args:
                    break
            if extra_args:
                break
    tb = time.time() - t0
    par = spec.get("parallel", 8)
    with cf.ThreadPoolExecutor(par) as ex:
        results = list(ex.map(lambda j: one(j[1]), jobs))
    for (r, job, sd), res in zip(jobs, results):
        label = f"{r['name']}/{r.get('config', 'asan')}"
        if res["ok"]:
            d = res["res"]
            oc.evaluations += d["evaluations"]
            for k, v in d["events"].items():
                oc.events[k] = oc.events.get(k, 0) + v
            for s in d["samples"]:
                if len([x for x in oc.samples if x.split("#")[0].endswith(s.split("#")[0])]) < 2:
                    oc.samples.append(f"{label} {s}")
            oc.hashes |= res["hashes"]
            oc.inconclusive += d["inconclusive"]
            for v in d["violations"]:
                v.update(run=r["name"], config=r.get("config", "asan"), seed=sd, log=None)
                oc.violations.append(v)
        else:
            sec, case, kind, msg = crash_info(res["out"])
            if res["hang"]:
                key = f"hang:{sec}"
                msg = f"did not terminate within the watchdog (twice): section {sec}"
            else:
                key = f"{kind}:{sec}"
            print(f"--- {label} ended abnormally (rc={res['rc']}): {key}: {msg}")
            tail = res["out"]
            i = max(tail.find("ERROR: "), 0) if kind == "asan" else 0
            sys.stdout.write("\n".join(tail[i:].splitlines()[-60:] if not i else tail[i:].splitlines()[:60]) + "\n")
            if sec == "?" and kind == "abort" and not res["hang"]:
                oc.inconclusive.append(f"{label}: unexplained exit {res['rc']}")
                continue
            oc.violations.append({"key": key, "section": sec, "case": case, "msg": msg,
                                  "run": r["name"], "config": r.get("config", "asan"), "seed": sd,
                                  "output_tail": res["out"][-6000:]})
    # clean scratch files
    for (r, job, sd) in jobs:
        for a in (0, 1):
            for suf in (".json", ".log", ".json.hashes"):
                p = os.path.join(RUN, f"{job[4]}.{a}{suf}")
                if os.path.exists(p):
                    os.unlink(p)
    wall = time.time() - t0
    return oc, wall, tb


def verdict(prop, tier, seed):
    spec = CHECKS[prop]
    try:
        oc, wall, tb = check(prop, tier, seed)
    except vbuild.BuildError as e:
        print(f"ERROR property={prop}: cannot build the monitors against the working tree\n{e}")
        return 2
    known = load_known(prop)
    fresh, listed = [], {}
    for v in oc.violations:
        k = next((d for d in known if d["key"] == v["key"] and
                  (not d.get("match") or re.search(d["match"], v["msg"]))), None)
        if k is not None:
            listed[k["key"] + k.get("match", "")] = k
        else:
            fresh.append(v)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": spec.get("level", "exploration"),
        "coverage": {
            "evaluations": oc.evaluations,
            "distinct_nontrivial": len(oc.hashes),
            "rule": spec["rule"],
            "samples": oc.samples[:24],
            "observed_events": dict(sorted(oc.events.items())),
        },
        "assumptions": spec.get("assumptions", []),
        "wall_s": round(wall, 2), "violations": len(fresh),
    }
    if oc.inconclusive:
        ev["coverage"]["inconclusive"] = oc.inconclusive[:20]
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)
    for k in listed.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    if fresh:
        rd = os.path.join(RUN, "replay")
        os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in fresh:
            if v["key"] in seen:
                continue
            seen.add(v["key"])
            rp = os.path.join(rd, f"{prop}-{re.sub(r'[^A-Za-z0-9_.-]', '_', v['key'])[:80]}.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "tier": tier, **v}, f, indent=1)
            print(f"  {v['key']} [{v['run']}/{v['config']} section={v['section']} case={v['case']} seed={v['seed']}]: {v['msg'][:600]}")
            print(f"VIOLATION property={prop} replay={rp}")
            if len(seen) >= 5:
                break
        return 1
    missing = [e for e in spec.get("must_observe", []) if not oc.events.get(e)]
    if oc.evaluations == 0 or not oc.hashes or missing:
        print(f"ERROR property={prop}: the monitors observed too little (evaluations={oc.evaluations}, "
              f"distinct={len(oc.hashes)}, missing={missing}, inconclusive={oc.inconclusive[:3]})")
        return 2
    if any("unexplained exit" in s for s in oc.inconclusive):
        print(f"ERROR property={prop}: {oc.inconclusive[:3]}")
        return 2
    print(f"OK property={prop} tier={tier} seed={seed} evaluations={oc.evaluations} "
          f"distinct_nontrivial={len(oc.hashes)} events={sum(oc.events.values())} build={tb:.1f}s wall={wall:.1f}s")
    return 0


def replay(path):
    d = json.load(open(path))
    args = ["--section", d["section"]] + (["--case", str(d["case"])] if d["case"] >= 0 else [])
    oc, wall, _ = check(d["property"], d["tier"], d["seed"], only_run=d["run"], extra_args=args)
    for v in oc.violations:
        print(f"REPLAYED {v['key']} section={v['section']} case={v['case']}: {v['msg'][:2000]}")
    return 1 if oc.violations else 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    if a[0] == "--replay":
        return replay(a[1])
    if a[0] == "--build":
        runs = [r for spec in CHECKS.values() for r in spec["runs"] if not r.get("thorough_only")]
        runs.sort(key=lambda r: r.get("sources", "core") not in ("full",))
        with cf.ThreadPoolExecutor(6) as ex:
            list(ex.map(lambda r: vbuild.build(
                r["name"], r["harness"], r.get("config", "asan"), sources=r.get("sources", "core"),
                extra=r.get("extra", ()), defs=r.get("defs", ()), exclude=r.get("exclude", ())), runs))
        vbuild.prune()
        return 0
    if "--thorough" in a:
        tier = "thorough"
        a.remove("--thorough")
    if a[0] == "--all":
        rc = 0
        for p in CHECKS:
            t = time.time()
            k = verdict(p, tier, seed)
            print(f"[{p}] exit {k} in {time.time() - t:.1f}s", flush=True)
            rc = rc or k
        return rc
    return verdict(a[0], tier, seed)


if __name__ == "__main__":
    sys.exit(main())
