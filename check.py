#!/usr/bin/env python3
"""Builds and runs the monitors of one property against /repo's working tree.

  check.py <property> [quick|thorough]      run the check of one property
  check.py --replay <file>                  re-run the one case a replay file names
  check.py --list                           the properties with a check
  check.py --build                          build every monitor (setup)

Exit 0: the property held on everything observed. Exit 1: a VIOLATION line was
printed. Exit 2: the check itself could not give an answer.
"""
import concurrent.futures, fcntl, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, ".build"))
EVIDENCE = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
REPLAYS = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "replays"))
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:"
                    "max_allocation_size_mb=3000:hard_rss_limit_mb=9000:strict_string_checks=1:"
                    "detect_stack_use_after_return=1:check_initialization_order=0:handle_abort=1:"
                    "max_malloc_fill_size=65536:malloc_fill_byte=190",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=78",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=66:second_deadlock_stack=1:history_size=4:"
                    "report_signal_unsafe=0",
    "LC_ALL": "C.UTF-8", "TZ": "UTC",
}


class CheckError(Exception):
    pass


class DoesNotCompile(CheckError):
    """A monitor's own source, not the code under test, failed to compile."""


def build(targets):
    """targets: {(monitor, variant)}"""
    os.makedirs(BUILD, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(BUILD, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        for variant in sorted({v for _, v in targets}):
            d = os.path.join(BUILD, variant)
            env = {k: v for k, v in os.environ.items() if k not in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS")}
            env.update(CC="gcc", CXX="g++")
            names = sorted(m for m, v in targets if v == variant)
            for cmd in (["cmake", "-S", os.path.join(HERE, "harness"), "-B", d, "-G", "Ninja",
                         "-DVARIANT=" + variant, "-DREPO=" + REPO],
                        ["ninja", "-C", d] + names):
                p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode != 0:
                    failed = re.findall(r"^FAILED: (?:\[[^\]]*\] )?(\S+)", p.stdout, re.M)
                    own = [f for f in failed if re.match(r"CMakeFiles/(%s)\.dir/[^/]+\.cpp\.o$" % "|".join(names), f)
                           or (f in names and "undefined reference to `sm::" in p.stdout)]
                    cls = DoesNotCompile if failed and len(own) == len(failed) and re.search("error: |undefined reference", p.stdout) else CheckError
                    raise cls("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return time.time() - t0


def repo_frame(lines):
    for l in lines:
        m = re.search(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (\S*%s/[^\s:]+)" % re.escape(REPO), l)
        if m:
            return "%s@%s" % (re.sub(r"\(.*", "", m.group(1)).strip(), os.path.relpath(m.group(2), REPO))
    return "?"


def sanitizer_reports(text):
    """[(key, excerpt)] of the sanitizer reports in a monitor's stderr."""
    out = []
    lines = text.split("\n")
    for i, l in enumerate(lines):
        m = re.search(r"WARNING: ThreadSanitizer: ([^(]+)", l)
        if m:
            block = lines[i:i + 60]
            end = next((j for j, b in enumerate(block) if j and b.startswith("======")), len(block))
            out.append(("tsan/%s/%s" % (m.group(1).strip().replace(" ", "-"), repo_frame(block[:end])), "\n".join(block[:end])))
        m = re.search(r"ERROR: (Address|Thread)Sanitizer:? (\S+)", l)
        if m:
            block = lines[i:i + 60]
            out.append(("%s/%s/%s" % ("asan" if m.group(1) == "Address" else "tsan", m.group(2), repo_frame(block)), "\n".join(block)))
        m = re.search(r"^(\S+?):\d+:\d+: runtime error: (.*)", l)
        if m:
            f = m.group(1)
            f = os.path.relpath(f, REPO) if f.startswith(REPO) else f
            what = re.sub(r"0x[0-9a-f]+|-?\d+(\.\d+)?(e[+-]?\d+)?", "N", m.group(2))
            out.append(("ubsan/%s/%s" % (f, what[:80].replace(" ", "-")), "\n".join(lines[i:i + 30])))
    return out


VALGRIND = ["valgrind", "-q", "--tool=memcheck", "--track-origins=yes", "--error-limit=no", "--num-callers=30", "--fair-sched=try",
            "--fullpath-after=", "--leak-check=full", "--show-leak-kinds=definite", "--errors-for-leak-kinds=none"]


def memcheck_reports(text):
    """[(key, excerpt)] of the reports in a log of valgrind."""
    out, blocks, cur = [], [], []
    for l in text.split("\n"):
        m = re.match(r"==\d+== ?(.*)", l)
        if not m:
            continue
        if m.group(1).strip():
            cur.append(m.group(1))
        elif cur:
            blocks.append(cur)
            cur = []
    blocks += [cur] if cur else []
    for b in blocks:
        m = re.match(r"(Conditional jump.*uninitialised|Use of uninitialised|Syscall param.*uninitialised|Syscall param.*unaddressable|Invalid read|Invalid write|Invalid free|"
                     r"Mismatched free|Source and destination overlap|.* definitely lost)", b[0])
        if not m:
            continue
        frame = "?"
        for l in b:
            f = re.match(r"\s*(?:at|by) 0x[0-9A-F]+: (.*) \(%s/([^():]+):\d+\)" % re.escape(REPO), l)
            if f:
                frame = "%s@%s" % (re.sub(r"\(.*", "", f.group(1)).strip(), f.group(2))
                break
        if "definitely lost" in b[0] and frame == "?":
            continue  # not of the code under test
        kind = "leak" if "definitely lost" in b[0] else "uninitialised" if "uninit" in b[0] else m.group(1).lower().replace(" ", "-")
        out.append(("memcheck/%s/%s" % (kind, frame), "\n".join(b)))
    return out


def run_monitor(monitor, variant, tier, seed, args, budget, case=None):
    memcheck, variant = variant == "memcheck", "plain" if variant == "memcheck" else variant
    exe = os.path.join(BUILD, variant, monitor)
    scratch = tempfile.mkdtemp(prefix="vmon-")
    try:
        work = os.path.join(scratch, "work")
        os.mkdir(work)
        out = os.path.join(scratch, "result.json")
        cmd = [exe, "--seed", str(seed), "--tier", tier, "--out", out, "--scratch", work, "--budget", str(budget)]
        cmd += list(args)
        if case:
            cmd += ["--case", case[0], str(case[1])]
        env = dict(os.environ)
        env.update(SAN_ENV)
        if memcheck:
            cmd = VALGRIND + ["--log-file=" + os.path.join(scratch, "memcheck")] + cmd + ["--hang", "600"]
        for k in ("SMCONSOLE_FORMAT",):
            env.pop(k, None)
        t0 = time.time()
        with open(os.path.join(scratch, "stderr"), "wb") as err, open(os.path.join(scratch, "stdout"), "wb") as so:
            p = subprocess.Popen(cmd, cwd=work, env=env, stdout=so, stderr=err, stdin=subprocess.DEVNULL, start_new_session=True)
            timed_out = False
            try:
                p.wait(timeout=budget + 200)
            except subprocess.TimeoutExpired:
                timed_out = True
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        wall = time.time() - t0
        with open(os.path.join(scratch, "stderr"), errors="replace") as f:
            stderr = f.read()
        res = None
        if os.path.exists(out):
            with open(out) as f:
                res = json.load(f)
        status = ""
        if os.path.exists(out + ".status"):
            with open(out + ".status", "rb") as f:
                status = f.read().split(b"\n")[0].decode(errors="replace")
        fails = []
        if res:
            fails += [dict(f) for f in res["failures"]]
        seen = set()
        reports = sanitizer_reports(stderr)
        if memcheck and os.path.exists(os.path.join(scratch, "memcheck")):
            with open(os.path.join(scratch, "memcheck"), errors="replace") as f:
                reports += memcheck_reports(f.read())
        for key, text in reports:
            if key in seen:
                continue
            seen.add(key)
            w, _, i = status.rpartition(" ")
            fails.append({"key": key, "workload": w, "index": int(i) if i.isdigit() else 0, "count": 1, "detail": text[:6000]})
        if timed_out and not fails:
            raise CheckError("%s/%s did not finish within %d s" % (monitor, variant, budget + 200))
        if (p.returncode not in (0, 3, 4, 66) or p.returncode and res is None) and not seen and not fails:
            if p.returncode == -9 or "hard rss limit" in stderr:
                if "hard rss limit" in stderr:
                    w, _, i = status.rpartition(" ")
                    fails.append({"key": "memory/rss-limit", "workload": w, "index": int(i or 0), "count": 1,
                                  "detail": "the process exceeded its memory limit\n" + stderr[-2000:]})
                elif not fails:
                    raise CheckError("%s/%s was killed (rc %s)" % (monitor, variant, p.returncode))
            else:
                w, _, i = status.rpartition(" ")
                fails.append({"key": "crash/%s" % w, "workload": w, "index": int(i) if i.isdigit() else 0, "count": 1,
                              "detail": "the process ended with status %s\n%s" % (p.returncode, stderr[-3000:])})
        if res is None and not fails:
            raise CheckError("%s/%s: no result (rc %s)\n%s" % (monitor, variant, p.returncode, stderr[-3000:]))
        for f in fails:
            f["monitor"], f["variant"], f["args"] = monitor, "memcheck" if memcheck else variant, list(args)
        return res, fails, wall
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for l in f:
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", l.strip())
                if m and m.group(1) == prop:
                    out[m.group(2)] = m.group(3)
    return out


def do_check(prop, tier):
    c = CHECKS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    t0 = time.time()
    ev_path = os.path.join(EVIDENCE, prop + ".json")
    os.makedirs(EVIDENCE, exist_ok=True)
    if os.path.exists(ev_path):
        os.remove(ev_path)
    runs = c["runs"]
    try:
        build_s = build({(r[0], "plain" if r[1] == "memcheck" else r[1]) for r in runs})
    except DoesNotCompile as e:
        # Where the property is about what user code expands to or links with, a
        # documented use that no longer builds is a failure.
        if not c.get("compiles"):
            raise
        os.makedirs(REPLAYS, exist_ok=True)
        path = os.path.join(REPLAYS, "%s-0.json" % prop)
        with open(path, "w") as o:
            json.dump({"property": prop, "monitor": runs[0][0], "variant": runs[0][1], "args": [], "seed": seed, "tier": tier,
                       "key": "does-not-compile", "workload": "", "index": 0, "detail": str(e)}, o, indent=1)
        with open(ev_path, "w") as f:
            json.dump({"property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
                       "coverage": {"evaluations": 1, "distinct_nontrivial": 0, "rule": "the documented uses did not build",
                                    "samples": [str(e)[:500]]},
                       "assumptions": [], "wall_s": round(time.time() - t0, 2), "violations": 1}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  key: does-not-compile")
        print("  " + str(e)[-1500:].replace("\n", "\n  "))
        return 1
    deadline = t0 + (780 if tier == "quick" else 3 * 3600)
    per_budget = {"quick": c.get("budget", 150), "thorough": c.get("thorough_budget", 1500)}[tier]
    results = []
    def one(r):
        """-> (failures, result or None, error or None)"""
        monitor, variant = r[0], r[1]
        args = list(r[2]) if len(r) > 2 else []
        b = max(20, min(per_budget, deadline - time.time() - 60))
        try:
            res, f, wall = run_monitor(monitor, variant, tier, seed, args, b)
        except CheckError as e:
            return [], None, e
        if any(x["key"].startswith("hang/") for x in f) and not [x for x in f if not x["key"].startswith("hang/")] and not c.get("only"):
            # A stall can come from the machine: believed only if it repeats.
            h = next(x for x in f if x["key"].startswith("hang/"))
            res2, f2, wall2 = run_monitor(monitor, variant, tier, seed, args, b)
            if not any(x["key"].startswith("hang/") for x in f2):
                print("note: a stall in %s[%s] did not repeat; not reported" % (h["workload"], h["index"]))
                res, f, wall = res2, f2, wall2
        if c.get("only"):
            # this property is about these reports; what else fails is for the property it belongs to
            f = [x for x in f if re.match(c["only"], x["key"])]
        return f, (monitor, variant, args, res, wall), None

    if c.get("parallel"):
        with concurrent.futures.ThreadPoolExecutor(c["parallel"]) as pool:
            answers = list(pool.map(one, runs))
    else:
        answers = []
        for r in runs:
            answers.append(one(r))
            if answers[-1][2] and not any(x[0] for x in answers):
                raise answers[-1][2]
    fails = [f for x in answers for f in x[0]]
    for x in answers:
        if x[2]:
            if not fails:
                raise x[2]
            print("note: %s" % str(x[2])[:500])
        else:
            results.append(x[1])
    known = known_findings(prop)
    new = [f for f in fails if f["key"] not in known]
    for k, what in known.items():
        if any(f["key"] == k for f in fails):
            print("KNOWN-FINDING: property=%s %s [%s]" % (prop, what, k))
    # evidence
    evaluations = sum(sum(r[3]["cases"].values()) for r in results if r[3])
    distinct = sum(r[3]["distinct"] for r in results if r[3])
    samples, events, cases, rules = [], {}, {}, []
    for monitor, variant, args, res, wall in results:
        if not res:
            continue
        tag = "%s/%s" % (monitor, variant)
        samples += ["%s: %s" % (tag, s) for s in res["samples"][:8]]
        for k, v in res["events"].items():
            events["%s:%s" % (tag, k)] = v
        for k, v in res["cases"].items():
            cases["%s:%s" % (tag, k)] = v
        if res["rule"] and res["rule"] not in rules:
            rules.append(res["rule"])
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": c.get("level", "exploration"),
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": distinct,
            "rule": " ".join(rules) or c.get("rule", "the run ended before it described its cases"),
            "samples": samples or ["(no sample: the run ended early)"],
            "cases_per_workload": cases, "observed_events": events,
            "runs": [{"monitor": m, "variant": v, "args": a, "wall_s": round(w, 2),
                      "completed": bool(r and r["complete"])} for m, v, a, r, w in results],
            "build_s": round(build_s, 1),
        },
        "assumptions": c.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    with open(ev_path, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if new:
        os.makedirs(REPLAYS, exist_ok=True)
        for n, f in enumerate(new):
            path = os.path.join(REPLAYS, "%s-%d.json" % (prop, n))
            with open(path, "w") as o:
                json.dump({"property": prop, "seed": seed, "tier": tier, "monitor": f["monitor"], "variant": f["variant"], "args": f["args"],
                           "key": f["key"], "workload": f["workload"], "index": f["index"], "detail": f["detail"]}, o, indent=1)
                o.write("\n")
            print("VIOLATION property=%s replay=%s" % (prop, path))
            print("  key: %s   case: %s[%s]   x%s" % (f["key"], f["workload"], f["index"], f.get("count", 1)))
            print("  " + f["detail"][:700].replace("\n", "\n  "))
            if n >= 9:
                break
        return 1
    if evaluations == 0 or any(r[3] is None for r in results) and not c.get("only"):
        raise CheckError("no evaluation was made")
    print("OK property=%s tier=%s evaluations=%d distinct=%d wall=%.1fs (build %.1fs)" % (prop, tier, evaluations, distinct, time.time() - t0, build_s))
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == "--list":
        print("\n".join(CHECKS))
        return 0
    if a and a[0] == "--build":
        build({(r[0], "plain" if r[1] == "memcheck" else r[1]) for c in CHECKS.values() for r in c["runs"]})
        return 0
    if a and a[0] == "--replay":
        with open(a[1]) as f:
            r = json.load(f)
        build({(r["monitor"], "plain" if r["variant"] == "memcheck" else r["variant"])})
        res, fails, wall = run_monitor(r["monitor"], r["variant"], r["tier"], r["seed"], r.get("args", []), 300, (r["workload"], r["index"]))
        for f in fails:
            print("%s: %s" % (f["key"], f["detail"][:3000]))
        return 1 if fails else 0
    if not a or a[0] not in CHECKS:
        print(__doc__)
        return 2
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    try:
        return do_check(a[0], tier)
    except CheckError as e:
        print("CHECK-ERROR property=%s %s" % (a[0], e))
        return 2


if __name__ == "__main__":
    sys.exit(main())
