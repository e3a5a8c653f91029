#!/usr/bin/env python3
"""Runs the check of one property: builds its harnesses from /repo's working
tree, explores, replays what fails, writes evidence/<id>.json.

  check.py C01 [--tier quick|thorough] [--only KEY --unit UNIT]
Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
"""
import concurrent.futures as cf, json, mmap, os, re, resource, shutil, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "tools"))
import specs  # noqa: E402

JOBS = os.cpu_count() or 4
SAN_ENV = {
    "ASAN_OPTIONS": "exitcode=99:detect_leaks=0:allocator_may_return_null=1:max_allocation_size_mb=3000:hard_rss_limit_mb=3500:abort_on_error=0:detect_stack_use_after_return=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:hard_rss_limit_mb=3500",
    "OPENBLAS_NUM_THREADS": "1", "OMP_NUM_THREADS": "1", "LC_ALL": "C.UTF-8",
}
MODES = {
    "fast": ["-O2"],
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
             "-fno-omit-frame-pointer"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
    # Instrumented for the controlled scheduler (harness/sched_rt.cc); libtsan is not linked.
    "sched": ["-O1", "-g1", "-fsanitize=thread", "-D_GLIBCXX_EXTERN_TEMPLATE=0"],
}
LINK = {"sched": ["-Wl,--wrap=memcpy", "-Wl,--wrap=memmove", "-Wl,--wrap=memset", "-Wl,--wrap=memcmp", "-Wl,--wrap=free", "-ldl"]}


SANITIZED = set()    # programs whose memory the sanitizer limits


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def build(prop, spec, bdir):
    """Compiles all units; returns {unit name: executable}."""
    os.makedirs(bdir, exist_ok=True)
    jobs, links = [], []
    for u in spec["units"]:
        mode = u.get("mode", "fast")
        # The shim directory comes after /repo; shims only stand in for
        # libraries that are not installed (see DESIGN.md).
        flags = ["-std=c++20", "-DNDEBUG", "-DMETADATA_COMPRESSION_DEFAULT=true", "-w", "-pthread",
                 "-I" + os.path.join(VERIF, "lib"), "-I" + REPO]
        flags += ["-I" + os.path.join(VERIF, s) for s in u.get("shims", ["shims"])]
        flags += MODES[mode] + [f.replace("@REPO@", REPO).replace("@VERIF@", VERIF) for f in u.get("flags", [])]
        objs = []
        srcs = [os.path.join(VERIF, "harness", s) for s in u["harness"]] + [os.path.join(REPO, s) for s in u.get("repo", [])]
        for i, s in enumerate(srcs):
            o = os.path.join(bdir, "%s_%02d_%s.o" % (u["name"], i, os.path.basename(s).replace(".", "_")))
            objs.append(o)
            plain = ["-fno-sanitize=all", "-U_GLIBCXX_EXTERN_TEMPLATE"] if os.path.basename(s) == "sched_rt.cc" else []
            jobs.append((["g++"] + flags + plain + ["-c", s, "-o", o], s))
        exe = os.path.join(bdir, u["name"])
        if mode in ("asan", "tsan"):
            SANITIZED.add(exe)
        links.append((["g++", "-pthread"] + LINK.get(mode, MODES[mode]) + u.get("ldflags", []) + objs + ["-o", exe] + u.get("libs", []), exe, u["name"]))
    # Identical compilations (same source and flags) are done once.
    def one(job):
        r = sh(job[0])
        if r.returncode:
            raise BuildError("compiling %s failed:\n%s" % (job[1], r.stderr[-6000:]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(one, jobs))
    def link(l):
        r = sh(l[0])
        if r.returncode:
            raise BuildError("linking %s failed:\n%s" % (l[1], r.stderr[-6000:]))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        list(ex.map(link, links))
    return {l[2]: l[1] for l in links}


def limit_memory():
    resource.setrlimit(resource.RLIMIT_DATA, (4 << 30, 4 << 30))


def run_one(exe, bdir, tag, tier, shard=0, nshards=1, only=None, hang=60, timeout=None, env_extra=None):
    out = os.path.join(bdir, tag + ".json")
    cur = os.path.join(bdir, tag + ".cur")
    for f in (out, cur):
        if os.path.exists(f):
            os.remove(f)
    cmd = [exe, "--tier", tier, "--shard", str(shard), "--nshards", str(nshards), "--out", out, "--cur", cur, "--hang", str(hang)]
    if only is not None:
        cmd += ["--only", only]
    env = dict(os.environ)
    env.update(SAN_ENV)
    env.update(env_extra or {})
    scratch = os.path.join(bdir, tag + ".dir")
    shutil.rmtree(scratch, ignore_errors=True)
    os.makedirs(scratch)
    errf = os.path.join(bdir, tag + ".err")
    try:
        with open(errf, "w") as ef:
            r = subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=env, cwd=scratch, timeout=timeout,
                               preexec_fn=None if exe in SANITIZED else limit_memory)
        rc = r.returncode
    except subprocess.TimeoutExpired:
        rc = "timeout"
    shutil.rmtree(scratch, ignore_errors=True)
    with open(errf, errors="replace") as f:
        err = f.read()[-200000:]
    res = dict(rc=rc, err=err, key=None, hang=False, data=None)
    if rc == 0:
        try:
            with open(out) as f:
                res["data"] = json.load(f)
        except (OSError, ValueError) as e:
            res["rc"] = "nooutput %s" % e
    if res["data"] is None and os.path.exists(cur):
        raw = open(cur, "rb").read()
        if len(raw) >= 16:
            res["hang"] = struct.unpack_from("Q", raw, 8)[0] == 1
            res["key"] = raw[16:].split(b"\0")[0].decode("latin-1")
    return res


def crash_text(res):
    if res["hang"]:
        return "the code under test does not terminate (no progress within the limit)"
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|runtime error: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|terminate called[^\n]*\n[^\n]*|[^\n]*Assertion[^\n]*)", res["err"])
    return "the code under test crashed (exit %s)%s" % (res["rc"], ": " + m.group(1).strip() if m else "")


def main():
    args = sys.argv[1:]
    prop = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    only = unit_only = None
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--only":
            only = args.pop(0)
        elif a == "--unit":
            unit_only = args.pop(0)
    t0 = time.time()
    spec = specs.SPECS[prop]
    bdir = os.path.join(os.environ.get("VP_BUILD", os.path.join(VERIF, "build")), prop)
    shutil.rmtree(bdir, ignore_errors=True)
    try:
        exes = build(prop, spec, bdir)
    except BuildError as e:
        # The tree does not build with the harness: no verdict either way.
        print("CHECK-ERROR property=%s the harness does not build against this tree" % prop)
        print(str(e))
        sys.exit(2)
    t_build = time.time() - t0
    known = []
    kf = os.path.join(VERIF, "known_findings.jsonl")
    if os.path.exists(kf):
        for line in open(kf):
            line = line.strip()
            if line:
                k = json.loads(line)
                if k.get("property") == prop and k.get("status") == "known":
                    known.append(k)

    if only is not None:   # replay one case
        code = 0
        for u in spec["units"]:
            if unit_only and u["name"] != unit_only:
                continue
            res = run_one(exes[u["name"]], bdir, "replay", tier, only=only, hang=150)
            if res["data"] is None:
                print("REPLAY %s: %s" % (u["name"], crash_text(res)))
                code = 1
            elif res["data"]["violations"]:
                print("REPLAY %s: %s" % (u["name"], res["data"]["violations"][0]["msg"]))
                code = 1
            else:
                print("REPLAY %s: %d case(s), held" % (u["name"], res["data"]["states"]))
        sys.exit(code)

    # Explore: all shards of all units.
    tasks = []
    for u in spec["units"]:
        n = u.get("shards", JOBS)
        if isinstance(n, dict):
            n = n[tier]
        tasks += [(u, i, n) for i in range(n)]
    tasks.sort(key=lambda t: -t[0].get("weight", 1))
    limit = 840 if tier == "quick" else 6 * 3600
    deadline = t0 + limit

    def go(t):
        u, i, n = t
        left = max(5.0, deadline - time.time())
        return t, run_one(exes[u["name"]], bdir, "%s_%d" % (u["name"], i), tier, i, n, timeout=left, hang=u.get("hang", 60))
    with cf.ThreadPoolExecutor(JOBS) as ex:
        results = list(ex.map(go, tasks))

    tot = dict(states=0, transitions=0, traces=0)
    outcomes, samples, extra, per_unit = set(), [], {}, {}
    cands = []       # (unit, shard, n, key, msg, crashed)
    incomplete = []
    for (u, i, n), res in results:
        d = res["data"]
        pu = per_unit.setdefault(u["name"], dict(states=0, transitions=0, traces=0, distinct_outcomes=set()))
        if d is None:
            if res["rc"] == "timeout":
                incomplete.append("%s shard %d: out of time at case %s" % (u["name"], i, res["key"]))
            else:
                cands.append((u, i, n, res["key"] or "", crash_text(res), True))
            continue
        for k in ("states", "transitions", "traces"):
            tot[k] += d[k]
            pu[k] += d[k]
        pu["distinct_outcomes"].update(d["outcomes"])
        outcomes.update(u["name"] + o for o in d["outcomes"])
        if len(samples) < 12:
            samples += [dict(unit=u["name"], case=s) for s in d["samples"][: 3 if i == 0 else 1]]
        for k, v in d["extra"].items():
            extra[k] = extra.get(k, 0) + v
        for v in d["violations"]:
            cands.append((u, i, n, v["key"], v["msg"], False))
    violations, known_hits, unconfirmed = [], {}, []
    cands.sort(key=lambda c: (len(c[3]), c[3]))   # the shortest case first
    tried = 0
    for u, i, n, key, msg, crashed in cands:
        kn = [k for k in known if k.get("unit") == u["name"] and k.get("key") == key]
        if kn:
            known_hits[key] = kn[0]
            continue
        if violations or tried >= 6:
            continue
        tried += 1
        how = "single case"
        res = run_one(exes[u["name"]], bdir, "confirm", tier, only=key, hang=150, timeout=400)
        ok = (res["data"] is None and res["rc"] != "timeout") or (res["data"] and res["data"]["violations"])
        if not ok:  # depends on earlier cases in the same process: replay the shard
            how = "shard %d of %d" % (i, n)
            res = run_one(exes[u["name"]], bdir, "confirm", tier, i, n, hang=150, timeout=600)
            ok = (res["data"] is None and res["rc"] != "timeout") or (res["data"] and any(v["key"] == key for v in res["data"]["violations"]))
        if ok or u.get("nondeterministic"):
            violations.append((u["name"], key, msg, how, i, n, res["err"][-4000:] if res["data"] is None else ""))
        else:
            unconfirmed.append((u["name"], key, msg))

    wall = time.time() - t0
    n_viol = len(cands) - len(known_hits)
    ev = dict(property=prop, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1")), level=spec.get("level", "model_checking"),
              coverage=dict(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                            distinct_outcomes=len(outcomes), exhaustive=not incomplete and not any(c[5] for c in cands),
                            samples=samples[:12], bounds=spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
                            meaning=spec.get("meaning", specs.MEANING), extra=extra,
                            units={k: dict(v, distinct_outcomes=len(v["distinct_outcomes"])) for k, v in per_unit.items()},
                            build_s=round(t_build, 1)),
              assumptions=spec.get("assumptions", []) + specs.COMMON_ASSUMPTIONS, wall_s=round(wall, 2), violations=n_viol)
    if incomplete:
        ev["coverage"]["incomplete"] = incomplete
    if unconfirmed:
        ev["coverage"]["unconfirmed"] = [list(x) for x in unconfirmed]
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s: states=%d transitions=%d traces=%d distinct_outcomes=%d build=%.1fs wall=%.1fs" % (
        prop, tier, tot["states"], tot["transitions"], tot["traces"], len(outcomes), t_build, wall))
    for name, v in per_unit.items():
        print("  unit %s: states=%d transitions=%d distinct_outcomes=%d" % (name, v["states"], v["transitions"], len(v["distinct_outcomes"])))
    for key, k in sorted(known_hits.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    for x in unconfirmed:
        print("UNCONFIRMED (not reproduced on replay, not reported): %s %s: %s" % x)
    for x in incomplete:
        print("INCOMPLETE: " + x)
    if violations:
        name, key, msg, how, i, n, err = violations[0]
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s.json" % prop)
        with open(path, "w") as f:
            json.dump(dict(property=prop, tier=tier, unit=name, case=key, what=msg, reproduced_by=how,
                           replay_cmd=["python3", "check.py", prop, "--tier", tier, "--unit", name, "--only", key],
                           shard=[i, n], stderr=err), f, indent=1)
        print("  unit=%s case=%s" % (name, key))
        print("  %s" % msg)
        print("  failing cases seen: %d" % n_viol)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        sys.exit(1)
    if incomplete and not tot["states"]:
        sys.exit(2)
    min_states = spec.get("min_states", 1)
    if tot["states"] < min_states:
        print("CHECK-ERROR property=%s explored only %d states" % (prop, tot["states"]))
        sys.exit(2)
    if os.environ.get("VP_KEEP") is None:
        shutil.rmtree(bdir, ignore_errors=True)
    sys.exit(0)


if __name__ == "__main__":
    main()
