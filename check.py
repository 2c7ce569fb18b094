#!/usr/bin/env python3
"""Driver of every check.

  check.py run <property> [quick|thorough]   build from /repo, explore, evidence, verdict
  check.py replay <replay.json> [property]   re-run one recorded failing case
  check.py setup                             build everything once (optional cache)

Exit 0: held on everything explored.  Exit 1 + "VIOLATION property=.. replay=..": broken.
"""
import glob
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(HERE, "build")
sys.path.insert(0, HERE)
from props import PROPS  # noqa: E402

DEFS = ("-DHAVE_GNUTLS -DHAVE_PAM -DHAVE_PTHREADS -DHAVE_REDIS -DHAVE_SQLITE3 -DHAVE_SYSTEMD -DHAVE_WEBDAV "
        "-DJPEG_ENABLED -DPNG_ENABLED -DONION_VERSION=\"0.8.0.GIT\" -D_BSD_SOURCE -D_DEFAULT_SOURCE "
        "-D_ISOC99_SOURCE -D_POSIX_C_SOURCE=200112L").split()
LIBS = "-lrt -lxml2 -lpam -lgcrypt -lgnutls -lpthread -lsqlite3 -lhiredis -lsystemd -lpng -ljpeg -lz -ldl".split()
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize=function,alignment,vptr,shift,pointer-overflow,nonnull-attribute,nullability", "-fno-sanitize-recover=all"]
VARIANTS = {
    "asan": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-g", "-fno-omit-frame-pointer"] + ASAN, "ld": ASAN},
    "tsan": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-g", "-fsanitize=thread"], "ld": ["-fsanitize=thread"]},
    "fuzz": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=fuzzer-no-link"] + ASAN, "ld": ["-fsanitize=fuzzer"] + ASAN},
    "plain": {"cc": "clang", "cxx": "clang++", "flags": ["-O1", "-g"], "ld": []},
}
ENV = dict(os.environ)
ENV.update({"LANG": "C.UTF-8", "TZ": "UTC", "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:max_allocation_size_mb=2048",
            "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1", "TSAN_OPTIONS": "halt_on_error=1:exitcode=87:second_deadlock_stack=1:history_size=4"})
ENV.pop("ONION_LOG", None)
SKIP = {"poller_libev.c", "poller_libevent.c", "random-default.c"}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()


def read(p):
    with open(p, "rb") as f:
        return f.read()


def compile_one(cmd, src, obj):
    """cmd without -o; skips when the command and the content of every dependency are unchanged."""
    dep, hf = obj + ".d", obj + ".hash"

    def key():
        try:
            txt = read(dep).decode(errors="replace").replace("\\\n", " ")
            files = [t for t in re.split(r"\s+", txt.split(":", 1)[1]) if t]
            return sha(" ".join(cmd), *[f + sha(read(f)) for f in files if not f.startswith("/usr/")])
        except (OSError, IndexError):
            return None
    if os.path.exists(obj) and os.path.exists(hf) and read(hf).decode() == key():
        return None
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    r = subprocess.run(cmd + ["-MD", "-MF", dep, "-MT", "x", "-c", src, "-o", obj], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd + [src]), r.stdout.decode(errors="replace")[-6000:]))
    with open(hf, "w") as f:
        f.write(key() or "")
    return obj


def gen_version(incdir):
    t = read(os.path.join(REPO, "src/onion/version.h.in")).decode()
    vals = {"ONION_VERSION": "0.8.0.GIT", "ONION_VERSION_MAJOR": "0", "ONION_VERSION_MINOR": "8", "ONION_VERSION_PATCH": "0"}
    def cm(m):
        k = m.group(1)
        if k not in vals or vals[k] == "0":
            return "/* #undef %s */" % k
        return "#define %s%s" % (k, re.sub(r"@(\w+)@", lambda x: vals.get(x.group(1), ""), m.group(2)))
    t = re.sub(r"#cmakedefine (\w+)([^\n]*)", cm, t)
    t = re.sub(r"@(\w+)@", lambda x: vals.get(x.group(1), ""), t)
    os.makedirs(os.path.join(incdir, "onion"), exist_ok=True)
    p = os.path.join(incdir, "onion/version.h")
    if not os.path.exists(p) or read(p).decode() != t:
        with open(p, "w") as f:
            f.write(t)


def lib_sources():
    res = []
    for d in ("src/onion", "src/onion/handlers", "src/onion/extras"):
        for f in sorted(os.listdir(os.path.join(REPO, d))):
            if f.endswith(".c") and f not in SKIP:
                res.append(os.path.join(d, f))
    return res


def build(prop, variant, out=None):
    """Builds the harness of a property. Returns the path of the binary."""
    P = PROPS[prop]
    v = VARIANTS[variant]
    bd = os.path.join(BUILD, variant)
    inc = os.path.join(bd, "include")
    gen_version(inc)
    incs = ["-I" + os.path.join(REPO, "src"), "-I" + inc, "-I/usr/include/libxml2"]
    ccmd = [v["cc"], "-std=gnu11", "-w"] + v["flags"] + DEFS + incs
    jobs = []
    objs = []
    for s in lib_sources():
        o = os.path.join(bd, "repo", s + ".o")
        objs.append(o)
        extra = P.get("lib_cflags", {}).get(os.path.basename(s), [])
        if extra:
            o = os.path.join(bd, "repo-" + prop, s + ".o")
            objs[-1] = o
        jobs.append((ccmd + extra, os.path.join(REPO, s), o))
    cxxcmd = [v["cxx"], "-std=gnu++17", "-w"] + v["flags"] + DEFS + incs + ["-I" + os.path.join(HERE, "h"), "-I" + os.path.join(REPO, "src/bindings/cpp"), '-DREPO_DIR="%s"' % REPO, '-DVERIF_DIR="%s"' % HERE, '-DGEN_INC="%s"' % inc]
    if P.get("cpp_bindings"):
        d = os.path.join(REPO, "src/bindings/cpp")
        for f in sorted(os.listdir(d)):
            if f.endswith(".cpp"):
                o = os.path.join(bd, "repo/cpp", f + ".o")
                objs.append(o)
                jobs.append((cxxcmd, os.path.join(d, f), o))
    rx = [os.path.relpath(f, REPO) for g in P.get("repo_extra", []) for f in sorted(glob.glob(os.path.join(REPO, g)))]
    for s in rx:
        o = os.path.join(bd, "repo-" + prop, s + ".o")
        objs.append(o)
        jobs.append((ccmd + P.get("extra_cflags", []), os.path.join(REPO, s), o))
    hflags = ["-DPBT_FUZZ"] if variant == "fuzz" else []
    for s in ["h/pbt.cpp", "h/" + P["src"]] + ["h/" + x for x in P.get("extra_src", [])]:
        o = os.path.join(bd, "h", prop if s == "h/" + P["src"] else "", os.path.basename(s) + ".o")
        objs.append(o)
        fl = hflags + (P.get("cxxflags", []) if s == "h/" + P["src"] else [])
        jobs.append(((cxxcmd if s.endswith("pp") else ccmd) + fl, os.path.join(HERE, s), o))
    with cf.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        changed = [r for r in ex.map(lambda j: compile_one(*j), jobs)]
    binp = os.path.join(bd, "bin", prop)
    os.makedirs(os.path.dirname(binp), exist_ok=True)
    link = [v["cxx"]] + v["ld"] + objs + ["-Wl,--wrap=" + w for w in P.get("wrap", [])] + LIBS + P.get("libs", []) + ["-o", binp]
    lk = sha(" ".join(link), *[read(o + ".hash") for o in objs])
    if not os.path.exists(binp) or any(changed) or not os.path.exists(binp + ".hash") or read(binp + ".hash").decode() != lk:
        r = subprocess.run(link, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("link: " + r.stdout.decode(errors="replace")[-6000:])
        with open(binp + ".hash", "w") as f:
            f.write(lk)
    return binp


def known(prop):
    """-> {key: text} of the active (not fixed) findings of a property."""
    res = {}
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res[m.group(2)] = m.group(3)
    return res


def fuzz(prop, seconds, seed, kn, replay, log):
    """Coverage-guided exploration (libFuzzer drives the choice sequence). Returns dict or None."""
    b = build(prop, "fuzz")
    shr = build(prop, "asan")
    work = tempfile.mkdtemp(prefix="verif-fuzz-")
    try:
        env = dict(ENV)
        env["PBT_KNOWN"] = ",".join(kn)
        env["TMPDIR"] = work
        jobs = 8
        procs = []
        for j in range(jobs):
            c = os.path.join(work, "corpus%d" % j)
            os.makedirs(c)
            procs.append(subprocess.Popen([b, c, "-seed=%d" % (seed * 100 + j + 1), "-max_total_time=%d" % seconds, "-max_len=4096", "-timeout=30", "-rss_limit_mb=3000",
                                           "-artifact_prefix=%s/art%d-" % (work, j), "-print_final_stats=1", "-verbosity=1"],
                                          env=env, stdout=subprocess.DEVNULL, stderr=open(os.path.join(work, "log%d" % j), "w"), cwd=work))
        for p in procs:
            p.wait()
        execs = cov = 0
        corpus = 0
        for j in range(jobs):
            t = read(os.path.join(work, "log%d" % j)).decode(errors="replace")
            m = re.search(r"stat::number_of_executed_units: (\d+)", t)
            execs += int(m.group(1)) if m else 0
            m = re.findall(r"cov: (\d+)", t)
            cov = max([cov] + [int(x) for x in m[-1:]])
            corpus += len(os.listdir(os.path.join(work, "corpus%d" % j)))
        res = {"executions": execs, "edge_coverage": cov, "corpus_inputs": corpus, "seconds": seconds, "violation": False}
        for f in sorted(os.listdir(work)):
            if f.startswith("art"):
                out = os.path.join(work, "o.json")
                subprocess.run([shr, "--bytes", os.path.join(work, f), "--replay-out", replay, "--out", out, "--known", ",".join(kn)], env=ENV, stdout=log, stderr=log)
                if os.path.exists(out):
                    d = json.load(open(out))
                    if d.get("status") == "violated":
                        res["violation"] = True
                        res["message"] = d["message"]
                        break
        return res
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(prop, tier):
    t0 = time.time()
    P = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    replay = os.path.join(HERE, "replays", "%s-%s-%d.json" % (prop, tier, seed))
    if os.path.exists(replay):
        os.unlink(replay)
    if "runner" in P:                      # tool-level checks written in Python
        import importlib
        mod = importlib.import_module(P["runner"])
        cov, viol = mod.run(prop, tier, seed, replay, known(prop))
        return finish(prop, tier, seed, cov, viol, replay, t0)
    kn = known(prop)
    phases = []
    cov = {"evaluations": 0, "distinct_nontrivial": 0, "rule": "", "samples": [], "labels": {}, "phases": phases}
    viol = None
    hits = {}
    for variant in P.get("variants", ["asan"]):
        secs = P.get("quick_s", 20) if tier == "quick" else P.get("thorough_s", 300)
        secs = secs * P.get("share", {}).get(variant, 1.0)
        b = build(prop, variant)
        tb = time.time() - t0
        d = explore(P, b, variant, tb, secs, seed, kn, replay, cov, hits)
        for again in (1, 2):               # a candidate that did not repeat ends the exploration: go on with other cases
            if d["status"] == "unconfirmed" and time.time() - t0 < 300 + secs:
                d = explore(P, b, variant, tb, secs, seed + 1000003 * again, kn, replay, cov, hits)
        if d["status"] == "violated":
            viol = d
            break
    if viol is None and tier == "thorough" and P.get("fuzz_s"):
        f = fuzz(prop, P["fuzz_s"], seed, kn, replay, sys.stderr)
        cov["coverage_guided"] = f
        cov["evaluations"] += f["executions"]
        if f["violation"]:
            viol = {"message": f["message"], "case": "", "report": ""}
    cov["known_findings_hit"] = hits
    for k, text in kn.items():
        print("KNOWN-FINDING: property=%s %s (key %s)" % (prop, text, k))
    return finish(prop, tier, seed, cov, viol, replay, t0)


def explore(P, b, variant, tb, secs, seed, kn, replay, cov, hits):
    """One run of the random exploration of a built harness; adds to cov and hits. -> its report"""
    out = tempfile.mktemp(prefix="verif-out-")
    try:
        cmd = [b, "--seed", str(seed), "--time", str(secs), "--mincases", str(P.get("mincases", 0)), "--jobs", str(P.get("jobs", 8)),
               "--out", out, "--replay-out", replay, "--known", ",".join(kn), "--shrink", str(P.get("shrink_s", 45))]
        r = subprocess.run(cmd, env=ENV, stdout=sys.stdout, stderr=sys.stderr)
        d = json.load(open(out))
    finally:
        if os.path.exists(out):
            os.unlink(out)
    cov["phases"].append({"variant": variant, "build_s": round(tb, 1), "run_s": d["wall_s"], "evaluations": d["evaluations"], "status": d["status"]})
    cov["evaluations"] += d["evaluations"]
    cov["distinct_nontrivial"] = max(cov["distinct_nontrivial"], d["distinct_nontrivial"])
    cov["rule"] = d["rule"]
    cov["samples"] = cov["samples"] or d["samples"]
    for k, n in d["labels"].items():
        cov["labels"][k] = cov["labels"].get(k, 0) + n
    for k, n in d["known_hits"].items():
        hits[k] = hits.get(k, 0) + n
    if d["status"] == "unconfirmed":
        cov["phases"][-1]["unconfirmed"] = d["message"]
        print("note: a candidate failure did not reproduce and is not reported: " + d["message"])
    return d


def finish(prop, tier, seed, cov, viol, replay, t0):
    P = PROPS[prop]
    ev = {"property": prop, "tier": tier, "seed": seed, "level": P.get("level", "exploration"), "coverage": cov,
          "assumptions": P.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": 1 if viol else 0}
    if viol:
        ev["violation"] = {"message": viol.get("message"), "case": viol.get("case", "")[:2000]}
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %.1fs" % (prop, tier, seed, cov.get("evaluations", 0), cov.get("distinct_nontrivial", 0), ev["wall_s"]))
    if viol:
        print("message: " + str(viol.get("message")))
        print("case: " + str(viol.get("case", ""))[:3000])
        if viol.get("report"):
            print("report: " + viol["report"].split("Shadow bytes")[0][:2500])
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


def main():
    a = sys.argv[1:]
    if not a:
        print(__doc__)
        return 2
    try:
        if a[0] == "run":
            return run(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick"))
        if a[0] == "replay":
            prop = a[2] if len(a) > 2 else os.path.basename(a[1]).split("-")[0]
            if "runner" in PROPS[prop]:
                import importlib
                return importlib.import_module(PROPS[prop]["runner"]).replay(prop, a[1])
            b = build(prop, PROPS[prop].get("variants", ["asan"])[0])
            return subprocess.run([b, "--replay", a[1]], env=ENV).returncode
        if a[0] == "build":
            print(build(a[1], a[2] if len(a) > 2 else PROPS[a[1]].get("variants", ["asan"])[0]))
            return 0
        if a[0] == "setup":
            for p, P in PROPS.items():
                if "src" in P:
                    for v in P.get("variants", ["asan"]):
                        build(p, v)
            return 0
    except BuildError as e:
        print("BUILD FAILED\n%s" % e, file=sys.stderr)
        return 2
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
