#!/usr/bin/env python3
"""Property checks for libfork.

  vf.py run <ID>            check one property (VERIF_SEED, VERIF_TIER=quick|thorough)
  vf.py replay <FILE>       rebuild the harness named in a replay file and re-run that case verbosely
  vf.py setup               sanity-check the tool chain and pre-build the engine
  vf.py list                list properties and their harnesses
"""
import array, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NPROC = int(os.environ.get("VERIF_JOBS", "8"))

WRAPS = ",".join("--wrap=" + s for s in
                 ["malloc", "free", "calloc", "realloc", "aligned_alloc", "posix_memalign"])


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


class BuildError(Exception):
    pass


def compile_obj(cmd, out):
    r = sh(cmd + ["-o", out])
    if r.returncode:
        raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])


def build(jobs, outdir):
    """Compile the engine variants and every harness of `jobs` from REPO's working tree, in parallel."""
    os.makedirs(outdir, exist_ok=True)
    E = os.path.join(HERE, "engine")
    kinds = {j["kind"] for j in jobs}
    todo = []
    if "sim" in kinds:
        todo.append((["clang++", "-std=c++20", "-O2", "-g", "-c", f"{E}/vfrt.cpp"], f"{outdir}/vfrt.o"))
        todo.append((["clang++", "-std=c++20", "-O2", "-g", "-c", f"{E}/vfdrv.cpp"], f"{outdir}/vfdrv.o"))
    if "asan" in kinds:
        todo.append((["g++", "-std=c++20", "-O1", "-g", "-DVF_NATIVE", "-fsanitize=address,undefined", "-c",
                      f"{E}/vfdrv.cpp"], f"{outdir}/vfdrv_asan.o"))
    if "plain" in kinds:
        todo.append((["g++", "-std=c++20", "-O1", "-g", "-DVF_NATIVE", "-c", f"{E}/vfdrv.cpp"],
                     f"{outdir}/vfdrv_plain.o"))
    base_inc = [f"-I{REPO}/include", f"-I{HERE}", f"-I{E}"]
    for j in jobs:
        src = os.path.join(HERE, j["src"])
        defs = ["-D" + d for d in j.get("defs", [])] + [f'-DVF_REPO="{REPO}"']
        inc = ["-I" + i.format(REPO=REPO, HERE=HERE) for i in j.get("inc", [])] + base_inc
        for name, asrc in j.get("aux", []):  # further executables the harness runs
            todo.append((["g++", "-std=c++23", "-O1", "-w", "-fcoroutines", f"-I{REPO}/include", asrc.format(REPO=REPO)],
                         f"{outdir}/{name}"))
        if j["kind"] == "sim":
            cmd = ["clang++", "-std=c++23", j.get("opt", "-O1"), "-g", "-fsanitize=thread", "-femulated-tls",
                   "-mllvm", "-tsan-instrument-func-entry-exit=0", "-w", *inc,
                   "-include", f"{E}/prelude.hpp", *defs, "-c", src]
        elif j["kind"] == "asan":
            cmd = ["g++", "-std=c++23", j.get("opt", "-O1"), "-g", "-w", "-fcoroutines", "-fsanitize=address,undefined",
                   "-fno-sanitize-recover=all", *inc, *defs, "-c", src]
        else:
            cxx = ["clang++"] if j.get("cxx") == "clang" else ["g++", "-fcoroutines"]
            cmd = [*cxx, "-std=c++23", j.get("opt", "-O2"), "-g", "-w", *inc, *defs, "-c", src]
        todo.append((cmd, f"{outdir}/{j['name']}.o"))
    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(lambda a: compile_obj(*a), todo))
    for j in jobs:
        out = f"{outdir}/{j['name']}"
        o = f"{out}.o"
        libs = j.get("libs", [])
        if j["kind"] == "sim":
            cmd = ["clang++", o, f"{outdir}/vfrt.o", f"{outdir}/vfdrv.o", "-o", out, "-pthread", "-ldl",
                   "-Wl," + WRAPS, *libs]
        elif j["kind"] == "asan":
            cmd = ["g++", "-fsanitize=address,undefined", o, f"{outdir}/vfdrv_asan.o", "-o", out, "-pthread", *libs]
        else:
            cmd = ["g++", o, f"{outdir}/vfdrv_plain.o", "-o", out, "-pthread", *libs]
        r = sh(cmd)
        if r.returncode:
            raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout[-6000:])
        j["bin"] = out


def env_for(job):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=79:detect_leaks=%d:abort_on_error=0:detect_stack_use_after_return=0" % (
        1 if job.get("leaks") else 0)
    e["UBSAN_OPTIONS"] = "print_stacktrace=1"
    e["LSAN_OPTIONS"] = "exitcode=79"
    e.setdefault("TMPDIR", "/tmp")
    e.update(job.get("env", {}))
    return e


def read_state(path):
    with open(path, "rb") as f:
        d = f.read()
    magic, caseno, sched, n, _ = struct.unpack_from("<QQQII", d, 0)
    msg = d[32:32 + 2048].split(b"\0", 1)[0].decode("utf8", "replace")
    v = list(array.array("I", d[2080:2080 + 4 * n]))
    return caseno, sched, msg, v


def sanitizer_msg(log):
    try:
        t = open(log, errors="replace").read()
    except OSError:
        return ""
    for pat in (r"runtime error: .*", r"ERROR: \w+Sanitizer: .*", r"Assertion .* failed.*", r"FAIL .*",
                r"terminate called.*"):
        m = re.search(pat, t)
        if m:
            return m.group(0)[:600]
    return t.strip().splitlines()[-1][:600] if t.strip() else ""


def write_case(path, pid, job, sched, choices, msg, extra=()):
    with open(path, "w") as f:
        f.write(f"# property {pid}\n# harness {job['name']}\n# failure {' '.join(msg.split())[:900]}\n")
        f.write(f"# replay: python3 {HERE}/vf.py replay {path}\n")
        for x in extra:
            f.write(f"# {x}\n")
        f.write(f"sched {sched}\nchoices {' '.join(map(str, choices))}\n")


def run_bin(job, args, timeout, log):
    """-> (returncode or None on timeout, message)"""
    with open(log, "w") as lf:
        p = subprocess.Popen([job["bin"], *args], stdout=lf, stderr=subprocess.STDOUT, env=env_for(job),
                             cwd=os.path.dirname(job["bin"]), start_new_session=True)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            return None, "hang: time limit"
    return rc, (sanitizer_msg(log) if rc else "")


FAILRC = lambda rc: rc is not None and rc not in (0, 2, -9)


def minimise(pid, job, shard, seed, state, log, tier, out):
    """Turn a failed shard into a replay file; returns (path, message) or None if it could not be confirmed."""
    caseno, sched, msg, choices = read_state(state)
    msg = msg or sanitizer_msg(log)
    key = hashlib.sha1((job["name"] + str(choices) + str(sched)).encode()).hexdigest()[:10]
    rdir = os.path.join(HERE, "replays")
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{pid}-{key}.case")
    write_case(path, pid, job, sched, choices, msg)
    wd = str(job.get("watchdog", 60))
    threads = job.get("threads", False)
    tries = "1" if not threads else "60" if tier == "quick" else "200"
    tmax = 100 if tier == "quick" else 300
    rc, m2 = run_bin(job, ["replay", "--case", path, "--tries", tries, "--watchdog", wd], tmax, f"{out}/replay.log")
    if threads and rc is None:
        rc = 0  # the binary's own watchdog did not fire in any of the tries
    hang = "hang:" in msg
    if not FAILRC(rc) and rc is not None:
        # not reproducible from the recorded choices alone: state carried across cases, or a real race
        if hang:
            print(f"note: unreproduced watchdog expiry in {job['name']}: {msg}", flush=True)
            return None
        write_case(path, pid, job, sched, choices, msg,
                   [f"not reproduced in isolation; re-run: {job['bin']} run --seed {seed} --shard {shard}"])
        return path, msg
    small = path + ".small"
    st = "40" if not threads else "10"
    limit = 60 if tier == "quick" else 400
    run_bin(job, ["shrink", "--case", path, "--tries", st, "--time", "40" if tier == "quick" else "300",
                  "--save", small, "--watchdog", "10"], limit, f"{out}/shrink.log")
    if os.path.exists(small):
        rc, m3 = run_bin(job, ["replay", "--case", small, "--tries", tries, "--watchdog", wd], tmax,
                         f"{out}/replay.log")
        if FAILRC(rc):
            txt = open(small).read().split("\n")
            write_case(path, pid, job, int(txt[0].split()[1]), [int(x) for x in txt[1].split()[1:]], m3 or msg,
                       [f"shrunk from {len(choices)} choices"])
            msg = m3 or msg
        os.unlink(small)
    return path, msg


def known_findings():
    """Lines `known: property=<id> match=/<regex on the failure message>/ <what fails>`; `fixed:` lines suppress nothing."""
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) match=/(.*?)/ (.*)", l)
            if m:
                out.append({"property": m[1], "match": m[2], "what": m[3].strip()})
    return out


def run(pid):
    t0 = time.time()
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    C = CHECKS[pid]
    jobs = [dict(j) for j in C["jobs"]]
    for j in jobs:
        j.setdefault("kind", "sim")
        j.setdefault("weight", 1)
    out = os.path.join(BUILD, pid)
    shutil.rmtree(out, ignore_errors=True)
    try:
        build(jobs, out)
    except BuildError as e:
        print(f"BUILD FAILED for {pid}:\n{e}", flush=True)
        return 2
    tb = time.time()
    budget = float(os.environ.get("VERIF_TIME", 0)) or C.get(tier, {"quick": 35, "thorough": 1200}[tier])
    maxcases = 10 ** 9 if tier == "thorough" else C.get("quick_cases", 10 ** 9)

    # distribute the worker processes over the jobs
    slots = []
    tot = sum(j["weight"] for j in jobs)
    for j in jobs:
        k = 1 if j.get("single") else max(1, round(NPROC * j["weight"] / tot))
        slots += [(j, s) for s in range(k)]
    procs = []
    for j, s in slots:
        base = f"{out}/{j['name']}.{s}"
        args = [j["bin"], "run", "--seed", str(seed), "--shard", str(s), "--cases", str(j.get("cases", maxcases)),
                "--time", str(budget), "--state", base + ".state", "--out", base + ".json",
                "--hashes", base + ".hashes", "--watchdog", str(j.get("watchdog", 60))]
        lf = open(base + ".log", "w")
        p = subprocess.Popen(args, stdout=lf, stderr=subprocess.STDOUT, env=env_for(j), cwd=out,
                             start_new_session=True)
        procs.append((j, s, p, base))
    failed = []
    deadline = time.time() + budget + 150
    live = list(procs)
    error = None
    while live:
        for it in list(live):
            rc = it[2].poll()
            if rc is None:
                continue
            live.remove(it)
            if rc == 0:
                continue
            if FAILRC(rc):
                failed.append(it)
            else:
                error = f"{it[0]['name']} shard {it[1]} ended with {rc}"
        if failed or time.time() > deadline:
            break
        time.sleep(0.05)
    if live and not failed:
        error = error or "shards did not finish: " + ", ".join(f"{i[0]['name']}.{i[1]}" for i in live)
    for it in live:
        try:
            os.killpg(it[2].pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        it[2].wait()

    violations = []
    for j, s, p, base in failed[:3]:
        r = minimise(pid, j, s, seed, base + ".state", base + ".log", tier, out)
        if r:
            violations.append(r)
            break

    # evidence
    ex = nt = progs = cases = 0
    labels, samples, rules, per_job = {}, [], [], {}
    hashes = set()
    for j, s, p, base in procs:
        if not os.path.exists(base + ".json"):
            continue
        d = json.load(open(base + ".json"))
        ex += d["executions"]
        nt += d["nontrivial"]
        cases += d["cases"]
        pj = per_job.setdefault(j["name"], {"executions": 0, "cases": 0, "nontrivial": 0})
        for k in pj:
            pj[k] += d[k]
        for k, v in d["labels"].items():
            labels[f"{j['name']}:{k}"] = labels.get(f"{j['name']}:{k}", 0) + v
        if s == 0:
            samples += [f"{j['name']}: {x}" for x in d["samples"][:2]]
            rules.append(f"{j['name']}: {d['rule']}")
        if os.path.exists(base + ".hashes"):
            a = array.array("Q")
            with open(base + ".hashes", "rb") as f:
                a.frombytes(f.read())
            salt = hash(j["name"]) if False else int(hashlib.md5(j["name"].encode()).hexdigest()[:8], 16)
            hashes.update(x ^ salt for x in a)
    ev = {"property": pid, "tier": tier, "seed": seed, "level": C.get("level", "exploration"),
          "coverage": {"evaluations": ex, "distinct_nontrivial": len(hashes), "rule": " | ".join(rules),
                       "samples": samples, "generated_cases": cases, "nontrivial_executions": nt,
                       "per_harness": per_job, "classes": labels,
                       "build_s": round(tb - t0, 1)},
          "assumptions": C.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(violations)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in ("hashes",):
        for _, _, _, base in procs:
            if os.path.exists(base + "." + k):
                os.unlink(base + "." + k)

    kf = [k for k in known_findings() if k["property"] == pid]
    rc = 0
    for path, msg in violations:
        hit = [k for k in kf if re.search(k["match"], msg)]
        if hit:
            continue
        print(f"{pid}: {msg}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        rc = 1
    for k in kf:
        print(f"KNOWN-FINDING: property={pid} {k['what']}")
    if rc == 0 and error:
        print(f"{pid}: no answer: {error}")
        return 2
    print(f"{pid} [{tier}] {'violated' if rc else 'held'}: {ex} executions of {cases} cases, "
          f"{len(hashes)} distinct non-trivial, {ev['wall_s']} s")
    return rc


def replay(path):
    txt = open(path).read()
    pid = re.search(r"^# property (\S+)", txt, re.M).group(1)
    name = re.search(r"^# harness (\S+)", txt, re.M).group(1)
    jobs = [dict(j) for j in CHECKS[pid]["jobs"] if j["name"] == name]
    for j in jobs:
        j.setdefault("kind", "sim")
    out = os.path.join(BUILD, "replay-" + pid)
    build(jobs, out)
    j = jobs[0]
    r = subprocess.run([j["bin"], "replay", "--case", os.path.abspath(path), "--verbose", "--tries",
                        "200" if j.get("threads") else "1"], env=env_for(j), cwd=out)
    print(f"exit {r.returncode} ({'fails' if r.returncode else 'passes'})")
    return 1 if r.returncode else 0


def setup():
    for t in (["clang++", "--version"], ["g++", "--version"]):
        r = sh(t)
        print(r.stdout.splitlines()[0])
        if r.returncode:
            return 1
    build([{"name": "smoke", "src": "sim/smoke.cpp", "kind": "sim"}], os.path.join(BUILD, "setup"))
    r = sh([os.path.join(BUILD, "setup", "smoke"), "run", "--cases", "50", "--time", "20"])
    print(r.stdout[-400:])
    return r.returncode


def main():
    a = sys.argv[1:]
    if len(a) >= 2 and a[0] == "run":
        return run(a[1])
    if len(a) >= 2 and a[0] == "replay":
        return replay(a[1])
    if a and a[0] == "setup":
        return setup()
    if a and a[0] == "list":
        for k, c in CHECKS.items():
            print(k, ", ".join(j["name"] for j in c["jobs"]))
        return 0
    print(__doc__)
    return 2


if __name__ == "__main__":
    sys.exit(main())
