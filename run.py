#!/usr/bin/env python3
"""Runs the check of one property: run.py check C01 [quick|thorough]
Replays a failure:               run.py replay replays/C01-....fail
Builds everything once:          run.py setup

A check compiles /verif/harness/checks against /repo's working tree into a scratch
directory, runs it in parallel shards with different seeds derived from VERIF_SEED,
merges what they covered into evidence/<id>.json and prints VIOLATION lines.
Exit status: 0 held, 1 violated, anything else: the check itself failed.
"""
import glob, hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
RACE = {"C22"}
# go1.27.3 miscompiles uint16 comparisons of the library under -race (DESIGN.md, false alarms)
RACE_GO = "/opt/veriftools/go1.26.10/bin"
NEED_C = {"C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"}
MALFORMED = {"C11", "C12"}
LEVEL = {"C13": "fault_enumeration", "C20": "fault_enumeration"}
ASSUME = ["rapid's generators and shrinking, the Go toolchain and the harness' own model are right",
          "exploration: only the generated cases were tried"]
CLIB = "libhdf5 and libnetcdf (the C libraries installed) read and write the formats rightly"

def env_base():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.pop("GOROOT", None)
    e.update(GOPATH="/root/go", GOMODCACHE="/root/go/pkg/mod", GOCACHE="/root/.cache/go-build",
             GOTOOLCHAIN="local", GOPROXY="off", GOWORK="off", GO111MODULE="on", GOSUMDB="off",
             GOFLAGS="-mod=mod -buildvcs=false", CGO_ENABLED="1")
    return e

def fail(msg, code=3):
    print("CHECK-ERROR: " + msg, flush=True)
    sys.exit(code)

def build(scratch, prop):
    e = env_base()
    binary = os.path.join(scratch, "checks.test")
    cmd = ["go", "test", "-c", "-vet=off", "-o", binary]
    if prop in RACE:
        cmd.append("-race")
        if os.path.exists(RACE_GO + "/go"):
            cmd[0] = RACE_GO + "/go"
            e["PATH"] = RACE_GO + ":" + e["PATH"]
    p = subprocess.run(cmd + ["./checks"], cwd=os.path.join(HERE, "harness"), env=e, capture_output=True, text=True)
    if p.returncode or not os.path.exists(binary):
        fail("build failed:\n" + (p.stdout + p.stderr)[-6000:], 2)
    helper = os.path.join(scratch, "nchelper")
    if prop in NEED_C:
        cf = subprocess.run(["pkg-config", "--cflags", "hdf5"], capture_output=True, text=True).stdout.split()
        lf = subprocess.run(["pkg-config", "--libs-only-L", "hdf5"], capture_output=True, text=True).stdout.split()
        nc = next((x for x in ("/usr/lib/x86_64-linux-gnu/libnetcdf.so.19", "/usr/lib/x86_64-linux-gnu/libnetcdf.so") if os.path.exists(x)), "-lnetcdf")
        p = subprocess.run(["gcc", "-O1", "-w"] + cf + [os.path.join(HERE, "capi/nchelper.c"), "-o", helper] + lf + ["-lhdf5", nc],
                           capture_output=True, text=True)
        if p.returncode:
            fail("C helper build failed:\n" + p.stderr[-3000:], 2)
    return binary, helper

def shard_seed(seed, i):
    # well separated: rapid uses seed, seed+1, ... for its cases; 0 means random
    h = hashlib.sha256(f"verif/{seed}/{i}".encode()).digest()
    return int.from_bytes(h[:6], "big") * 65536 % (1 << 62) + 1

def limit_memory():
    resource.setrlimit(resource.RLIMIT_AS, (16 << 30, 16 << 30))

def run_shards(prop, tier, seed, scratch, binary, helper, shards, pattern, extra=(), timeout=None):
    procs = []
    for i in range(shards):
        d = os.path.join(scratch, f"s{i}")
        os.makedirs(os.path.join(d, "tmp"))
        e = env_base()
        e.update(VERIF_OUT=os.path.join(d, "out.json"), VERIF_SCRATCH=os.path.join(d, "tmp"), VERIF_SHARD=str(i),
                 VERIF_SHARDS=str(shards), VERIF_TIER=tier, VERIF_HELPER=helper, VERIF_SEED=str(seed),
                 VERIF_KNOWN=os.path.join(HERE, "known_findings.txt"), TMPDIR=os.path.join(d, "tmp"),
                 GOMEMLIMIT="3GiB", GOTRACEBACK="all", HDF5_USE_FILE_LOCKING="FALSE")
        e.setdefault("GOMAXPROCS", "2" if prop not in RACE else "4")
        if prop in RACE:
            e["GORACE"] = "halt_on_error=0 exitcode=66 suppress_equal_stacks=0 suppress_equal_addresses=0"
        log = open(os.path.join(d, "log"), "wb")
        cmd = [binary, "-test.run", pattern, "-test.timeout", "0", "-test.v", f"-rapid.seed={shard_seed(seed, i)}",
               "-rapid.shrinktime=20s"] + list(extra)
        procs.append((i, d, subprocess.Popen(cmd, cwd=d, env=e, stdout=log, stderr=subprocess.STDOUT, start_new_session=True,
                                            preexec_fn=limit_memory if prop in MALFORMED else None)))
        log.close()
    deadline = time.time() + timeout if timeout else None
    res = []
    for i, d, p in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()) if deadline else None)
        except subprocess.TimeoutExpired:
            try: os.killpg(p.pid, signal.SIGKILL)
            except OSError: pass
            p.wait()
            rc = "timeout"
        try: os.killpg(p.pid, signal.SIGKILL)  # helpers left behind
        except OSError: pass
        with open(os.path.join(d, "log"), errors="replace") as f:
            res.append((i, d, rc, f.read()))
    return res

def save_replay(prop, name, d, log, src=None):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    base = os.path.join(HERE, "replays", f"{prop}-{name}-{int(time.time())}-{os.path.basename(d)}")
    if src and os.path.exists(src):
        shutil.copy(src, base + ".fail")
        cur = os.path.join(d, "tmp", "current-input")
        if os.path.exists(cur): shutil.copy(cur, base + ".input")
        with open(base + ".log", "w") as f: f.write(log)
        return base + ".fail"
    for f in ("current-input", "current-case"):
        p = os.path.join(d, "tmp", f)
        if os.path.exists(p):
            shutil.copy(p, base + "." + f)
    with open(base + ".log", "w") as f: f.write(log)
    return base + ".log"

def judge(prop, i, d, rc, log):
    """-> (list of (replay, summary), error or None)"""
    if rc == "timeout":
        return [], f"shard {i} ran out of time"
    ended = "VERIF-END code=" in log
    viol = []
    if ended and rc == 0:
        return [], None
    if ended and rc == 1:
        if "VERIF-INFRA:" in log:
            j = log.index("VERIF-INFRA:")
            return [], f"shard {i}: " + log[j:j + 600]
        for m in re.finditer(r"^--- FAIL: (\S+)", log, re.M):
            t = m.group(1)
            dd = os.path.join(d, "testdata", "rapid", t)
            src = None
            if os.path.isdir(dd):
                fs = sorted(x for x in os.listdir(dd) if x.endswith(".fail"))
                src = os.path.join(dd, fs[-1]) if fs else None
            # what rapid says comes before that line
            j = log.rfind(f"=== RUN   {t}\n", 0, m.start())
            said = log[max(j, 0):m.start()]
            race = said.find("WARNING: DATA RACE")
            k = said.find("[rapid] ")
            k = max(said.rfind("\n", 0, k), 0)
            txt = (said[race:race + 2000] + "\n" if race >= 0 else "") + said[k:k + 2500] + log[m.start():m.start() + 200]
            viol.append((save_replay(prop, t, d, log, src), txt))
        if viol:
            return viol, None
        return [], f"shard {i} failed without a failed test:\n" + log[-2000:]
    # the process died: whose fault?
    mem = re.search(r"cannot allocate memory|signal: killed", log)
    if rc == 97 or "VERIF-HANG" in log:
        if "go-native-netcdf" in log[log.find("VERIF-HANG"):]:
            return [(save_replay(prop, "hang", d, log), "hang: " + log[log.find("VERIF-HANG"):][:2500])], None
        return [], f"shard {i}: hang outside the library"
    if "WARNING: DATA RACE" in log:
        j = log.find("WARNING: DATA RACE")
        if "go-native-netcdf" in log[j:]:
            return [(save_replay(prop, "race", d, log), log[j:j + 3000])], None
    if rc == -9 and not re.search(r"^(panic|fatal error):", log, re.M):
        return [], f"shard {i} was killed"
    k = re.search(r"^(panic: |fatal error: |runtime: goroutine stack exceeds|unexpected fault address|VERIF-MEM)", log, re.M)
    if k and "go-native-netcdf" in log[k.start():]:
        return [(save_replay(prop, "crash", d, log), log[k.start():k.start() + 3000])], None
    if not ended and not k and rc in (0, 1, 2):
        # os.Exit by the library (logger.Fatal and the like)
        return [(save_replay(prop, "exit", d, log), f"the process ended itself with status {rc}: " + log[-1500:])], None
    return [], f"shard {i} ended with {rc}:\n" + log[-3000:]

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    shards = int(os.environ.get("VERIF_NSHARDS", "8"))
    scratch = tempfile.mkdtemp(prefix=f"verif-{prop}-")
    try:
        binary, helper = build(scratch, prop)
        limit = 780 if tier == "quick" else 6 * 3600
        # each test of the property may generate cases for its part of the time
        n = max(1, sum(len(re.findall(rf"^func Test{prop}", open(f).read(), re.M)) for f in glob.glob(HERE + "/harness/checks/*_test.go")))
        os.environ["VERIF_LIMIT"] = str((limit - 180) // n)
        res = run_shards(prop, tier, seed, scratch, binary, helper, shards, f"^Test{prop}", timeout=limit)
        viols, errs, known = [], [], []
        tests = {}
        for i, d, rc, log in res:
            v, e = judge(prop, i, d, rc, log)
            viols += v
            if e: errs.append(e)
            for l in re.findall(r"^KNOWN-FINDING: .*$", log, re.M):
                if l not in known: known.append(l)
            out = os.path.join(d, "out.json")
            if os.path.exists(out):
                for r in json.load(open(out)) or []:
                    a = tests.setdefault(r["test"], {"rule": r["rule"], "evaluations": 0, "discarded": 0, "classes": {}, "samples": [], "h": set()})
                    a["evaluations"] += r["evaluations"]; a["discarded"] += r["discarded"]
                    a["h"] |= set(r["nontrivial_hashes"] or [])
                    for k, n in (r["classes"] or {}).items(): a["classes"][k] = a["classes"].get(k, 0) + n
                    if len(a["samples"]) < 4: a["samples"] += (r["samples"] or [])[:4 - len(a["samples"])]
        wall = time.time() - t0
        cov = {"evaluations": sum(a["evaluations"] for a in tests.values()),
               "distinct_nontrivial": sum(len(a["h"]) for a in tests.values()),
               "rule": " || ".join(f"{t}: {a['rule']}" for t, a in sorted(tests.items())) or "none",
               "samples": [f"{t}: {s}" for t, a in sorted(tests.items()) for s in a["samples"]],
               "discarded": sum(a["discarded"] for a in tests.values()),
               "per_test": {t: {"evaluations": a["evaluations"], "distinct_nontrivial": len(a["h"]), "discarded": a["discarded"],
                                "classes": dict(sorted(a["classes"].items()))} for t, a in sorted(tests.items())},
               "shards": shards}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
              "assumptions": ASSUME + ([CLIB] if prop in NEED_C else []), "wall_s": round(wall, 2), "violations": len(viols),
              "known_findings": known}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        tmp = os.path.join(HERE, "evidence", f".{prop}.tmp")
        with open(tmp, "w") as f: json.dump(ev, f, indent=1, ensure_ascii=True)
        os.replace(tmp, os.path.join(HERE, "evidence", f"{prop}.json"))
        for l in known: print(l)
        print(f"{prop} {tier} seed={seed}: {cov['evaluations']} cases, {cov['distinct_nontrivial']} distinct non-trivial, {len(viols)} violations, {wall:.1f}s")
        seen = set()
        for replay, txt in viols:
            key = os.path.basename(replay).split("-")[1]
            if key in seen: continue
            seen.add(key)
            print(txt.rstrip())
            print(f"VIOLATION property={prop} replay={replay}")
        sys.stdout.flush()
        if viols: return 1
        if errs:
            fail("\n".join(errs[:3]))
        if cov["evaluations"] == 0:
            fail("no case was evaluated")
        return 0
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(scratch, ignore_errors=True)

def replay(path):
    name = os.path.basename(path)
    prop, test = name.split("-")[:2]
    if not path.endswith(".fail"):
        print(open(path, errors="replace").read()[-4000:])
        print("(no generator recording: the .log and .current-input files hold the case)")
        return 0
    scratch = tempfile.mkdtemp(prefix="verif-replay-")
    try:
        binary, helper = build(scratch, prop)
        os.environ["VERIF_REPLAY"] = "1"
        res = run_shards(prop, "quick", 1, scratch, binary, helper, 1, f"^{test}$", ["-rapid.failfile=" + os.path.abspath(path)])
        i, d, rc, log = res[0]
        print(log)
        v, e = judge(prop, i, d, rc, log)
        for r, _ in v: print(f"VIOLATION property={prop} replay={path}")
        return 1 if v else (3 if e else 0)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["check"]:
        sys.exit(check(a[1], a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")))
    if a[:1] == ["replay"]:
        sys.exit(replay(a[1]))
    if a[:1] == ["setup"]:
        s = tempfile.mkdtemp(prefix="verif-setup-")
        try:
            build(s, "C22"); build(s, "C01")
        finally:
            shutil.rmtree(s, ignore_errors=True)
        print("ok")
        sys.exit(0)
    print(__doc__); sys.exit(2)
