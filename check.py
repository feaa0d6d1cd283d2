#!/usr/bin/env python3
"""Runner: python3 check.py <property> [quick|thorough]

For each property: (1) exhaustive TLC runs of the explicit specification (MC*), (2) drivers compiled against
/repo's current headers, run to record traces, (3) TLC acceptance of every recorded trace by the trace
specification (Tr*).  Exit 0: everything accepted.  Exit 1 + VIOLATION line: a trace of the real code is rejected
(re-checked before it is reported).  Anything else: the check itself failed.
"""
import sys, os, json, subprocess, tempfile, shutil, time, hashlib, re, signal
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(ROOT, "spec")
HARN = os.path.join(ROOT, "harness")
BUILD = os.path.join(ROOT, "build")
JAVA = ["java", "-Djava.io.tmpdir=@TMP@", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-Xss64m"]
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = min(8, os.cpu_count() or 1)

class CheckError(Exception):
    pass

MPIENV = dict(OMPI_ALLOW_RUN_AS_ROOT="1", OMPI_ALLOW_RUN_AS_ROOT_CONFIRM="1", OMPI_MCA_btl="self,vader",
              OMPI_MCA_btl_vader_single_copy_mechanism="none", OMPI_MCA_plm="isolated",
              OMPI_MCA_oob_tcp_if_include="lo", OMPI_MCA_rmaps_base_oversubscribe="1",
              OMPI_MCA_mpi_yield_when_idle="1", OMPI_MCA_hwloc_base_binding_policy="none",
              OMP_WAIT_POLICY="passive")

def env(extra=None):
    e = dict(os.environ)
    e.update(MPIENV)
    e.setdefault("OMP_NUM_THREADS", "2")
    if extra:
        e.update({k: str(v) for k, v in extra.items()})
    return e

def tree_hash(paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in sorted(os.walk(p)):
                ds.sort()
                for f in sorted(fs):
                    fp = os.path.join(d, f)
                    h.update(fp.encode())
                    with open(fp, "rb") as fh:
                        h.update(fh.read())
        else:
            h.update(p.encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:24]

def compile_driver(name, flags=()):
    """Compile harness/<name>.cpp against /repo/include; reuse a binary built from identical sources."""
    src = os.path.join(HARN, name + ".cpp")
    key = tree_hash([os.path.join(REPO, "include"), HARN]) + hashlib.sha256(" ".join(flags).encode()).hexdigest()[:6]
    os.makedirs(BUILD, exist_ok=True)
    exe = os.path.join(BUILD, "%s-%s" % (name, key))
    if os.path.exists(exe):
        return exe
    for f in os.listdir(BUILD):  # drop outdated binaries of this driver
        if re.match(re.escape(name) + r"-[0-9a-f]{30}$", f):
            try:
                os.remove(os.path.join(BUILD, f))
            except OSError:
                pass
    tmp = exe + ".%d.tmp" % os.getpid()
    cmd = ["mpicxx", "-std=c++14", "-O1", "-w", "-fopenmp", "-I" + os.path.join(REPO, "include"), "-I" + HARN,
           "-I" + os.path.join(HARN, "stub")] + list(flags) + [src, "-o", tmp, "-llapack", "-lblas"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), timeout=600)
    if r.returncode != 0:
        sys.stdout.write(r.stdout.decode(errors="replace")[-4000:])
        raise CheckError("compilation of %s failed" % name)
    os.replace(tmp, exe)
    return exe

class Proc:
    pass

def run_proc(cmd, timeout, environ, cwd=None, stdin=None):
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=environ, cwd=cwd,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    r = Proc()
    try:
        out, _ = p.communicate(timeout=timeout)
        r.timeout = False
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        r.timeout = True
    r.out = out.decode(errors="replace")
    r.rc = p.returncode
    r.wall = time.time() - t0
    return r

def tlc(module, cfg, environ, workers, meta, timeout, mem="1500m", extra=()):
    os.makedirs(meta, exist_ok=True)
    cmd = [a.replace("@TMP@", meta) for a in JAVA] + ["-Xmx" + mem, "-cp", CP, "tlc2.TLC", "-deadlock", "-workers", str(workers), "-metadir", meta,
                  "-noGenerateSpecTE", "-config", cfg, *extra, module + ".tla"]
    return run_proc(cmd, timeout, env(environ), cwd=SPEC)

STATES = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")

def mc_run(m, tier, work):
    """Exhaustive model checking of the specification itself."""
    cfg = m.get("cfg_" + tier, m["cfg"])
    meta = os.path.join(work, "meta-" + m["module"] + "-" + cfg)
    r = tlc(m["module"], cfg, m.get("env", {}), m.get("workers", 4), meta, m.get("timeout_" + tier, m.get("timeout", 600)), m.get("mem", "4g"), m.get("extra", ()))
    g = STATES.findall(r.out)
    if r.timeout or r.rc != 0 or not g or "No error has been found" not in r.out:
        sys.stdout.write(r.out[-3000:])
        raise CheckError("model %s (%s) does not check: rc=%s" % (m["module"], cfg, r.rc))
    a, b = g[-1]
    return dict(module=m["module"], cfg=cfg, states=int(b.replace(",", "")), transitions=int(a.replace(",", "")), wall=round(r.wall, 1))

BEHAVIOURS = {}
def generate(gens, tier, work, name, seed):
    """Behaviours of the specification, one per line, for the driver to replay on the implementation."""
    import random
    lines, info = [], []
    for k, g in enumerate(gens):
        extra = list(g.get("extra", ()))
        n = g["take"][0 if tier == "quick" else 1]
        if n == 0:
            continue
        if g.get("simulate"):
            extra += ["-simulate", "num=%d" % n, "-depth", str(g["simulate"]), "-seed", str(seed)]
        key = (g["module"], g["cfg"], tuple(extra))
        if key not in BEHAVIOURS:
            BEHAVIOURS[key] = tlc(g["module"], g["cfg"], g.get("env", {}), 1, os.path.join(work, "meta-%s-gen%d" % (name, k)), g.get("timeout", 600), g.get("mem", "2g"), extra)
        r = BEHAVIOURS[key]
        got = [l.strip()[6:-1] for l in r.out.splitlines() if l.startswith('"HIST@')]
        if r.timeout or not got:
            sys.stdout.write(r.out[-2000:])
            raise CheckError("no behaviour generated from %s" % g["module"])
        total = len(got)
        got = sorted(set(got))
        if len(got) > n:
            got = random.Random(seed * 1000 + k).sample(got, n)
        lines += got
        info.append(dict(module=g["module"], cfg=g["cfg"], behaviours=total, replayed=len(got)))
    p = os.path.join(work, name + ".hist")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    return p, info

def parse_tlc_trace(out):
    rej, done = [], None
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"REJECT@') or line.startswith('"DONE@'):
            s = line[1:-1].replace('\\"', '"')
            f = s.split("@", 3)
            if f[0] == "DONE":
                done = int(f[1])
            else:
                rej.append((int(f[1]), f[2], f[3]))
    return rej, done

EVALERR = re.compile(r"The error occurred when TLC was evaluating|Attempted to |Evaluating (assumption|predicate|invariant)|Overflow when computing|TLC encountered")
NOMEM = re.compile(r"OutOfMemory|java heap|Java ran out of memory|StackOverflow|No space left", re.I)

def validate(job, shard, tier, work, prop):
    meta = os.path.join(work, "meta-" + os.path.basename(shard))
    e = {"VTRACE": shard, "VPROP": prop}
    e.update(job.get("tlc_env", {}))
    r = tlc(job["spec"], job["spec"] + ".cfg", e, 1, meta, job.get("tlc_timeout", 700))
    rej, done = parse_tlc_trace(r.out)
    g = STATES.findall(r.out)
    n = sum(1 for _ in open(shard))
    shutil.rmtree(meta, ignore_errors=True)
    res = dict(shard=shard, rej=rej, done=done, events=n, wall=r.wall,
               states=int(g[-1][1].replace(",", "")) if g else 0, trans=int(g[-1][0].replace(",", "")) if g else 0,
               out=r.out, timeout=r.timeout, ok=(done == n and not r.timeout))
    return res

def load_known():
    k = []
    p = os.path.join(ROOT, "known_findings.jsonl")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("{"):
                d = json.loads(l)
                if d.get("status") == "known":
                    k.append(d)
    return k

def is_known(known, prop, event, clauses):
    """A finding names the property, the op, and exact values of event fields that identify the failing input."""
    for d in known:
        if d["property"] != prop or d["op"] != event.get("op"):
            continue
        if all(event.get(k) == v for k, v in d["match"].items()):
            return d
    return None

def run_driver(job, exe, seed, tier, work, prop):
    pre = os.path.join(work, job["name"])
    for f in os.listdir(work):
        if f.startswith(job["name"] + ".") and f.endswith(".ndjson"):
            os.remove(os.path.join(work, f))
    ddir = os.path.join(work, job["name"] + ".d")
    shutil.rmtree(ddir, ignore_errors=True)
    os.makedirs(ddir)
    cases = job["cases"][0 if tier == "quick" else 1]
    shards = job.get("shards", NCPU)
    cmd = [exe, "--suite", job.get("suite", prop), "--seed", str(seed), "--cases", str(cases), "--shards", str(shards), "--out", pre, "--dir", ddir]
    cmd += [str(a) for a in job.get("args", [])]
    if job.get("hist"):
        cmd += ["--hist", job["hist"]]
    np = job.get("np")
    if np:
        cmd = ["mpiexec", "--allow-run-as-root", "--oversubscribe", "--bind-to", "none", "-n", str(np)] + cmd
    if job.get("wrap"):
        cmd = job["wrap"] + cmd
    e = env(job.get("env"))
    e["TMPDIR"] = ddir
    r = run_proc(cmd, job.get("timeout", 240) * (1 if tier == "quick" else 4), e, cwd=ddir)
    shutil.rmtree(ddir, ignore_errors=True)
    r.shards = sorted(os.path.join(work, f) for f in os.listdir(work) if f.startswith(job["name"] + ".") and f.endswith(".ndjson"))
    if r.rc == 0 and r.out.count("DRIVER-DONE") < (np or 1):
        r.rc = 97  # ended early without an error code
    r.cmd = cmd
    r.cases = cases
    return r

def keep_replay(prop, name, shard, info):
    d = os.path.join(ROOT, "replays", prop)
    os.makedirs(d, exist_ok=True)
    dst = os.path.join(d, name + ".ndjson")
    if shard and os.path.exists(shard):
        shutil.copy(shard, dst)
    with open(os.path.join(d, name + ".txt"), "w") as f:
        f.write(info)
    return dst if shard else os.path.join(d, name + ".txt")

def main():
    from checks import CHECKS
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    conf = CHECKS[prop]
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "work"), exist_ok=True)
    work = tempfile.mkdtemp(prefix=prop + "-", dir=os.path.join(ROOT, "work"))
    violations, known_hits = [], {}
    known = load_known()
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], models=[], events=0, drivers=[], ops={})
    try:
        with ThreadPoolExecutor(NCPU) as ex:
            cfut = {n: ex.submit(compile_driver, n[0], n[1]) for n in {(j["driver"], tuple(j.get("flags", ()))) for j in conf["jobs"]}}
            mfut = [ex.submit(mc_run, m, tier, work) for m in conf.get("models", [])]
            exes = {n: f.result() for n, f in cfut.items()}
            def drive(j):
                return run_driver(j, exes[(j["driver"], tuple(j.get("flags", ())))], seed, tier, work, prop)
            jobs = []
            for k, j in enumerate(conf["jobs"]):
                j = dict(j)
                j["name"] = "%s-%d" % (j["driver"], k)
                jobs.append(j)
            for j in jobs:
                if j.get("gen"):
                    j["hist"], info = generate(j["gen"], tier, work, j["name"], seed)
                    cov.setdefault("generated", []).extend(info)
            par = [j for j in jobs if not j.get("np")]
            seqj = [j for j in jobs if j.get("np")]
            runs = {}
            futs = {j["name"]: ex.submit(drive, j) for j in par}
            for j in seqj:
                runs[j["name"]] = drive(j)
            for n, f in futs.items():
                runs[n] = f.result()
            todo = []
            for j in jobs:
                r = runs[j["name"]]
                if r.timeout or r.rc != 0:
                    # the code under test crashed, aborted or hung: confirm by running again
                    r2 = drive(j)
                    if r2.timeout or r2.rc != 0:
                        info = "driver %s\nrc=%s timeout=%s / rc=%s timeout=%s\n%s\n" % (" ".join(r.cmd), r.rc, r.timeout, r2.rc, r2.timeout, r2.out[-6000:])
                        last = ""
                        for s in r2.shards:
                            ls = open(s).read().splitlines()
                            last += "%s: %s\n" % (s, ls[-1][:600] if ls else "")
                        path = keep_replay(prop, j["name"] + "-crash", None, info + last)
                        violations.append((path, "the implementation crashed or did not terminate (%s)" % j["name"]))
                        sys.stdout.write(info[-1500:])
                    r = r2
                    runs[j["name"]] = r2
                for s in r.shards:
                    if os.path.getsize(s) > 0:
                        todo.append((j, s))
            crashed = bool(violations)
            res = list(ex.map(lambda a: (a[0], validate(a[0], a[1], tier, work, prop)), todo))
            for m in mfut:
                d = m.result()
                cov["models"].append(d)
                cov["states"] += d["states"]
                cov["transitions"] += d["transitions"]
        for j, v in res:
            if not v["ok"] and not (crashed and v["rej"]):
                v2 = validate(j, v["shard"], tier, work, prop)  # once more, alone
                if not v2["ok"]:
                    if crashed:
                        continue
                    sys.stdout.write(v2["out"][-3000:])
                    path = keep_replay(prop, os.path.basename(v["shard"]) + "-modelerror", v["shard"], v2["out"])
                    if not v2["rej"]:
                        # a recorded value outside the specification's domain (an event no action admits) is a
                        # violation; running out of time or memory is no answer
                        if v2["timeout"] or not EVALERR.search(v2["out"]) or NOMEM.search(v2["out"]):
                            raise CheckError("TLC could not evaluate trace %s" % v["shard"])
                        violations.append((path, "an event the specification cannot interpret"))
                v = v2
            lines = None
            if v["rej"]:
                lines = open(v["shard"]).read().splitlines()
            bad = []
            for (i, op, clauses) in v["rej"]:
                ev = json.loads(lines[i - 1])
                kf = is_known(known, prop, ev, clauses)
                if kf:
                    known_hits.setdefault(kf["id"], [kf, 0])[1] += 1
                else:
                    bad.append((i, op, clauses))
            if bad:
                info = "spec %s\nproperty %s\n" % (j["spec"], prop) + "".join("line %d op %s clauses %s\n  %s\n" % (i, op, c, lines[i - 1][:3000]) for i, op, c in bad[:50])
                path = keep_replay(prop, os.path.basename(v["shard"])[:-7], v["shard"], info)
                violations.append((path, "; ".join("line %d %s %s" % b for b in bad[:3])))
            cov["states"] += v["states"]
            cov["transitions"] += v["trans"]
            cov["traces_validated_against_impl"] += 1
            cov["events"] += v["events"]
            with open(v["shard"]) as fh:
                for n, l in enumerate(fh):
                    m = re.match(r'\{"op":"(\w+)"', l)
                    if m:
                        cov["ops"][m.group(1)] = cov["ops"].get(m.group(1), 0) + 1
                    if n == 1 and len(cov["samples"]) < 3:
                        cov["samples"].append(l[:700].strip())
        for j in jobs:
            cov["drivers"].append(dict(driver=j["driver"], np=j.get("np", 1), env=j.get("env", {}), suite=j.get("suite", prop), cases=runs[j["name"]].cases, wall=round(runs[j["name"]].wall, 1)))
    except CheckError as ex_:
        print("ERROR:", ex_)
        shutil.rmtree(work, ignore_errors=True)
        sys.exit(3)
    shutil.rmtree(work, ignore_errors=True)
    if cov["traces_validated_against_impl"] == 0 and not violations:
        print("ERROR: no trace was recorded")
        sys.exit(3)
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    ev = dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
              assumptions=conf.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(violations))
    with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for kid in sorted(known_hits):
        kf, n = known_hits[kid]
        print("KNOWN-FINDING: property=%s %s (%d events)" % (prop, kf["what"], n))
    print("%s %s: %d states, %d traces (%d events) validated, %.1f s" % (prop, tier, cov["states"], cov["traces_validated_against_impl"], cov["events"], time.time() - t0))
    if violations:
        for path, what in violations[:5]:
            print("  " + what[:500])
        print("VIOLATION property=%s replay=%s" % (prop, violations[0][0]))
        sys.exit(1)
    sys.exit(0)

if __name__ == "__main__":
    main()
