"""Plumbing: build the drivers from /repo, run them, run TLC, collect what TLC says."""
import hashlib, json, os, re, resource, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("PICA_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, "target")
WORK = os.path.join(VERIF, "work")
TLA = "/opt/veriftools/tla"
CPUS = os.cpu_count() or 4


class ToolError(Exception):
    """The machinery itself failed; nothing is known about the property."""


def log(*a):
    print(*a, flush=True)


def build_env():
    e = dict(os.environ)
    e["CARGO_NET_OFFLINE"] = "true"
    return e


def source_hash():
    """Hash of what the build of /repo depends on."""
    h = hashlib.sha256()
    files = ["Cargo.toml", "Cargo.lock", "build.rs"]
    for top in ("src", "static"):
        for d, _, fs in sorted(os.walk(os.path.join(REPO, top))):
            files += [os.path.relpath(os.path.join(d, f), REPO) for f in sorted(fs)]
    for f in files:
        p = os.path.join(REPO, f)
        if os.path.isfile(p):
            h.update(f.encode() + b"\0" + open(p, "rb").read() + b"\0")
    return h.hexdigest()


def fresh(stamp_name, cwd, target):
    """cargo goes by modification times, which say little in copies: forget what was built from other sources."""
    os.makedirs(target, exist_ok=True)
    stamp = os.path.join(target, stamp_name)
    now = source_hash()
    old = open(stamp).read() if os.path.exists(stamp) else None
    if old is not None and old != now:
        subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "pica", "--target-dir", target], cwd=cwd, env=build_env(),
                       stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    with open(stamp, "w") as f:
        f.write(now)


def build_driver():
    fresh("driver.sha", os.path.join(VERIF, "harness"), TARGET)
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--target-dir", TARGET],
                       cwd=os.path.join(VERIF, "harness"), env=build_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("building the driver failed:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "debug", "picadrv")


def build_bins():
    fresh("bins.sha", REPO, os.path.join(TARGET, "repo"))
    r = subprocess.run(["cargo", "build", "--offline", "--quiet", "--bins", "--target-dir", os.path.join(TARGET, "repo")],
                       cwd=REPO, env=build_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise ToolError("building the binaries failed:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "repo", "debug")


def workdir(name):
    d = os.path.join(WORK, name + "-" + str(os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def limit(mem_gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (mem_gb << 30, mem_gb << 30))
    return f


def drive_one(driver, scripts, dst, timeout):
    src = dst + ".in"
    with open(src, "w") as f:
        for s in scripts:
            if s.get("pcap"):
                s = dict(s, pcap=capture_dir(s, os.path.dirname(dst)))
            f.write(json.dumps(s) + "\n")
    return subprocess.Popen([driver, src, dst], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                            preexec_fn=limit(3))


def capture_dir(script, wd):
    """A fresh capture directory for a script, or a path that cannot be one."""
    d = os.path.join(wd, "cap-" + script["id"])
    shutil.rmtree(d, ignore_errors=True)
    if script["pcap"] == "on":
        os.makedirs(d)
    elif script["pcap"] == "file":
        open(d, "w").close()
    return d


def drive(driver, scripts, wd, timeout=200):
    """Run scripts on the real code, in parallel shards; returns the traces in order.

    A shard whose process dies or hangs is re-run script by script to find the culprit; a
    script that kills or hangs the driver yields a trace marked dead."""
    shards = [scripts[i::CPUS] for i in range(CPUS)]
    procs = []
    for i, sh in enumerate(shards):
        if sh:
            dst = os.path.join(wd, "traces.%d" % i)
            procs.append((i, dst, drive_one(driver, sh, dst, timeout)))
    deadline = time.time() + timeout
    by_id = {}
    for i, dst, p in procs:
        try:
            rc = p.wait(max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = -9
        if rc == 0:
            for line in open(dst):
                t = json.loads(line)
                by_id[t["id"]] = t
        else:
            by_id.update(drive_singly(driver, shards[i], dst))
    return [by_id[s["id"]] for s in scripts]


def drive_singly(driver, scripts, dst):
    out = {}
    budget = time.time() + 120
    for s in scripts:
        one = dst + ".one"
        p = drive_one(driver, [s], one, 30)
        try:
            rc = p.wait(20)
        except subprocess.TimeoutExpired:
            p.kill(); p.wait(); rc = -9
        if rc == 0:
            t = json.loads(open(one).read())
        else:
            # Nothing was recorded: the run is dead from its first step on.
            st = s["steps"][0]
            t = {"id": s["id"], "salt": s.get("salt", 0), "dead": True, "crash": rc,
                 "tcp": s.get("tcp", False), "cap": "",
                 "steps": [{"a": st["a"], "ms": st["ms"], "o": [], "t": [], "e": [], "r": [], "f": [], "u": [0, 0]}]}
        out[s["id"]] = t
        if time.time() > budget:
            raise ToolError("driver keeps failing")
    return out


def java(args, cwd, env=None, timeout=600, heap="4g", stack="256m"):
    e = dict(os.environ)
    e.update(env or {})
    jars = ":".join(os.path.join(TLA, j) for j in sorted(os.listdir(TLA)) if j.endswith(".jar"))
    cmd = ["java", "-Xmx" + heap, "-Xss" + stack, "-XX:+UseParallelGC", "-cp", jars, "tlc2.TLC"] + args
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                         start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        raise ToolError("TLC timed out after %ds\n%s" % (timeout, out[-2000:]))
    return p.returncode, out


RE_STATES = re.compile(r"(\d+) states generated, (\d+) distinct states found")


def tlc(module, wd, cfg=None, env=None, workers=None, timeout=600, heap="6g", extra=()):
    """Run TLC on spec/<module>.tla; returns (rc, output, states generated, distinct)."""
    meta = os.path.join(wd, "meta-" + module + "-" + os.path.basename(cfg or module))
    args = ["-workers", str(workers or CPUS), "-metadir", meta, "-noGenerateSpecTE", "-nowarning",
            "-config", cfg or module + ".cfg"] + list(extra) + [module + ".tla"]
    rc, out = java(args, SPEC, env, timeout, heap)
    shutil.rmtree(meta, ignore_errors=True)
    m = RE_STATES.findall(out)
    gen, dist = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    return rc, out, gen, dist


def printed(out, tag):
    """The JSON values printed by PrintT(tag \\o ToJson(..))."""
    res = []
    for line in out.splitlines():
        line = line.strip()
        if line.startswith('"@' + tag + " "):
            res.append(json.loads(json.loads(line)[len(tag) + 2:]))
    return res


def validate(traces, wd, module="PicaTrace", timeout=600, name="all", heap="12g", chunk=4000):
    """Validate traces with TLC; returns (list of bad reports, number accepted, states)."""
    if len(traces) > chunk:
        parts = [validate(traces[i:i + chunk], wd, module, timeout, name, heap, chunk) for i in range(0, len(traces), chunk)]
        return [b for p in parts for b in p[0]], sum(p[1] for p in parts), sum(p[2] for p in parts)
    path = os.path.join(wd, name + ".ndjson")
    with open(path, "w") as f:
        for t in traces:
            f.write(json.dumps({k: v for k, v in t.items() if k != "crash"}) + "\n")
    rc, out, gen, dist = tlc(module, wd, env={"TRACES": path}, timeout=timeout, heap=heap)
    ok, bad = printed(out, "OK"), printed(out, "BAD")
    if "Model checking completed" not in out or len(ok) + len(bad) != len(traces):
        keep = os.path.join(wd, name + ".tlc.out")
        open(keep, "w").write(out)
        raise ToolError("trace validation did not complete (rc %s, ok %d bad %d of %d), see %s\n%s"
                        % (rc, len(ok), len(bad), len(traces), keep, out[-3000:]))
    return bad, len(ok), gen
