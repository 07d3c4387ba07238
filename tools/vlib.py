"""Machinery shared by the checks: building, running the driver, running TLC."""
import fcntl, json, os, re, shutil, subprocess, sys, time, concurrent.futures as cf

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(HERE, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = 8


def say(*a):
    if os.environ.get("VERIF_DEBUG"):
        print("%7.1f" % (time.time() - START), *a, file=sys.stderr, flush=True)


START = time.time()


class ToolError(Exception):
    pass


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier != "thorough"
        self.t0 = time.time()
        self.base = os.path.join(HERE, ".build")
        self.work = os.path.join(self.base, "work-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.work)
        self.scratch = os.path.join(self.work, "scratch")
        os.makedirs(self.scratch)
        self.nfile = 0
        self.states = self.transitions = 0
        self.calls = self.traces = self.vectors = 0
        self.models = []          # what each model checking run covered
        self.samples = []
        self.rejects = []         # dicts: prop, what, replay (text)
        self.other = {}           # violations of other properties met on the way
        self.notes = []

    def path(self, name):
        self.nfile += 1
        return os.path.join(self.work, "%04d-%s" % (self.nfile, name))

    def left(self, budget):
        return budget - (time.time() - self.t0)

    def sample(self, s, most=12):
        if len(self.samples) < most:
            self.samples.append(s if len(s) < 600 else s[:600] + "...")

    def reject(self, prop, what, replay):
        if prop == self.prop:
            self.rejects.append({"what": what, "replay": replay})
        else:
            self.other[prop] = self.other.get(prop, 0) + 1
            if os.environ.get("RCV_SHOW"):
                print("OTHER", prop, what)

    def close(self):
        shutil.rmtree(self.work, ignore_errors=True)


# ---------------------------------------------------------------- building

def run(cmd, env=None, timeout=None, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdin=stdin or subprocess.DEVNULL,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


PROFILE = ["--config", "profile.release.opt-level=2", "--config", "profile.release.debug=false",
           "--config", "profile.release.overflow-checks=true", "--config", "profile.release.debug-assertions=true",
           "--config", "profile.release.codegen-units=16", "--config", "profile.release.incremental=false"]


def build(ctx, cli=False):
    """Builds the driver (and the program) from /repo's working tree; one check at a time."""
    with open(os.path.join(ctx.base, "lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_locked(ctx, cli)


def build_locked(ctx, cli):
    tgt = os.path.join(ctx.base, "target")
    env = {"CARGO_NET_OFFLINE": "true", "CARGO_TERM_COLOR": "never", "RUSTC_WRAPPER": ""}
    env["PATH"] = os.environ.get("PATH", "") + ":/root/.cargo/bin:/usr/local/cargo/bin"
    fp = os.path.join(tgt, "release", ".fingerprint")
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if d.startswith("retrocompressor-"):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    r = run(["cargo", "build", "--release", "--offline", "--locked", "--target-dir", tgt],
            env=env, cwd=os.path.join(HERE, "harness"), timeout=800)
    if r.returncode != 0:
        raise ToolError("building the driver failed:\n" + r.stderr[-3000:])
    ctx.rcv = os.path.join(ctx.work, "rcv")
    shutil.copy2(os.path.join(tgt, "release", "rcv"), ctx.rcv)
    if cli:
        r = run(["cargo", "build", "--release", "--offline", "--locked", "--bin", "retrocompressor",
                 "--manifest-path", "/repo/Cargo.toml", "--target-dir", tgt] + PROFILE, env=env, timeout=800)
        if r.returncode != 0:
            raise ToolError("building the program failed:\n" + r.stderr[-3000:])
        ctx.cli = os.path.join(ctx.work, "cli")
        shutil.copy2(os.path.join(tgt, "release", "retrocompressor"), ctx.cli)


# ---------------------------------------------------------------- TLC

def tlc(ctx, module, cfg=None, env=None, workers=1, heap="3g", extra=(), timeout=800):
    """Runs TLC; returns its output.  Anything but a completed run is a tool error."""
    meta = ctx.path("tlc")
    cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-XX:-UsePerfData", "-Djava.io.tmpdir=" + ctx.work,
           "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE",
           "-config", (cfg or module) + ".cfg"] + list(extra) + [module]
    try:
        t = time.time()
        r = run(cmd, env=env, cwd=SPEC, timeout=timeout)
        say("tlc", module, cfg or "", "%.1f s" % (time.time() - t), "%d kB" % (os.path.getsize(env["TRACE"]) // 1024) if env and "TRACE" in env else "")
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s did not finish in %d s" % (module, timeout))
    shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout + r.stderr


def stats(ctx, out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    if m:
        ctx.transitions += int(m[-1][0])
        ctx.states += int(m[-1][1])
        return int(m[-1][1]), int(m[-1][0])
    return 0, 0


def model(ctx, module, cfg=None, env=None, workers=4, what="", **kw):
    """Exhaustive check of a model; the specification itself failing is an error of the check."""
    rc, out = tlc(ctx, module, cfg, env, workers, **kw)
    if rc != 0 or "No error has been found" not in out:
        raise ToolError("model %s (%s): TLC exit %d\n%s" % (module, cfg, rc, out[-3000:]))
    d, g = stats(ctx, out)
    ctx.models.append({"model": module, "config": what or cfg or module, "distinct_states": d, "generated": g})
    return out


def tuples(out, key):
    """the printed tuples << "key", ... >>, which TLC may break over several lines"""
    res, buf, depth = [], None, 0
    for line in out.splitlines():
        if buf is None:
            if line.startswith('<<"%s"' % key) or line.startswith('<< "%s"' % key):
                buf, depth = "", 0
            else:
                continue
        buf += (" " if buf else "") + line.strip()
        depth += line.count("<<") - line.count(">>")
        if depth <= 0:
            res.append(buf)
            buf = None
    return res


def run_trace(ctx, module, path, heap="2g", timeout=800):
    """Validates a trace file; returns {id: reject text}."""
    t = time.time()
    rc, out = tlc(ctx, module, env={"TRACE": path}, heap=heap, timeout=timeout)
    if os.environ.get("VERIF_DEBUG") == "2" and time.time() - t > 20:
        shutil.copy2(path, "/tmp/slow-%d.ndjson" % os.path.getsize(path))
    done = tuples(out, "DONE")
    if rc != 0 or not done:
        raise ToolError("%s on %s: TLC exit %d\n%s" % (module, path, rc, out[-3000:]))
    stats(ctx, out)
    bad = {}
    for t in tuples(out, "REJECT"):
        m = re.match(r'<<\s*"REJECT",\s*(\d+),\s*(.*)>>$', t)
        bad[int(m.group(1))] = m.group(2)
    n, nb = [int(x) for x in re.findall(r"\d+", done[-1])[:2]]
    if nb != len(bad):
        raise ToolError("%s: %d rejects announced, %d read" % (module, nb, len(bad)))
    return n, bad


# ---------------------------------------------------------------- sessions

def shards(script, k):
    """Splits a list of sessions (lists of lines) into at most k scripts of similar weight."""
    parts = [[] for _ in range(k)]
    w = [0] * k
    for s in sorted(script, key=lambda s: -weight(s)):
        i = w.index(min(w))
        parts[i].append(s)
        w[i] += weight(s)
    return [p for p in parts if p]


def weight(s):
    w = 0
    for line in s:
        m = re.search(r"gen:\w+:\d+:(\d+)", line)
        w += 50 + (int(m.group(1)) if m else 0)
        if line[0] in "FTM":
            m = re.search(r"\bn=(\d+)|max=(\d+)", line)
            w += 50 * int(next((g for g in m.groups() if g), 100) if m else 100)
    return w


def perform(ctx, sessions, name, hang=60, timeout=700):
    """One process of the driver.  Returns events path, bytes prefix, session lines by event and trace id."""
    sp, ev, by, st = (ctx.path(name + x) for x in (".script", ".events", ".bytes", ".status"))
    with open(sp, "w") as f:
        for s in sessions:
            f.write("\n".join(s) + "\n")
    sc = ctx.path("scratch")
    os.makedirs(sc)
    env = {"RCV_SCRATCH": sc, "RCV_STATUS": st, "RCV_HANG": str(hang)}
    try:
        r = run([ctx.rcv, "run", sp, ev, by], env=env, timeout=timeout)
        say("driver", name, "%d sessions" % len(sessions))
        rc, out, err = r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        raise ToolError("driver did not finish in %d s" % timeout)
    lines_ev, lines_by = {}, {}
    for l in out.splitlines():
        if l.startswith("#"):
            a, b = l[1:].split(" ", 1)
            lines_ev[int(a)] = b
        elif l.startswith("@"):
            a, b = l[1:].split(" ", 1)
            lines_by[int(a)] = b
    shutil.rmtree(sc, ignore_errors=True)
    crashed = None
    if rc != 0 or not re.search(r"^RAN ", out, re.M):
        try:
            crashed = open(st, errors="replace").read().strip()
        except OSError:
            crashed = ""
        if "script" in err and "panicked" in err and not crashed:
            raise ToolError("driver: " + err[-2000:])
        crashed = "exit %d while: %s | %s" % (rc, crashed, (re.findall(r"^HANG.*$", out, re.M) or [err.strip()[-300:]])[0])
    return {"ev": ev, "by": by, "lev": lines_ev, "lby": lines_by, "crashed": crashed, "sessions": sessions}


def session_of(p, label):
    for s in p["sessions"]:
        if s[0].split()[1] == label:
            return s
    return []


def replay_text(p, line):
    """enough to repeat what was rejected: the session's script, and the line in question"""
    return "script\n" + "\n".join(session_of(p, line.split(" ", 1)[0])) + "\n# at: " + line + "\n"


def split_trace(ctx, path, most):
    """splits an ndjson file in chunks of about `most` bytes (by content size)"""
    res, cur, size = [], None, 0
    with open(path) as f:
        for l in f:
            if cur is None or size > most:
                if cur:
                    cur.close()
                q = ctx.path("part.ndjson")
                res.append(q)
                cur, size = open(q, "w"), 0
            cur.write(l)
            size += len(l)
    if cur:
        cur.close()
    return res


def sessions_run(ctx, sessions, name, events=True, procs=CORES, hang=60, timeout=700, tags=None):
    """Performs sessions and has TLC judge the calls (module Api) and the byte traces
    (modules LZW, LZH).  tags: property for (codec family, enc/dec) of a rejected byte trace."""
    tags = tags or {("lzw", "enc"): "C05", ("lzw", "dec"): "C07", ("lzh", "enc"): "C06", ("lzh", "dec"): "C08"}
    for i, s in enumerate(sessions):
        s[0] = "S %s%d" % (name, i)
    parts = shards(sessions, procs)
    with cf.ThreadPoolExecutor(CORES) as ex:
        done = list(ex.map(lambda p: perform(ctx, p, name, hang, timeout), parts))
        jobs = []
        for p in done:
            if p["crashed"]:
                ctx.reject(ctx.prop, "the call did not return: " + p["crashed"],
                           "script\n" + "\n".join("\n".join(s) for s in p["sessions"]) + "\n# at: " + p["crashed"] + "\n")
                continue
            if events and os.path.getsize(p["ev"]):
                jobs.append((p, "ApiTrace", p["ev"], None))
            for fam, mod in (("lzw", "LZWTrace"), ("lzh", "LZHTrace")):
                f = p["by"] + "." + fam
                if os.path.getsize(f):
                    for q in split_trace(ctx, f, 1500000 if fam == "lzw" else 25000 if ctx.prop in ("C04", "C06", "C11") else 500000):
                        jobs.append((p, mod, q, fam))
        jobs.sort(key=lambda j: -os.path.getsize(j[2]))
        for (p, mod, q, fam), (n, bad) in zip(jobs, ex.map(lambda j: run_trace(ctx, j[1], j[2]), jobs)):
            if fam is None:
                ctx.calls += n
                for i in list(p["lev"])[:1]:
                    ctx.sample("call: " + p["lev"][i])
                for i, what in bad.items():
                    for prop, w in re.findall(r'<<\s*"(C\d\d)",\s*(.*?)\s*>>\s*(?=[,}])', what) or [("?", what)]:
                        if prop == "?":
                            raise ToolError("unreadable rejection " + what)
                        ctx.reject(prop, "%s: %s" % (p["lev"][i], w), replay_text(p, p["lev"][i]))
            else:
                ctx.traces += n
                kinds = {}
                if bad:
                    for l in open(q):
                        t = json.loads(l)
                        if t["id"] in bad:
                            kinds[t["id"]] = t["k"]
                for i in list(p["lby"])[:1]:
                    ctx.sample("byte trace: " + p["lby"][i])
                for i, what in bad.items():
                    ctx.reject(tags[(fam, kinds[i])], "%s: %s" % (p["lby"][i], what), replay_text(p, p["lby"][i]))
    for p in done:
        for f in (p["ev"], p["by"] + ".lzw", p["by"] + ".lzh"):
            if os.path.exists(f):
                os.remove(f)


# ---------------------------------------------------------------- vectors

def codec_of(o):
    if "w" in o:
        return "lzw:%d:%d:%d:%d:%d:%d:%d:%s" % (o["hb"], o["hd"], o["chunk"], o["maxsym"], o["clear"], o["stop"], o["w"], o["ord"])
    return "lzss:%d:%d:%d:%d:%d" % (o["hdr"], o["N"], o["F"], o["T"], o["pre"])


def hx(b):
    return bytes(b).hex() or "-"


def vec_lines(out):
    for l in out.splitlines():
        if l.startswith('"VEC '):
            yield json.loads(json.loads(l)[4:])


def vectors_run(ctx, lines, prop, hang=60):
    """Replays vectors on the real code: lists (codec, op, in, ok, out)."""
    lines = sorted(set(lines))
    if not lines:
        return
    k = max(1, min(CORES, len(lines) // 2000 + 1))
    paths = []
    for i in range(k):
        q = ctx.path("vectors")
        with open(q, "w") as f:
            for j, v in enumerate(lines[i::k]):
                f.write("%d %s\n" % (j, v))
        paths.append(q)

    def one(q):
        st = ctx.path("status")
        return q, st, run([ctx.rcv, "vec", q], env={"RCV_HANG": str(hang), "RCV_STATUS": st}, timeout=700)
    with cf.ThreadPoolExecutor(CORES) as ex:
        for q, st, r in ex.map(one, paths):
            m = re.search(r"^VECTORS (\d+) (\d+)", r.stdout, re.M)
            if r.returncode != 0 or not m:
                w = open(st, errors="replace").read().strip() if os.path.exists(st) else ""
                ctx.reject(prop, "the call did not return: " + w, "vector\n" + w + "\n")
                continue
            ctx.vectors += int(m.group(1))
            for l in re.findall(r"^MISMATCH .*$", r.stdout, re.M):
                f = l.split(" ")
                ctx.reject(prop, l[:1500], "vector\n" + " ".join(f[1:5] + f[6:8]) + "\n# " + l[:4000] + "\n")
    ctx.sample("vector: " + lines[len(lines) // 2])


def parallel(jobs):
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(j) for j in jobs]
        return [f.result() for f in fs]
