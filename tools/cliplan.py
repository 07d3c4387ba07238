"""C18: histories at the command line, performed with the real program in scratch directories."""
import hashlib, json, os, re, shutil, subprocess, threading, concurrent.futures as cf
from gen import *
from vlib import *

NAMES = ["", "in file.bin", "b.dat", "-c" , "d.out"]         # (file 3 is given as ./-c)
NODIR = "no/such/dir/x"
CODEC = {"lzw": "lzw:std", "lzss_huff": "lzss:std", "lzhuf-port": "port", "td0": "td0", "zip": "zip"}
EMPTY = hashlib.sha256(b"").hexdigest()


def make_kind(ctx, k, seed):
    """a file's bytes, by kind (deterministic in the seed)"""
    rng = rng_for(seed, k)
    n = rng.choice([2, 5, 30, 200, 1000, 5000])
    s = rng.randrange(10**9)
    spec = {"text": "gen:text:%d:%d" % (s, n), "noise": "gen:uniform:%d:%d" % (s, n), "runs": "gen:runs:%d:%d" % (s, n),
            "empty": "hex:-", "one": "gen:uniform:%d:1" % s, "long": "gen:text:%d:60000" % s,
            "tdn1": "td:%d:%d:gen:mix:%d:%d" % (rng.choice([10, 15, 19]), s, s, n), "tdn2": "td:%d:%d:gen:mix:%d:%d" % (rng.choice([20, 21]), s, s, n),
            "tda1": "td:15:%d:gen:mix:%d:%d" % (s, s, n), "tda2": "td:21:%d:gen:mix:%d:%d" % (s, s, n),
            "short": "td:%d:1:hex:-" % s if False else "gen:uniform:%d:%d" % (s, rng.randrange(1, 12)),
            "badcrc": "td:15:%d:gen:text:%d:%d" % (s, s, n), "badsig": "td:15:%d:gen:text:%d:%d" % (s, s, n),
            "c.lzw": "gen:text:%d:%d" % (s, n), "c.lzss_huff": "gen:text:%d:%d" % (s, n), "c.lzhuf-port": "gen:text:%d:%d" % (s, n),
            "tdbig": "td:15:%d:gen:zeros:%d:3000001" % (s, s), "tdmax": "td:15:%d:gen:zeros:%d:3000000" % (s, s)}[k]
    p = ctx.path("content")
    subprocess.run([ctx.rcv, "gen", spec, p], check=True)
    if k.startswith("tda") or k.startswith("c."):
        q = p + ".c"
        r = subprocess.run([ctx.rcv, "lib", "td0" if k[0] == "t" else CODEC[k[2:]], "C", p, q], check=True, stdout=subprocess.PIPE, text=True).stdout.strip()
        if r != "ok":
            raise ToolError("making a file of kind %s: %s" % (k, r))
        p = q
    b = bytearray(open(p, "rb").read())
    if k == "badcrc":
        b[rng.randrange(2, 12)] ^= 1 << rng.randrange(8)
    if k == "badsig":
        b[rng.randrange(2)] ^= 1 << rng.randrange(8)
    os.remove(p)
    return bytes(b)


class World:
    """contents by hash, and what the library makes of them"""
    def __init__(self, ctx):
        self.ctx, self.lock = ctx, threading.Lock()
        self.ids, self.made, self.libs = {EMPTY: 1}, {}, {}
        self.store = ctx.path("store")
        os.makedirs(self.store)

    def id(self, b):
        h = hashlib.sha256(b).hexdigest()
        with self.lock:
            return self.ids.setdefault(h, len(self.ids) + 1)

    def make(self, k, seed):
        key = (k, seed)
        with self.lock:
            b = self.made.get(key)
        if b is None:
            b = make_kind(self.ctx, k, seed)
            with self.lock:
                self.made[key] = b
        return b

    def lib(self, op, m, b):
        key = (op, m, hashlib.sha256(b).hexdigest())
        with self.lock:
            if key in self.libs:
                return self.libs[key]
        p = self.ctx.path("lib%d" % threading.get_ident())
        with open(p, "wb") as f:
            f.write(b)
        q = p + ".out"
        r = run([self.ctx.rcv, "lib", CODEC[m], op, p, q], timeout=120)
        res = r.stdout.strip() if r.returncode == 0 else "panic"
        y = self.id(open(q, "rb").read()) if res == "ok" else 0
        for x in (p, q):
            if os.path.exists(x):
                os.remove(x)
        with self.lock:
            self.libs[key] = (res, y)
        return res, y


def perform_history(ctx, w, h, no):
    """runs one history; returns its events"""
    sc = ctx.path("cli%d" % no)
    os.makedirs(sc)
    n = 4

    def p(i):
        return os.path.join(sc, NAMES[i])

    def look():
        r = []
        for i in range(1, n + 1):
            r.append(w.id(open(p(i), "rb").read()) if os.path.isfile(p(i)) else 0)
        return r, len(set(os.listdir(sc)) - set(NAMES))
    ev = []

    def state():
        d, x = look()
        ev.append({"a": "set", "dir": d})
    state()
    for k, e in enumerate(h):
        if e["a"] == "make":
            with open(p(e["i"]), "wb") as f:
                f.write(w.make(e["k"], e.get("seed", no % 7)))
            state()
        elif e["a"] == "remove":
            if os.path.exists(p(e["i"])):
                os.remove(p(e["i"]))
            state()
        elif e["a"] == "run":
            before, _ = look()
            b = open(p(e["in"]), "rb").read() if before[e["in"] - 1] else b""
            if e["op"] == "X" and e["m"] == "lzhuf-port" and len(b) >= 4 and int.from_bytes(b[:4], "little") > 500000:
                continue        # (the port puts out as many bytes as announced, whatever follows)
            arg = lambda i: NODIR if i == 0 else "./-c" if i == 3 else NAMES[i] if (no + k) % 3 else p(i)
            sub = "compress" if e["op"] == "C" else "expand"
            i, o, m = arg(e["in"]), arg(e["out"]), e["m"]
            form = [[ctx.cli, sub, "-m", m, "-i", i, "-o", o], [ctx.cli, sub, "--output", o, "--method=" + m, "--input", i],
                    [ctx.cli, sub, "-i", i, "-o", o, "-m", m]][(no + k) % 3]
            ans = "" if e["ans"] == "eof" else e["ans"] + "\n"
            err = ""
            try:
                r = subprocess.run(form, cwd=sc, input=ans.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
                code, err = r.returncode, r.stderr.decode(errors="replace")
            except subprocess.TimeoutExpired:
                code = 999
            after, extra = look()
            lib, y = ("none", 0)
            if before[e["in"] - 1] and m != "zip":
                lib, y = w.lib(e["op"], m, b)
            ev.append({"a": "run", "op": e["op"], "m": m, "in": e["in"], "out": e["out"], "ans": e["ans"], "exit": code, "before": before, "dir": after,
                       "extra": extra, "lib": lib, "y": y, "h": list(b[:12]), "len": [len(b) >> 16, len(b) & 65535],
                       "text": " ".join(form[1:]) + " < " + repr(e["ans"]), "hist": no, "k": k, "err": err[:300]})
    shutil.rmtree(sc)
    return ev


def judge(ctx, evs, hists):
    """validates the events against module Cli"""
    shown = {}
    paths = []
    nid = 0
    k = 4
    for j in range(k):
        q = ctx.path("cli.ndjson")
        with open(q, "w") as f:
            for e in [x for h in evs[j::k] for x in h]:
                nid += 1
                e["id"] = nid
                shown[nid] = e
                f.write(json.dumps({a: b for a, b in e.items() if a not in ("text", "hist", "k", "err")}) + "\n")
        if os.path.getsize(q):
            paths.append(q)
    with cf.ThreadPoolExecutor(k) as ex:
        for n, bad in ex.map(lambda q: run_trace(ctx, "CliTrace", q), paths):
            for i, what in bad.items():
                e = shown[i]
                ctx.reject("C18", "%s: %s (library: %s; %s)" % (e["text"], what, e["lib"], e["err"].replace("\n", " | ")),
                           "cli\n" + json.dumps({"no": e["hist"], "h": hists[e["hist"]][:e["k"] + 1]}) + "\n")
    ctx.invocations += sum(1 for h in evs for e in h if e["a"] == "run")


def huge(ctx):
    """more than a quarter of the 32-bit range, as a file with a hole: refused before anything is written"""
    evs = []
    sc = ctx.path("huge")
    os.makedirs(sc)
    x, y = os.path.join(sc, "x"), os.path.join(sc, "y")
    n = 1073741824
    with open(x, "wb") as f:
        f.truncate(n)
    for op, sub in (("C", "compress"), ("X", "expand")):
        for m in ("lzw", "lzss_huff", "td0"):
            with open(x, "r+b") as f:
                f.write(b"\0" * 12)
            if m == "td0":      # a valid header
                with open(x, "r+b") as f:
                    f.write(ctx.w.make("tdn1" if op == "C" else "tda1", 0)[:12])
            head = open(x, "rb").read(12)
            for pre in (None, b"old contents"):
                if os.path.exists(y):
                    os.remove(y)
                if pre is not None:
                    open(y, "wb").write(pre)
                old = ctx.w.id(pre) if pre is not None else 0
                try:
                    code = subprocess.run([ctx.cli, sub, "-m", m, "-i", x, "-o", y], input=b"y\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120).returncode
                except subprocess.TimeoutExpired:
                    code = 999
                same = os.path.getsize(x) == n and open(x, "rb").read(12) == head
                new = (ctx.w.id(open(y, "rb").read()) if os.path.getsize(y) < 10**6 else 10**6) if os.path.exists(y) else 0
                evs.append([{"a": "set", "dir": [2000000, old]},
                            {"a": "run", "op": op, "m": m, "in": 1, "out": 2, "ans": "y", "exit": code, "before": [2000000, old], "dir": [2000000 if same else 2000001, new],
                             "extra": 0, "lib": "none", "y": 0, "h": list(head), "len": [n >> 16, n & 65535], "text": "%s -m %s of a file of %d bytes" % (sub, m, n), "hist": -1, "k": 0, "err": ""}])
    shutil.rmtree(sc)
    return evs


def c18(ctx):
    ctx.invocations = 0
    ctx.w = w = World(ctx)
    rng = rng_for(ctx.seed, "c18")
    q = ctx.quick
    model(ctx, "CliModel", "CliMC", None, 4, "all histories over two files, three kinds of data")
    hists = []
    # every single invocation
    out = model(ctx, "CliAll", None, None, 1, "all single invocations by kinds of input and output")
    singles = sorted(vec_lines(out), key=lambda v: json.dumps(v, sort_keys=True))
    for v in singles:
        h = []
        sd = rng.randrange(3 if q else 12)
        if v["in"] != "none":
            h.append({"a": "make", "i": 1, "k": v["in"], "seed": sd})
        if v["out"] not in ("none", "nodir"):
            h.append({"a": "make", "i": 2, "k": v["out"], "seed": sd + 1})
        h.append({"a": "run", "op": v["op"], "m": v["m"], "in": 1, "out": 0 if v["out"] == "nodir" else 2, "ans": v["ans"]})
        hists.append(h)
    if q:
        # (of those where the answer is not consent, or the method unknown, a sample)
        hists = [h for h in hists if (h[-1]["ans"] in ("y", "eof", "n") and h[-1]["m"] != "zip") or rng.random() < .3]
    # histories
    n = 150 if q else 4000
    rc, out = tlc(ctx, "CliGen", extra=["-simulate", "num=%d" % n, "-depth", "40", "-seed", str(rng.randrange(1, 10**9))])
    hs = [v["h"] for v in vec_lines(out)]
    if rc != 0 or len(hs) < n:
        raise ToolError("CliGen: exit %d\n%s" % (rc, out[-2000:]))
    m = re.findall(r"(\d+) states (?:checked|generated)", out)
    ctx.models.append({"model": "CliGen", "config": "simulation, %d histories of 14 actions" % len(hs), "generated": int(m[-1]) if m else 0})
    hists += hs
    # a long output over a short one and the other way round, for every method, there and back
    for mth, kinds in (("lzw", ("long", "one", "text", "noise", "empty")), ("lzss_huff", ("long", "one", "text", "noise", "empty")), ("lzhuf-port", ("long", "one", "text", "noise", "empty")), ("td0", ("tdn1", "tdn2", "tdmax"))):
        for k in kinds:
            for over in ("long", "one", "empty", "text"):
                for ans in ("y", "Y"):
                    hists.append([{"a": "make", "i": 1, "k": k, "seed": 3}, {"a": "make", "i": 2, "k": over, "seed": 4}, {"a": "make", "i": 3, "k": over, "seed": 5},
                                  {"a": "run", "op": "C", "m": mth, "in": 1, "out": 2, "ans": ans}, {"a": "run", "op": "X", "m": mth, "in": 2, "out": 3, "ans": ans},
                                  {"a": "run", "op": "C", "m": mth, "in": 3, "out": 2, "ans": "n"}])
    with cf.ThreadPoolExecutor(CORES) as ex:
        evs = list(ex.map(lambda t: perform_history(ctx, w, t[1], t[0]), enumerate(hists)))
    say("performed")
    for e in evs[:1] + evs[-3:]:
        ctx.sample("invocation: " + e[-1].get("text", ""))
    evs += huge(ctx)
    judge(ctx, evs, {-1: [], **dict(enumerate(hists))})


def replay(ctx, lines):
    ctx.invocations = 0
    ctx.w = World(ctx)
    d = json.loads(lines[0])
    if d["no"] == -1:
        judge(ctx, huge(ctx), {-1: []})
    else:
        evs = perform_history(ctx, ctx.w, d["h"], d["no"])
        judge(ctx, [evs], {d["no"]: d["h"]})
