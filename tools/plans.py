"""What each check explores.  Every function takes the context; the budget grows with the tier."""
import json, os
from gen import *
from vlib import *

# ------------------------------------------------------------------ option lists for the models

LZW_SMALL = [
    dict(hb=0, hd=1, chunk=5, maxsym=1, clear=2, stop=3, w=3, ord="lsb"),
    dict(hb=5, hd=1, chunk=3, maxsym=1, clear=-1, stop=-1, w=3, ord="msb"),
    dict(hb=6, hd=3, chunk=9, maxsym=1, clear=7, stop=2, w=3, ord="lsb"),
    dict(hb=7, hd=2, chunk=4, maxsym=2, clear=-1, stop=3, w=2, ord="lsb"),
    dict(hb=0, hd=1, chunk=1000, maxsym=1, clear=-1, stop=2, w=2, ord="msb"),
    dict(hb=0, hd=1, chunk=7, maxsym=3, clear=5, stop=4, w=3, ord="msb"),
    dict(hb=9, hd=1, chunk=6, maxsym=2, clear=5, stop=6, w=3, ord="msb"),
    dict(hb=0, hd=1, chunk=2, maxsym=1, clear=2, stop=3, w=2, ord="lsb"),
]
LZSS_MODELS = [   # N F T Pre Alphabet
    (6, 2, 1, 0, "{0, 1}"), (6, 3, 1, 0, "{0, 1}"), (7, 2, 0, 0, "{0, 1}"), (8, 3, 1, 1, "{0, 1}"), (5, 2, 1, 1, "{0, 1, 2}"),
]
LZSS_DEEP = [(8, 3, 2, 0, "{0, 1}"), (9, 3, 1, 0, "{0, 1}"), (8, 4, 2, 1, "{0, 1}"), (7, 3, 1, 0, "{0, 1, 2}"), (10, 3, 0, 0, "{0, 1}")]
TOKENS = [dict(N=4096, F=60, T=2, pre=32, hdr=0, max=2), dict(N=16, F=5, T=1, pre=7, hdr=0, max=2), dict(N=8, F=4, T=4, pre=7, hdr=0, max=2)]


def configs(ctx, cs):
    p = ctx.path("configs.ndjson")
    with open(p, "w") as f:
        for c in cs:
            f.write(json.dumps(c) + "\n")
    return {"CONFIGS": p}


def cfg_file(ctx, text):
    p = ctx.path("model.cfg")
    with open(p, "w") as f:
        f.write(text)
    return p[:-4]


# ------------------------------------------------------------------ the models

def lzw_models(ctx, op, cover=True, gen=6):
    """LZW coder and decoder in lockstep: all states for all inputs; then the inputs that
    reach each state, and all short inputs, replayed on the code."""
    lines = []
    big = not ctx.quick

    def mc():
        model(ctx, "LZWModel", "LZWMC", configs(ctx, LZW_SMALL), 3, "all inputs of any length, %d option sets" % len(LZW_SMALL))

    def vec(cfg, cs, what, text=None):
        def f():
            out = model(ctx, "LZWModel", cfg_file(ctx, text) if text else cfg, configs(ctx, cs), 3, what)
            for v in vec_lines(out):
                c = codec_of(v["o"])
                if op in "CR":
                    lines.append("%s %s %s ok %s" % (c, op, hx(v["in"]), hx(v["out"])))
                else:
                    lines.append("%s X %s ok %s" % (c, hx(v["out"]), hx(v["in"])))
        return f
    g = open(os.path.join(SPEC, "LZWGen.cfg")).read().replace("MaxLen = 6", "MaxLen = %d" % (gen + (3 if big else 0)))
    # (the history makes long inputs costly; without headers and clear code a chunk must not fill)
    far = 60 if ctx.quick else 250
    t = open(os.path.join(SPEC, "LZWCover.cfg")).read().replace("MaxLen = 1000000", "MaxLen = %d" % far)
    jobs = [mc, vec(None, LZW_SMALL, "one input per state reachable by up to %d symbols" % far, t)]
    jobs.append(vec(None, LZW_SMALL, "all inputs up to length %d" % (gen + (3 if big else 0)), g))
    parallel(jobs)
    return lines


def lzw_codes(ctx):
    """every code sequence of bounded length fed to the decoder"""
    lines = []
    items = 7 if not ctx.quick else 6
    text = open(os.path.join(SPEC, "LZWCodes.cfg")).read().replace("MaxItems = 6", "MaxItems = %d" % items)

    def job(c):
        def f():
            out = model(ctx, "LZWCodes", cfg_file(ctx, text), configs(ctx, [c]), 1, "all code sequences up to %d, %s" % (items, codec_of(c)), heap="4g")
            for v in vec_lines(out):
                lines.append("%s X %s %s %s" % (codec_of(v["o"]), hx(v["in"]), "ok" if v["ok"] else "err", hx(v["out"])))
        return f
    parallel([job(c) for c in LZW_SMALL])
    return lines


def huff_model(ctx):
    for n, th in ([(4, 20)] if ctx.quick else [(4, 20), (3, 40), (5, 16)]):
        text = open(os.path.join(SPEC, "AHuffMC.cfg")).read().replace("NSyms = 4", "NSyms = %d" % n).replace("Thresh = 20", "Thresh = %d" % th)
        model(ctx, "AHuffMC", cfg_file(ctx, text), None, 3, "adaptive code: %d symbols, rebuild at %d" % (n, th))


def lzss_models(ctx, op):
    lines = []
    mc = open(os.path.join(SPEC, "LZSSMC.cfg")).read()
    cov = open(os.path.join(SPEC, "LZSSCover.cfg")).read()
    jobs = [lambda: huff_model(ctx)]

    def conf(text, p):
        for k, v in zip(("N", "F", "T", "Pre", "Alphabet"), p):
            text = re.sub(r"(?m)^(\s*%s\s*=).*$" % k, lambda m: m.group(1) + " " + str(v), text)
        return cfg_file(ctx, text)

    def mcjob(p):
        return lambda: model(ctx, "LZSSMC", conf(mc, p), None, 1, "LZSS lockstep, N,F,T,pre,alphabet = %s" % (p,))

    def covjob(p):
        def f():
            out = model(ctx, "LZSSMC", conf(cov, p), None, 1, "one input per reachable state, %s" % (p,))
            for v in vec_lines(out):
                o = v["o"]
                for hdr in (0, 1):
                    c = codec_of(dict(o, hdr=hdr))
                    h = list(len(v["in"]).to_bytes(4, "little")) if hdr else []
                    if op in "CR":
                        lines.append("%s %s %s ok %s" % (c, op, hx(v["in"]), hx(h + v["out"])))
                    elif hdr:
                        lines.append("%s X %s ok %s" % (c, hx(h + v["out"]), hx(v["in"])))
        return f
    ms = LZSS_MODELS + ([] if ctx.quick else LZSS_DEEP)
    parallel([mcjob(p) for p in ms] + [covjob(p) for p in (LZSS_MODELS[:3] if ctx.quick else LZSS_MODELS + LZSS_DEEP[:2])] + jobs)
    return lines


def lzss_tokens(ctx):
    lines = []

    def job(t):
        def f():
            out = model(ctx, "LZHTok", None, configs(ctx, [t]), 2, "all token sequences up to %d, %s" % (t["max"], t))
            for v in vec_lines(out):
                lines.append("%s X %s ok %s" % (codec_of(v["o"]), hx(v["in"]), hx(v["out"])))
        return f
    ts = [dict(t, max=t["max"] + (0 if ctx.quick or t["N"] > 100 else 1)) for t in TOKENS]
    parallel([job(t) for t in ts])
    return lines


def lzw_refines(ctx):
    """the LZW model refines LZWAbs, whose losslessness is proved without bounds"""
    text = open(os.path.join(SPEC, "LZWRefines.cfg")).read()
    if not ctx.quick:
        text = text.replace("MaxLen = 6", "MaxLen = 9")
    model(ctx, "LZWRefines", cfg_file(ctx, text), configs(ctx, LZW_SMALL), 4, "the LZW model refines the abstract one")
    proof(ctx, "LZWProof")


def lzss_refines(ctx):
    """the LZSS coder and decoder refine LZSSAbs, whose losslessness is proved without bounds"""
    base = open(os.path.join(SPEC, "LZSSRefines.cfg")).read()
    for n, f, t, ab, ln in [(8, 3, 1, "{1, 32}", 9)] + ([] if ctx.quick else [(8, 3, 1, "{1, 32}", 14), (8, 4, 1, "{1, 32}", 13), (6, 3, 0, "{1, 2, 32}", 8), (16, 5, 2, "{1, 32}", 14), (7, 2, 2, "{1, 32}", 13)]):
        text = base
        for k, v in (("N", n), ("F", f), ("T", t), ("Alphabet", ab), ("MaxLen", ln)):
            text = re.sub(r"(?m)^(\s*%s\s*=).*$" % k, lambda m: m.group(1) + " " + str(v), text)
        model(ctx, "LZSSRefines", cfg_file(ctx, text), None, 4, "LZSS coder and decoder (N,F,T = %d,%d,%d) refine the abstract one" % (n, f, t))
    proof(ctx, "LZSSProof")


def proof(ctx, module):
    """TLAPS checks the proof (which does not depend on the implementation: thorough tier only)"""
    if ctx.quick:
        return
    d = ctx.path("proof")
    os.makedirs(d)
    for f in (module, module.replace("Proof", "Abs")):
        shutil.copy2(os.path.join(SPEC, f + ".tla"), d)
    r = run(["tlapm", "--threads", "4", "--stretch", "6", module + ".tla"], cwd=d, timeout=3000)
    m = re.search(r"All (\d+) obligations proved", r.stdout + r.stderr)
    if not m:
        raise ToolError("%s: TLAPS did not prove it\n%s" % (module, (r.stdout + r.stderr)[-3000:]))
    ctx.models.append({"model": module, "config": "TLAPS, %s obligations proved" % m.group(1), "obligations": int(m.group(1))})
    say("tlapm", module, m.group(1), "obligations")


# ------------------------------------------------------------------ round trips

def roundtrip(codec, spec, extra=""):
    return ["S x", "V x " + spec, "C %s in=x out=y%s" % (codec, extra), "X %s in=y ref=x out=z%s" % (codec, extra)]


def c01(ctx):
    rng = rng_for(ctx.seed, "c01")
    lzw_refines(ctx)
    vectors_run(ctx, lzw_models(ctx, "R"), "C01")
    ss = []
    for i in range(2500 if ctx.quick else 40000):
        c, ms, o = lzw_any(rng, 16)
        if o and o["w"] == 16 and rng.random() < .7:
            continue
        ss.append(roundtrip(c, data(rng, size(rng, 3000), ms)))
    # long enough to use up the code space, and to fill many chunks
    for i in range(60 if ctx.quick else 1500):
        c, ms, o = lzw_any(rng, 14)
        ss.append(roundtrip(c, data(rng, rng.randrange(10000, 60000), ms)))
    # lengths around chunk ends: uniform data gives about one code per symbol
    for i in range(60 if ctx.quick else 600):
        c, ms, o = lzw_any(rng, 12)
        k = o["chunk"] if o["chunk"] < 6000 else 50
        for d in (-2, -1, 0, 1, 2):
            ss.append(roundtrip(c, data(rng, max(0, k + d), ms, ["uniform", "incr"])))
    for i in range(2 if ctx.quick else 20):
        c = rng.choice(["lzw:0:1:65000:255:-1:256:16:lsb", "lzw:0:1:1000000000:255:256:257:16:msb", "lzw:16:16:60000:255:-1:-1:16:msb"])
        ss.append(roundtrip(c, data(rng, rng.randrange(100000, 250000), 255, ["uniform", "mix", "text"])))
    sessions_run(ctx, ss, "c01.")


def c02(ctx):
    rng = rng_for(ctx.seed, "c02")
    lzss_refines(ctx)
    vectors_run(ctx, lzss_models(ctx, "R"), "C02")
    ss = []
    for i in range(3000 if ctx.quick else 40000):
        ss.append(roundtrip(lzss_any(rng), data(rng, size(rng, 4000))))
    for i in range(50 if ctx.quick else 800):
        ss.append(roundtrip(lzss_any(rng), data(rng, rng.randrange(20000, 150000))))
    for i in range(300 if ctx.quick else 5000):
        ss.append(roundtrip(rng.choice(["lzss:std", "lzss:td", "lzss:1:4096:60:2:0"]), ring(rng)))
    ss += skewed(rng, [lzss_codec(dict(hdr=1, N=4096, F=60, T=2, pre=32)), "lzss:td", "lzss:1:4:2:2:32"], ctx)
    sessions_run(ctx, ss, "c02.")


def ring(rng):
    """nearly maximal matches where the ring of 4096 wraps"""
    return "gen:ring:%d:%d:%d" % (rng.randrange(10**9), rng.choice([5000, 5000, 9000, 14000]), rng.choice([255, 255, 9]))


def skewed(rng, codecs, ctx):
    """histories that drive the adaptive code to very long codes, with every rare symbol last"""
    ss = []
    for c in codecs:
        for k in ([40, 120, 200, 240] if ctx.quick else range(1, 241, 7)):
            ss.append(roundtrip(c, "gen:longlit:0:%d" % k))
        for k in ([60, 200] if ctx.quick else range(5, 200, 20)):
            if ":4:2" not in c:
                ss.append(roundtrip(c, "gen:longrun:0:%d" % k))
    return ss


def c03(ctx):
    rng = rng_for(ctx.seed, "c03")
    vectors_run(ctx, ["port R %s ok -" % l.split()[2] for l in lzss_models(ctx, "R")], "C03")
    ss = []
    for i in range(3000 if ctx.quick else 40000):
        ss.append(roundtrip("port", data(rng, size(rng, 4000))))
    for i in range(60 if ctx.quick else 1000):
        ss.append(roundtrip("port", data(rng, rng.randrange(20000, 200000))))
    for i in range(400 if ctx.quick else 6000):
        ss.append(roundtrip("port", ring(rng)))
    ss += skewed(rng, ["port"], ctx)
    sessions_run(ctx, ss, "c03.")


def cross(spec):
    return ["S x", "V x " + spec, "C port in=x out=p", "C lzss:std in=x out=q", "X lzss:std in=p ref=x", "X port in=q ref=x"]


def c04(ctx):
    rng = rng_for(ctx.seed, "c04")
    ss = []
    for i in range(6000 if ctx.quick else 80000):
        ss.append(cross(data(rng, size(rng, 600 if i % 2 else 5000))))
    for i in range(80 if ctx.quick else 1500):
        ss.append(cross(data(rng, rng.randrange(20000, 150000))))
    for i in range(400 if ctx.quick else 6000):
        ss.append(cross(ring(rng)))
    for k in [1, 60, 120, 180, 240]:
        ss.append(cross("gen:longlit:0:%d" % k))
    ss.append(cross("gen:longrun:0:150"))
    sessions_run(ctx, ss, "c04.")
    # and both against the one specification
    ss = []
    for i in range(40 if ctx.quick else 600):
        ss.append(["S x", "V x " + data(rng, size(rng, 1500)), "C port in=x out=p bytes=1", "C lzss:std in=x out=q bytes=1",
                   "X lzss:std in=p ref=x bytes=1", "X port in=q ref=x bytes=1"])
    t = {("lzh", "enc"): "C04", ("lzh", "dec"): "C04"}
    sessions_run(ctx, ss, "c04b.", tags=t)


# ------------------------------------------------------------------ exact streams

def c05(ctx):
    rng = rng_for(ctx.seed, "c05")
    vectors_run(ctx, lzw_models(ctx, "C"), "C05")
    ss = []

    def enc(c, spec):
        ss.append(["S x", "V x " + spec, "C %s in=x bytes=1" % c])
    for i in range(500 if ctx.quick else 8000):
        c, ms, o = lzw_any(rng, 13)
        enc(c, data(rng, size(rng, 1200), ms))
    for i in range(16 if ctx.quick else 300):
        c, ms, o = lzw_any(rng, 12)
        enc(c, data(rng, rng.randrange(6000, 30000), ms))
    for c in ("lzw:std", "lzw:td"):
        for f in ("uniform", "text", "mix"):
            enc(c, data(rng, 40000, 255, [f]))
    for i in range(15 if ctx.quick else 300):
        c, ms, o = lzw_any(rng, 12)
        k = o["chunk"] if o["chunk"] < 6000 else 50
        for d in (-1, 0, 1):
            enc(c, data(rng, max(0, k + d), ms, ["uniform", "incr"]))
    for i in range(4 if ctx.quick else 40):
        c, ms, o = lzw_any(rng, 16)
        enc(c, data(rng, size(rng, 1000), ms))
    sessions_run(ctx, ss, "c05.", events=False)


def c06(ctx):
    rng = rng_for(ctx.seed, "c06")
    vectors_run(ctx, lzss_models(ctx, "C"), "C06")
    ss = []

    def enc(c, spec):
        ss.append(["S x", "V x " + spec, "C %s in=x bytes=1 ev=0" % c])
    for i in range(300 if ctx.quick else 5000):
        # (searching compares whole lookaheads, which takes TLC time)
        c = lzss_any(rng, rng.random() < .7, 64)
        f = c.split(":")
        n = 60 if len(f) > 3 and f[3] == f[4] and int(f[3]) > 8 else 500      # (nothing ever leaves the trees)
        enc(c, data(rng, size(rng, n)))
    for i in range(8 if ctx.quick else 100):
        enc(lzss_any(rng, maxf=130), data(rng, size(rng, 100)))
    for i in range(60 if ctx.quick else 1200):
        # (long runs make the trees lists, which takes TLC time)
        spec = data(rng, size(rng, 400), 255, ["runs", "mix"]) if i % 3 == 0 else data(rng, size(rng, 1500), 255, [f for f in FAMS if f not in ("runs", "mix")])
        enc("port", spec)
        enc("lzss:std", spec)
    for i in range(12 if ctx.quick else 150):
        enc(rng.choice(["port", "lzss:std", "lzss:td"]), data(rng, rng.randrange(4200, 5600), 255, ["far", "uniform", "text"]))
    # long enough for the code table to be rebuilt (32768 tokens), with a window of 4
    for f in (["skew", "uniform", "few"] if ctx.quick else ["skew", "uniform", "few", "text", "mix", "binary"] * 3):
        enc("lzss:%d:4:2:2:32" % rng.randrange(2), data(rng, 36000, 255, [f]))
    sessions_run(ctx, ss, "c06.", events=False)
    # the window of 4096 and the rebuild together: both implementations, against each other
    ss = []
    for i in range(1500 if ctx.quick else 30000):
        ss.append(["S x", "V x " + data(rng, size(rng, 3000)), "C port in=x", "C lzss:std in=x"])
    for i in range(60 if ctx.quick else 1500):
        ss.append(["S x", "V x " + data(rng, rng.randrange(20000, 120000)), "C port in=x", "C lzss:std in=x"])
    for i in range(300 if ctx.quick else 6000):
        ss.append(["S x", "V x " + ring(rng), "C port in=x", "C lzss:std in=x"])
    sessions_run(ctx, ss, "c06b.")


# ------------------------------------------------------------------ arbitrary streams

def c07(ctx):
    rng = rng_for(ctx.seed, "c07")
    vectors_run(ctx, lzw_codes(ctx), "C07")
    vectors_run(ctx, lzw_models(ctx, "X", gen=4), "C07")
    ss = []
    for i in range(600 if ctx.quick else 10000):
        c, ms, o = lzw_any(rng, 13)
        n = size(rng, 500 if i % 10 else 4000)
        ss.append(["S x", "V x hex:" + hx(LzwStream(rng, o).make(n)), "X %s in=x bytes=1" % c])
    # many more codes than the code space holds
    for i in range(6 if ctx.quick else 80):
        c, ms, o = lzw_any(rng, 11)
        ss.append(["S x", "V x hex:" + hx(LzwStream(rng, o).make(9000)), "X %s in=x bytes=1" % c])
    for i in range(150 if ctx.quick else 3000):
        c, ms, o = lzw_any(rng, 13)
        ss.append(["S x", "V x " + data(rng, size(rng, 900), ms), "C %s in=x out=y ev=0" % c,
                   "X %s in=y bytes=1" % c, "M %s of=y n=5 seed=%d bytes=1" % (c, rng.randrange(10**6)),
                   "T %s of=y ref=x n=4 seed=%d bytes=1" % (c, rng.randrange(10**6))])
    for i in range(200 if ctx.quick else 3000):
        c, ms, o = lzw_any(rng, 12)
        ss.append(["S x", "V x " + data(rng, size(rng, 60)), "X %s in=x bytes=1" % c])
    sessions_run(ctx, ss, "c07.", events=False)


def c08(ctx):
    rng = rng_for(ctx.seed, "c08")
    lines = lzss_tokens(ctx)
    vectors_run(ctx, lines, "C08")
    vectors_run(ctx, lzss_models(ctx, "X"), "C08")
    ss = []

    def hdr(n):
        return "hex:" + hx(n.to_bytes(4, "little"))
    for i in range(400 if ctx.quick else 8000):
        o = lzss_opts(rng)
        n = size(rng, 700)
        c = rng.choice([lzss_codec(o), lzss_codec(o), "lzss:std", "lzss:td", "port"])
        spec = "cat:%s+%s" % (hdr(rng.choice([0, 1, n // 2, n, 2 * n, 8 * n, rng.randrange(1 + 3 * n)])), data(rng, n))
        ss.append(["S x", "V x " + spec, "X %s in=x bytes=1" % c])
    for i in range(150 if ctx.quick else 3000):
        c = rng.choice([lzss_any(rng), "port"])
        ss.append(["S x", "V x " + data(rng, size(rng, 1200)), "C %s in=x out=y ev=0" % c,
                   "X %s in=y bytes=1" % c, "M %s of=y n=4 seed=%d bytes=1" % (c, rng.randrange(10**6)),
                   "T %s of=y ref=x n=4 seed=%d bytes=1" % (c, rng.randrange(10**6))])
    # enough tokens for the code table to be rebuilt
    for f in (["uniform", "skew", "zeros"] if ctx.quick else ["uniform", "skew", "mix", "text", "zeros", "const"] * 2):
        c = rng.choice(["lzss:std", "port", "lzss:td", lzss_codec(lzss_opts(rng))])
        n = 40000 if f in ("uniform", "text", "mix") else 9000
        ss.append(["S x", "V x cat:%s+%s" % (hdr(300000), data(rng, n, 255, [f])), "X %s in=x bytes=1" % ("lzss:std" if f == "zeros" else c)])
    sessions_run(ctx, ss, "c08.", events=False)


def c09(ctx):
    rng = rng_for(ctx.seed, "c09")
    q = ctx.quick
    ss = []
    for i in range(1500 if q else 30000):
        c, ms, o = lzw_any(rng, 16 if i % 20 == 0 else 13)
        ss.append(["S x", "V x " + data(rng, size(rng, 2000), ms), "C %s in=x out=y ev=0" % c, "M %s of=y n=8 seed=%d" % (c, rng.randrange(10**6))])
    for i in range(1500 if q else 30000):
        c = rng.choice([lzss_any(rng), "port"])
        ss.append(["S x", "V x " + data(rng, size(rng, 2000)), "C %s in=x out=y ev=0" % c, "M %s of=y n=8 seed=%d" % (c, rng.randrange(10**6))])
    for i in range(1000 if q else 20000):
        ver = rng.choice([0, 10, 19, 20, 21, 255, rng.randrange(256)])
        ss.append(["S x", "V x td:%d:%d:%s" % (ver, i, data(rng, size(rng, 2000))), "C td0 in=x out=y ev=0", "M td0 of=y n=8 seed=%d" % rng.randrange(10**6),
                   "V z ta:%d:%d:%s" % (ver, i, data(rng, size(rng, 300))), "X td0 in=z"])
    for i in range(1500 if q else 30000):      # plain noise
        c = rng.choice([lzw_any(rng, 13)[0], lzss_any(rng), "port", "td0"])
        n = size(rng, 300)
        spec = data(rng, n)
        if c == "port":
            spec = "cat:hex:%s+%s" % (hx(rng.randrange(100000).to_bytes(4, "little")), spec)
        ss.append(["S x", "V x " + spec, "X %s in=x" % c])
    for c in ["lzw:std", "lzw:td", "lzss:std", "lzss:td", "port", "td0"] + [lzw_any(rng)[0] for _ in range(20)] + [lzss_any(rng) for _ in range(20)]:
        for n in range(0, 14):                  # all lengths around the headers
            for b in ("00", "ff", "5a"):
                # (the port goes on up to the length announced, whatever is left of the input)
                h = "40010000" + b * (n - 4) if c == "port" and n >= 4 else b * n
                ss.append(["S x", "V x hex:" + (h or "-"), "X %s in=x" % c])
    # valid streams, long, of unusual codes
    for i in range(100 if q else 2000):
        c, ms, o = lzw_any(rng, 12)
        ss.append(["S x", "V x hex:" + hx(LzwStream(rng, o).make(size(rng, 3000))), "X %s in=x" % c])
    for i in range(10 if q else 100):
        ss.append(["S x", "V x cat:hex:ffffff7f+" + data(rng, 60000), "X lzss:std in=x", "X lzss:td in=x"])
    sessions_run(ctx, ss, "c09.", hang=30)
    vectors_run(ctx, lzw_codes(ctx), "C07")     # (counts the panics of C07's vectors, too)
    ss = []
    for i in range(120 if q else 2000):
        c, ms, o = lzw_any(rng, 11)
        ss.append(["S x", "V x " + data(rng, size(rng, 400), ms), "C %s in=x out=y ev=0" % c, "M %s of=y n=4 seed=%d bytes=1" % (c, rng.randrange(10**6))])
    sessions_run(ctx, ss, "c09b.", hang=30)


def c10(ctx):
    rng = rng_for(ctx.seed, "c10")
    q = ctx.quick
    ss = []
    for i in range(700 if q else 12000):
        c, ms, o = lzw_any(rng, 13)
        n = "all" if i % 8 == 0 else "10"
        ss.append(["S x", "V x " + data(rng, size(rng, 120 if n == "all" else 3000), ms), "C %s in=x out=y" % c,
                   "T %s of=y ref=x n=%s seed=%d" % (c, n, rng.randrange(10**6))])
    for i in range(700 if q else 12000):
        c = lzss_any(rng)
        n = "all" if i % 8 == 0 else "10"
        ss.append(["S x", "V x " + data(rng, size(rng, 120 if n == "all" else 3000)), "C %s in=x out=y" % c,
                   "T %s of=y ref=x n=%s seed=%d" % (c, n, rng.randrange(10**6))])
    for i in range(300 if q else 5000):
        n = "all" if i % 8 == 0 else "10"
        ss.append(["S x", "V x td:%d:%d:%s" % (rng.choice([10, 19, 20, 21, rng.randrange(256)]), i, data(rng, size(rng, 120 if n == "all" else 3000))),
                   "C td0 in=x out=y", "T td0 of=y ref=x n=%s seed=%d" % (n, rng.randrange(10**6))])
    sessions_run(ctx, ss, "c10.")
    # exactly the tokens that are left: the decoders stepped by the specification
    ss = []
    for i in range(150 if q else 3000):
        if i % 2:
            c, ms, o = lzw_any(rng, 12)
        else:
            c, ms = lzss_any(rng), 255
        ss.append(["S x", "V x " + data(rng, size(rng, 300), ms), "C %s in=x out=y ev=0" % c,
                   "T %s of=y ref=x n=%s seed=%d bytes=1" % (c, "6", rng.randrange(10**6))])
    sessions_run(ctx, ss, "c10b.", events=False, tags={("lzw", "dec"): "C10", ("lzh", "dec"): "C10"})


# ------------------------------------------------------------------ TD0

def td0_models(ctx):
    """the checksum and the headers; vectors for the checksum function"""
    lines = []
    text = open(os.path.join(SPEC, "TD0MC.cfg")).read().replace("MaxLen = 4", "MaxLen = %d" % (4 if ctx.quick else 5))

    def job(cfg, what):
        for v in vec_lines(model(ctx, "TD0MC", cfg, None, 3, what)):
            lines.append("crc:%d K %s ok %04x" % (v["seed"], hx(v["in"]), v["crc"]))
    parallel([lambda: job(cfg_file(ctx, text), "checksum of all strings over six bytes, four seeds"),
              lambda: job("TD0Hdr", "headers of all eight bytes out of three")])
    return lines


def c11(ctx):
    rng = rng_for(ctx.seed, "c11")
    q = ctx.quick
    vectors_run(ctx, td0_models(ctx), "C11")
    ss = []

    def td(ver, body, real=False):
        b = "lzw:td" if ver < 20 else "lzss:td"
        k = rng.randrange(10**6)
        ss.append(["S x", "V b " + body, "V x td:%d:%d:%s" % (ver, k, body), "C %s in=b out=cb" % b, "C td0 in=x out=y", "X %s in=cb ref=b" % b, "X td0 in=y ref=x"])
    for ver in list(range(256)) + [0, 10, 15, 18, 19, 20, 21, 22] * (20 if q else 300):
        td(ver, data(rng, size(rng, 3000)))
    for ver in (10, 15, 19, 20, 21) * (4 if q else 60):
        td(ver, data(rng, rng.randrange(10000, 90000)))
    for ver in (0, 15, 19, 20, 21, 255):
        for n in list(range(0, 8)) + [4095, 4096, 4097]:
            td(ver, data(rng, n, 255, ["uniform", "incr", "spaces"]))
    for n in (1, 2, 3):
        for d in (-2, -1, 0, 1, 2):
            td(15, data(rng, n * 4096 + d, 255, ["uniform"]))
    td(21, "gen:longlit:0:200")
    for f in ("norm", "adv"):
        for v in ("105", "215"):
            p = "/repo/tests/td%s.%s.td0" % (v, f)
            if os.path.exists(p):
                ss.append(["S x", "V x file:%s:0:0" % p] + (["C td0 in=x out=y", "X td0 in=y ref=x"] if f == "norm" else ["X td0 in=x out=y", "C td0 in=y"]))
    sessions_run(ctx, ss, "c11.")
    # the body exactly, in the specification's words
    ss = []
    for i in range(60 if q else 1000):
        c = ["lzw:td", "lzss:td"][i % 2]
        b = data(rng, size(rng, 1000 if i % 2 else 6000))
        ss.append(["S x", "V b " + b, "V x td:%d:%d:%s" % (15 if i % 2 == 0 else 21, i, b), "C %s in=b out=cb bytes=1" % c, "C td0 in=x out=y", "X td0 in=y ref=x"])
    sessions_run(ctx, ss, "c11b.", tags={("lzw", "enc"): "C11", ("lzh", "enc"): "C11"})


def c12(ctx):
    rng = rng_for(ctx.seed, "c12")
    q = ctx.quick
    vectors_run(ctx, td0_models(ctx), "C11")
    ss = []

    def crc(b):
        c = 0
        for x in b:
            c ^= x << 8
            for _ in range(8):
                c = ((c << 1) ^ 0xa097) & 0xffff if c & 0x8000 else c << 1
        return c

    def header(sig, mid=None, bad=0):
        h = sig + (mid or bytes(rng.randrange(256) for _ in range(8)))
        c = crc(h) ^ bad
        return h + bytes([c & 255, c >> 8])

    def both(spec, pre=""):
        ss.append(["S x", "V x " + spec, "C td0 in=x%s" % pre, "X td0 in=x%s" % pre])
    # almost valid files, from the specification
    text = open(os.path.join(SPEC, "TD0Near.cfg")).read()
    if not q:
        text = text.replace("Bytes = {0, 20, 130, 255}", "Bytes = {0, 7, 20, 77, 130, 255}")
    out = model(ctx, "TD0Near", cfg_file(ctx, text), None, 4, "almost valid headers")
    for b in sorted(set(bytes(v["file"]) for v in vec_lines(out))):
        both("hex:" + hx(b), "" if rng.random() < .8 else " pre=30")
    # every value of every single header byte
    for sig in (b"TD", b"td"):
        for rep in range(1 if q else 6):
            h = header(sig)
            for i in range(12):
                vals = range(256) if not q or i < 2 or i == 4 or i > 9 else sorted(set([rng.randrange(256) for _ in range(40)] + [h[i] ^ (1 << b) for b in range(8)]))
                for v in vals:
                    b = h[:i] + bytes([v]) + h[i + 1:]
                    both("hex:" + hx(b + b"\x00\x00\x00\x01abc"[:rng.randrange(8)]))
    # short files; also with old output present
    for sig in (b"TD", b"td"):
        for n in range(0, 13):
            both("hex:" + hx((header(sig) + b"xyz")[:n]))
            both("hex:" + hx((header(sig) + b"xyz")[:n]), " pre=40")
    for i in range(1500 if q else 30000):
        sig = rng.choice([b"TD", b"td", b"TD", b"td", b"Td", b"tD", b"DT", b"dt", b"T", b"\0\0", b"td"[::-1], bytes(rng.randrange(256) for _ in range(2))])
        sig = (sig + b"D")[:2]
        bad = rng.choice([0, 0, 1, 0x8000, 0x100, rng.randrange(1, 65536)])
        # (a well-known mistake: the checksum stored the other way round)
        h = header(sig, None, bad)
        if rng.random() < .1:
            h = h[:10] + h[:9:-1]
        pre = rng.choice(["", "", " pre=5", " pre=100"])
        n = size(rng, 60)
        both("cat:hex:%s+%s" % (hx(h), data(rng, n)), pre)
    for ver in range(256):                        # a valid header is never refused
        h = header(b"TD", bytes([rng.randrange(256), rng.randrange(256), ver] + [rng.choice([0, 255, rng.randrange(256)]) for _ in range(5)]))
        ss.append(["S x", "V x cat:hex:%s+%s" % (hx(h), data(rng, 50)), "C td0 in=x out=y", "X td0 in=y ref=x"])
    sessions_run(ctx, ss, "c12.")


# ------------------------------------------------------------------ limits, sizes, ranges

def c13(ctx):
    rng = rng_for(ctx.seed, "c13")
    q = ctx.quick
    ss = []
    G, M, U = 1073741823, 3000000, 4294967295
    near = (-2, -1, 0, 1, 2, 1000)
    # objects that pretend to have the length in question (the first read past the real data fails)
    for op in "CX":
        lz = lzw_any(rng)
        for c, ms in (("lzw:std", 255), ("lzss:std", 255), lz[:2], (lzss_any(rng), 255)):
            lim = M if c in ("lzw:td", "lzss:td") else G
            for d in near:
                for ino in (0, 1, 12, 4095):
                    ss.append(["S x", "V x gen:uniform:1:9000:%d" % ms, "L %s %s real=x vlen=%d ino=%d" % (op, c, lim + d + ino, ino)])
            for v in (lim * 2, lim * 4, U, U + 1, 1 << 40):
                ss.append(["S x", "V x gen:uniform:1:9000:%d" % ms, "L %s %s real=x vlen=%d ino=0" % (op, c, v)])
        for c in ("lzw:td", "lzss:td"):
            for d in near:
                for ino in (0, 12, 7):
                    ss.append(["S x", "V x gen:text:1:9000", "L %s %s real=x vlen=%d ino=%d" % (op, c, M + d + ino, ino)])
        for ver in (10, 19, 20, 21, 255):
            sig = "td" if op == "C" else "ta"
            for d in near + (M, G, U - M):
                ss.append(["S x", "V x %s:%d:3:gen:text:1:9000" % (sig, ver), "L %s td0 real=x vlen=%d ino=0" % (op, M + 12 + d)])
        for i in range(60 if q else 1500):
            c, ms = rng.choice([lzw_any(rng)[:2], (lzss_any(rng), 255)])
            lim = rng.choice([0, 1, 5, 100, 65535, 65536, 1 << 20, U, U + 1, 1 << 33, rng.randrange(1 << 34)])
            ino = rng.choice([0, 0, 1, 100, rng.randrange(1000)])
            v = max(0, lim + rng.choice(near) * rng.choice([1, 1, 1, 50]))
            # (the real part must not be longer than the pretended length)
            if v > 9000 + ino:
                ss.append(["S x", "V x gen:mix:1:9000:%d" % ms, "L %s %s real=x vlen=%d ino=%d lim=%d" % (op, c, v + ino, ino, lim)])
    for v in (U - 1, U + 1, U + 2, U + 1000, 1 << 33, 1 << 40, 3 * (U + 1)):
        ss.append(["S x", "V x gen:uniform:1:9000", "L C port real=x vlen=%d ino=0" % v])
    # real data and small limits
    for i in range(500 if q else 8000):
        c, ms = (lzw_any(rng)[:2] if i % 2 else (lzss_any(rng), 255))
        n = size(rng, 400)
        s = ["S x", "V x " + data(rng, n, ms), "C %s in=x out=y" % c, "X %s in=y ref=x" % c]
        for d in (-1, 0, 1):
            if n + d >= 0:
                s.append("C %s in=x lim=%d ino=%d pre=%d" % (c, n + d, rng.choice([0, 0, 3, 50]), rng.choice([0, 20])))
        # the compressed length is not known here; two limits either side are bound to hit it now and then
        s.append("L X %s real=y vlen=%d ino=0 lim=%d" % (c, 1 << 20, (1 << 20) - rng.choice([0, 1])))
        ss.append(s)
    for i in range(150 if q else 3000):
        c = lzss_any(rng) if i % 2 else lzw_any(rng)[0]
        n = rng.randrange(40)
        x = bytes(rng.randrange(2) for _ in range(n))
        s = ["S x", "V x hex:" + hx(x)]
        for lim in sorted({max(0, n - 1), n, n + 1, 0}):
            s.append("X %s in=x lim=%d ino=%d" % (c, lim, rng.choice([0, 5])))
        ss.append(s)
    # a whole file at the TD0 limit
    if True:
        for ver in (15, 21):
            for d in (0, 1):
                ss.append(["S x", "V x td:%d:3:gen:zeros:1:%d" % (ver, M + d), "C td0 in=x out=y"] + (["X td0 in=y ref=x"] if d == 0 else []))
    sessions_run(ctx, ss, "c13.")


def pre(rng):
    return rng.choice(["+0", "+1", "-1", "+%d" % rng.randrange(5000), "-%d" % rng.randrange(1, 60), "%d" % rng.randrange(60), "%d" % rng.randrange(20000), "0"])


def any_codec(rng):
    k = rng.randrange(5)
    if k < 2:
        c, ms, o = lzw_any(rng)
        return c, ms
    if k < 4:
        return lzss_any(rng), 255
    return "port", 255


def stand(rng, c):
    """where the caller's objects stand before the call (the port and td0 start from there, by design)"""
    if c[:2] != "lz" or rng.random() < .6:
        return ""
    return " ipos=%d opos=%d" % (rng.choice([0, 1, 13, 500, 5000, rng.randrange(100000)]), rng.choice([0, 1, 13, 500, 5000, rng.randrange(100000)]))


def ranges(ctx, rng, n, top):
    ss = []
    for i in range(n):
        c, ms = any_codec(rng)
        off = c != "port"
        x = data(rng, size(rng, top), ms)
        s = ["S x", "V x " + x, "C %s in=x out=y" % c, "X %s in=y ref=x out=z" % c]
        for j in range(3):
            o = (" ino=%d outo=%d" % (rng.choice([0, 1, 12, 300, rng.randrange(5000)]), rng.choice([0, 1, 12, 300, rng.randrange(5000)]))) if off else ""
            io = rng.choice(["full", "cursor", "full", "one" if i % 4 == 0 else "full", "file"])
            s.append("C %s in=x%s pre=%s io=%s%s" % (c, o, pre(rng), io, stand(rng, c)))
            o = (" ino=%d outo=%d" % (rng.choice([0, 1, 12, 300, rng.randrange(5000)]), rng.choice([0, 1, 12, 300, rng.randrange(5000)]))) if off else ""
            s.append("X %s in=y ref=x%s pre=%s io=%s%s" % (c, o, pre(rng), io, stand(rng, c)))
        ss.append(s)
    for i in range(n // 5):
        ver = rng.choice([10, 19, 20, 21, rng.randrange(256)])
        s = ["S x", "V x td:%d:%d:%s" % (ver, i, data(rng, size(rng, top))), "C td0 in=x out=y", "X td0 in=y ref=x"]
        for j in range(2):
            io = rng.choice(["full", "cursor", "file"])
            s += ["C td0 in=x pre=%s io=%s" % (pre(rng), io), "X td0 in=y ref=x pre=%s io=%s" % (pre(rng), io)]
        ss.append(s)
    return ss


def c14(ctx):
    rng = rng_for(ctx.seed, "c14")
    ss = ranges(ctx, rng, 900 if ctx.quick else 15000, 2500)
    # data nobody compressed: sizes of what is expanded all the same
    for i in range(300 if ctx.quick else 5000):
        c, ms, o = lzw_any(rng, 12)
        ss.append(["S x", "V x hex:" + hx(LzwStream(rng, o).make(size(rng, 300))), "X %s in=x" % c,
                   "X %s in=x pre=%s ino=%d outo=%d" % (c, pre(rng), rng.randrange(30), rng.randrange(30))])
        c = lzss_any(rng)
        ss.append(["S x", "V x cat:hex:%s+%s" % (hx(rng.randrange(2000).to_bytes(4, "little")), data(rng, size(rng, 300))), "X %s in=x" % c,
                   "X %s in=x pre=%s ino=%d outo=%d" % (c, pre(rng), rng.randrange(30), rng.randrange(30))])
    # more data after the end of a stream (a stop code, the announced length): it belongs to the input all the same
    for i in range(300 if ctx.quick else 5000):
        if i % 6 == 5:
            c, x = "td0", "td:%d:%d:%s" % (rng.choice([10, 19, 20, 21]), i, data(rng, size(rng, 600)))
        else:
            c, ms = any_codec(rng)
            x = data(rng, size(rng, 600), ms)
        s = ["S x", "V x " + x, "C %s in=x out=y" % c]
        for j in range(3):
            s.append("D z%d app y %s" % (j, data(rng, rng.choice([1, 2, 3, 8, 100, rng.randrange(1, 5000)]))))
            s.append("X %s in=z%d io=%s" % (c, j, rng.choice(["full", "cursor", "one", "file"])))
            o = " ino=%d outo=%d%s" % (rng.randrange(300), rng.randrange(300), stand(rng, c)) if c[:2] == "lz" else ""
            s.append("X %s in=z%d pre=%s%s" % (c, j, pre(rng), o))
        ss.append(s)
    for i in range(10 if ctx.quick else 200):
        c, ms = any_codec(rng)
        ss.append(roundtrip(c, data(rng, rng.randrange(20000, 100000), ms)))
    sessions_run(ctx, ss, "c14.")


def c15(ctx):
    rng = rng_for(ctx.seed, "c15")
    ss = ranges(ctx, rng, 1100 if ctx.quick else 18000, 1500)
    # output offsets beyond what is announced, and chunks whose headers are patched far out
    for i in range(200 if ctx.quick else 3000):
        o = lzw_opts(rng, 12, headers=True)
        c = lzw_codec(o)
        s = ["S x", "V x " + data(rng, size(rng, 6000), o["maxsym"]), "C %s in=x out=y" % c, "X %s in=y ref=x" % c]
        for j in range(3):
            s.append("C %s in=x outo=%d ino=%d pre=%s" % (c, rng.randrange(9000), rng.randrange(50), pre(rng)))
            s.append("X %s in=y ref=x outo=%d ino=%d pre=%s" % (c, rng.randrange(9000), rng.randrange(50), pre(rng)))
        ss.append(s)
    for i in range(200 if ctx.quick else 3000):
        c = lzss_any(rng)
        s = ["S x", "V x " + data(rng, size(rng, 1000)), "C %s in=x out=y" % c, "X %s in=y ref=x" % c]
        for off in (1, 100, 999, 1001, 50000):
            s.append("C %s in=x outo=%d pre=%s" % (c, off, pre(rng)))
            s.append("X %s in=y ref=x outo=%d pre=%s" % (c, off, pre(rng)))
        ss.append(s)
    # data nobody compressed
    for i in range(200 if ctx.quick else 3000):
        c, ms, o = lzw_any(rng, 12)
        ss.append(["S x", "V x hex:" + hx(LzwStream(rng, o).make(size(rng, 300))), "X %s in=x" % c,
                   "X %s in=x pre=%s ino=%d outo=%d" % (c, pre(rng), rng.randrange(30), rng.randrange(30))])
    sessions_run(ctx, ss, "c15.")


# ------------------------------------------------------------------ faults

def c16(ctx):
    rng = rng_for(ctx.seed, "c16")
    q = ctx.quick
    ss = []

    def faults(c, spec, only=None):
        for io in (["full"] if q else ["full", "one"]):
            for side in ("in", "out", "both"):
                for sticky in (0, 1):
                    if side == "both" and sticky == 0 and q:
                        continue
                    ss.append(["S x", "V x " + spec, "C %s in=x out=y" % c, "F C %s in=x side=%s sticky=%d io=%s max=3000" % (c, side, sticky, io),
                               "F X %s in=y side=%s sticky=%d io=%s max=3000" % (c, side, sticky, io)])
    kinds = ["lzw:std", "lzw:td", "lzss:std", "lzss:td", "port"] + [lzw_codec(lzw_opts(rng, 10)) for _ in range(6)] + [lzw_codec(lzw_opts(rng, 12, headers=True)) for _ in range(8)] \
        + [lzss_codec(lzss_opts(rng)) for _ in range(4)]
    for c in kinds:
        ms = 255
        f = c.split(":")
        if f[0] == "lzw" and len(f) > 3:
            ms = int(f[4])
        for n in ([0, 1, rng.randrange(2, 60), rng.randrange(200, 700)] if q else [0, 1, 2, 5, 40, 100, 300, 1000, 9000]):
            faults(c, data(rng, n, ms, ["uniform", "mix", "text"]))
    for ver in (10, 19, 20, 21):
        for n in ([0, 1, 50, 500] if q else [0, 1, 2, 10, 50, 500, 5000]):
            faults("td0", "td:%d:%d:%s" % (ver, n, data(rng, n)))
    # other kinds of failure: errors that could be taken for the end of the data, or be retried; writes that take nothing
    for c in kinds + ["td0"] * 3:
        ms = int(c.split(":")[4]) if c.startswith("lzw:") and len(c) > 8 else 255
        n = rng.choice([5, 60, 300])
        spec = "td:%d:%d:%s" % (rng.choice([15, 21]), n, data(rng, n)) if c == "td0" else data(rng, n, ms, ["uniform", "mix", "text"])
        for kind in ("eof", "zero", "block", "time", "data", "pipe"):
            for side in (("in", "out") if kind == "eof" else ("out",) if kind == "zero" else ("both",) if q else ("in", "out")):
                for sticky in ((0, 1) if kind in ("eof", "zero") or not q else (rng.randrange(2),)):
                    ss.append(["S x", "V x " + spec, "C %s in=x out=y" % c] + ["F %s %s in=%s side=%s sticky=%d kind=%s max=3000" % (op, c, v, side, sticky, kind) for op, v in (("C", "x"), ("X", "y"))])
    # many chunks, and more than the buffers hold
    faults("lzw:td", data(rng, 13000, 255, ["uniform"]))
    faults("lzw:std", data(rng, 13000, 255, ["uniform"]))
    faults("lzss:std", data(rng, 17000, 255, ["uniform"]))
    faults("port", data(rng, 17000, 255, ["uniform"]))
    faults("td0", "td:15:1:" + data(rng, 13000, 255, ["uniform"]))
    sessions_run(ctx, ss, "c16.", hang=60)


# ------------------------------------------------------------------ purity

def c17(ctx):
    rng = rng_for(ctx.seed, "c17")
    q = ctx.quick
    ss = []
    ios = ["full", "one", "rand", "intr", "cursor", "file", "slice"]
    for i in range(700 if q else 12000):
        c, ms = any_codec(rng)
        if rng.random() < .15:
            c, x = "td0", "td:%d:%d:%s" % (rng.choice([10, 19, 20, 21, rng.randrange(256)]), i, data(rng, size(rng, 2500)))
        else:
            x = data(rng, size(rng, 2500), ms)
        first = rng.choice(ios[:1] + ios[4:])
        s = ["S x", "V x " + x, "C %s in=x out=y io=%s" % (c, first), "X %s in=y ref=x io=%s" % (c, first)]
        for io in rng.sample(ios, 4) + [first]:
            s += ["C %s in=x io=%s%s" % (c, io, stand(rng, c)), "X %s in=y ref=x io=%s%s" % (c, io, stand(rng, c))]
        # cut and damaged data, too
        s += ["D k cut y %d" % rng.randrange(60), "D m mut y %d 1" % rng.randrange(10**6)]
        for io in rng.sample(ios, 3):
            s += ["X %s in=k io=%s" % (c, io), "X %s in=m io=%s" % (c, io)]
        ss.append(s)
    # the first call of a process, and calls after many others: with the same codec, a related one, another one
    for i in range(110 if q else 1500):
        cs = []
        for j in range(rng.choice([1, 2, 2, 3])):
            k = rng.randrange(6)
            if k == 0:
                cs.append(("td0", "td:%d:%d:%s" % (rng.choice([10, 19, 20, 21]), i, data(rng, size(rng, 1500)))))
            elif k == 1:
                cs.append((rng.choice(["lzw:std", "lzw:td", "lzss:std", "lzss:td", "port"]), data(rng, size(rng, 1500))))
            else:
                c, ms = any_codec(rng)
                cs.append((c, data(rng, size(rng, 1500), ms)))
        s = ["S x"] + ["V x%d %s" % (j, x) for j, (c, x) in enumerate(cs)]
        steps = []
        for j, (c, x) in enumerate(cs):
            s += ["C %s in=x%d out=y%d io=fresh" % (c, j, j), "X %s in=y%d ref=x%d io=fresh" % (c, j, j), "D m%d mut y%d %d 2" % (j, j, rng.randrange(10**6)),
                  "X %s in=m%d io=fresh" % (c, j)]
            steps += ["C %s in=x%d" % (c, j), "X %s in=y%d ref=x%d" % (c, j, j), "X %s in=m%d" % (c, j)]
        for j in range(2):
            rng.shuffle(steps)
            s += [t + " io=" + rng.choice(["full", "full", "cursor", "slice", "one"]) for t in steps]
        ss.append(s)
    # more than the buffers hold
    for i in range(30 if q else 500):
        c, ms = any_codec(rng)
        s = ["S x", "V x " + data(rng, rng.randrange(16000, 60000), ms), "C %s in=x out=y" % c, "X %s in=y ref=x" % c]
        for io in ("one", "rand", "file", "slice", "cursor"):
            s += ["C %s in=x io=%s" % (c, io), "X %s in=y ref=x io=%s" % (c, io)]
        ss.append(s)
    # concurrent calls
    for i in range(60 if q else 1500):
        vs, names = [], []
        items = []
        base = []
        for j in range(rng.randrange(2, 9)):
            c, ms = any_codec(rng)
            vs.append("V v%d %s" % (j, data(rng, size(rng, 4000), ms)))
            items.append("%s@v%d" % (c, j))
            base += ["C %s in=v%d out=w%d" % (c, j, j), "X %s in=w%d ref=v%d" % (c, j, j)]
        if rng.random() < .5:
            ss.append(["S x"] + vs + base + ["P " + ";".join(items)] * 2 + base[:4])
        else:
            ss.append(["S x"] + vs + ["P " + ";".join(items)] + base)
    api_model(ctx)
    ss += histories(ctx, 60 if q else 1500, rng)
    sessions_run(ctx, ss, "c17.")


def api_model(ctx):
    """the laws of module Api against their meaning"""
    text = open(os.path.join(SPEC, "ApiMC.cfg")).read()
    if ctx.quick:
        text = text.replace("MaxCalls = 4", "MaxCalls = 3")
    model(ctx, "ApiMC", cfg_file(ctx, text), None, 4, "all call histories of two codecs over two values: accepted iff explainable")
    if not ctx.quick:
        text = text.replace("NVal = 2", "NVal = 3").replace("MaxCalls = 4", "MaxCalls = 3")
        model(ctx, "ApiMC", cfg_file(ctx, text), None, 8, "the same over three values")


def histories(ctx, n, rng):
    """call histories out of module ApiGen, by simulation"""
    seed = rng.randrange(1, 10**9)
    rc, out = tlc(ctx, "ApiGen", extra=["-simulate", "num=%d" % n, "-depth", "60", "-seed", str(seed)], heap="2g")
    hs = [h for h in vec_lines(out)]
    if rc != 0 or not hs:
        raise ToolError("ApiGen: exit %d\n%s" % (rc, out[-2000:]))
    m = re.findall(r"(\d+) states (?:checked|generated)", out)
    ctx.models.append({"model": "ApiGen", "config": "simulation, %d histories" % len(hs), "generated": int(m[-1]) if m else 0})
    ss = []
    for h in hs:
        s = ["S x"]
        # concrete codecs and data for the model's names
        cs = {}
        for k in range(1, 5):
            cs[k] = any_codec(rng)[0]
        low = min([255] + [int(c.split(":")[4]) for c in cs.values() if c.startswith("lzw:") and len(c) > 8])
        for e in h["h"]:
            if e["a"] == "new":
                s.append("V v%d %s" % (e["v"], data(rng, size(rng, 1500), low)))
            elif e["a"] == "cut":
                s.append("D v%d cut v%d %d" % (e["v"], e["of"], rng.randrange(200)))
            elif e["a"] == "mut":
                s.append("D v%d mut v%d %d 1" % (e["v"], e["of"], rng.randrange(10**6)))
            elif e["a"] in ("C", "X"):
                c = cs[e["c"]]
                o = ""
                if c != "port" and e["io"] != "slice":
                    o += " ino=%d outo=%d" % (e["ino"] * rng.choice([1, 12, 500]), e["outo"] * rng.choice([1, 12, 500]))
                if e["pre"] and e["io"] != "slice":
                    o += " pre=" + pre(rng)
                s.append("%s %s in=v%d out=v%d io=%s%s%s" % (e["a"], c, e["of"], e["v"], e["io"], o, " ref=v%d" % e["ref"] if e["ref"] else ""))
        ss.append(s)
    return ss
