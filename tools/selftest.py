"""Falsified recordings must be rejected: guards against a specification that accepts anything."""
import json, os, random
from gen import *
from vlib import *
import plans


def record(ctx, sessions):
    for i, s in enumerate(sessions):
        s[0] = "S t%d" % i
    p = perform(ctx, sessions, "selftest")
    if p["crashed"]:
        raise ToolError("selftest: " + p["crashed"])
    return p


def judge(ctx, mod, recs):
    path = ctx.path("st.ndjson")
    with open(path, "w") as f:
        for i, r in enumerate(recs):
            f.write(json.dumps(dict(r, id=i + 1)) + "\n")
    return set(run_trace(ctx, mod, path)[1])


def bytes_part(ctx, mod, recs, rng, per):
    """each recording as it is, then falsified in several ways"""
    out, what = [], []
    for r in recs:
        out.append(r)
        what.append("as it is")
        for _ in range(per):
            q = dict(r)
            y = list(r["out"])
            ways = ["append", "res"] if r["k"] == "dec" else ["append"]
            ways += ["flip", "drop", "swap"] if y else []
            w = rng.choice(ways)
            if w == "flip":
                y[rng.randrange(len(y))] ^= 1 << rng.randrange(8)
            elif w == "drop":
                y = y[:-1]
            elif w == "append":
                y.append(rng.choice([0, 255]))
            elif w == "swap":
                i = rng.randrange(len(y))
                j = rng.randrange(len(y))
                if y[i] == y[j]:
                    continue
                y[i], y[j] = y[j], y[i]
            if r["k"] == "dec" and r["res"] != "ok" and w != "res":
                continue
            if w == "res":
                if r["m"] == "port" if "m" in r else False:
                    continue
                q["res"] = "err" if r["res"] == "ok" else "ok"
            q["out"] = y
            out.append(q)
            what.append(w)
    bad = judge(ctx, mod, out)
    wrong = [(w, r) for i, (w, r) in enumerate(zip(what, out)) if ((i + 1) in bad) == (w == "as it is")]
    print("%s: %d recordings, %d falsified, %d judged wrongly" % (mod, what.count("as it is"), len(what) - what.count("as it is"), len(wrong)))
    for w, r in wrong[:5]:
        print("  ", w, json.dumps(r)[:400])
    return len(wrong)


def selftest(ctx):
    rng = random.Random(ctx.seed)
    ss = []
    for i in range(60):
        c, ms, o = lzw_any(rng, 10)
        ss.append(["S x", "V x " + data(rng, size(rng, 200), ms), "C %s in=x out=y bytes=1" % c, "X %s in=y ref=x bytes=1" % c])
    for i in range(25):
        c = lzss_any(rng, True, 32)
        ss.append(["S x", "V x " + data(rng, size(rng, 80)), "C %s in=x out=y bytes=1" % c, "X %s in=y ref=x bytes=1" % c])
    for i in range(20):
        c = rng.choice(["port", "lzss:std", "lzss:td"])
        ss.append(["S x", "V x " + data(rng, size(rng, 150)), "C %s in=x out=y bytes=1" % c, "X %s in=y ref=x bytes=1" % c])
    for i in range(20):
        ss.append(["S x", "V x td:%d:%d:%s" % (rng.choice([10, 21]), i, data(rng, size(rng, 300))), "C td0 in=x out=y", "X td0 in=y ref=x"])
    p = record(ctx, ss)
    wrong = 0
    for fam, mod in (("lzw", "LZWTrace"), ("lzh", "LZHTrace")):
        wrong += bytes_part(ctx, mod, [json.loads(l) for l in open(p["by"] + "." + fam)], rng, 6)
    # calls: one falsified call per history
    hist = {}
    for l in open(p["ev"]):
        e = json.loads(l)
        hist.setdefault(e["s"], []).append(e)
    out, exp, s = [], [], 0
    for h in hist.values():
        for k in [None] + list(range(len(h))):
            for f in (["none"] if k is None else ["r", "is", "os", "yl", "before", "after", "src", "fired", "y", "g", "lcp", "by"]):
                s += 1
                g = [dict(e, s=s) for e in h]
                must = True
                if k is not None:
                    e = g[k]
                    if f == "r":
                        e["r"] = "err" if e["r"] == "ok" else "ok"
                    elif f in ("is", "os", "yl"):
                        e[f] += 1
                    elif f in ("before", "after", "src"):
                        e[f] = 0
                    elif f == "fired":
                        e["fired"] = 1
                    elif f == "y":
                        e["y"] += 1000     # (of a compression: nothing is known yet, and then nothing expands it)
                        must = e["op"] == "X" and not (e["fam"] == "lzss" and e["hdr"] == 0) and not (e["fam"] == "td0" and e["h"][4] >= 20)
                    elif f == "lcp":
                        must = e["op"] == "X" and (e["fam"] == "lzss" and e["hdr"] == 0 or e["fam"] == "td0" and e["h"][4] >= 20)
                        if not must:
                            continue
                        e["lcp"] -= 1
                    elif f == "g":
                        if e["fam"] != "td0":
                            continue
                        e["g"] = e["g"][:]
                        e["g"][rng.randrange(12)] ^= 1 << rng.randrange(8)
                    elif f == "by":
                        continue
                    if not must:
                        continue
                out += g
                exp.append((s, k is not None, f, h))
    for i, e in enumerate(out):
        e["id"] = i + 1
    bad = {out[i - 1]["s"] for i in judge(ctx, "ApiTrace", out)}
    w = [(f, h) for s, must, f, h in exp if (s in bad) != must]
    print("ApiTrace: %d histories, %d falsified, %d judged wrongly" % (len(hist), len(exp) - len(hist), len(w)))
    for f, h in w[:5]:
        print("  ", f, json.dumps(h)[:600])
    return wrong + len(w)
