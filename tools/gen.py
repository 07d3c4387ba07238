"""Random options, inputs and streams for the driver (deterministic in the seed)."""
import random

FAMS = ["uniform", "const", "zeros", "spaces", "binary", "spaceab", "few", "runs", "period", "far", "text", "skew", "incr", "mix"]


def data(rng, n, maxsym=255, fams=FAMS):
    return "gen:%s:%d:%d:%d" % (rng.choice(fams), rng.randrange(10**9), n, maxsym)


def size(rng, top=2000):
    """mostly small, all magnitudes up to top"""
    k = rng.random()
    if k < 0.08:
        return rng.randrange(4)
    if k < 0.3:
        return min(top, rng.randrange(70))
    if k < 0.6:
        return rng.randrange(min(top, 400) + 1)
    return rng.randrange(top + 1)


# ------------------------------------------------------------------ LZW

def lzw_opts(rng, maxw=12, headers=None):
    """A consistent option set, as a dict (see module LZW)."""
    while True:
        w = rng.choice([2, 3, 3, 4, 5, 6, 7, 8, 9, 9, 10, 11, 12, 12, 13, 14, 15, 16])
        if w > maxw:
            continue
        top = 2 ** w - 1
        ms = rng.choice([1, 2, 3, 7, 15, 31, 63, 127, 200, 254, 255, rng.randrange(256)])
        if ms > top:
            ms = min(top, 255) if rng.random() < .3 else max(0, min(255, top) // 2)
        above = list(range(ms + 1, min(top, ms + 6) + 1)) + ([top, top - 1] if top - 1 > ms else [top] if top > ms else [])
        clear = rng.choice(above) if above and rng.random() < .6 else -1
        stop = rng.choice(above) if above and rng.random() < .6 else -1
        if stop == clear:
            stop = -1
        o = dict(w=w, maxsym=ms, clear=clear, stop=stop, ord=rng.choice(["lsb", "msb"]))
        hd = (rng.random() < .4) if headers is None else headers
        o["chunk"] = rng.choice([0, 1, 2, 3, 5, 8, 17, 100, 256, 1000, 2 ** w - ms, 4096, 6000, 20000, rng.randrange(5000)])
        if hd:
            o["hd"] = rng.choice([d for d in range(1, w + 1) if w % d == 0])
            need = ((o["chunk"] + 2) * w // o["hd"]).bit_length()
            if need > 16:
                continue
            o["hb"] = rng.choice(sorted({need, min(16, need + 1), min(16, need + 3), 16}))
        else:
            o["hb"], o["hd"] = 0, 1
            if clear < 0:
                o["chunk"] = 1000000000
            if stop < 0 and w < 8:
                continue
        return o


def lzw_codec(o):
    return "lzw:%d:%d:%d:%d:%d:%d:%d:%s" % (o["hb"], o["hd"], o["chunk"], o["maxsym"], o["clear"], o["stop"], o["w"], o["ord"])


def lzw_any(rng, maxw=12):
    """(codec, maxsym, options or None)"""
    k = rng.random()
    if k < .12:
        return "lzw:std", 255, dict(hb=0, hd=1, chunk=4096, maxsym=255, clear=256, stop=257, w=12, ord="lsb")
    if k < .25:
        return "lzw:td", 255, dict(hb=16, hd=4, chunk=4096, maxsym=255, clear=-1, stop=-1, w=12, ord="lsb")
    o = lzw_opts(rng, maxw)
    return lzw_codec(o), o["maxsym"], o


class LzwStream:
    """Writes code streams no greedy coder would write: any defined code at any time."""
    def __init__(self, rng, o):
        self.rng, self.o, self.bits = rng, o, []

    def put(self, v, n):
        for i in range(n):
            self.bits.append((v >> (n - 1 - i if self.o["ord"] == "msb" else i)) & 1)

    def reset(self):
        self.defined, self.next, self.prev = [], self.skip(self.o["maxsym"] + 1), -1

    def skip(self, c):
        while c == self.o["clear"] or c == self.o["stop"]:
            c += 1
        return c

    def code(self):
        """one code; returns what kind it was"""
        o, rng, top = self.o, self.rng, 2 ** self.o["w"] - 1
        k = rng.random()
        if k < self.pbad:
            c = rng.randrange(top + 1)
            if c == o["clear"]:
                return c, "clear"
            if c == o["stop"]:
                return c, "stop"
            ok = c <= o["maxsym"] or c in self.defset or (c == self.next and self.prev >= 0 and self.next <= top)
            if not ok:
                return c, "bad"
        elif k < self.pbad + self.pclear and o["clear"] >= 0:
            return o["clear"], "clear"
        elif k < .35 and self.prev >= 0 and self.next <= top and rng.random() < .3:
            c = self.next
        elif k < .6 and self.defined:
            c = self.defined[-1 - int(len(self.defined) * rng.random() ** 3)] if rng.random() < .7 else rng.choice(self.defined)
        else:
            c = rng.randrange(o["maxsym"] + 1)
        return c, "str"

    def make(self, n):
        o, rng = self.o, self.rng
        top = 2 ** o["w"] - 1
        self.pbad = rng.choice([0, 0, 0, .002, .02])
        self.pclear = rng.choice([0, .003, .05])
        left = n
        while left > 0:
            self.reset()
            self.defset = set()
            k = 1 << 30
            if o["hb"] > 0:
                room = (2 ** o["hb"] - 1) * o["hd"] // o["w"]
                k = min(room, rng.choice([0, 1, 2, 5, left, left, rng.randrange(left + 1)]))
                self.put(k * o["w"] // o["hd"], o["hb"])
                if k == 0 and rng.random() < .5:
                    left -= 1
                    continue
            while k > 0 and left > 0:
                c, kind = self.code()
                self.put(c, o["w"])
                k -= 1
                left -= 1
                if kind in ("bad", "stop"):
                    if rng.random() < .9:
                        return self.bytes()
                    break
                if kind == "clear":
                    break
                if self.prev >= 0 and self.next <= top:
                    self.defined.append(self.next)
                    self.defset.add(self.next)
                    self.next = self.skip(self.next + 1)
                self.prev = c
        if o["stop"] >= 0 and rng.random() < .6:
            self.put(o["stop"], o["w"])
        return self.bytes()

    def bytes(self):
        b = self.bits + [0] * (-len(self.bits) % 8)
        if self.o["ord"] == "msb":
            return bytes(int("".join(map(str, b[i:i + 8])), 2) for i in range(0, len(b), 8))
        return bytes(int("".join(map(str, b[i:i + 8][::-1])), 2) for i in range(0, len(b), 8))


# ------------------------------------------------------------------ LZSS

def lzss_opts(rng, small=False, maxf=4096):
    """A supported option set: threshold <= lookahead, 1 <= lookahead, 2 lookahead <= window <= 4096"""
    n = rng.choice([2, 3, 4, 5, 8, 13, 16, 31, 32, 64, 100, 255, 256] + ([] if small else [512, 1000, 1024, 2048, 4095, 4096, 4096, 4096]))
    f = rng.choice([1, 2, 3, 4, 5, 8, 18, 60, 60, n // 2, rng.randrange(1, n // 2 + 1)])
    f = max(1, min(f, n // 2, maxf))
    t = rng.choice([0, 1, 2, 2, 3, f, f - 1, rng.randrange(f + 1)])
    t = max(0, min(t, f))
    pre = rng.choice([32, 0, 255, rng.randrange(256)])
    return dict(hdr=rng.randrange(2), N=n, F=f, T=t, pre=pre)


def lzss_codec(o):
    return "lzss:%d:%d:%d:%d:%d" % (o["hdr"], o["N"], o["F"], o["T"], o["pre"])


def lzss_any(rng, small=False, maxf=4096):
    k = rng.random()
    if k < .3 and not small:
        return "lzss:std"
    if k < .45 and not small:
        return "lzss:td"
    return lzss_codec(lzss_opts(rng, small, maxf))


def rng_for(seed, what):
    return random.Random("%s/%s" % (seed, what))
