"""Values, signatures and encodings for test cases.  Nothing here is trusted:
the specification re-derives every encoding and rejects a case whose input is
not what it says it is."""
import random

BASIC = "ynqbiuxtdsog"
FIXED = dict(y=1, n=2, q=2, b=4, i=4, u=4, x=8, t=8, d=8)
ALIGN = dict(y=1, g=1, v=1, n=2, q=2, b=4, i=4, u=4, s=4, o=4, a=4)


def align(c):
    return ALIGN.get(c, 8)


def rle(b):
    out = []
    for x in b:
        if out and out[-1][0] == x:
            out[-1][1] += 1
        else:
            out.append([x, 1])
    return out


def rle_small(b):
    return rle(b)


def unrle(r):
    return b"".join(bytes([x]) * n for x, n in r)


def fixed(t, n):
    return {"t": t, "b": list((n & ((1 << (8 * FIXED[t])) - 1)).to_bytes(FIXED[t], "big"))}


def stringy(t, s):
    if isinstance(s, str):
        s = s.encode()
    return {"t": t, "s": rle(s)}


def arr(e, c):
    return {"t": "a", "e": e, "c": c}


def struct(*c):
    return {"t": "(", "c": list(c)}


def dict_(k, v):
    return {"t": "{", "c": [k, v]}


def var(v):
    return {"t": "v", "c": [v]}


def sig(v):
    t = v["t"]
    if t == "a":
        return "a" + v["e"]
    if t == "(":
        return "(" + "".join(map(sig, v["c"])) + ")"
    if t == "{":
        return "{" + "".join(map(sig, v["c"])) + "}"
    return t


def enc(v, off, le=True):
    """Encoding of v at offset off, padding included."""
    out = bytearray()
    order = "little" if le else "big"

    def pad(al):
        while (off + len(out)) % al:
            out.append(0)

    def go(v):
        t = v["t"]
        pad(align(t))
        if t in FIXED:
            b = bytes(v["b"])
            out.extend(b[::-1] if le else b)
        elif t in "so":
            s = unrle(v["s"])
            out.extend(len(s).to_bytes(4, order) + s + b"\0")
        elif t == "g":
            s = unrle(v["s"])
            out.extend(bytes([len(s)]) + s + b"\0")
        elif t in "({":
            for c in v["c"]:
                go(c)
        elif t == "v":
            s = sig(v["c"][0]).encode()
            out.extend(bytes([len(s)]) + s + b"\0")
            go(v["c"][0])
        elif t == "a":
            p = len(out)
            out.extend(b"\0\0\0\0")
            pad(align(v["e"][0]))
            st = len(out)
            for c in v["c"]:
                go(c)
            out[p:p + 4] = (len(out) - st).to_bytes(4, order)

    go(v)
    return bytes(out)


def complete(s, i):
    """End of the complete type at s[i]."""
    if s[i] == "a":
        return complete(s, i + 1)
    if s[i] in "({":
        o, c = s[i], {"(": ")", "{": "}"}[s[i]]
        n = 0
        while True:
            n += (s[i] == o) - (s[i] == c)
            i += 1
            if n == 0:
                return i
    return i + 1


def split(s):
    out, i = [], 0
    while i < len(s):
        j = complete(s, i)
        out.append(s[i:j])
        i = j
    return out


class Values:
    def __init__(self, rng):
        self.r = rng

    INTS = [0, 1, 2, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff,
            0x100000000, 0x0102030405060708, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, 0xfffffffffffffffe]

    DOUBLES = [0, 0x8000000000000000, 0x3ff0000000000000, 0xbff8000000000000, 0x7ff0000000000000, 0x7ff8000000000001,
               0x0000000000000001, 0x7fefffffffffffff, 0x400921fb54442d18, 0x0102030405060708]
    STRS = [b"", b"a", b"ab", b"abc", b"abcd", b"hello world", b"\xc3\xa9\xe2\x82\xac", b"x" * 7, b"x" * 8, b"0", b"-1", b"4294967295"]
    PATHS = [b"/", b"/a", b"/org/freedesktop/DBus", b"/com/example/a_b/C9"]
    SIGS = [b"", b"s", b"a{sv}", b"(ii)", b"aai", b"yyyyuua(yv)"]

    def basic_all(self, t):
        if t == "b":
            return [fixed("b", 0), fixed("b", 1)]
        if t == "d":
            return [fixed("d", x) for x in self.DOUBLES]
        if t in FIXED:
            seen, out = set(), []
            for n in self.INTS:
                v = fixed(t, n)
                k = tuple(v["b"])
                if k not in seen:
                    seen.add(k)
                    out.append(v)
            return out
        return [stringy(t, s) for s in {"s": self.STRS, "o": self.PATHS, "g": self.SIGS}[t]]

    def basic(self, t):
        r = self.r
        if t in FIXED and t not in "bd" and r.random() < .4:
            return fixed(t, r.getrandbits(64))
        if t == "s" and r.random() < .4:
            return stringy("s", bytes(r.randrange(1, 256) for _ in range(r.randrange(0, 12))) if r.random() < .3 else
                           "".join(r.choice("abcXYZ019 _'=,") for _ in range(r.randrange(0, 14))))
        return r.choice(self.basic_all(t))

    def value(self, s, size=3):
        """A random value of the complete type s."""
        r = self.r
        c = s[0]
        if c in BASIC:
            return self.basic(c)
        if c == "v":
            return var(self.value(self.sig(2 if size > 1 else 0), size - 1))
        if c == "a":
            e = s[1:]
            n = r.choice([0, 1, 2, 3]) if size > 0 else r.choice([0, 1])
            return arr(e, [self.value(e, size - 1) for _ in range(n)])
        return {"t": c, "c": [self.value(x, size - 1) for x in split(s[1:-1])]}

    def sig(self, depth, inarray=False):
        """A random complete type."""
        r = self.r
        k = r.random()
        if depth <= 0 or k < .4:
            return r.choice(BASIC + ("v" if depth > 0 else ""))
        if k < .7:
            if r.random() < .3:
                return "a{" + r.choice(BASIC) + self.sig(depth - 1) + "}"
            return "a" + self.sig(depth - 1)
        return "(" + "".join(self.sig(depth - 1) for _ in range(r.choice([1, 2, 2, 3]))) + ")"


def buildable(v):
    """Can the value be built with the public constructors?"""
    t = v["t"]
    if t == "g":
        return sum(n for _, n in v["s"]) <= 255
    if t in BASIC:
        return True
    if t == "v":
        return v["c"][0]["t"] in "soug"
    if t in "(a":
        return all(c["t"] != "a" and buildable(c) for c in v["c"]) and (t == "a" or v["c"])
    return all(map(buildable, v["c"]))


def hasempty_nested(v):
    return False


ODD = [2, 0x80, 0x100, 0x10000, 0x1000000, 0x80000000, 0xffffff00, 0xffffffff]


def oddbools(rng, v, share=.5):
    """Booleans that are true, made from numbers other than one."""
    if v["t"] == "b":
        return fixed("b", rng.choice(ODD)) if any(v["b"]) and rng.random() < share else v
    return dict(v, c=[oddbools(rng, c, share) for c in v["c"]]) if "c" in v else v


# every complete type that the systematic part uses
def systematic_sigs():
    out = list(BASIC) + ["v"]
    out += ["a" + b for b in BASIC] + ["av"]
    out += ["(" + b + ")" for b in BASIC + "v"]
    out += ["(%s%s)" % (a, b) for a in BASIC + "v" for b in BASIC + "v"]
    out += ["a(%s%s)" % (a, b) for a in "ynuts" for b in "ynutsvg"]
    out += ["a{%s%s}" % (a, b) for a in BASIC for b in "yntsv"]
    out += ["aa" + b for b in "yntsv"] + ["aaai", "aaas", "aa{sv}", "a(ya{sv})", "a{sa{sv}}", "(a(yy)at)", "a(a(t)y)", "(yay)", "(yat)", "(ya(y))",
            "(yav)", "(yaav)", "(va{yv})", "((y)(y))", "(y(t))", "a{oa{sa{sv}}}", "(aya)"[:-2] + ")", "(ga(gv))", "a(vv)", "aav", "(yaad)", "(bad)"]
    return out
