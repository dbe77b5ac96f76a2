"""C08-C11: marshalling and unmarshalling of values."""
import random
from gen import *
import vlib
from vlib import *

PURE = ["pure.cpp", "common.cpp", "json.cpp"]


def boundary_values(g):
    """Values at the edges of the format, by hand."""
    S = lambda n, c=b"q": stringy("s", c * n)
    out = []
    for n in (0, 1, 3, 4, 7, 8, 254, 255, 256, 257, 1023, 1024, 1025, 65535, 65536):
        out.append({"t": "s", "s": [[113, n]] if n else []})
        if n in (255, 256, 1024):
            out.append(struct(fixed("y", 1), {"t": "s", "s": [[113, n]]}, fixed("x", 5)))
            out.append(arr("s", [{"t": "s", "s": [[113, n]]}, S(1)]))
    for n in (1, 2, 127, 128, 254, 255):
        out.append(stringy("g", b"y" * n))
        out.append(struct(stringy("g", b"y" * n), fixed("u", 7)))
    for n in (0, 1, 2, 255, 256, 257):
        out.append(arr("y", [fixed("y", i) for i in range(n)]))
    out.append(arr("u", [fixed("u", i * 16777259) for i in range(70)]))
    for e in ("y", "n", "u", "t", "d", "s", "g", "v", "(y)", "(t)", "{yy}", "{sv}", "ay", "at"):
        out.append(arr(e, []))
        out.append(struct(fixed("y", 1), arr(e, []), fixed("y", 2))) if True else None
        out.append(dict_(fixed("y", 1), arr(e, [])))
    out.append(arr("ay", [arr("y", []), arr("y", [fixed("y", 1)]), arr("y", [])]))
    out.append(arr("at", [arr("t", []), arr("t", [fixed("t", 1)]), arr("t", [])]))
    out.append(arr("a(t)", [arr("(t)", []), arr("(t)", [struct(fixed("t", 1))])]))
    out.append(var(var(var(fixed("y", 9)))))
    out.append(var(arr("v", [var(fixed("t", 9)), var(stringy("s", "x"))])))
    out.append(arr("v", [var(stringy("s", "a")), var(fixed("u", 9)), var(stringy("s", "bcd"))]))
    out.append(arr("v", [var(fixed("y", 1)), var(fixed("d", 1)), var(struct(fixed("y", 1), fixed("t", 2)))]))
    out.append(struct(var(fixed("u", 1)), var(stringy("g", "a{sv}")), var(stringy("o", "/x"))))
    out.append(struct(fixed("y", 3), var(stringy("s", "a"))))
    out.append(struct(fixed("y", 3), fixed("y", 3), var(fixed("y", 1)), var(fixed("y", 1))))
    return out


def deep_values():
    """Exactly MaxDepth containers, in several mixes."""
    out = []
    v = fixed("y", 7)
    for _ in range(64):
        v = var(v)
    out.append(v)
    v = fixed("u", 7)
    for i in range(64):
        v = [lambda x: arr(sig(x), [x]), lambda x: struct(x)][i % 2](v)
    out.append(v)
    v = fixed("u", 7)
    for i in range(64):
        v = [lambda x: arr(sig(x), [x]), lambda x: struct(x), var][i % 3](v)
    out.append(v)
    v = fixed("u", 7)
    for i in range(32):
        v = arr("{y" + sig(v) + "}", [dict_(fixed("y", i), v)])
    out.append(v)
    return out


def too_deep():
    out = []
    v = fixed("y", 7)
    for _ in range(65):
        v = var(v)
    out.append(v)
    v = fixed("u", 7)
    for i in range(65):
        v = [lambda x: arr(sig(x), [x]), lambda x: struct(x), var][i % 3](v)
    out.append(v)
    v = fixed("y", 7)
    for i in range(65):
        v = struct(v)
    out.append(v)
    v = fixed("y", 7)
    for i in range(65):
        v = arr(sig(v), [v])
    out.append(v)
    v = fixed("u", 7)
    for i in range(33):
        v = arr("{y" + sig(v) + "}", [dict_(fixed("y", i), v)])
    out.append(v)
    return out


def all_values(rng, nrandom):
    g = Values(rng)
    vals = []
    for t in BASIC:
        vals += g.basic_all(t)
    for s in systematic_sigs():
        for _ in range(2):
            vals.append(g.value(s, 2))
    vals += boundary_values(g)
    for _ in range(nrandom):
        vals.append(g.value(g.sig(rng.choice([1, 2, 3, 4])), 3))
    return [v for v in vals if len(sig(v)) <= 255]


TAIL = b"\xbb\xcc\xdd"


def cases_enc(rng, nrandom):
    out = []
    for v in all_values(rng, nrandom):
        if not buildable(v):
            continue
        big = len(enc(v, 0)) > 2000
        offs = range(8) if not big else [0, 5]
        if rng.random() < .8 and not big:
            offs = sorted(rng.sample(range(8), 3))
        for off in offs:
            out.append(dict(op="enc", v=oddbools(rng, v), way=rng.choice([0, rng.randrange(32)]), off=off + (16 if rng.random() < .1 else 0), le=True))
    for n in ODD:
        b = fixed("b", n)
        for v in (b, struct(fixed("y", 1), b), arr("b", [b, fixed("b", 0), b]), dict_(b, b)):
            out.append(dict(op="enc", v=v, way=0, off=0, le=True))
    return out


def dec_case(v, off, le, want, wrap="none", off2=0, tail=TAIL):
    return dict(op="dec", want=want, sig=sig(v), v=v, off=off, le=le, d=rle(b"\xaa" * off + enc(v, off, le) + tail), tail=rle(tail),
                wrap=wrap, off2=off2)


def cases_dec(rng, nrandom):
    out = []
    for v in all_values(rng, nrandom) + deep_values():
        if v["t"] == "{":
            continue
        big = len(enc(v, 0)) > 2000
        for le in (True, False):
            for off in ([0] if big else sorted(rng.sample(range(8), 2))):
                out.append(dec_case(v, off, le, "dec", tail=rng.choice([TAIL, b""])))
    return out


def cases_re(rng, nrandom):
    out = []
    for v in all_values(rng, nrandom):
        if v["t"] == "{":
            continue
        for wrap in ["none", "dict", "copy"] + ([] if v["t"] == "a" else ["struct", "array"]):
            if len(enc(v, 0)) > 2000 and wrap != "none":
                continue
            if rng.random() < .6:
                out.append(dec_case(v, rng.randrange(8), rng.random() < .5, "re", wrap, rng.randrange(8)))
        # the dictionary entries of a dictionary, one by one, are covered by "a{..}"
    return out


def mutate(rng, d, lo):
    """Octets at or after lo changed, removed or added."""
    b = bytearray(d)
    k = rng.random()
    if len(b) <= lo:
        return bytes(b)
    if k < .45:
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            i = rng.randrange(lo, len(b))
            b[i] = rng.choice([0, 1, 2, 4, 8, 16, 0x7f, 0x80, 0xff, b[i] ^ (1 << rng.randrange(8)), (b[i] + 1) & 255, (b[i] - 1) & 255,
                               ord(rng.choice("ahv({)}sgy"))])
        return bytes(b)
    if k < .75:
        return bytes(b[:rng.randrange(lo, len(b))])
    if k < .9:
        i = rng.randrange(lo, len(b))
        del b[i:i + rng.choice([1, 2, 4, 8])]
        return bytes(b)
    i = rng.randrange(lo, len(b) + 1)
    b[i:i] = bytes(rng.choice([0, 1, 255, 97, 104]) for _ in range(rng.choice([1, 4, 8])))
    return bytes(b)


BADSIGS = ["", "h", "ah", "(h)", "(yh)", "a(h)", "a{hy}", "a{sh}", "v", "r", "e", "z", "\x01", ")", "}", "(", "{", "a", "aa", "()", "a()", "{}", "a{}",
           "a{y}", "a{yyy}", "a{yy", "a(y", "(y", "((y)", "a{(y)y}", "a{vy}", "a{ayy}", "a{a{yy}y}", "{yy}", "a{y(}", "(a)", "a(a)", "a{ya}", "*", "?",
           "(*)", "a?", "m", "ai)", "(ii))", "yy", "a{sv}s", "a{yh}", "(ya)", "(y)(y)", "&", "@a", "a{y)}", "(y}", "a)", "a}"]


def cases_mal(rng, nrandom):
    out = []

    def add(s, d, off=0, le=True):
        if s and len(s) <= 255 and len(d) < 4000:
            out.append(dict(op="mal", sig=s, d=rle(d), off=off, le=le))

    lens = [b"\0\0\0\0", b"\1\0\0\0", b"\4\0\0\0", b"\xff\xff\xff\xff", b"\xff\xff\xff\x7f", b"\0\0\0\x80", b"\0\0\0\4", b"\1\0\0\4", b"\x08\0\0\0"]
    for s in BADSIGS:
        for body in [b"", b"\0" * 4, b"\1" * 4, b"\4\0\0\0" + b"\1\0\0\0" * 3, b"\x08" + b"\0" * 40, b"a" * 64, b"\0" * 64, b"\xff" * 64]:
            add(s, body)
        # the same type named by a variant
        b = s.encode("latin1")
        add("v", bytes([len(b)]) + b + b"\0" + b"\4\0\0\0" + b"\1\0\0\0" * 12)
        add("av", b"\x30\0\0\0" + bytes([len(b)]) + b + b"\0" + b"\0" * 60)
    for s in ["ay", "at", "as", "a(y)", "a{yy}", "s", "o", "aay", "av", "a(yt)", "(as)", "(sas)"]:
        for n in lens:
            for le in (True, False):
                for tail in (b"", b"\0" * 3, b"\1" * 16, b"\0" * 40):
                    add(s, (n if le else n[::-1]) + tail, 0, le)
    for n in range(256):
        if n in (0, 1, 2, 3, 4, 5, 64, 127, 128, 254, 255):
            for tail in (b"", b"y", b"yyy\0", b"y" * 63, b"y" * 64, b"y" * 65, b"y" * 300):
                add("g", bytes([n]) + tail)
                add("v", bytes([n]) + tail)
    for v in too_deep():
        for le in (True, False):
            add(sig(v), enc(v, 0, le), 0, le)
    # variants nested far beyond the limit
    for n in (65, 100, 300, 1000):
        add("v", b"\1v\0" * n + b"\1y\0\7")
    for n in (65, 100, 250):
        add("a" * n + "y", b"\0\0\0\0" * (n + 2))
        add("(" * n + "y" + ")" * n if 2 * n + 1 < 256 else "y", b"\0" * 64)
    # elements that cross the end of their array
    g = Values(rng)
    for e in ["t", "u", "q", "s", "(yu)", "(ss)", "{ys}", "v", "ay", "o", "g", "d", "(y(yt))", "{yav}", "as"]:
        for _ in range(12):
            v = arr(e, [g.value(e, 1) if e[0] != "{" else {"t": "{", "c": [g.value(x, 1) for x in split(e[1:-1])]} for _ in range(rng.choice([1, 2, 3]))])
            for le in (True, False):
                d = bytearray(enc(v, 0, le))
                order = "little" if le else "big"
                n = int.from_bytes(d[:4], order)
                for dn in (-5, -4, -3, -2, -1, 1, 2, 3, 4, 5, 8):
                    if 0 <= n + dn:
                        d2 = bytearray(d)
                        d2[:4] = (n + dn).to_bytes(4, order)
                        if rng.random() < .35:
                            add("a" + e, bytes(d2) + b"\1" * rng.choice([0, 4, 40]), 0, le)
    # every truncation of a few, and random mutations of many
    for v in [g.value(s, 3) for s in ["(ysayu)", "a{sv}", "a(sv)", "v", "(gvs)", "aas"] for _ in range(3)]:
        off = rng.randrange(8)
        le = rng.random() < .5
        d = enc(v, off, le)
        for n in range(min(len(d), 150)):
            add(sig(v), b"\xaa" * off + d[:n], off, le)
    for _ in range(nrandom):
        v = g.value(g.sig(rng.choice([1, 2, 3, 4])), 3)
        off = rng.randrange(8)
        le = rng.random() < .5
        d = mutate(rng, b"\xaa" * off + enc(v, off, le), off)
        s = sig(v)
        if rng.random() < .15 and s:
            i = rng.randrange(len(s))
            s = s[:i] + rng.choice(["a", "(", ")", "{", "}", "v", "h", "y", "s", ""]) + s[i + 1:]
        if s:
            add(s, d, off, le)
    for _ in range(nrandom // 2):
        s = "".join(rng.choice("aavv(){}ysgtuh") for _ in range(rng.choice([1, 2, 3, 4, 6, 10])))
        add(s, bytes(rng.choice([0, 0, 0, 1, 2, 4, 8, 118, 97, 121, 255, 115]) for _ in range(rng.randrange(60))), 0, rng.random() < .5)
    return out


RULE = {
    "C08": "hand-made boundary cases (bad signatures, lengths, nesting, crossing elements, every truncation of some values) plus seeded random mutations of "
           "well-formed encodings; every case is judged by the TLA+ decoder; non-trivial: distinct input that is not empty",
    "C09": "boundary values and seeded random values of every type at several stream offsets; non-trivial: distinct (value, offset)",
    "C10": "as C09, encoded in both byte orders with and without trailing data; non-trivial: distinct (octets, signature, offset, order)",
    "C11": "as C10, received and sent again bare, inside a structure, an array or a dictionary entry; non-trivial: distinct case"}


def run(rep, prop):
    rep.rule = RULE[prop]
    rng = random.Random(SEED * 1000003 + {"C08": 8, "C09": 9, "C10": 10, "C11": 11}[prop])
    n = 1500 if THOROUGH else 250
    if prop == "C08":
        import messages
        rep.rule = RULE["C08"]
        decide(rep, messages.cases_malbody(rng, n * 2), "CheckMessage", "malformed message bodies")
        cases = cases_mal(rng, n * 8)
    else:
        cases = {"C09": cases_enc, "C10": cases_dec, "C11": cases_re}[prop](rng, n)
        if THOROUGH:
            for _ in range(2):
                cases += {"C09": cases_enc, "C10": cases_dec, "C11": cases_re}[prop](rng, n)
    decide(rep, cases, "CheckWire", {"C08": "malformed data", "C09": "values marshalled", "C10": "values unmarshalled", "C11": "values received and sent again"}[prop])


def decide(rep, cases, module, what, constants=""):
    for i, c in enumerate(cases):
        c["id"] = i
    exe = build("pure", "asan", PURE)
    sc = Scratch()
    try:
        run_cases(exe, cases, sc)
        log(len(cases), "cases run")
        unsup = [c for c in cases if c["obs"]["r"] == "unsupported"]
        if unsup:
            raise Infra("unsupported case: %s" % json.dumps(unsup[0])[:500])
        judge(rep, sc, cases, module, what, constants)
    finally:
        sc.close()


def judge(rep, sc, cases, module, what, constants=""):
    cfg = "SPECIFICATION Spec\n" + constants
    rc, lines, text = tlc(sc, module, cfg, [("cases.ndjson", cases)])
    if rc != 0:
        raise Infra("TLC failed on %s:\n%s" % (module, text[-3000:]))
    byid = {c["id"]: c for c in cases}
    rejected = set()
    for ln in lines:
        kind, cid, *why = ln.split(" ", 2)
        c = byid[int(cid)]
        if kind == "I":
            raise Infra("the specification does not accept the input of a case (%s): %s" % (why, json.dumps(c)[:800]))
        if kind == "R":
            rejected.add(cid)
        if kind == "V" and why != ["skipped"]:
            rep.violation("%s: %s" % (why[0], describe(c)), c)
    rep.evaluations += len(cases)
    rep.traces += len(cases)
    gen, distinct = counts(text)
    rep.distinct += len({json.dumps({k: v for k, v in c.items() if k not in ("id", "obs")}, sort_keys=True) for c in cases})
    extra = {"rejected_by_specification": len(rejected)} if rejected else {}
    rep.covered(what, cases=len(cases), judge=module, judge_states=distinct, **extra)
    rep.sample([c for c in cases[:: max(1, len(cases) // 3)]][:3])


def describe(c):
    d = {k: v for k, v in c.items() if k not in ("id",)}
    s = json.dumps(d)
    return s if len(s) < 900 else s[:900] + "..."
