"""C05-C08, C12, C13: messages written and octet streams received."""
import random
from gen import *
import gen, vlib, wire
from vlib import *
from wire import decide, BADSIGS, mutate

CALL, RETURN, ERROR, SIGNAL = 1, 2, 3, 4
PATH, IFACE, MEMBER, ERRNAME, REPLY, DEST, SENDER, SIGNATURE, FDS = range(1, 10)
S = lambda s: stringy("s", s)
O = lambda s: stringy("o", s)
G = lambda s: stringy("g", s)
U = lambda n: fixed("u", n)
FTYPE = {PATH: O, IFACE: S, MEMBER: S, ERRNAME: S, REPLY: U, DEST: S, SENDER: S, SIGNATURE: G, FDS: U}


def encseq(vs, le):
    out = b""
    for v in vs:
        out += enc(v, len(out), le)
    return out


def header(le, kind, flags, blen, serial, fields, version=1, alen=None):
    o = "little" if le else "big"
    arr_ = b""
    for code, v in fields:
        arr_ += enc(struct(fixed("y", code), var(v)), len(arr_), le)   # 16 octets precede: same alignment
    h = (b"l" if le else b"B") + bytes([kind, flags, version]) + blen.to_bytes(4, o) + serial.to_bytes(4, o)
    h += (len(arr_) if alen is None else alen).to_bytes(4, o) + arr_
    return h + b"\0" * (-len(h) % 8)


def raw(le, kind, flags, serial, fields, body=b"", blen=None, **kw):
    return header(le, kind, flags, len(body) if blen is None else blen, serial, fields, **kw) + body


def message(le, kind, serial, fields=(), params=(), flags=0, shuffle=None):
    fs = list(fields)
    if params:
        fs.append((SIGNATURE, G("".join(map(sig, params)))))
    if shuffle:
        shuffle.shuffle(fs)
    return raw(le, kind, flags, serial, fs, encseq(params, le))


def std(kind, rng=None, n=1):
    r = rng or random.Random(n)
    call = [(PATH, O("/org/x")), (IFACE, S("org.x.I")), (MEMBER, S("M%d" % (n % 3)))]
    return {CALL: call, RETURN: [(REPLY, U(n))], ERROR: [(ERRNAME, S("org.x.E")), (REPLY, U(n))], SIGNAL: call}[kind]


# -------------------------------------------------------------------------
# C12

def text(r, n):
    return "".join(r.choice("abcdefgXYZ_019.") for _ in range(n))


def cases_out(rng, nrandom):
    out = []
    g = Values(rng)

    def add(kind, params=(), flags=0, path="/a", iface="i.j", member="m", dest="d.e", ename="e.n", etext="", rserial=1):
        if len("".join(map(sig, params))) > 255 or not all(map(buildable, params)):
            return
        out.append(dict(op="out", kind=kind, params=[oddbools(rng, v) for v in params], way=rng.choice([0, rng.randrange(32)]), flags=flags, path=path, iface=iface, member=member, dest=dest, ename=ename,
                        etext=etext, rserial=list(rserial.to_bytes(4, "big")), rserial_hi=rserial >> 16, rserial_lo=rserial & 65535))

    kinds = ["call", "return", "error", "signal"]
    for k in kinds:
        for n in range(1, 18):
            add(k, path="/" + "p" * n, rserial=n)
            add(k, iface="i" * n, etext="t" * n)
            add(k, member="m" * n, ename="e" * n)
            add(k, dest="d" * n)
        for r in (1, 2, 255, 256, 65535, 65536, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff):
            add(k, rserial=r, etext="x")
        for n in (254, 255, 256, 1000):
            add(k, path="/" + "p" * n, iface="i" * n, member="m" * n, dest="d" * n, ename="e" * n, etext="t" * n)
        if k == "call":
            for f in range(4):
                add(k, flags=f)
                add(k, [S("x")], flags=f)
        if k == "signal":
            for n in range(1, 9):
                add(k, dest="", member="m" * n)
                add(k, [fixed("y", n)] * n, dest="")
        if k == "error":
            for n in (0, 1, 2, 3, 4, 7, 8, 255, 256, 70000):
                add(k, etext="z" * n)
            continue
        for t in BASIC:
            for v in g.basic_all(t)[:4]:
                add(k, [v])
        for s in systematic_sigs():
            if rng.random() < .35:
                add(k, [g.value(s, 2)])
        for s in ["ay", "at", "as", "a{sv}", "a(ys)", "aay"]:
            add(k, [arr(s[1:], [])])
            add(k, [fixed("y", 1), arr(s[1:], []), fixed("y", 2)])
        add(k, [fixed("y", 1)] * 255)
        add(k, [fixed("y", 1)] * 254 + [fixed("t", 1)])
        add(k, [S("q" * 70000), fixed("t", 5)])
    for _ in range(nrandom):
        ps = [g.value(g.sig(rng.choice([0, 1, 2, 3])), 2) for _ in range(rng.choice([0, 1, 1, 2, 3, 5]))]
        add(rng.choice(kinds), ps, rng.randrange(4), "/" + text(rng, rng.randrange(1, 20)), text(rng, rng.randrange(1, 20)),
            text(rng, rng.randrange(1, 20)), text(rng, rng.randrange(1, 20)), text(rng, rng.randrange(1, 20)), text(rng, rng.randrange(0, 20)),
            rng.randrange(1, 1 << 32))
    return out


# -------------------------------------------------------------------------
# received streams

def stream(msgs, chunks=None, full=1, via="protocol", throws=(), calls=(), signals=()):
    d = b"".join(msgs) if isinstance(msgs, (list, tuple)) else msgs
    if chunks is None:
        chunks = [len(d)]
    assert sum(chunks) == len(d), (chunks, len(d))
    return dict(op="frame", d=rle(d), chunks=[c for c in chunks if c], full=bool(full), via=via, throws=[str(t) for t in throws], calls=list(calls),
                signals=list(signals))


def cases_seen(rng, nrandom):
    """C13: one message per case, every field and accessor."""
    out = []
    g = Values(rng)
    every = [(PATH, O("/p/q")), (IFACE, S("a.b")), (MEMBER, S("mem")), (ERRNAME, S("e.r")), (REPLY, U(77)), (DEST, S(":1.5")), (SENDER, S(":1.9")),
             (FDS, U(0))]
    for le in (True, False):
        for kind in (1, 2, 3, 4):
            for flags in (0, 1, 2, 3, 4, 5, 0x80, 0xff, 0xfe):
                out.append(stream(message(le, kind, 5, std(kind), flags=flags)))
            for ser in (1, 255, 256, 0x01020304, 0x7fffffff, 0x80000000, 0xffffffff):
                out.append(stream(message(le, kind, ser, [(REPLY, U(ser))] + std(CALL))))
                out.append(stream(message(le, kind, 1, std(CALL) + [(REPLY, U(ser ^ 0x55))])))
            out.append(stream(message(le, kind, 9)))               # no fields at all
            for i in range(len(every)):                            # each field alone, and each missing
                out.append(stream(message(le, kind, 9, [every[i]])))
                out.append(stream(message(le, kind, 9, every[:i] + every[i + 1:])))
                out.append(stream(message(le, kind, 9, every[:i] + every[i + 1:], [S("txt"), U(3)])))
            for _ in range(12):                                    # orders
                out.append(stream(message(le, kind, 9, every, [g.value(g.sig(2), 2) for _ in range(rng.randrange(4))], rng.randrange(256), rng)))
            for code in (10, 11, 100, 127, 128, 200, 255):         # unknown fields
                for v in (S("xyz"), U(9), fixed("y", 3), fixed("t", 1), arr("y", [fixed("y", 1)]), arr("{sv}", []), var(var(U(1))), struct(U(1), S("q")),
                          fixed("d", 7), arr("t", []), G("ii"), O("/z")):
                    if rng.random() < .5:
                        fs = list(every)
                        fs.insert(rng.randrange(len(fs) + 1), (code, v))
                        out.append(stream(message(le, kind, 9, fs, [S("a")])))
            for n in list(range(0, 10)) + [255, 256, 1000]:        # lengths
                out.append(stream(message(le, kind, 9, [(PATH, O("/" + "p" * n)), (IFACE, S("i" * n)), (MEMBER, S("m" * n)), (SENDER, S("s" * n)),
                                                        (DEST, S("d" * n))], [S("t" * n)])))
            for s in systematic_sigs():
                if rng.random() < .25:
                    out.append(stream(message(le, kind, 9, std(kind), [g.value(s, 2)])))
            for ps in ([], [U(1)], [S("text")], [S("")], [S("text"), S("more")], [O("/x")], [G("s")], [arr("s", [S("x")])], [var(S("x"))],
                       [struct(S("x"))], [fixed("y", 1), S("text")], [arr("{sv}", [])]):
                out.append(stream(message(le, kind, 9, std(ERROR) + ([] if kind == 3 else std(CALL)), ps)))
            out.append(stream(message(le, kind, 9, std(kind), [fixed("y", i) for i in range(200)])))
    for _ in range(nrandom):
        fs = [f for f in every if rng.random() < .7]
        for i, (c, v) in enumerate(fs):
            if c in (REPLY, FDS):
                fs[i] = (c, U(rng.getrandbits(rng.choice([1, 8, 31, 32]))))
            else:
                fs[i] = (c, FTYPE[c](text(rng, rng.randrange(0, 12))))
        for _ in range(rng.choice([0, 0, 1, 2])):
            fs.append((rng.randrange(10, 256), g.value(g.sig(2), 2)))
        ps = [g.value(g.sig(rng.choice([0, 1, 2])), 2) for _ in range(rng.choice([0, 1, 2, 4]))]
        if len("".join(map(sig, ps))) > 255:
            continue
        out.append(stream(message(rng.random() < .5, rng.choice([1, 2, 3, 4]), rng.randrange(1, 1 << 32), fs, ps, rng.randrange(256), rng)))
    return out


def chunkings(rng, n, msgs=(), many=False):
    """Ways to cut a stream of n octets."""
    yield [n]
    yield [1] * n
    for k in (2, 3, 7, 8, 15, 16, 17):
        yield [min(k, n - i) for i in range(0, n, k)]
    # at, just before and just after every message boundary and header step
    pos, marks = 0, []
    for m in msgs:
        marks += [pos + x for x in (1, 8, 12, 15, 16, 17)] + [pos + len(m) - 1, pos + len(m), pos + len(m) + 1]
        pos += len(m)
    marks = sorted({x for x in marks if 0 < x < n})
    yield [b - a for a, b in zip([0] + marks, marks + [n])]
    for m in marks:
        yield [m, n - m]
    if many:
        for i in range(1, n):
            yield [i, n - i]
    for _ in range(4):
        cuts = sorted(rng.sample(range(1, n), min(n - 1, rng.choice([1, 2, 3, 5, 9]))))
        yield [b - a for a, b in zip([0] + cuts, cuts + [n])]


def cases_segment(rng, nrandom):
    """C05: well-formed messages, every way to cut."""
    out = []
    g = Values(rng)
    short = {le: [message(le, k, 100 + k, [(REPLY, U(3))] if k in (2, 3) else []) for k in (1, 2, 3, 4)] for le in (True, False)}

    def params(i):
        return [[], [S("x" * i)], [fixed("y", i)], [U(i), S("abc"), fixed("t", i)], [arr("y", [fixed("y", j) for j in range(i)])]][i % 5]

    def msgs(n, les):
        return [message(les[i], rng.choice([1, 2, 3, 4]), 1 + i, [(REPLY, U(i)), (MEMBER, S("m" * rng.randrange(9)))], params(rng.randrange(10)))
                for i in range(n)]

    # two short messages, every cut into two, and into three for one order
    for le in (True, False):
        for a in short[le]:
            for b in short[not le][:1] + short[le][3:]:
                d = a + b
                for c in chunkings(rng, len(d), [a, b], many=True):
                    out.append(stream(d, c, full=0))
    d = [message(True, 4, 1, [(MEMBER, S("m"))], [fixed("y", 9)]), message(False, 1, 2, [(MEMBER, S("n"))], [S("q")])]
    n = len(d[0] + d[1])
    for i in range(1, n):
        for j in range(i + 1, n):
            if rng.random() < .15 or vlib.THOROUGH:
                out.append(stream(d, [i, j - i, n - j], full=0))
    for _ in range(nrandom):
        k = rng.choice([1, 2, 3, 4, 6])
        ms = msgs(k, [rng.random() < .5 for _ in range(k)])
        n = sum(map(len, ms))
        cs = list(chunkings(rng, n, ms))
        for c in [cs[0], cs[1]] + rng.sample(cs[2:], min(3, len(cs) - 2)):
            if len(c) > 300 and rng.random() < .7:
                continue
            out.append(stream(ms, c, full=1 if len(c) < 20 else 0))
    # bodies around the read buffer's size and far larger, in buffer-size chunks
    for size in (900, 1000, 1023, 1024, 1025, 2047, 2048, 5000, 70000, 1000000):
        for le in (True, False):
            big = message(le, 4, 8, std(SIGNAL), [S("q" * size)])
            ms = [message(le, 1, 7, std(CALL)), big, message(le, 2, 9, std(RETURN), [U(5)])]
            n = sum(map(len, ms))
            for k in (1024, 1000, n, len(ms[0]) + len(big), 1023):
                out.append(stream(ms, [min(k, n - i) for i in range(0, n, k)], full=0))
    # many messages in one chunk, and a chunk that ends inside a late one
    for le in (True, False):
        ms = [message(le, 1 + i % 4, 1 + i, [(REPLY, U(i))], [fixed("y", i)] * (i % 3)) for i in range(60)]
        n = sum(map(len, ms))
        out.append(stream(ms, [n], full=0))
        for k in (97, 500, 1024):
            out.append(stream(ms, [min(k, n - i) for i in range(0, n, k)], full=0))
    return out


BADBODY = [([], "s", b""), ([], "u", b"\1\2"), ([], "s", b"\xff\xff\xff\x7fabc\0"), ([], "as", b"\x08\0\0\0\x20\0\0\0abc\0"), ([], "v", b"\x01hx\0\0\0\0"),
           ([], "h", b"\1\0\0\0"), ([], "a{vs}", b"\0\0\0\0"), ([], "(", b"\0\0\0\0"), ([], "a", b"\0\0\0\0"), ([], "()", b"\0\0\0\0"), ([], "yyx", b"\1\2"),
           ([], "g", b"\xffss"), ([], "at", b"\x0c\0\0\0\0\0\0\0" + b"\1" * 16), ([], "z", b"\0\0\0\0"), ([], "(ss", b"\0\0\0\0\0\0\0\0\0\0\0\0")]


def bad_messages(rng, serial):
    """Correctly framed messages that must be dropped (or about which nothing is
    required), with descriptions."""
    le = rng.random() < .5
    kind = rng.choice([1, 2, 3, 4])
    k = rng.randrange(6)
    if k <= 1:
        _, s, b = rng.choice(BADBODY)
        return raw(le, kind, 0, serial, std(kind) + [(SIGNATURE, G(s))], b)
    if k == 2:
        return raw(le, rng.choice([0, 5, 6, 77, 127, 128, 255]), rng.randrange(256), serial, std(kind), rng.choice([b"", b"abc", b"x" * 40]))
    if k == 3:   # a signature with no body at all
        return raw(le, kind, 0, serial, std(kind) + [(SIGNATURE, G(rng.choice(["s", "u", "as", "y", "(ii)"])))])
    if k == 4:   # nests too deep
        n = rng.choice([65, 70, 200])
        return raw(le, kind, 0, serial, std(kind) + [(SIGNATURE, G("v"))], b"\1v\0" * n + b"\1y\0\7")
    g = Values(rng)
    v = g.value(g.sig(3), 3)
    b = mutate(rng, enc(v, 0, le), 0)
    if len(sig(v)) > 255:
        return b""
    return raw(le, kind, 0, serial, std(kind) + [(SIGNATURE, G(sig(v)))], b)


def cases_isolate(rng, nrandom):
    """C06: bad messages, failing and missing handlers among good ones."""
    out = []
    for i in range(nrandom):
        ms, throws, ser = [], [], 1
        for j in range(rng.choice([2, 3, 4, 5])):
            ser += 1
            if rng.random() < .45:
                ms.append(bad_messages(rng, ser))
            else:
                kind = rng.choice([1, 2, 3, 4])
                ms.append(message(rng.random() < .5, kind, ser, std(kind, rng, ser), [[], [S("ok")], [U(5), fixed("t", 6)]][rng.randrange(3)]))
                if rng.random() < .3:
                    throws.append(ser)
        n = sum(map(len, ms))
        cs = list(chunkings(rng, n, ms))
        native = rng.random() < .4
        for c in [cs[0]] + rng.sample(cs[1:], 1):
            if len(c) > 200 and rng.random() < .8:
                continue
            out.append(stream(ms, c, full=rng.randrange(2), throws=throws, via="native" if native else "protocol",
                              calls=["org.x.I.M0", "org.x.I.M1"][:rng.randrange(3)] if native else [],
                              signals=["org.x.I.M1", "org.x.I.M2"][:rng.randrange(3)] if native else []))
    # each kind of badness between two good messages, once whole and once in pieces
    for le in (True, False):
        for kind in (1, 2, 3, 4):
            good = [message(le, kind, 1, std(kind)), message(not le, 5 - kind, 3, std(5 - kind), [S("after")])]
            bads = [raw(le, kind, 0, 2, std(kind) + [(SIGNATURE, G(s))], b) for _, s, b in BADBODY]
            bads += [raw(le, t, 0, 2, std(kind), b"") for t in (0, 5, 128, 255)]
            bads += [message(le, kind, 2, [(PATH, U(3)), (MEMBER, fixed("t", 5))]), message(le, kind, 2, [(REPLY, S("x"))]),
                     message(le, kind, 2, [(SIGNATURE, S("u"))], []), message(le, kind, 2, [(SIGNATURE, U(9))], []),
                     message(le, kind, 2, [(PATH, arr("y", [])), (SENDER, struct(U(1)))]), message(le, kind, 2, std(kind) + std(kind))]
            for b in bads:
                ms = [good[0], b, good[1]]
                out.append(stream(ms, full=1))
                n = sum(map(len, ms))
                i = rng.randrange(1, n)
                out.append(stream(ms, [i, n - i], full=0))
            for thr in ([1], [3], [1, 3]):
                ms = [good[0], message(le, 4, 2, std(4)), good[1]]
                out.append(stream(ms, full=1, throws=thr))
                out.append(stream(ms, [len(ms[0]) + 5, len(ms[1]), len(ms[2]) - 5], full=0, throws=thr))
    # one message per type octet
    ms = [raw(True, t, 0, 1 + t, std(CALL), b"") for t in range(256)]
    out.append(stream(ms, full=0))
    return out


def cases_limits(rng, nrandom):
    """C07: sizes at and beyond the limits, undecodable headers."""
    out = []
    MA, MM = 64 << 20, 128 << 20
    good = lambda le, s: message(le, 4, s, std(SIGNAL), [S("good")])

    def follow(pre, bad, le):
        """pre, then bad (to be rejected or not), then good messages in chunks of their own."""
        a, b = good(le, 50), good(not le, 51)
        pre = b"".join(pre)
        for split in (None, 1, 8, 15):
            d = pre + bad
            if split is None:
                cs = [len(d)]
            else:
                cs = [len(pre) + split, len(bad) - split] if len(pre) + split < len(d) else [len(d)]
            yield stream(d + a + b, cs + [len(a), len(b)], full=0)
        yield stream(pre + bad + a + b, [len(pre) + len(bad) + len(a), len(b)], full=0)
        for cut in (len(bad) - 1, len(bad) // 2):
            if 0 < cut:
                yield stream(pre + bad[:cut] + a + b, ([len(pre)] if pre else []) + [cut, len(a), len(b)], full=0)
        if len(bad) < 100:
            yield stream(pre + bad + a + b, ([len(pre)] if pre else []) + [1] * len(bad) + [len(a), len(b)], full=0)

    for le in (True, False):
        pres = [[], [good(le, 40)], [good(not le, 40), good(le, 41)]]
        for pre in pres:
            bads = []
            # declared header array size, fixed part only
            for al in (MA, MA - 1, MA + 1, MA - 8, MA + 8, MA * 2, 0x7fffffff, 0x80000000, 0xfffffff0, 0xffffffff):
                bads.append(header(le, 4, 0, 0, 9, [], alen=al))
            # total size: complete header, no body
            for fs in (std(SIGNAL), []):
                h = len(header(le, 4, 0, 0, 9, fs))
                for bl in (MM - h, MM - h + 1, MM - h - 1, MM, MM + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xffffffff - h, 0xffffffff - h + 1):
                    bads.append(header(le, 4, 0, bl, 9, fs))
            # headers that do not decode
            h = bytearray(header(le, 4, 0, 0, 9, std(SIGNAL)))
            for b in undecodable(rng, le):
                bads.append(b)
            for b in bads:
                cs = list(follow(pre, b, le))
                for c in ([cs[0]] + rng.sample(cs[1:], 2) if not vlib.THOROUGH else cs):
                    out.append(c)
    # mutated headers, whatever they turn out to be
    for _ in range(nrandom):
        le = rng.random() < .5
        h = mutate_header(rng, message(le, rng.choice([1, 2, 3, 4]), 9, std(SIGNAL) + [(SENDER, S(":1.1"))], [U(4)]))
        a, b = good(le, 50), good(not le, 51)
        k = rng.randrange(1, len(h))
        out.append(stream(good(le, 40) + h + a + b, [len(good(le, 40)) + k, len(h) - k, len(a), len(b)], full=0))
    # the largest message, delivered
    for le in (True,) if not vlib.THOROUGH else (True, False):
        for extra in (0, 1):
            fs = std(SIGNAL) + [(SIGNATURE, G("s"))]
            h = len(header(le, 4, 0, 0, 9, fs))
            n = MM - h - 5 + extra
            hd = header(le, 4, 0, MM - h + extra, 9, fs)
            c = stream(hd, [len(hd)], full=0)
            c["d"] = rle(hd) + rle((n).to_bytes(4, "little" if le else "big")) + [[113, n], [0, 1]] + rle(good(le, 50))
            if extra:
                # the rest of the refused message is read as a new one: only look at the refusal
                c["d"] = rle(hd + good(le, 50))
                c["chunks"] = [len(hd), len(good(le, 50))]
            else:
                c["chunks"] = [len(hd), 5 + n, len(good(le, 50))]
            out.append(c)
    return out


def undecodable(rng, le):
    o = "little" if le else "big"
    base = header(le, 4, 0, 0, 9, std(SIGNAL))
    out = []

    def put(off, b):
        x = bytearray(base)
        x[off:off + len(b)] = b
        out.append(bytes(x))

    # first field: octet 16 code, 17 siglen, 18 sig, 19 nul, 20.. string length
    put(20, (200).to_bytes(4, o))
    put(20, (0xffffffff).to_bytes(4, o))
    put(18, b"h")
    put(18, b"z")
    put(17, b"\xff")
    put(17, b"\x00")
    put(17, b"\x02")
    put(18, b"(")
    put(18, b"a")
    put(12, (1).to_bytes(4, o) )
    al = int.from_bytes(base[12:16], o)
    for d in (-1, -2, -4, 3 - al % 8, 1, 2, 4, 8):
        if 0 < al + d:
            x = bytearray(base)
            x[12:16] = (al + d).to_bytes(4, o)
            x = bytes(x[:16 + al]) + b"\0" * 16
            out.append(x[:16 + al + d + (-(al + d) % 8)])
    return out


def mutate_header(rng, m):
    b = bytearray(m)
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.choice([1, 2, 3, 4, 5, 6, 7, 12, 13, 14, 15] + list(range(16, len(b))))
        b[i] = rng.choice([0, 1, 2, 8, 0x7f, 0x80, 0xff, b[i] ^ (1 << rng.randrange(8)), ord(rng.choice("agosuvh("))])
    return bytes(b)


def cases_malbody(rng, nrandom):
    """C08, as a received message: what does not decode is not delivered."""
    out = []
    for s in BADSIGS:
        for body in [b"\0" * 4, b"\4\0\0\0" + b"\1\0\0\0" * 3, b"\0" * 64, b"\x01y\0\x07" + b"\0" * 20]:
            out.append(stream(raw(True, rng.choice([1, 2, 3, 4]), 0, 5, std(CALL) + [(REPLY, U(1)), (SIGNATURE, G(s))], body)))
    for _ in range(nrandom):
        m = bad_messages(rng, 5)
        if m:
            out.append(stream([m, message(True, 4, 6, std(4))]))
    return out


RULE = {
    "C05": "streams of well-formed messages of both byte orders cut in every way (every 2-cut and many 3-cuts of short pairs, every boundary +-1, octet by octet, "
           "random); non-trivial: distinct (stream, segmentation)",
    "C06": "streams mixing deliverable messages with undecodable bodies, unknown types, missing and throwing handlers; non-trivial: distinct (stream, segmentation)",
    "C07": "frames around the size limits and undecodable headers, at every early cut, after 0-2 good messages and followed by good ones; non-trivial: distinct case",
    "C12": "constructed messages of every kind over boundary and random header values and parameters; non-trivial: distinct construction",
    "C13": "received messages of every kind over subsets, orders and values of header fields and parameters in both byte orders; non-trivial: distinct stream"}


def framing_model(rep):
    sc = Scratch()
    try:
        t, c = ("8", "4") if vlib.THOROUGH else ("7", "4")
        model(rep, sc, "MCFraming", "CONSTANTS\n Octets = {0, 1, 2, 3}\n MaxTotal = %s\n MaxChunk = %s\nSPECIFICATION Spec\nINVARIANTS\n"
              " SegmentationIndependent\n ExactlyOnce\n HeldIsExact\n Early\n NeedIsExact\n ClearedOnReject\n" % (t, c),
              "framing design, every stream and segmentation of the small format")
        model(rep, sc, "MCFraming", "CONSTANTS\n Octets = {0, 1, 2, 3}\n MaxTotal = 4\n MaxChunk = 3\nSPECIFICATION Spec\nPROPERTY Ready\n",
              "framing design, progress")
    finally:
        sc.close()


def run(rep, prop):
    rep.rule = RULE[prop]
    if prop in ("C05", "C07"):
        framing_model(rep)
    rng = random.Random(SEED * 7000003 + int(prop[1:]))
    n = 1500 if THOROUGH else 300
    what, cases = {
        "C05": ("streams of well-formed messages, cut in every way", lambda: cases_segment(rng, n)),
        "C06": ("streams with undeliverable messages and failing handlers", lambda: cases_isolate(rng, n * 2)),
        "C07": ("streams with frames at and beyond the limits", lambda: cases_limits(rng, n * 2)),
        "C12": ("messages sent", lambda: cases_out(rng, n * 2)),
        "C13": ("messages received", lambda: cases_seen(rng, n * 3)),
    }[prop]
    decide(rep, cases(), "CheckMessage", what)
