"""C01-C04, C15, C17, C18, C20, C22, C23, C25, C28 on one thread: whole
connections, driven by histories that TLC generates from MCConnection and by
systematic ones, and judged by CheckConnection."""
import itertools, random, re
from gen import *
import vlib, wire
from vlib import *
from messages import (message, raw, std, encseq, CALL, RETURN, ERROR, SIGNAL, PATH, IFACE, MEMBER, ERRNAME, REPLY, DEST, SENDER, SIGNATURE, S, O, U, G, BADBODY)

CONN = ["conn.cpp", "common.cpp", "json.cpp"]
HOLD = "none"


# -------------------------------------------------------------------------
# the model: exploration and histories

def mc_cfg(depth=0, names='"a"', texts='"all"', authed=False, seq=False, words='"OK","AGREE_UNIX_FD","ERROR","REJECTED"', **n):
    lim = dict(MaxSend=0, MaxCall=0, MaxReg=0, MaxRule=0, MaxLine=0, MaxMsg=0)
    lim.update(n)
    return ("CONSTANTS Names={%s} Texts={%s} Words={%s} Sequential=%s Depth=%d Authed=%s %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n" %
            (names, texts, words, str(seq).upper(), depth, str(authed).upper(), " ".join("%s=%d" % x for x in lim.items())))


EXPLORE = {   # name -> (quick, thorough) bounds
    "handshake": (dict(MaxSend=2, MaxCall=1, MaxLine=5, MaxMsg=1), dict(MaxSend=3, MaxCall=2, MaxLine=6, MaxMsg=1)),
    "replies": (dict(authed=True, MaxCall=2, MaxMsg=3), dict(authed=True, MaxCall=3, MaxMsg=4)),
    "handlers": (dict(authed=True, MaxReg=1, MaxRule=2, MaxMsg=2), dict(authed=True, MaxReg=2, MaxRule=2, MaxMsg=2)),
    "calls": (dict(authed=True, MaxReg=3, MaxMsg=2, names='"a","b"'), dict(authed=True, MaxReg=4, MaxMsg=3)),
}


def explore(rep, sc, *which):
    for w in which:
        b = EXPLORE[w][1 if THOROUGH else 0]
        model(rep, sc, "MCConnection", mc_cfg(**b) + "VIEW View\nINVARIANT Guarantees\nPROPERTY RunsRegistered\n", "the connection's design: " + w, timeout=600)


def histories(sc, n, depth, seed, **bounds):
    cfg = mc_cfg(depth=depth, names='"a","b"', seq=True, words='"OK","AGREE_UNIX_FD","ERROR","REJECTED","OTHER"', **bounds) + "CONSTRAINT Emit\nINVARIANT Guarantees\n"
    rc, lines, text = tlc(sc, "MCConnection", cfg, extra=["-simulate", "num=%d" % n, "-depth", str(depth + 1), "-seed", str(seed)], timeout=300)
    hs = []
    for ln in lines:
        if ln.startswith("H "):
            hs.append(json.loads(ln[2:]))
    if rc != 0:
        raise Infra("TLC cannot generate histories:\n" + text[-2000:])
    hs.sort(key=lambda h: json.dumps(h))
    return hs


# -------------------------------------------------------------------------
# concrete histories

LINES = {"OK": ["OK 0123456789abcdef0123456789abcdef", "OK 1234deadbeef", "OK 00"],
         "AGREE_UNIX_FD": ["AGREE_UNIX_FD"], "ERROR": ["ERROR", "ERROR \"not supported\"", "ERROR no"],
         "REJECTED": ["REJECTED EXTERNAL DBUS_COOKIE_SHA1 ANONYMOUS", "REJECTED", "REJECTED EXTERNAL"],
         "OTHER": ["OK2", "OKAY 12", "ok 12", "OK\t12", " OK 12", "DATA 00", "DATA", "AGREE_UNIX_FDS", "AGREE_UNIX", "agree_unix_fd", "ERRORS", "BEGIN", "AUTH EXTERNAL 30",
                   "NEGOTIATE_UNIX_FD", "CANCEL", "", "XOK 12", "REJECTEDOK 1", "HELLO OK 12", "OK\nOK 12", "OK\r 12", "A" * 300, "DATA OK 12", "REJECTED OK AGREE_UNIX_FD BEGIN", "\x01\x02"]}


def line(rng, word):
    return LINES[word][0] if rng is None else rng.choice(LINES[word])


class Case:
    def __init__(self, rng):
        self.rng, self.steps, self.scripts, self.n = rng, [], {}, 0
        self.into = None       # the script that is being written
        self.g = Values(rng)

    def op(self, **o):
        if self.into is not None:
            self.into.append(o)
        else:
            self.steps.append(dict(k="op", o=o))

    def srv(self, *items, cut=()):
        self.steps.append(dict(k="srv", items=[dict(d=rle(i)) if isinstance(i, bytes) else i for i in items], cut=list(cut)))

    def step(self, k, **kw):
        self.steps.append(dict(k=k, **kw))

    def ident(self, p="x"):
        self.n += 1
        return "%s%d_" % (p, self.n)

    # -- the application
    def params(self, big=0):
        r = self.rng
        if big:
            return [stringy("s", bytes([r.randrange(97, 123)]) * big)]
        return [[], [], [S("a")], [U(7)], [S("text"), fixed("y", 3), fixed("t", 9)], [arr("s", [S("p"), S("q")])], [arr("{sv}", [dict_(S("k"), var(U(1)))])],
                [fixed("b", 1), fixed("b", 0)], [arr("{ss}", [dict_(S("k"), S("v")), dict_(S(""), S("w"))])]][r.randrange(9)]

    def send(self, kind=None, big=0, id=None, dest=None, twice=0.):
        r = self.rng
        kind = kind or r.choice([RETURN, ERROR, SIGNAL])
        c = dict(kind={CALL: "call", RETURN: "return", ERROR: "error", SIGNAL: "signal"}[kind], path="/o/p%d" % r.randrange(3), iface="org.s.I", member="Mem%d" % r.randrange(9),
                 dest=(r.choice(["", ":1.7"]) if kind == SIGNAL else ":1.%d" % r.randrange(99)) if dest is None else dest, flags=0, params=self.params(big), ename="org.s.Err",
                 etext="t" * (big or r.randrange(20)), rserial=list(r.randrange(1, 1 << 32).to_bytes(4, "big")))
        if kind == ERROR:
            c["params"] = []
        c["params"] = [oddbools(r, v) for v in c["params"]]
        id = id or self.ident("m")
        twice = kind != CALL and r.random() < twice
        self.op(f="send", id=id, c=c, **(dict(keep=1) if twice else {}))
        if twice:               # the same object, once more (or much more often)
            for _ in range(r.choice([1, 1, 1, 2, 5])):
                self.op(f="send", id=self.ident("m"), c=c, again=id)

    def call(self, id=None, reply=True, ok=None, err=None, big=0):
        r = self.rng
        id = id or self.ident("c")
        c = dict(kind="call", path="/o/p", iface="org.s.I", member="Call%d" % r.randrange(9), dest=":1.2", flags=(0 if reply else 1) + r.choice([0, 2]), params=self.params(big))
        self.op(f="call", id=id, c=c, ok=ok or id + "ok", err=err or id + "err")
        return id

    BUS = [("Hello", 0), ("RequestName", 2), ("ReleaseName", 1), ("ListQueuedOwners", 1), ("ListNames", 0), ("ListActivatableNames", 0), ("NameHasOwner", 1),
           ("GetConnectionUnixProcessID", 1), ("GetConnectionUnixUser", 1)]

    def bus(self, id=None, m=None, text=None, flags=None, ok=None, err=None):
        r = self.rng
        id = id or self.ident("c")
        m, n = m or r.choice(self.BUS)
        args = [S(text if text is not None else r.choice(["org.x.Name", ":1.42", "a", "", "with space", "x" * 300, "é"]))] if n else []
        if n == 2:
            args.append(U(r.choice([0, 1, 2, 3, 4, 7, 256, 0x01020304, 0xffffffff]) if flags is None else flags))
        self.op(f="bus", id=id, m=m, args=args, ok=ok or id + "ok", err=err or id + "err")
        return id

    def register(self, of, name, h=None):
        h = h or self.ident("h")
        self.op(f="reg" + of, name=name, h=h)
        return h

    def unregister(self, of, name):
        self.op(f="unreg" + of, name=name)

    def addmatch(self, text, h=None, id=None):
        h, id = h or self.ident("h"), id or self.ident("c")
        self.op(f="addmatch", text=text, h=h, id=id, ok=id + "ok", err=id + "err")
        return h

    def remmatch(self, text, id=None):
        self.op(f="remmatch", text=text, id=id or self.ident("c"))

    def script(self, h):
        self.scripts.setdefault(h, []).append([])
        self.into = self.scripts[h][-1]

    def main(self):
        self.into = None

    # -- the bus
    def handshake(self, neg=None, tail=b"", cut=()):
        neg = self.rng.random() < .3 if neg is None else neg
        self.op(f="auth", neg=int(neg))
        if neg:
            self.srv(b"OK 00\r\n")
            self.srv(b"AGREE_UNIX_FD\r\n" + tail, cut=cut)
        else:
            self.srv(b"OK 00\r\n" + tail, cut=cut)

    def msg(self, kind, name=None, to=None, params=None, serial=None, fields=(), le=None):
        """An item of the bus: a message, perhaps the reply to operation `to`."""
        r = self.rng
        le = r.random() < .7 if le is None else le
        fs = list(fields)
        if name:
            i, m = name.rsplit(".", 1)
            if not any(c == PATH for c, _ in fs):
                fs.append((PATH, O(r.choice(["/a", "/a/b", "/x"]))))
            fs += [(IFACE, S(i)), (MEMBER, S(m))]
        if kind == ERROR:
            fs.append((ERRNAME, S("org.x.Err")))
        if to is not None and not isinstance(to, int):
            fs.append((REPLY, U(0x5a5aa5a5)))
        elif to is not None:
            fs.append((REPLY, U(to)))
        r.shuffle(fs)
        p = self.params() if params is None else params
        d = message(le, kind, serial or r.randrange(1, 1 << 32), fs, p)
        it = dict(d=rle(d))
        if to is not None and not isinstance(to, int):
            mark = (0x5a5aa5a5).to_bytes(4, "little" if le else "big")
            it["patch"] = [dict(off=d.index(mark), op=to, le=int(le), add=0)]
        return it

    def cuts(self):
        r = self.rng
        k = r.randrange(6)
        return [[], [1], [r.randrange(1, 40)], [r.randrange(1, 200), r.randrange(1, 30)], [1000000], [r.randrange(1, 9), 1000000]][k]

    def done(self, **kw):
        d = dict(op="conn", steps=self.steps, scripts=self.scripts, **kw)
        return d


VOCAB = [("org.x.I.Get", "org.x.I.GetAll"), ("a.b.C", "a.b.c"), ("org.x.I.Get", "org.x.J.Get"), ("i.m", "i.i.m"), ("a.b", "b.a")]


def rules_for(rng, names):
    """A text for each rule of the model: one that selects the first name only (or
    less), one that is broad."""
    i, m = names[0].rsplit(".", 1)
    one = rng.choice(["interface='%s',member='%s'" % (i, m), "type='signal',member='%s',interface='%s'" % (m, i), "member='%s',interface='%s',path='/a'" % (m, i),
                      "path_namespace='/a',interface='%s'" % i, "type='signal',interface='%s',member='%s',arg0='zz'" % (i, m), "sender=':1.1',member='%s'" % m])
    broad = rng.choice(["type='signal'", "path_namespace='/'", "eavesdrop='true',type='signal'", "path_namespace='/a'", "path='/a'"])
    return {"a": one, "all": broad}


def concretise(h, rng, authed=False, stats=True):
    """A history of MCConnection as a case."""
    c = Case(rng)
    names = dict(zip("ab", rng.choice(VOCAB)))
    texts = rules_for(rng, [names["a"], names["b"]])
    pend = []       # items of the bus, not yet written
    merge = rng.random() < .6
    if authed:
        c.handshake(False)          # the history begins with the handshake done

    def flush():
        if pend:
            if merge:
                c.srv(*pend, cut=c.cuts())
            else:
                for it in pend:
                    c.srv(it, cut=c.cuts())
            pend.clear()

    for x in h:
        a = x["a"]
        if a in ("auth", "send", "call", "bus", "reg", "unreg", "addmatch", "remmatch") and c.into is None:
            flush()
            if stats and rng.random() < .15:
                c.step("stats")
        if a == "auth":
            c.op(f="auth", neg=int(x["neg"]))
        elif a == "send":
            c.send(x["kind"], id=x["id"])
        elif a == "call":
            c.call(id=x["id"], reply=x["reply"])
        elif a == "bus":
            c.bus(id=x["id"])
        elif a == "reg":
            c.register(x["of"][0], names[x["name"]], x["id"])
        elif a == "unreg":
            c.unregister(x["of"][0], names[x["name"]])
        elif a == "addmatch":
            c.addmatch(texts[x["text"]], x["id"], x["cb"])
        elif a == "remmatch":
            c.remmatch(texts[x["text"]], x["id"])
        elif a == "line":
            pend.append(line(rng, x["word"]).encode() + b"\r\n")
        elif a == "msg":
            k = x["kind"]
            fs = [(SENDER, S(rng.choice([":1.1", ":1.5"])))] if rng.random() < .6 else []
            pend.append(c.msg(k, name=names[x["name"]], fields=fs) if k in (CALL, SIGNAL) else c.msg(k, to="c%d" % x["to"], fields=fs))
        elif a == "enter":
            c.script(x["h"])
        elif a == "leave":
            if x["throws"]:
                c.into.append(dict(f="throw"))
            c.main()
    c.main()
    flush()
    if stats:
        c.step("stats")
    return c.done()


# -------------------------------------------------------------------------
# systematic histories, by property

def cases_handshake(rng, n):
    """C03 (and C01, C04): every sequence of server lines up to a length, split in
    every way, with messages sent before, between and after."""
    out = []
    words = ["OK", "AGREE_UNIX_FD", "ERROR", "REJECTED", "OTHER"]
    for neg in (0, 1):
        for k in range(0, 5 if THOROUGH else 4):
            for seq in itertools.product(words, repeat=k):
                c = Case(rng)
                early = rng.random() < .5
                if early:
                    c.send()
                c.op(f="auth", neg=neg)
                text = [(line(rng, w) + "\r\n").encode() for w in seq]
                how = rng.randrange(4)
                if how == 0:
                    c.srv(*text)
                elif how == 1:
                    c.srv(*text, cut=[1])
                else:
                    for t in text:
                        if rng.random() < .4:
                            c.send()
                        c.srv(t, cut=c.cuts())
                c.send(CALL if rng.random() < .0 else None)
                c.step("stats")
                out.append(c.done())
        # every look-alike where it could do harm
        for w in sorted(set(sum(LINES.values(), []))):
            for pre in (["OK 00"], []) if neg else ([],):
                c = Case(rng)
                c.op(f="auth", neg=neg)
                c.send()
                for p in pre:
                    c.srv(p.encode() + b"\r\n")
                c.srv(w.encode() + b"\r\n", cut=c.cuts())
                c.srv(b"OK 00\r\n")
                c.srv(b"AGREE_UNIX_FD\r\n")
                out.append(c.done())
        # the final line in every two pieces, and bare line feeds
        last = b"OK 0123\r\n" if not neg else b"AGREE_UNIX_FD\r\n"
        for i in range(1, len(last)):
            c = Case(rng)
            c.op(f="auth", neg=neg)
            if neg:
                c.srv(b"OK 1234\r\n", cut=[i])
            c.srv(last, cut=[i, 100])
            c.send()
            out.append(c.done())
        for junk in (b"OK 12\n", b"OK 12\r", b"OK 12\n\r", b"OK 12\n\r\n", b"OK 12", b"\r\n\r\n\r\n", b"\n\n", b"\r\r\n", b"OK\r\r\n", b"OK \r\n", b"OK\r\n", b"OK\0\r\n", b"\0OK 1\r\n"):
            c = Case(rng)
            c.op(f="auth", neg=neg)
            c.srv(junk, cut=c.cuts())
            c.send()
            c.srv(b"OK 00\r\n")
            c.srv(b"AGREE_UNIX_FD\r\n")
            out.append(c.done())
        # asked again, and asked late
        for k in (1, 2, 3):
            c = Case(rng)
            c.send()
            for _ in range(k):
                c.op(f="auth", neg=neg)
            c.srv(b"OK 00\r\n")
            if neg:
                c.srv(b"AGREE_UNIX_FD\r\n")
            c.op(f="auth", neg=neg)
            c.send()
            c.srv(c.msg(SIGNAL, "a.b"))
            c.step("stats")
            out.append(c.done())
    return out


def cases_boundary(rng, n):
    """C04: messages right behind the last line of the handshake, cut in every way."""
    out = []

    def one(neg, ms, cut, pre=b""):
        c = Case(rng)
        for nm in ("i.m", "i.n"):
            c.register("c", nm)
            c.register("s", nm)
        k = c.call()
        c.op(f="auth", neg=int(neg))
        last = b"AGREE_UNIX_FD\r\n" if neg else b"OK 0123\r\n"
        if neg:
            pre = pre + b"OK 77\r\n"
        items = [dict(d=rle(pre + last))] + [c.msg(m[0], m[1], params=m[2]) for m in ms]
        c.srv(*items, cut=cut)
        c.srv(c.msg(RETURN, to=k), c.msg(SIGNAL, "i.n", params=[]))
        c.step("stats")
        return c.done()

    short = [(SIGNAL, "i.m", [])]
    for neg in (False, True):
        size = 140 if neg else 120
        for i in range(1, size, 1 if THOROUGH else 2):
            out.append(one(neg, short, [i, 1000000]))
        for k in (1, 2, 3, 5, 7, 11, 16, 1000000):
            out.append(one(neg, [(CALL, "i.m", [S("a")]), (SIGNAL, "i.n", []), (CALL, "i.n", [U(1)])], [k]))
        # text that looks like lines inside the first messages; and a full read
        for t in ("OK 12\r\n", "AGREE_UNIX_FD\r\nBEGIN\r\n", "\r\n", "ERROR\r\n"):
            out.append(one(neg, [(SIGNAL, "i.m", [S(t)]), (CALL, "i.n", [S(t * 3)])], [rng.choice([1000000, 30, 1])]))
        for s in (800, 900, 1000, 1024, 2000, 15000):
            for pre in (b"", b"REJECTED\r\n", b"DATA " + b"0" * 500 + b"\r\n"):
                out.append(one(neg, [(SIGNAL, "i.m", [S("q" * s)]), (CALL, "i.n", [S("r")])], [1000000], pre))
    for _ in range(n):
        ms = [(rng.choice([CALL, SIGNAL]), rng.choice(["i.m", "i.n", "i.o"]), None) for _ in range(rng.randrange(1, 5))]
        out.append(one(rng.random() < .5, ms, rng.choice([[rng.randrange(1, 300), 1000000], [rng.randrange(1, 60)], [1000000], [rng.randrange(1, 30), rng.randrange(1, 200)]]),
                       rng.choice([b"", b"", b"REJECTED EXTERNAL\r\n", b"ERROR\r\n"])))
    return out


def cases_written(rng, n):
    """C01, C02: what is written, with a socket that takes little at a time, and
    with a peer that does not read."""
    out = []
    sizes = [0, 1, 7, 100, 1000, 5000, 70000, 300000]
    for _ in range(n):
        c = Case(rng)
        throttle = rng.choice([[], [], [1, -1, 3, 0], [rng.randrange(1, 50), -1], [rng.randrange(1, 5000), rng.randrange(1, 100), -1], [-1, 0], [1000, -1, -1]])
        quick = bool(throttle) and min([t for t in throttle if t > 0] or [1000]) < 60
        pick = sizes[:5] if quick else sizes
        cut = c.cuts()

        def some(k):
            for _ in range(k):
                x = rng.random()
                if x < .5:
                    c.send(big=rng.choice(pick), twice=.25)
                elif x < .75:
                    c.call(big=rng.choice(pick), reply=rng.random() < .5)
                else:
                    c.bus()
        some(rng.randrange(0, 4))
        neg = rng.random() < .4
        held = rng.random() < .3
        if held:
            c.step("hold")
        c.op(f="auth", neg=int(neg))
        some(rng.randrange(0, 3))
        c.srv(b"OK 00\r\n", cut=cut)
        if neg:
            some(rng.randrange(0, 2))
            c.srv(b"AGREE_UNIX_FD\r\n", cut=cut)
        for _ in range(rng.randrange(1, 4)):
            some(rng.randrange(0, 4))
            x = rng.random()
            if x < .3:
                c.step("hold")
                held = True
            elif x < .6 and held:
                c.step("sip", n=rng.choice([1, 10, 1000, 100000]))
            elif x < .8:
                c.step("free")
                held = False
        c.step("free")
        some(rng.randrange(0, 2))
        out.append(c.done(throttle=throttle, sndbuf=rng.choice([0, 0, 4608, 20000])))
    return out


def cases_reply(rng, n):
    """C15, C16, C25: calls and their answers."""
    out = []
    for _ in range(n):
        c = Case(rng)
        ids = []
        late = rng.random() < .4
        if not late:
            c.handshake()
        for _ in range(rng.randrange(1, 6)):
            x = rng.random()
            ids.append(c.call(reply=rng.random() < .8, ok=rng.choice([None, None, None, "none"]), err=rng.choice([None, None, None, "none"])) if x < .6 else c.bus())
        if late:
            c.handshake(cut=c.cuts())
        items = []
        for _ in range(rng.randrange(1, 9)):
            i = rng.choice(ids)
            it = c.msg(rng.choice([RETURN, RETURN, ERROR]), to=i)
            if rng.random() < .25:     # near misses of a serial
                # (not the serial that a call made by a callback is about to get)
                near = [100, 256, 65536, 1 << 24, 0x80000000] + ([] if i == ids[-1] else [1, 0xffffffff])
                it["patch"][0]["add"] = rng.choice(near)
            if rng.random() < .1:
                it = c.msg(rng.choice([RETURN, ERROR]), to=rng.choice([None, 0, 0xffffffff, 1]))
            if rng.random() < .1:      # a call or signal that carries a reply serial answers nothing
                it = c.msg(rng.choice([CALL, SIGNAL]), "i.m", to=i)
            items.append(it)
        for i in ids:                  # callbacks that fail, or go on calling
            for h in (i + "ok", i + "err"):
                if rng.random() < .3:
                    c.script(h)
                    if rng.random() < .6:
                        j = c.call() if rng.random() < .5 else c.bus()
                        if rng.random() < .7:
                            items.append(c.msg(rng.choice([RETURN, ERROR]), to=j))
                    if rng.random() < .4:
                        c.op(f="throw")
                    c.main()
        if rng.random() < .6:
            c.srv(*[i for i in items if not i.get("patch") or i["patch"][0]["op"] in ids], cut=c.cuts())
            items = [i for i in items if i.get("patch") and i["patch"][0]["op"] not in ids]
        for it in items:
            c.srv(it, cut=c.cuts())
        rng.shuffle(ids)
        for i in ids:
            c.srv(c.msg(rng.choice([RETURN, ERROR]), to=i))
        c.step("stats")
        out.append(c.done())
    return out


def cases_bus(rng, n):
    """C25: each bus operation with each kind of answer, before and after the handshake."""
    out = []
    texts = ["org.x.Name", "", "a", ":1.42", "x" * 1000, "é", "a'b\"c", " "]
    for m in Case.BUS + [("AddMatch", 0), ("RemoveMatch", 0)]:
        for early in (0, 1):
            for kind in (RETURN, ERROR, 0):
                for t in texts if m[1] else [texts[0]]:
                    for fl in ([0, 1, 7, 0x01020304, 0xffffffff] if m[1] == 2 and t == texts[0] else [rng.randrange(8)]):
                        c = Case(rng)
                        c.register("c", "org.freedesktop.DBus." + m[0])
                        if not early:
                            c.handshake()
                        if m[0] == "AddMatch":
                            c.addmatch("type='signal',member='%s'" % rng.choice("abc"), id="b")
                        elif m[0] == "RemoveMatch":
                            c.addmatch("member='m'", id="q")
                            c.remmatch("member='m'", id="b")
                        else:
                            c.bus(id="b", m=m, text=t, flags=fl)
                        if early:
                            c.handshake()
                        if kind:
                            c.srv(c.msg(kind, to="b", fields=[(SENDER, S("org.freedesktop.DBus"))], params=rng.choice([[], [U(1)], [S("x")], [arr("s", [S(":1.1")])], [fixed("b", 1)]])),
                                  cut=c.cuts())
                            c.srv(c.msg(kind, to="b"))
                        c.step("stats")
                        out.append(c.done())
    return out


def cases_dispatch(rng, n):
    """C17, C18, C20: registrations and rules come and go, also from handlers."""
    out = []
    names = ["i.m", "i.n", "i.mm", "j.m", "i.M", "ii.m", "x.i.m"]
    texts = ["type='signal'", "member='m'", "interface='i'", "interface='i',member='n'", "path='/a'", "path_namespace='/a'", "sender=':1.1'", "type='method_call'", "member='m',arg0='x'", ""]
    bad = ["member", "member='m", "path='/a',path_namespace='/a'", "x=y,member='m'", "member=m"]

    def change(c, live, depth=0):
        x = rng.random()
        if x < .3:
            nm, of = rng.choice(names[:4]), rng.choice("cs")
            c.register(of, nm)
        elif x < .5:
            c.unregister(rng.choice("cs"), rng.choice(names[:4]))
        elif x < .75:
            t = rng.choice(texts[:8])
            c.addmatch(t)
            live.append(t)
        elif x < .9 and live:
            t = rng.choice(live)
            live[:] = [u for u in live if u != t]
            c.remmatch(t)
        elif x < .95:
            c.addmatch(rng.choice(bad))
        else:
            c.send()

    for _ in range(n):
        c = Case(rng)
        live = []
        late = rng.random() < .3
        if not late:
            c.handshake(False)
        for _ in range(rng.randrange(1, 6)):
            change(c, live)
        if late:
            c.handshake(False)
        for _ in range(rng.randrange(1, 4)):
            items = []
            for _ in range(rng.randrange(1, 5)):
                fs = [(SENDER, S(rng.choice([":1.1", ":1.2"])))] if rng.random() < .5 else []
                if rng.random() < .3:
                    fs.append((DEST, S(":1.9")))
                items.append(c.msg(rng.choice([CALL, SIGNAL, SIGNAL]), rng.choice(names if rng.random() < .3 else names[:3]), fields=fs))
            c.srv(*items, cut=c.cuts())
            for _ in range(rng.randrange(0, 3)):
                change(c, live)
        # what some handlers do when they are invoked
        hs = [s["o"]["h"] for s in c.steps if s["k"] == "op" and s["o"].get("h")]
        for h in hs:
            if rng.random() < .5:
                for _ in range(rng.randrange(1, 3)):
                    c.script(h)
                    scr = c.into
                    for _ in range(rng.randrange(0, 3)):
                        inner = []
                        change(c, inner)
                        if inner and rng.random() < .5:
                            pass
                    # take itself away
                    o = [s["o"] for s in c.steps if s["k"] == "op" and s["o"].get("h") == h][0]
                    if rng.random() < .4:
                        if o["f"] == "addmatch":
                            if not any(x.get("f") == "remmatch" for x in scr):
                                c.remmatch(o["text"])
                        else:
                            c.op(f="un" + o["f"], name=o["name"])
                        if rng.random() < .4:
                            if o["f"] == "addmatch":
                                c.addmatch(o["text"])
                            else:
                                c.register(o["f"][3], o["name"])
                    if rng.random() < .2:
                        c.op(f="throw")
                    c.main()
        c.srv(*[c.msg(k, nm) for k in (CALL, SIGNAL) for nm in rng.sample(names, 3)])
        c.step("stats")
        out.append(c.done())
    return out


def cases_reenter(rng, n):
    """C20: one delivery whose handlers change everything around them."""
    out = []
    t = ["member='m'", "type='signal'", "path='/a'"]
    acts = ["none", "remself", "remother", "readdself", "addnew", "regnamed", "unregnamed", "send", "call", "bus", "throw", "unregself", "reregself", "regcall"]
    combos = [(who, a, b) for who in range(4) for a in acts for b in acts]
    rng.shuffle(combos)
    for who, a, b in combos[:n]:
        c = Case(rng)
        c.handshake(False)
        c.register("s", "i.m", "hs")
        c.register("c", "i.m", "hc")
        for i, x in enumerate(t):
            c.addmatch(x, "r%d" % i, "k%d" % i)
        h = ["hs", "r0", "r1", "r2"][who]

        def act(what):
            me = int(h[1]) if h[0] == "r" else 0
            if what == "remself":
                c.remmatch(t[me]) if h[0] == "r" else c.unregister("s", "i.m")
            elif what == "remother":
                c.remmatch(t[(me + 1) % 3])
            elif what == "readdself":
                c.remmatch(t[me])
                c.addmatch(t[me])
            elif what == "addnew":
                c.addmatch("interface='i'")
            elif what == "regnamed":
                c.register("s", "i.n")
            elif what == "unregnamed":
                c.unregister("s", "i.m")
            elif what == "send":
                c.send()
            elif what == "call":
                return c.call()
            elif what == "bus":
                return c.bus()
            elif what == "throw":
                c.op(f="throw")
            elif what == "unregself":
                c.unregister("c", "i.m")
            elif what == "reregself":
                c.unregister("c", "i.m")
                c.register("c", "i.m")
                c.unregister("s", "i.m")
                c.register("s", "i.m")
            elif what == "regcall":
                c.register("c", "i.k")
        c.script(h)
        k1, k2 = act(a), act(b)
        c.main()
        c.script("hc")
        k3 = act(rng.choice(["send", "call", "unregself", "reregself", "addnew", "throw", "remother"]))
        c.main()
        sig = lambda nm: c.msg(SIGNAL, nm, fields=[(PATH, O("/a"))])
        c.srv(sig("i.m"), c.msg(CALL, "i.m"), sig("i.m"), sig("i.n"), c.msg(CALL, "i.m"), c.msg(CALL, "i.k"), cut=c.cuts())
        for k in (k1, k2, k3):
            if k:
                c.srv(c.msg(rng.choice([RETURN, ERROR]), to=k))
        c.srv(sig("i.m"), sig("i.n"), c.msg(CALL, "i.m"))
        c.step("stats")
        out.append(c.done())
    return out


def cases_lost(rng, n):
    """C23, C22: the peer goes away at every point; the application goes on."""
    out = []

    def after(c):
        for _ in range(rng.randrange(1, 5)):
            x = rng.randrange(7)
            if x == 0:
                c.send(big=rng.choice([0, 100, 5000, 300000]))
            elif x == 1:
                c.call()
            elif x == 2:
                c.bus()
            elif x == 3:
                c.register(rng.choice("cs"), "i.z")
            elif x == 4:
                c.unregister(rng.choice("cs"), "i.m")
            elif x == 5:
                c.addmatch("member='z'")
            else:
                c.op(f="auth", neg=0)

    for _ in range(n):
        c = Case(rng)
        c.register("c", "i.m")
        c.register("s", "i.m")
        stage = rng.randrange(6)
        k = c.call()
        c.send()
        if stage >= 1:
            c.op(f="auth", neg=int(stage == 3))
        if stage == 2:
            c.srv(b"OK 00\r\n"[:rng.randrange(1, 7)])
        if stage >= 3:
            c.srv(b"OK 00\r\n")
        if stage >= 4:
            if rng.random() < .4:
                c.step("hold")
            for _ in range(rng.randrange(0, 4)):
                c.send(big=rng.choice([10, 1000, 400000]))
            c.call()
            items = [c.msg(CALL, "i.m", params=[]), c.msg(SIGNAL, "i.m"), c.msg(RETURN, to=k)] * rng.randrange(1, 3)
            part = unrle(c.msg(SIGNAL, "i.m", params=[S("tail")])["d"])
            part = part[:rng.randrange(0, len(part))]
            if part:
                items.append(part)
            c.srv(*items, cut=c.cuts())
        how = rng.random()
        if how < .8:
            c.step("close" if how < .5 else "half")
            after(c)
        if rng.random() < .7:
            c.step("destroy")
        out.append(c.done(sndbuf=rng.choice([0, 4608])))
    return out


def cases_scale(rng, n, only=None):
    """Much of everything: what holds for a few must hold for many."""
    out = []

    def queue(c):          # written before, between and after, in order
        m = rng.choice([260, 400, 700, 1100])
        c.call() if rng.random() < .5 else None
        for _ in range(m):
            c.send(twice=.1) if rng.random() < .8 else c.call(reply=False)
        neg = rng.random() < .3
        c.op(f="auth", neg=int(neg))
        for _ in range(rng.choice([0, 5, 300])):
            c.send()
        c.srv(b"OK 00\r\n", cut=c.cuts())
        if neg:
            c.srv(b"AGREE_UNIX_FD\r\n")
        for _ in range(rng.choice([0, 100, 600])):
            c.send()

    def pending(c):        # many calls wait, answered in any order, some twice
        early = rng.random() < .4
        if not early:
            c.handshake()
        ids = [c.call() if rng.random() < .85 else c.bus() for _ in range(rng.choice([70, 150, 300, 520]))]
        if early:
            c.handshake()
        rng.shuffle(ids)
        for i in ids[: len(ids) - rng.choice([0, 3, 40])]:
            it = [c.msg(rng.choice([RETURN, ERROR]), to=i) for _ in range(1 if rng.random() < .95 else 2)]
            if rng.random() < .1:
                c.srv(*it, cut=c.cuts())
            else:
                c.srv(*it, cut=[1000000])

    def handlers(c):       # many registrations; each name reaches its own
        c.handshake(False)
        names = ["i%d.m%d" % (k % 17, k) for k in range(rng.choice([40, 130, 300]))]
        for nm in names:
            for of in "cs":
                if rng.random() < .8:
                    c.register(of, nm)
        for nm in rng.sample(names, len(names) // 4):
            c.unregister(rng.choice("cs"), nm)
        for nm in rng.sample(names, len(names) // 8):
            c.register(rng.choice("cs"), nm)
        items = [c.msg(rng.choice([CALL, SIGNAL]), nm) for nm in rng.sample(names, min(len(names), 120))]
        c.srv(*items, cut=rng.choice([[1000000], [1000], [77, 1000000]]))

    def rules(c):          # many rules, several handlers of one text, taken away one by one
        c.handshake(False)
        texts = ["type='signal',member='m%d'" % k for k in range(rng.choice([20, 40]))] + ["path='/a'", "interface='i'"]
        for t in texts:
            c.addmatch(t)
            if rng.random() < .3:
                c.addmatch(t)
        for nm in ("i.m0", "i.m1", "i.m7", "i.m19", "j.m19", "i.m20", "i.q"):
            c.srv(c.msg(SIGNAL, nm))
        gone = rng.sample(texts, len(texts) // 2)
        for t in gone:
            c.remmatch(t)
        for nm in ("i.m0", "i.m1", "i.m7", "i.m19"):
            c.srv(c.msg(SIGNAL, nm))
        for t in gone[::2]:
            c.addmatch(t)
        for nm in ("i.m0", "i.m1", "i.m7", "i.m19"):
            c.srv(c.msg(SIGNAL, nm))

    def stream(c):         # a long life: deliveries in order, each once
        c.register("c", "i.m")
        c.register("s", "i.m")
        c.register("s", "i.n")
        c.handshake(False)
        items = []
        for _ in range(rng.choice([300, 700, 1500])):
            x = rng.random()
            items.append(c.msg(SIGNAL if x < .6 else CALL, rng.choice(["i.m", "i.n", "i.o"]), params=[] if x < .9 else None))
        for i in range(0, len(items), 400):
            c.srv(*items[i:i + 400], cut=rng.choice([[1000000], [1000000], [37], [1000, 3]]))
            c.send()

    def lines(c):          # a long way to the final line
        neg = rng.random() < .5
        for _ in range(3):
            c.send()
        c.op(f="auth", neg=int(neg))
        x = rng.randrange(3)
        if x == 0:
            for _ in range(3):
                c.srv(b"REJECTED EXTERNAL\r\n" * rng.choice([90, 200]), cut=c.cuts())
        elif x == 1:
            c.srv(b"DATA " + b"30" * rng.choice([2000, 10000, 30000]) + b"\r\n", cut=rng.choice([[1000000], [1024], [300]]))
        else:
            c.srv(b"OK " + b"ab" * rng.choice([500, 2000, 10000]) + b"\r\n", cut=rng.choice([[1000000], [1024], [300]]))
        if x != 2:
            c.srv(b"OK 00\r\n")
        if neg:
            c.srv((b"OTHER\r\n" * 40) + b"AGREE_UNIX_FD\r\n", cut=c.cuts())
        c.send()
        c.srv(c.msg(SIGNAL, "i.m"))

    kinds = [queue, pending, handlers, rules, stream, lines]
    if only:
        kinds = [k for k in kinds if k.__name__ in only]
    for i in range(n):
        c = Case(rng)
        kinds[i % len(kinds)](c)
        c.step("stats")
        out.append(c.done())
    return out


def cases_rules(rng, n):
    """C19: real rules on a real connection, and real signals against them."""
    import texts
    good, bad = {}, ["x", "type", "type=signal", "type='signal", "type=signal'", "='signal'", "member='m'='x'", "member=''m'", "type='signal';member='m'", "'", "=", "m='", "member= 'm'",
                     "path='/a',path_namespace='/a'", "path_namespace='/a',path='/b'", "member='m',x"]
    for c in texts.cases_rule(random.Random(rng.randrange(1 << 30)), 0):
        t = unrle(c["rule"]).decode("latin1")
        es = re.findall(r"([a-z_0-9]+)='([^']+)'(?:,|$)", t)
        if texts.rule_text(es) == t and len({k for k, _ in es}) == len(es) and not {"path", "path_namespace"} <= {k for k, _ in es}:
            good.setdefault(t, []).extend(c["signals"])
    pool = sorted(good)
    out = []
    for _ in range(n):
        c = Case(rng)
        late = rng.random() < .2
        if not late:
            c.handshake(False)
        mine = rng.sample(pool, rng.randrange(2, 7))
        for t in mine:
            c.addmatch(t)
            if rng.random() < .15:
                c.addmatch(rng.choice(bad))
        if late:
            c.handshake(False)
        sigs = [x for t in mine for x in good[t]]

        def some():
            for d in rng.sample(sigs, min(len(sigs), 8)):
                c.srv(dict(d=d), cut=[1000000])
        some()
        gone = rng.choice(mine)
        c.remmatch(gone)
        # texts that select the same and are not the same
        twin = ",".join(reversed(gone.split(","))) if "," in gone and gone.count("=") == gone.count(",") + 1 else ""
        if twin and twin != gone:
            c.addmatch(twin)
        some()
        if rng.random() < .5:
            c.addmatch(gone)
            some()
        out.append(c.done())
    return out


def cases_stats(rng, n):
    """C28: every counter, in random mixtures, asked for at every rest."""
    out = []
    for _ in range(n):
        c = Case(rng)
        names = ["i.m", "i.n"]
        calls = []

        def some(k):
            for _ in range(k):
                x = rng.randrange(7)
                if x < 3:
                    c.send([RETURN, ERROR, SIGNAL][x], dest=rng.choice([None, ""]) if x == 2 else None, big=rng.choice([0, 0, 3000]), twice=.2)
                elif x == 3:
                    calls.append(c.call(reply=rng.random() < .7))
                elif x == 4:
                    calls.append(c.bus())
                elif x == 5:
                    c.addmatch("member='m'")
                    c.remmatch("member='m'")
                else:
                    c.register(rng.choice("cs"), rng.choice(names))
            c.step("stats")
        some(rng.randrange(0, 4))
        neg = rng.random() < .5
        c.op(f="auth", neg=int(neg))
        some(rng.randrange(0, 3))
        for w in [rng.choice(["REJECTED", "OTHER"])] * rng.randrange(0, 2) + ["OK"] + (["REJECTED"] * rng.randrange(0, 2) + [rng.choice(["AGREE_UNIX_FD", "ERROR"])] if neg else []):
            c.srv((line(rng, w) + "\r\n").encode(), cut=c.cuts())
            if rng.random() < .3:
                c.step("stats")
        for _ in range(rng.randrange(1, 4)):
            some(rng.randrange(0, 4))
            items = []
            for _ in range(rng.randrange(0, 5)):
                k = rng.choice([CALL, RETURN, ERROR, SIGNAL])
                items.append(c.msg(k, rng.choice(names), params=[S("z" * rng.choice([0, 10, 2000]))]) if k in (CALL, SIGNAL) else
                             c.msg(k, to=rng.choice(calls) if calls and rng.random() < .6 else rng.randrange(1 << 32)))
            c.srv(*items, cut=c.cuts())
            c.step("stats")
        out.append(c.done())
    return out


# -------------------------------------------------------------------------

# what is reported, for each property: a rejected event whose description begins so
TAGS = {"C01": ("separation", "handshake", "lost", "duplicate"), "C02": ("lost", "duplicate", "octets", "separation"), "C03": ("handshake", "separation", "lost"),
        "C04": None, "C15": ("reply", "unexpected: return", "unexpected: error", "handler"), "C17": ("method call", "unexpected: call", "handler"),
        "C18": ("signal", "unexpected: signal", "operation", "bus operation", "lost", "duplicate", "octets", "handler"),
        "C19": ("operation", "duplicate", "signal", "unexpected: signal"), "C20": None, "C22": None, "C23": None, "C25": None, "C28": ("statistics",)}
WORLD = dict(MaxSend=4, MaxCall=5, MaxReg=5, MaxRule=4, MaxLine=4, MaxMsg=8)
# property -> (designs explored, [(generator, quick size, thorough size)], generated histories: None or bounds)
PLAN = {
    "C01": (["handshake"], [("written", 150, 900), ("handshake", 0, 0)], WORLD),
    "C02": (["handshake"], [("written", 400, 3000), ("scale", 4, 30, ["queue", "lines"])], WORLD),
    "C03": (["handshake"], [("handshake", 0, 0), ("scale", 6, 40, ["lines"])], dict(WORLD, MaxLine=7, MaxMsg=2, MaxReg=0, MaxRule=0)),
    "C04": ([], [("boundary", 300, 3000), ("scale", 4, 24, ["stream", "lines"])], WORLD),
    "C15": (["replies"], [("reply", 500, 4000), ("scale", 4, 40, ["pending"])], dict(WORLD, MaxCall=8, MaxReg=0, MaxSend=1, authed=True, MaxMsg=12)),
    "C17": (["calls"], [("dispatch", 350, 3000), ("scale", 4, 40, ["handlers"])], dict(WORLD, MaxCall=0, MaxReg=10, MaxSend=0, MaxRule=1, authed=True, MaxMsg=12)),
    "C18": (["handlers"], [("dispatch", 350, 3000), ("scale", 6, 60, ["handlers", "rules"])], dict(WORLD, MaxCall=0, MaxReg=5, MaxSend=0, MaxRule=8, authed=True, MaxMsg=12)),
    "C19": ([], [("rules", 80, 1500)], None),
    "C20": (["handlers"], [("reenter", 500, 900), ("dispatch", 150, 2000)], dict(WORLD, authed=True, MaxMsg=12)),
    "C22": ([], [("lost", 300, 2500)], None),
    "C23": ([], [("lost", 400, 3000)], None),
    "C25": (["replies"], [("bus", 0, 0), ("reply", 150, 1000)], None),
    "C28": ([], [("stats", 250, 2500), ("scale", 5, 60)], WORLD),
}
RULE = ("histories of a connection: the application's operations, the bus's octets cut in many ways, handlers that act or fail; "
        "generated by TLC from MCConnection and systematically; non-trivial: distinct history")


def run(rep, prop):
    rng = random.Random(SEED * 1000003 + int(prop[1:]))
    rep.rule = (rep.rule + "; " if getattr(rep, "rule", "") else "") + RULE
    designs, gens, world = PLAN[prop]
    sc = Scratch()
    try:
        explore(rep, sc, *designs)
        for f, quick, thorough, *only in gens:
            judge_conn(rep, sc, globals()["cases_" + f](rng, thorough if THOROUGH else quick, *only), "histories: " + f, TAGS[prop])
        if world:
            hs = []
            for depth in (14, 28, 42):
                x = histories(sc, 200 if THOROUGH else 30, depth, SEED * 97 + int(prop[1:]), **world)
                hs += rng.sample(x, min(len(x), 600 if THOROUGH else 100))
            if len(hs) < 100:
                raise Infra("too few histories")
            judge_conn(rep, sc, [concretise(h, rng, world.get("authed", False)) for h in hs], "histories generated from MCConnection", TAGS[prop])
    finally:
        sc.close()


UIDS = [0, 1, 7, 10, 99, 1000, 12345, 65534, 65535, 65536, 100000, 131072, 2147483647, 2147483648, 4294967294]


def pieces(e, n=250):
    """Many octets at a time cost the judge more than the same octets in pieces."""
    if e["e"] not in ("wire", "srv") or len(e["d"]) <= n:
        return [e]
    out = [dict(e, d=e["d"][i:i + n]) for i in range(0, len(e["d"]), n)]
    if e["e"] == "wire":
        for p in out[:-1]:
            p["all"] = False
    return out


def judge_conn(rep, sc, cases, what, tags):
    rng = random.Random(SEED * 104729 + len(cases))
    for i, c in enumerate(cases):
        c["id"] = i
        if rng.random() < .7:       # who we are, and how the application writes what it means
            c["uid"] = rng.choice(UIDS)
        if rng.random() < .5:
            c["way"] = rng.randrange(32)
    exe = build("conn", "asan", CONN)
    run_cases(exe, cases, sc, limit=30)
    log(len(cases), "histories run")
    for c in cases:
        if "log" in c["obs"]:
            c["obs"]["log"] = [p for e in c["obs"]["log"] for p in pieces(e)]
    before = len(rep.violations)
    wire.judge(rep, sc, cases, "CheckConnection", what, "VIEW View\n")
    if tags:
        keep = [v for v in rep.violations[before:] if v["what"].startswith(tags) or v["what"].startswith("ended")]
        for v in rep.violations[before:]:
            if v not in keep:
                log("concerns another property:", v["what"][:200])
        rep.violations[before:] = keep
    # events seen
    ev = {}
    for c in cases:
        for e in c["obs"].get("log", []):
            ev[e["e"]] = ev.get(e["e"], 0) + 1
    rep.covered(what + ": events", **ev)
