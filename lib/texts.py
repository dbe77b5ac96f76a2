"""C19 match rules, C26 addresses, C27 introspection."""
import itertools, os, random
import xml.etree.ElementTree as ET
from gen import *
import vlib, wire
from vlib import *
from messages import message, SIGNAL, PATH, IFACE, MEMBER, SENDER, DEST, S, O, U, G

KEYS = ["type", "sender", "interface", "member", "path", "path_namespace", "destination"]


def signal(path="/a", iface="i.j", member="m", sender=None, dest=None, params=(), le=True, serial=5):
    fs = [(PATH, O(path)), (IFACE, S(iface)), (MEMBER, S(member))]
    if sender is not None:
        fs.append((SENDER, S(sender)))
    if dest is not None:
        fs.append((DEST, S(dest)))
    return message(le, SIGNAL, serial, fs, params)


def rule_case(text, signals):
    return dict(op="rule", rule=rle(text.encode("latin1")), signals=[rle(s) for s in signals])


def rule_text(es):
    return ",".join("%s='%s'" % e for e in es)


def cases_rule(rng, nrandom):
    out = []
    vals = dict(type=["signal", "method_call", "error"], sender=[":1.1", ":1.11"], interface=["i.j", "i.jk"], member=["m", "mm"],
                path=["/a", "/a/b", "/", "/ab"], path_namespace=["/a", "/a/b", "/", "/ab"], destination=[":1.2", ":1.22"])
    universe = [signal(p, i, m, s, d) for p in ("/a", "/a/b", "/", "/ab", "/a/b/c") for i in ("i.j", "i.jk", "i") for m in ("m", "mm") for s in (":1.1", ":1.11", None)
                for d in (":1.2", ":1.22", None)]
    # every combination of keys, with every value of one of them
    for n in range(len(KEYS) + 1):
        for ks in itertools.combinations(KEYS, n):
            for _ in range(3 if n else 1):
                es = [(k, rng.choice(vals[k][:1] * 3 + vals[k])) for k in ks]
                rng.shuffle(es)
                match = signal(*(dict(es).get(k, d) for k, d in (("path", rng.choice(["/a", "/a/b/c"])), ("interface", "i.j"), ("member", "m"), ("sender", ":1.1"), ("destination", ":1.2"))))
                out.append(rule_case(rule_text(es), [match] + rng.sample(universe, 5)))
    # every value of every key alone, against every variation of that field
    odd = ["x", "xx", "x.y", "X", "x'", "xy z", "x,y", "x=y", "a='b", "=", ",", "/", "é"]
    for k in KEYS:
        for v in vals[k] + [w for w in odd if "'" not in w and k != "path_namespace"]:
            v = v.encode("utf8").decode("latin1") if not v.isascii() else v
            if not v.isascii():
                continue
            sigs = []
            for w in set(vals[k] + odd + [v + "x", v[:-1], "x" + v, v.upper(), v + "/", v + "/y"]):
                if not w or not w.isascii():
                    continue
                a = dict(path="/a", interface="i.j", member="m", sender=":1.1", destination=":1.2")
                if k in a:
                    a[k] = w
                elif k == "path_namespace":
                    a["path"] = w
                sigs.append(signal(a["path"], a["interface"], a["member"], a["sender"], a["destination"]))
            out.append(rule_case("%s='%s'" % (k, v), sigs))
    for ns in ("/a", "/a/b", "/com/example/foo", "/"):
        sigs = [signal(p) for p in (ns, ns + "/bar" if ns != "/" else "/bar", ns + "bar", ns[:-1] or "/", "/", "/x" + ns, ns * 2, ns + "/a/b/c" if ns != "/" else "/q/r", ns + "-", ns + "0", ns.upper())]
        for extra in ("", ",member='m'", ",member='x'", ",type='signal'"):
            out.append(rule_case("path_namespace='%s'%s" % (ns, extra), sigs))
            if extra:
                out.append(rule_case(extra[1:] + ",path_namespace='%s'" % ns, sigs))
    # keys only the bus understands
    sigs = [signal(params=[S("foo")]), signal(params=[S("bar")]), signal(params=[]), signal(member="x", params=[S("foo")])]
    for e in ("arg0='foo'", "arg1='x'", "arg63='x'", "arg0path='/aa/'", "arg0namespace='c.d'", "eavesdrop='true'", "eavesdrop='false'"):
        for r in (e, e + ",member='m'", "member='m'," + e, "type='signal'," + e + ",path='/a'"):
            out.append(rule_case(r, sigs))
    out.append(rule_case("", universe[:8]))
    # malformed texts
    bad = ["x", "type", "type=signal", "type='signal", "type=signal'", "type='signal'x", "type'signal'", "='signal'", "type=='signal'", "type='signal',", "type='signal'member='m'",
           "type='signal',member", "type='signal',member=", "type='signal',member='", "type='signal',member='m", "type='signal',member=m", "type=\"signal\"", "member='m'='x'",
           "member=''m'", "member='m''", "type='signal';member='m'", "member=m'", "type='signal',='m'", "'", "''", "=", "='", "=''", "m='", "member='m' ", "member= 'm'", "member ='m'",
           "path='/a',path_namespace='/a'", "path_namespace='/a',path='/b'", "type='signal',path='/a',member='m',path_namespace='/'", "member='m',x", "x,member='m'", "member='m',x='y", "type='signal'\n"]
    for b in bad:
        out.append(rule_case(b, universe[:2]))
    for _ in range(nrandom):
        ks = rng.sample(KEYS, rng.randrange(1, 6))
        es = [(k, rng.choice(vals[k] + ["x,y", "a=b", "k='v"[:3]])) for k in ks if k]
        t = rule_text(es)
        k = rng.random()
        if k < .6:
            i = rng.randrange(len(t))
            t = [t[:i] + t[i + 1:], t[:i] + rng.choice("',= x") + t[i:], t[:i] + rng.choice("',= x") + t[i + 1:]][rng.randrange(3)]
        out.append(rule_case(t, rng.sample(universe, 4)))
    return out


def cases_addr(rng, nrandom, sc):
    out = []

    def add(a, connect=None, none=False):
        if isinstance(a, str):
            a = a.encode("latin1")
        out.append(dict(op="addr", addr=rle(a), none=none, connect=connect is not None, listen=rle(connect) if connect else []))

    add("", none=True)
    tails = ["", ",guid=0123456789abcdef", ",guid=1,x=y", ",", ",,", ",x", ",path=/b", ",abstract=/b", ",unix:path=/c"]
    for base in ("/tmp/x", "", "/", "x", "/a b", "/var/run/dbus/system_bus_socket", "/a=b", "/a:b", "/a%20b"[:2], "/" + "p" * 100, "\xe9\xff"):
        for t in tails:
            add("unix:path=" + base + t)
            add("unix:abstract=" + base + t)
    for a in ("", "/", "/plain/path", "unix", "unix:", "unix:path", "unix:abstract", "unix:tmpdir=/tmp", "unix:runtime=yes", "tcp:host=localhost,port=1", "Unix:path=/a", "unix:Path=/a",
              " unix:path=/a", "xunix:path=/a", "x,unix:abstract=/a", "unix:guid=1,path=/a", "autolaunch:", "/a,b", "a,b=c", "unix:path:/a", "unixexec:path=/x", "unix:paths=/a", "path=/a"):
        add(a)
    for _ in range(nrandom):
        v = "".join(rng.choice("/abc=:._-0 \x01\xfe") for _ in range(rng.randrange(0, 30)))
        add(rng.choice(["unix:path=", "unix:abstract=", "unix:", ""]) + v + rng.choice(tails))
    # sockets that really are there
    n = 0
    for t in tails:
        n += 1
        p = sc.path("b%d" % n).encode()
        add(b"unix:path=" + p + t.encode(), p)
        a = b"verif-%d-%d" % (os.getpid(), n)
        add(b"unix:abstract=" + a + t.encode(), b"\0" + a)
    p = sc.path("plain").encode()
    add(p, p)
    return out


def cases_xml(rng, nrandom):
    out = []
    g = Values(rng)
    names = ["A", "B", "a.b.C", "org.freedesktop.DBus.Properties", "x1", "_"]
    sigs = ["", "y", "s", "ss", "sss", "ay", "aay", "a{sv}", "a{sv}s", "sa{sv}", "(ii)", "(ii)(ss)", "a(ii)i", "v", "vv", "a(s(ii))a{s(ay)}v", "((y))", "aaay", "a{sa{sv}}", "(a{sv}(s))u",
            "aaaya", "ogd", "h", "ah", "(h)h", "ybnqiuxtdsogv", "a{yy}a{yy}", "(y)y(y)", "a(y)a(y)", "a((a{s(v)})aa(y))b"]
    sigs = [s for s in sigs if s != "aaaya"]
    acc = ["read", "write", "readwrite", "default"]

    def add(*faces):
        out.append(dict(op="xml", ifaces=[dict(name=n, items=it) for n, it in faces]))

    M = lambda n, i, o: dict(k="m", name=n, **{"in": i, "out": o})
    P = lambda n, t, a: dict(k="p", name=n, type=t, access=a)
    G_ = lambda n, t: dict(k="s", name=n, type=t)
    add()
    add(("I", []))
    add(("I", []), ("J", []))
    for s in sigs:
        add(("I", [M("m", s, "")]))
        add(("I", [M("m", "", s)]))
        add(("I", [M("m", s, s), G_("g", s)]))
        add(("I", [G_("g", s)]))
        for a in acc:
            if s:
                add(("I", [P("p", s, a)]))
    for _ in range(nrandom):
        def sg():
            return "".join(rng.choice([g.sig(rng.choice([0, 1, 2, 3])), rng.choice(sigs)]) for _ in range(rng.randrange(0, 4)))

        def item():
            k = rng.randrange(3)
            n = rng.choice(names) + str(rng.randrange(3))
            if k == 0:
                return M(n, sg(), sg())
            if k == 1:
                return P(n, sg() or "s", rng.choice(acc))
            return G_(n, sg())
        add(*[(rng.choice(names), [item() for _ in range(rng.randrange(0, 6))]) for _ in range(rng.randrange(0, 4))])
    return out


def tree(xml):
    """The document as Introspection.tla describes it; anything else in it spoils it."""
    try:
        root = ET.fromstring(xml)
    except ET.ParseError as e:
        return "not well-formed: %s" % e
    if root.tag != "node" or root.attrib:
        return "root"
    out = []
    for f in root:
        if f.tag != "interface" or set(f.attrib) != {"name"}:
            return "unexpected %s" % f.tag
        o = dict(name=f.get("name"), properties=[], methods=[], signals=[])
        for x in f:
            args = []
            for a in x:
                if a.tag != "arg" or not set(a.attrib) <= {"type", "direction"} or len(a):
                    return "unexpected %s" % a.tag
                args.append([a.get("direction", "out" if x.tag == "signal" else "in"), a.get("type")])
            if x.tag == "property" and set(x.attrib) == {"name", "type", "access"} and not args:
                o["properties"].append([x.get("name"), x.get("type"), x.get("access")])
            elif x.tag == "method" and set(x.attrib) == {"name"}:
                # in arguments and out arguments keep their own order
                o["methods"].append([x.get("name"), [a for a in args if a[0] == "in"] + [a for a in args if a[0] != "in"]])
            elif x.tag == "signal" and set(x.attrib) == {"name"}:
                o["signals"].append([x.get("name"), args])
            else:
                return "unexpected %s" % x.tag
        out.append(o)
    return out


RULE = {
    "C19": "every combination of rule keys, every value alone against near misses, namespaces, bus-only keys, malformed and mutated texts, each against several signals; "
           "non-trivial: distinct (rule, signals)",
    "C26": "every prefix with and without further keys, foreign addresses, random values, sockets that are really there; non-trivial: distinct address",
    "C27": "interfaces with every access, many signatures alone and random mixtures; non-trivial: distinct set of declarations"}


def run(rep, prop):
    rng = random.Random(SEED * 1000003 + int(prop[1:]))
    rep.rule = RULE[prop]
    n = 3000 if THOROUGH else 600
    sc = Scratch()
    try:
        if prop == "C19":
            model(rep, sc, "MCMatchRule", "SPECIFICATION Spec\nINVARIANTS\n ParsesBack\n OrderFree\n Everything\n Ancestors\nPROPERTY Restricts\n",
                  "rules of up to three elements against every signal of a small vocabulary")
        cases = {"C19": lambda: cases_rule(rng, n), "C26": lambda: cases_addr(rng, n, sc), "C27": lambda: cases_xml(rng, n)}[prop]()
        for i, c in enumerate(cases):
            c["id"] = i
        exe = build("pure", "asan", wire.PURE)
        run_cases(exe, cases, sc)
        if prop == "C27":
            for c in cases:
                if "xml" in c["obs"]:
                    c["obs"]["tree"] = tree(c["obs"].pop("xml"))
        wire.judge(rep, sc, cases, "CheckText", {"C19": "match rules", "C26": "addresses", "C27": "introspection documents"}[prop])
    finally:
        sc.close()
