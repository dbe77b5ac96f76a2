"""Concurrent programs: scenarios, schedules explored on the real code, and the
judgement of what was observed by CheckThreads."""
import json, os, random, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import *

SOURCES = ["common.cpp", "json.cpp", "turns.cpp", "threads.cpp"]
CFG = "CONSTANT Explain = %s\nSPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


# -------------------------------------------------------------------------
# running

def run_schedules(sc, cases, seconds, runs, seed):
    """Every scenario under many schedules; returns the distinct histories."""
    exe = build("threads", "sched", SOURCES)
    for i, c in enumerate(cases):
        c["id"] = i
    out = []

    def one(k):
        mine = cases[k::NPROC]
        if not mine:
            return
        inp, outp = sc.path("tin-%d" % k), sc.path("tout-%d" % k)
        with open(inp, "w") as f:
            for c in mine:
                f.write(json.dumps(c, separators=(",", ":")) + "\n")
        open(outp, "w").close()
        with open(sc.path("terr-%d" % k), "w+") as err:
            p = subprocess.run([exe, inp, outp, str(k), str(seconds), str(runs), str(seed)], stdout=err, stderr=err,
                               timeout=120 + len(mine) * (seconds * 2 + 30))
            err.seek(0)
            if p.returncode:
                raise Infra("the driver of schedules failed: " + err.read()[-2000:])
        with open(outp) as f:
            for ln in f:
                out.append(json.loads(ln))

    with ThreadPoolExecutor(NPROC) as ex:
        list(ex.map(one, range(NPROC)))
    if len(out) != len(cases):
        raise Infra("the driver of schedules lost scenarios")
    return sorted(out, key=lambda r: r["id"])


OPD = dict(kind="", reply=1, ok="none", err="none", name="", text="", h="none", neg=0)


def abstract(log, case, stats=True):
    """The log as CheckThreads reads it."""
    ev = []
    for e in log:
        e = dict(e)
        if e["e"] == "stats" and not stats:
            continue
        if e["e"] == "b":
            e["o"] = dict(OPD, **{k: v for k, v in e["o"].items() if k in OPD or k in ("f", "id")})
        elif e["e"] == "e":
            e.setdefault("ms", 0)
        elif e["e"] == "srv":
            x = e["x"]
            e["x"] = dict(kind=0, w=x["w"].split(" ")[0]) if "w" in x else \
                dict(kind=x["kind"], name=x.get("name", ""), to=x.get("to", ""), id=x["id"], picks=x.get("picks", []))
        ev.append(e)
    order = []
    for e in log:
        if e["e"] == "got" and e["x"]["t"] == "msg" and e["x"]["id"] not in order:
            order.append(e["x"]["id"])
    return dict(log=ev, order=order, auth="AUTH EXTERNAL " + str(os.getuid()).encode().hex(), held=bool(case["server"].get("hold")))


def judge_logs(sc, hs, explain=False, chunk=250):
    """Which histories are accepted; with explain: how far each can be followed."""
    for i, h in enumerate(hs):
        h["id"] = i
    parts = [hs[i:i + chunk] for i in range(0, len(hs), chunk)]
    accepted, reach, gen = set(), {}, [0, 0]

    def one(part):
        rc, lines, text = tlc(sc, "CheckThreads", CFG % ("TRUE" if explain else "FALSE"), [("cases.ndjson", part)], workers=2, timeout=600, heap="3g")
        if rc != 0:
            raise Infra("CheckThreads failed:\n" + text[-3000:])
        a, b = counts(text)
        gen[0] += a
        gen[1] += b
        for ln in lines:
            w = ln.split(" ")
            if w[0] == "A":
                accepted.add(int(w[1]))
            elif w[0] == "P":
                reach[int(w[1])] = max(reach.get(int(w[1]), 0), int(w[2]))

    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, parts))
    return accepted, reach, gen


def removed(before, h):
    """Whether that registration was taken away, by a thread other than the delivering one, and that returned."""
    reg = [(i, b["o"]) for i, b in enumerate(before) if b["e"] == "b" and b["o"].get("h") == h]
    if not reg:
        return False
    at, o = reg[0]
    un = {"regc": "unregc", "regs": "unregs", "addmatch": "remmatch"}.get(o["f"])
    for i, b in enumerate(before):
        if i > at and b["e"] == "b" and b["t"] != "io" and b["o"]["f"] == un and (b["o"]["name"], b["o"]["text"]) == (o["name"], o["text"]):
            if any(e["e"] == "e" and e["t"] == b["t"] for e in before[i:]):
                return True
    return False


def outcome(log):
    """What the run came to, coarsely."""
    out = []
    for e in log:
        if e["e"] == "enter":
            out.append("e%s%s" % (e["h"], e["m"]))
        elif e["e"] == "got":
            out.append("g" + str(e["x"].get("id", e["x"].get("s"))) + e["x"]["t"])
        elif e["e"] in ("e", "rest", "bulk", "fin", "stats"):
            out.append(e["e"] + str(e.get("r", "")) + str(e.get("left", "")) + str(e.get("v", "")))
    return " ".join(sorted(out))


def choose(rng, logs, n):
    """n histories: those with rare outcomes first."""
    kinds = {}
    for l in logs:
        kinds.setdefault(outcome(l["log"]), []).append(l)
    for k in kinds.values():
        rng.shuffle(k)
    groups = sorted(kinds.values(), key=lambda k: sum(l["n"] for l in k))
    out, depth = [], 0
    while len(out) < min(n, len(logs)):
        for k in groups:
            if depth < len(k) and len(out) < n:
                out.append(k[depth])
        depth += 1
    return out


def reason(h, pc):
    """What the event is about at which a history can no longer be followed."""
    ev = h["log"][pc - 1]
    before = h["log"][:pc - 1]
    e = ev["e"]
    if e == "doom":
        return "%s: %s" % ({"dead": "deadlock", "crash": "crash"}[ev["k"]], ev["w"])
    if e == "got":
        x = ev["x"]
        if x["t"] == "bad":
            return "octets: " + x["id"]
        if x["t"] != "msg":
            return "handshake: %s written" % (x.get("s", "NUL"))
        if any(b["e"] == "got" and b["x"].get("id") == x["id"] for b in before):
            return "duplicate: %s written again" % x["id"]
        if ev["n"] == "0" or any(b["e"] == "got" and b.get("n") == ev["n"] for b in before):
            return "serial: %s used for %s" % (ev["n"], x["id"])
        if not any(b["e"] == "got" and b["x"].get("s") == "BEGIN" for b in before):
            return "separation: %s written before BEGIN" % x["id"]
        return "order: %s written" % x["id"]
    if e == "enter":
        if any(b["e"] == "e" and "gone" in b for b in before):
            return "destroyed: %s invoked after destruction" % ev["h"]
        m = [b["x"] for b in before if b["e"] == "srv" and b["x"].get("id") == ev["m"]]
        kind = {1: "call", 2: "reply", 3: "reply", 4: "signal"}[m[0]["kind"]] if m else "message"
        if removed(before, ev["h"]):
            return "removed: %s invoked with %s after it was taken away" % (ev["h"], ev["m"])
        again = sum(1 for b in before if b["e"] == "enter" and b["h"] == ev["h"] and b["m"] == ev["m"])
        return "%s: %s invoked%s with %s" % (kind, ev["h"], " again" if again else "", ev["m"])
    if e == "e":
        o = [b["o"] for b in before if b["e"] == "b" and b["t"] == ev["t"]][-1]
        if ev["r"] != "ok":
            return "operation: %s throws" % o["f"]
        if o["f"] == "destroy":
            return "destroyed: after %d ms, or while a handler runs" % ev["ms"]
        if o["f"] in ("unregc", "unregs", "remmatch"):
            return "unregistered: %s of %s returns while the handler runs" % (o["f"], o["name"] or o["text"])
        return "order: %s returns" % o["f"]
    if e == "rest":
        sent = {b["x"]["id"] for b in before if b["e"] == "got" and b["x"]["t"] == "msg"}
        miss = [b["o"]["id"] for b in before if b["e"] == "b" and b["o"]["f"] in ("send", "call", "bus", "addmatch", "remmatch") and b["o"]["id"] not in sent]
        if ev["left"] or (miss and not ev["hold"] and not any(b["e"] == "close" for b in before) and any(b["e"] == "got" and b["x"].get("s") == "BEGIN" for b in before)):
            return "lost: not written: %s, %d octets of a message" % (miss, ev["left"])
        if not any(b["e"] == "got" and b["x"].get("s") == "BEGIN" for b in before):
            return "handshake: not finished"
        return "undelivered: a message that was received"
    if e == "stats":
        return "statistics: " + json.dumps({k: ev[k] for k in ("v", "read", "auth", "sent")})
    if e == "bulk":
        return "serial: of %d made, %d are zero and %d distinct" % (ev["n"], ev["zeros"], ev["distinct"])
    if e == "fin":
        return "serial: zero or given twice: " + " ".join(ev["serials"][:20])
    return e


def explore_threads(rep, sc, cases, what, tags, seconds, runs=100000, keep=400, seed=None):
    rng = random.Random((seed if seed is not None else SEED) * 7919 + 13)
    res = run_schedules(sc, cases, seconds, runs, seed if seed is not None else SEED)
    total = sum(r["runs"] for r in res)
    stats = not tags or "statistics" in tags
    hs, distinct = [], 0
    budget = max(1, keep // max(1, len(res)))
    for r in res:
        ls = r["logs"]
        distinct += len(ls)
        doomed = [l for l in ls if any(e["e"] == "doom" for e in l["log"])]
        rest = [l for l in ls if not any(e["e"] == "doom" for e in l["log"])]
        for l in doomed[:3] + choose(rng, rest, budget):
            hs.append(dict(abstract(l["log"], cases[r["id"]], stats), case=r["id"], plan=l["plan"]))
    log(what, "schedules", total, "distinct histories", distinct, "judged", len(hs))
    ks = [{k: h[k] for k in ("log", "order", "auth", "held")} for h in hs]
    accepted, _, gen = judge_logs(sc, ks)
    bad = [i for i in range(len(ks)) if i not in accepted]
    n = 0
    if bad:
        some = bad[:60]
        sub = [dict(ks[i]) for i in some]
        for h in sub:
            h.pop("id", None)
        _, reach, _ = judge_logs(sc, sub, explain=True)
        seen = set()
        for j, i in enumerate(some):
            why = reason(sub[j], reach.get(j, 1))
            key = why.split(":")[0]
            if tags and not why.startswith(tuple(tags)):
                if key not in seen:
                    log("concerns another property:", why[:300])
                seen.add(key)
                continue
            n += 1
            rep.violation("%s (schedule %s of scenario %d) [event %d]" % (why, hs[i]["plan"], hs[i]["case"], reach.get(j, 1)),
                          dict(scenario=cases[hs[i]["case"]], plan=hs[i]["plan"], log=sub[j]["log"]))
    rep.evaluations += total
    rep.distinct += distinct
    rep.traces += len(hs)
    rep.states += gen[1]
    rep.transitions += gen[0]
    rep.covered(what, scenarios=len(cases), schedules=total, distinct_histories=distinct, judged=len(hs), rejected=len(bad), states=gen[1])
    return n


# -------------------------------------------------------------------------
# the design, exhaustively

DESIGNS = {   # name -> (quick, thorough)
    "order": (dict(apps=2, ops="send auth", n=2), dict(apps=2, ops="send call auth", n=3)),
    "answers": (dict(apps=2, ops="call auth", n=2, kinds="2"), dict(apps=2, ops="call auth", n=2, inner="call", m=1, kinds="2")),
    "unregister": (dict(apps=2, ops="regs unregs", n=2, inner="regs unregs send", m=1, kinds="4", push=2, authed=True),
                   dict(apps=2, ops="regs unregs regc unregc", n=3, inner="regs unregs", m=1, kinds="1 4", push=2, authed=True)),
    "rules": (dict(apps=2, ops="addmatch remmatch", n=2, inner="remmatch", m=1, kinds="4", push=1, authed=True),
              dict(apps=2, ops="addmatch remmatch", n=2, inner="remmatch addmatch", m=1, kinds="4", push=2, authed=True)),
    "destroy": (dict(apps=2, ops="send regs destroy auth", n=2, inner="send regs", m=1, kinds="4", push=1),
                dict(apps=2, ops="call addmatch regs destroy auth", n=3, inner="send regs", m=1, kinds="2 4", push=1)),
}


def mc_cfg(apps, ops, n, inner="", m=0, kinds="", push=0, authed=False):
    q = lambda x: ", ".join('"%s"' % y for y in x.split())
    return ("CONSTANTS Apps = {%s} Ops = {%s} MaxOps = %d HandlerOps = {%s} MaxHandlerOps = %d MaxPush = %d Kinds = {%s} Authed = %s\n"
            "SPECIFICATION Spec\nINVARIANT Guarantees\n" % (", ".join('"t%d"' % i for i in range(apps)), q(ops), n, q(inner), m, push, ", ".join(kinds.split()), str(authed).upper()))


def designs(rep, sc, *which):
    for w in which:
        if w == "serials":
            model(rep, sc, "MCSerials", "CONSTANTS Threads = {a, b} Size = %d MaxTaken = %d Atomic = TRUE\nSPECIFICATION Spec\nINVARIANT Guarantees\n" % ((9, 12) if THOROUGH else (5, 8)),
                  "serials given out to several threads", timeout=600)
            continue
        model(rep, sc, "MCThreads", mc_cfg(**DESIGNS[w][1 if THOROUGH else 0]), "use by several threads: " + w, timeout=900, deadlock=True)


# -------------------------------------------------------------------------
# scenarios

RULES = {"r1": "type='signal',interface='i.f'", "r2": "type='signal',interface='i.f',member='S'", "r3": "type='signal',member='T'"}


def picks(name):
    i, _, m = name.rpartition(".")
    return [t for k, t in RULES.items() if (k == "r1" and i == "i.f") or (k == "r2" and name == "i.f.S") or (k == "r3" and m == "T")]


class Prog:
    """A concurrent program under construction."""

    def __init__(self, rng):
        self.rng = rng
        self.n = 0
        self.m = 0
        self.case = dict(server=dict(auth=[[dict(w="OK 1234")]], neg=[dict(w="AGREE_UNIX_FD")], replies={}), main=[], threads=[], scripts={})
        self.srv = self.case["server"]

    def id(self, p):
        self.n += 1
        return p + str(self.n)

    def msg(self, kind, name="", to="", size=None):
        self.m += 1
        r = self.rng
        return dict(id="m%d" % self.m, kind=kind, name=name, to=to, size=r.choice([0, 0, 0, 5, 40, 900, 2500]) if size is None else size,
                    picks=picks(name) if kind == 4 else [])

    def h(self, base, p=0.25):
        """A handler, perhaps one that acts."""
        r = self.rng
        name = self.id(base)
        if r.random() < p:
            self.case["scripts"][name] = [self.acts(r.randrange(0, 3)) for _ in range(r.randrange(1, 3))]
        return name

    def acts(self, n):
        r = self.rng
        out = []
        for _ in range(n):
            x = r.random()
            out.append(self.send() if x < .3 else self.call(deep=True) if x < .5 else self.reg(p=0) if x < .65 else self.unreg() if x < .8
                       else dict(f="throw") if x < .85 else self.send())
        return out

    def size(self):
        return self.rng.choice([0, 0, 1, 3, 8, 30, 200, 3000])

    def send(self, size=None):
        r = self.rng
        return dict(f="send", id=self.id("s"), kind=r.choice(["signal", "signal", "bcast", "return", "error"]), size=self.size() if size is None else size)

    def call(self, deep=False, reply=None, size=None, answers=None):
        r = self.rng
        i = self.id("c")
        reply = r.random() < .85 if reply is None else reply
        o = dict(f="call", id=i, reply=int(reply), size=self.size() if size is None else size,
                 ok=self.id("k") if deep else self.h("k"), err=self.id("x") if deep else self.h("x", .1))
        self.answer(i, answers)
        return o

    def answer(self, i, answers=None):
        r = self.rng
        n = r.choice([1, 1, 1, 1, 0, 2]) if answers is None else answers
        if n:
            self.srv["replies"][i] = [self.msg(r.choice([2, 2, 3]), to=i) for _ in range(n)]

    def bus(self):
        i = self.id("b")
        self.answer(i)
        return dict(f="bus", id=i, m=self.rng.choice(["RequestName", "ReleaseName", "NameHasOwner"]), arg="org.x." + i, ok=self.h("k"), err=self.h("x", .1))

    names = ("i.f.S", "i.f.T", "i.g.T")

    def reg(self, kind=None, name=None, p=.25):
        r = self.rng
        k = kind or r.choice(["regc", "regs"])
        return dict(f=k, id=self.id("g"), name=name or r.choice(self.names), h=self.h("h", p))

    def unreg(self, kind=None, name=None):
        r = self.rng
        return dict(f=kind or r.choice(["unregc", "unregs"]), id=self.id("u"), name=name or r.choice(self.names))

    def add(self, k, p=.25):
        i = self.id("a")
        self.answer(i)
        return dict(f="addmatch", id=i, text=RULES[k], h=self.h("r", p), ok="none", err="none")

    def rem(self, k):
        return dict(f="remmatch", id=self.id("z"), text=RULES[k])

    def auth(self, neg=None):
        return dict(f="auth", id=self.id("o"), neg=int(self.rng.random() < .4) if neg is None else neg)

    def event(self):
        r = self.rng
        return self.msg(r.choice([1, 4, 4]), r.choice(self.names))

    def push(self, n, close=None):
        r = self.rng
        out = []
        for _ in range(n):
            k = r.choice([1, 1, 1, 2, 3])
            out.append(dict(items=[self.event() for _ in range(k)], cut=r.choice([0, 0, 0, 1, 17, 60])))
        self.srv["push"] = out
        return out

    def throttle(self, p=.5):
        r = self.rng
        if r.random() < p:
            self.case["throttle"] = [r.choice([1, 7, 30, 100, 500, 0, -1, -1]) for _ in range(r.randrange(2, 6))] + [0]
        return self

    def done(self, settle=False):
        if settle:
            self.case["settle"] = 1
        return self.case


def interleave(rng, op, ops):
    ops.insert(rng.randrange(0, len(ops) + 1), op)
    return ops


def prog_sends(rng, k):
    """C01, C02: threads that send while the handshake goes on, and after it."""
    p = Prog(rng).throttle(.6)
    settled = k % 3 == 2
    if settled:
        p.case["main"] = [p.auth()]
    ts = [[p.send() if rng.random() < .8 else p.call(reply=False) for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 2, 2, 3]))]
    if not settled:
        if rng.random() < .3:
            ts.append([p.auth()])
        else:
            interleave(rng, p.auth(), rng.choice(ts))
        if rng.random() < .2:
            p.srv["auth"] = [[dict(w="REJECTED EXTERNAL")], [dict(w="OK 99")]]
            rng.choice(ts).append(p.auth(1))
            ts.append([p.auth(0)])
            p.srv["auth"].append([])
        if rng.random() < .2:
            p.srv["neg"] = [dict(w="ERROR no")]
    p.case["threads"] = ts
    if rng.random() < .3:
        p.case["main"].append(p.reg("regs", "i.f.S", 1))
        p.srv["push"] = [dict(items=[p.msg(4, "i.f.S")])]
    return p.done(settled)


def prog_large(rng, k):
    """C02: messages that the socket does not take at once."""
    p = Prog(rng)
    p.case["sndbuf"] = rng.choice([4608, 0])
    p.case["throttle"] = [rng.choice([1, 4096, 300, 0]), -1, rng.choice([-1, 0, 50])] if rng.random() < .6 else []
    p.case["main"] = [p.auth(0)]
    p.case["threads"] = [[p.send(rng.choice([0, 10, 6000, 30000])) for _ in range(rng.randrange(1, 3))] for _ in range(2)]
    if k % 2:
        p.case["threads"][0].insert(0, p.case["main"].pop())
    return p.done(k % 2 == 0)


def prog_replies(rng, k):
    """C15, C16: calls from several threads, answered at once."""
    p = Prog(rng).throttle(.2)
    settled = k % 2 == 1
    if settled:
        p.case["main"] = [p.auth()]
    ts = [[p.call() if rng.random() < .7 else p.bus() for _ in range(rng.randrange(1, 4))] for _ in range(rng.choice([1, 2, 2, 3]))]
    if not settled:
        interleave(rng, p.auth(), rng.choice(ts))
    p.case["threads"] = ts
    return p.done(settled)


def prog_unregister(rng, k):
    """C21: handlers and rules that are taken away while messages for them come."""
    p = Prog(rng)
    what = ("regc", "regs", "rule")[k % 3]
    p.case["main"] = [p.auth(0)]
    name = "i.f.S"
    first = p.add("r2", .3) if what == "rule" else p.reg(what, name, .3)
    t = [p.rem("r2") if what == "rule" else p.unreg("un" + what, name)]
    if rng.random() < .6:
        t.append(p.add("r2", .3) if what == "rule" else p.reg(what, name, .3))
        if rng.random() < .6:
            t.append(p.rem("r2") if what == "rule" else p.unreg("un" + what, name))
    p.case["main"].append(first)
    p.case["threads"] = [t]
    if rng.random() < .4:
        p.case["threads"].append([p.send(), p.unreg() if what != "rule" else p.reg()][:rng.randrange(1, 3)])
    if what == "rule" and rng.random() < .5:
        p.case["main"].append(p.add("r1", .3))
        if rng.random() < .5:
            p.case["threads"].append([p.rem("r1")])
    kind = 1 if what == "regc" else 4
    p.srv["push"] = [dict(items=[p.msg(kind, name, size=0) for _ in range(rng.choice([1, 1, 2]))]) for _ in range(rng.randrange(1, 4))]
    return p.done(rng.random() < .7)


def prog_dispatch(rng, k):
    """C17, C18, C20: registrations and rules that change while messages come."""
    p = Prog(rng)
    p.case["main"] = [p.auth(0), p.reg(), p.reg(), p.add("r1")]
    ts = [[], []]
    for i in range(rng.randrange(2, 6)):
        t = ts[rng.randrange(0, 2)]
        x = rng.random()
        t.append(p.reg() if x < .4 else p.unreg() if x < .7 else p.send())
    seq = [("add", "r2"), ("add", "r3"), ("rem", "r1"), ("rem", "r2"), ("add", "r1"), ("add", "r1")]
    for f, r in seq[:rng.randrange(0, 6)]:
        ts[0].append(p.add(r) if f == "add" else p.rem(r))
    p.case["threads"] = [t for t in ts if t]
    p.push(rng.randrange(2, 5))
    return p.done(rng.random() < .7)


def prog_destroy(rng, k):
    """C22: destruction at any moment."""
    p = Prog(rng).throttle(.4)
    x = k % 6
    ops = []
    if x:
        ops.append(p.auth())
        for _ in range(rng.randrange(0, 3)):
            ops.append(rng.choice([p.send, p.call, p.bus, p.reg])())
        p.case["main"] = [p.reg("regs", "i.f.S", .4), p.reg("regc", "i.f.S", .4)] + ([p.add("r1", .4)] if rng.random() < .5 else [])
        p.srv["push"] = [dict(items=[p.msg(rng.choice([1, 4]), "i.f.S") for _ in range(rng.choice([1, 2, 5]))], cut=rng.choice([0, 1, 30])) for _ in range(rng.randrange(0, 4))]
    if x in (2, 3):
        p.srv["hold"] = 1
        if rng.random() < .5:
            p.case["sndbuf"] = 4608
            ops += [p.send(20000) for _ in range(4)]
    if x == 4:
        p.srv["push"].append(dict(close=1))
    if x == 5:
        p.srv["auth"] = [rng.choice([[], [dict(w="REJECTED")], [dict(w="OK 12")]])]
        ops += [p.send() for _ in range(rng.randrange(0, 3))]
    ops.append(dict(f="destroy", id="destroy"))
    p.case["threads"] = [ops]
    if rng.random() < .5 and x:
        p.case["main"] += ops[:-1]
        p.case["threads"] = [ops[-1:]]
    return p.done(rng.random() < .3)


def prog_lost(rng, k):
    """C23: the peer goes away at any moment."""
    p = Prog(rng).throttle(.3)
    settled = k % 2
    p.case["main"] = [p.auth(0)] if settled else []
    p.case["main"] += [p.reg("regs", "i.f.S", .3), p.reg("regc", "i.f.S", .3)]
    t = [rng.choice([p.send, p.call, p.bus, p.reg, p.unreg])() for _ in range(rng.randrange(2, 6))]
    if not settled:
        interleave(rng, p.auth(0), t)
    p.case["threads"] = [t] + ([[p.send(), p.add("r1"), p.rem("r1")][:rng.randrange(1, 4)]] if rng.random() < .6 else [])
    if rng.random() < .3:
        p.srv["hold"] = 1
        p.case["sndbuf"] = 4608
        t += [p.send(9000) for _ in range(3)]
    p.srv["push"] = [dict(items=[p.msg(rng.choice([1, 4]), "i.f.S") for _ in range(rng.choice([1, 2, 4]))], cut=rng.choice([0, 9])) for _ in range(rng.randrange(0, 4))]
    if rng.random() < .5:
        p.srv["push"].append(dict(part=p.msg(4, "i.f.S", size=rng.choice([0, 2000])), n=rng.choice([1, 15, 16, 20, 60, 1500])))
    p.srv["push"].append(dict(close=1) if rng.random() < .7 else dict(half=1))
    return p.done(settled)


def prog_mixed(rng, k):
    """C24: everything at once."""
    p = Prog(rng).throttle(.4)
    settled = rng.random() < .5
    p.case["main"] = ([p.auth()] if settled else []) + [p.reg(p=.7), p.reg(p=.7)] + ([p.add("r1", .8)] if rng.random() < .6 else [])
    ts = [[], [], []][:rng.choice([2, 2, 3])]
    fs = [p.send, p.call, p.bus, p.reg, p.unreg, p.unreg]
    for t in ts:
        for _ in range(rng.randrange(1, 4)):
            t.append(rng.choice(fs)())
    for o in [p.rem("r1"), p.add("r1", .8), p.add("r2", .8), p.rem("r2")][:rng.randrange(0, 5)]:
        if o["text"] != RULES["r1"] or any(x.get("text") == RULES["r1"] for x in p.case["main"] + ts[0]) or o["f"] == "addmatch":
            ts[0].append(o)
    if not settled:
        interleave(rng, p.auth(), rng.choice(ts))
    if rng.random() < .3:
        rng.choice(ts).append(dict(f="getstats", id=p.id("q")))
    p.case["threads"] = ts
    p.push(rng.randrange(1, 4))
    return p.done(settled)


def prog_serials(rng, k):
    """C14: messages made by several threads."""
    p = Prog(rng)
    p.case["main"] = [p.auth(0)]
    p.case["threads"] = [[rng.choice([dict(f="new", id=p.id("n"), n=rng.randrange(1, 4)), p.send(0), p.call(size=0), p.bus()]) for _ in range(rng.randrange(1, 4))]
                         for _ in range(rng.choice([2, 3]))]
    if k % 2:
        p.case["last"] = str((1 << 32) - rng.randrange(1, 12))     # (the last serial that was given out)
    if k % 8 == 4:
        p.case.update(bulk=30000, runs=3, threads=[], main=[])
        if k % 16 == 4:
            p.case["last"] = str((1 << 32) - rng.choice([1, 2, 50000]))
    return p.done(True)


def prog_stats(rng, k):
    """C28: counting in several threads."""
    return rng.choice([prog_sends, prog_replies, prog_dispatch])(rng, k)


# -------------------------------------------------------------------------

FATAL = ("crash", "deadlock")
# property -> designs, [(family, quick: scenarios, seconds each, thorough: scenarios, seconds each)], what is reported
PLAN = {
    "C01": (["order"], [("sends", 48, 2, 400, 8)], ("separation", "handshake", "octets")),
    "C02": (["order"], [("sends", 32, 2, 300, 8), ("large", 24, 2, 200, 8), ("replies", 8, 2, 60, 8)], ("lost", "duplicate", "order", "octets", "separation")),
    "C14": (["serials"], [("serials", 48, 2, 300, 8)], ("serial",)),
    "C15": ([], [("replies", 24, 2, 200, 8)], ("reply",)),
    "C16": (["answers"], [("replies", 64, 2.5, 500, 8)], ("reply", "undelivered") + FATAL),
    "C17": ([], [("dispatch", 32, 2, 200, 8)], ("call", "removed")),
    "C18": ([], [("dispatch", 32, 2, 200, 8)], ("signal", "removed")),
    "C20": ([], [("dispatch", 32, 2, 200, 8)], ("call", "signal", "reply", "operation", "undelivered") + FATAL),
    "C21": (["unregister", "rules"], [("unregister", 64, 2.5, 500, 8)], ("unregistered", "removed", "crash")),
    "C22": (["destroy"], [("destroy", 72, 2, 500, 8)], ("destroyed",) + FATAL),
    "C23": ([], [("lost", 64, 2, 500, 8)], ("reply", "call", "signal", "operation", "undelivered", "destroyed", "duplicate", "octets") + FATAL),
    "C24": (["unregister", "answers"], [("mixed", 64, 2, 500, 8), ("unregister", 16, 2, 100, 8), ("destroy", 16, 2, 100, 8), ("lost", 16, 2, 100, 8)], ("deadlock",)),
    "C28": ([], [("stats", 48, 2, 300, 8)], ("statistics",)),
}


def run(rep, prop):
    rng = random.Random(SEED * 1000003 + int(prop[1:]) * 17)
    des, fams, tags = PLAN[prop]
    sc = Scratch()
    try:
        designs(rep, sc, *des)
        for f, n, secs, nt, secst in fams:
            if THOROUGH:
                n, secs = nt, secst
            done = 0
            while done < n:      # in portions, so that memory stays bounded
                k = min(n - done, 96)
                cases = [globals()["prog_" + f](rng, done + i) for i in range(k)]
                explore_threads(rep, sc, cases, "schedules: " + f + (" %d.." % done if n > 96 else ""), tags, secs, keep=25 * k if not THOROUGH else 60 * k, seed=SEED * 31 + done)
                done += k
    finally:
        sc.close()
