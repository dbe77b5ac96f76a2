"""C29: what is logged and what is rendered as text changes nothing.

Every case is run with some level of logging, and with its values rendered as
text; it is judged by the specification that judges it otherwise.  A case that
is rejected is run again in silence: if it is rejected then as well, it is not
this property that is violated."""
import random
import connect, messages, texts, wire, vlib
from vlib import *

RULE = ("inputs and histories of the other checks, with every level of logging and with all values rendered as text before and between their uses; "
        "non-trivial: distinct case")


class Probe:
    """Collects what is rejected, with the cases."""

    def __init__(self, rep):
        self.rep, self.violations = rep, []
        self.evaluations = self.traces = self.distinct = 0

    def covered(self, what, **kw):
        if self.rep:
            self.rep.covered(what, **kw)

    def sample(self, x):
        if self.rep:
            self.rep.sample(x)

    def violation(self, what, data):
        self.violations.append(dict(what=what, data=data))

    def model(self, *a):
        pass


def loud(rep, cases, judge):
    """judge(rep, cases) of the cases with noise, then of the rejected ones without."""
    p = Probe(rep)
    judge(p, cases)
    rep.evaluations += p.evaluations
    rep.traces += p.traces
    rep.distinct += p.distinct
    if not p.violations:
        return
    again = [{k: v for k, v in x["data"].items() if k not in ("obs", "log", "say")} for x in p.violations][:40]
    q = Probe(None)
    judge(q, again)
    quiet = {json.dumps({k: v for k, v in x["data"].items() if k not in ("id", "obs", "log", "say")}, sort_keys=True) for x in q.violations}
    for x in p.violations[:40]:
        k = json.dumps({k: v for k, v in x["data"].items() if k not in ("id", "obs", "log", "say")}, sort_keys=True)
        if k in quiet:
            log("rejected in silence too:", x["what"][:200])
        else:
            rep.violation("logged or rendered: " + x["what"], x["data"])


def run(rep, prop):
    rep.rule = RULE
    rng = random.Random(SEED * 1000003 + 29)
    k = 6 if THOROUGH else 1

    def noisy(cases, n):
        cases = rng.sample(cases, min(len(cases), n * k))
        for c in cases:
            c["log"] = rng.choice([0, 0, 0, 1, 1, 2, 3, 4])
            c["say"] = int(rng.random() < .7)
        return cases
    n = 400 * k
    for what, module, cases in (
            ("values", "CheckWire", noisy(wire.cases_enc(rng, n), 500) + noisy(wire.cases_dec(rng, n), 1000) + noisy(wire.cases_re(rng, n), 500) + noisy(wire.cases_mal(rng, n * 3), 1500)),
            ("messages", "CheckMessage", noisy(messages.cases_out(rng, n), 400) + noisy(messages.cases_seen(rng, n), 500) + noisy(messages.cases_segment(rng, 200 * k), 300)
             + noisy(messages.cases_isolate(rng, n), 500) + noisy(messages.cases_malbody(rng, n), 300) + noisy([c for c in messages.cases_limits(rng, n) if sum(x[1] for x in c["d"]) < 100000], 300)),
            ("rules", "CheckText", noisy(texts.cases_rule(rng, 300), 300))):
        loud(rep, cases, lambda r, cs: wire.decide(r, cs, module, what + ", logged and rendered"))
    sc = Scratch()
    try:
        hs = []
        for f, m in (("boundary", 60), ("written", 60), ("reply", 60), ("dispatch", 60), ("lost", 60), ("stats", 40)):
            hs += noisy(getattr(connect, "cases_" + f)(rng, m * k), m)
        hs += noisy(connect.cases_scale(rng, 4, ["stream", "lines"]), 4)
        loud(rep, hs, lambda r, cs: connect.judge_conn(r, sc, cs, "histories, logged and rendered", None))
    finally:
        sc.close()
