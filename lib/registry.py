"""Which function decides which property, and what to say about it."""
import wire, messages, texts, connect, threads, diag
LEVEL, RUN, TECH, NOTE, WHY_NOT = {}, {}, {}, {}, {}
DRIVERS = [("pure", "asan", wire.PURE), ("conn", "asan", connect.CONN), ("threads", "sched", threads.SOURCES)]


def reg(prop, level, fn, tech, note):
    LEVEL[prop], RUN[prop], TECH[prop], NOTE[prop] = level, fn, tech, note


JUDGE = ("Each recorded run of the real code (AddressSanitizer build) is accepted only if TLC evaluates it as a behaviour of the specification. "
         "Assumes the generated inputs are representative; trusts TLC and the recording driver. ")
for p, s in (("C08", "the total decoder of Wire.tla rejects exactly the malformed inputs; the code must reject all of those, end, and stay within memory"),
             ("C09", "octets written are compared with Wire!Enc"), ("C10", "accessor results are compared with the value encoded by Wire!Enc in either byte order"),
             ("C11", "what is sent again is compared with Wire!Enc of the received value")):
    reg(p, "exploration", lambda rep, p=p: wire.run(rep, p), "TLA+ specification of the wire format (Wire.tla), TLC judges recorded runs of the real code",
        JUDGE + s + ".")
for p, s in (("C05", "Framing.tla is checked exhaustively on a small format, and real streams are replayed chunk by chunk against the same specification"),
             ("C06", "deliveries of streams with undeliverable messages are compared with the receiver of Framing.tla and Message.tla"),
             ("C07", "as C05, with frames at and beyond the limits"),
             ("C12", "octets of constructed messages are compared with Message.tla"),
             ("C13", "what handlers see is compared with Message.tla")):
    reg(p, "model_checking" if p in ("C05", "C07") else "exploration", lambda rep, p=p: messages.run(rep, p),
        "TLA+ specification of messages and framing (Message.tla, Framing.tla), TLC judges recorded runs of the real code", JUDGE + s + ".")

for p, t, s in (("C19", "MatchRule.tla", "MCMatchRule explores the selection rules exhaustively over a small vocabulary; acceptance and selection of real rules are compared with Rule and Selects"),
                ("C26", "Address.tla", "resolved names, and the sockets actually reached, are compared with Resolve"),
                ("C27", "Introspection.tla", "the parsed document is compared with Describes")):
    reg(p, "model_checking" if p == "C19" else "exploration", lambda rep, p=p: (texts.run(rep, p), connect.run(rep, p) if p in connect.PLAN else None),
        "TLA+ specification (%s), TLC judges recorded runs of the real code" % t, JUDGE + s + ".")

for p, lv, s in (("C03", "model_checking", "the handshake is explored exhaustively in MCConnection; real clients are driven through every sequence of server lines up to a length"),
                 ("C04", "exploration", "streams whose first messages arrive with the last line of the handshake, cut in every way"),
                 ("C15", "model_checking", "calls and replies are explored exhaustively in MCConnection; real clients get replies that match, repeat, nearly match or come late"),
                 ("C17", "model_checking", "registrations are explored exhaustively in MCConnection; real clients are driven through registrations and calls"),
                 ("C18", "model_checking", "rules and named handlers are explored exhaustively in MCConnection; real clients are driven through signals and changes of rules"),
                 ("C20", "model_checking", "handlers that act are explored exhaustively in MCConnection; real handlers perform every pair of changes during a delivery"),
                 ("C25", "model_checking", "each operation with each kind of answer, before and after the handshake"),
                 ("C28", "exploration", "every counter is compared with the model's at every rest")):
    reg(p, lv, lambda rep, p=p: connect.run(rep, p), "TLA+ specification of the connection (Connection.tla), histories generated by TLC and replayed, TLC judges the recorded runs", JUDGE + s + ".")


def both(prop):
    """One thread first, then schedules of several."""
    def f(rep):
        if prop in connect.PLAN:
            connect.run(rep, prop)
        threads.run(rep, prop)
    return f


SCHED = ("Real programs of several threads run under a scheduler that decides every interleaving (random walks and priority schedules with preemptions at locks, "
         "system calls and shared memory accesses); each distinct history is accepted only if TLC finds moments for its operations' effects such that it is a behaviour of "
         "Threads.tla and Connection.tla. Explores schedules, does not exhaust them; sequentially consistent memory only. ")
for p, s in (("C01", "the handshake with concurrent senders"), ("C02", "concurrent and partial writes"), ("C14", "serials, also across the end of their range"),
             ("C15", "replies to concurrent calls"), ("C16", "replies that come at once, to several threads"), ("C17", "registrations that change during deliveries"),
             ("C18", "rules and handlers that change during deliveries"), ("C20", "handlers that act, while other threads do"), ("C21", "handlers taken away during deliveries"),
             ("C22", "destruction at any moment"), ("C23", "the peer goes away at any moment"), ("C24", "everything at once"), ("C28", "counting in several threads")):
    reg(p, "model_checking", both(p), "TLA+ specifications Connection.tla and Threads.tla explored exhaustively (MCConnection, MCThreads); TLC judges histories of the real code under controlled schedules",
        (JUDGE if p in connect.PLAN else "") + SCHED + "Here: " + s + ".")
reg("C29", "exploration", lambda rep: diag.run(rep, "C29"), "TLA+ specifications (Wire, Message, MatchRule, Connection), TLC judges runs of the real code that are logged and rendered as text",
    JUDGE + "Every level of logging; what a rejected case does in silence is asked before it is reported.")
