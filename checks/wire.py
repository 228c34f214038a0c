"""Rules over every service and every message: short messages, addressing, outgoing format."""
from common import *


def svcs(L):
    return [t[len(NS):] for t in L.services()]


# bytes a message must have to be acted upon, where that is not what the opcode
# announces: RQNN acts by its opcode alone, events may come without their data
# bytes (the handler sees the length), long message fragments have their own rules
def needed(L):
    n = {o: 1 + (o >> 5) for o in range(256)}
    n[enumval(L.w, "VlcbOpCodes", "OPC_RQNN")] = 1
    n[enumval(L.w, "VlcbOpCodes", "OPC_DTXC")] = 1
    for s in ("ACON", "ACOF", "ASON", "ASOF", "ARON", "AROF", "ARSON", "ARSOF"):
        for i in ("", "1", "2", "3"):
            n[enumval(L.w, "VlcbOpCodes", "OPC_" + s + i)] = 5
    return n


def P02(c):
    L = c.lib()
    need_ = needed(L)
    for cls in svcs(L):
        if svc_id(L, cls) == 0:
            continue
        for op, need in sorted(need_.items()):
            for ln in range(1, need):
                ctx = Idle(c, L, cls, op=op, ln=ln)
                for st in ctx.states:
                    e = short_effects(L, ctx, st, op)
                    c.ob("%s: %02X with only %d of %d bytes" % (cls, op, ln, need), e is None, (e or "") + (" -- " + statestr(st)[:600] if e else ""), lastloc(st) if e else "")


def short_effects(L, ctx, st, op):
    for e, lp in walk(st.log):
        if is_out(e):
            if match_msg(st.env, e, [0xAF, NNHI, NNLO, op, None, 1]) or match_msg(st.env, e, cmderr(1)):
                continue
            return "sends %s at %s" % (msgstr(e), e.loc)
        if e.kind in ("swrite", "swriten", "sreset", "reboot", "callback", "action"):
            if e.kind == "action" and st.env.same(e.a["type"], K(IACT)):
                continue
            return "%r" % e
    for o in (ctx.obj, "Config"):
        ch = changed(L, ctx.st0, st, o)
        if ch:
            return "state of %s changes at offset %s to %s" % (o, ch[0][0], show(ch[0][2]) if ch[0][2] is not None else "?")
    return None


# messages that are not addressed by a node number in bytes 1 and 2
UNADDRESSED = ("OPC_RQNN", "OPC_SNN", "OPC_QNN", "OPC_RQNP", "OPC_RQMN", "OPC_DTXC", "OPC_ASRQ", "OPC_AREQ",
               "OPC_EVLRN", "OPC_EVULN", "OPC_REQEV", "OPC_EVLRNI")


def unaddressed(L):
    u = {enumval(L.w, "VlcbOpCodes", n) for n in UNADDRESSED}
    for s in ("ACON", "ACOF", "ASON", "ASOF", "ARON", "AROF", "ARSON", "ARSOF"):
        for i in ("", "1", "2", "3"):
            u.add(enumval(L.w, "VlcbOpCodes", "OPC_" + s + i))
    return u


def no_effects(L, ctx, st, skip=()):
    for e, lp in walk(st.log):
        if e.kind in ("swrite", "swriten", "sreset", "reboot", "callback", "action", "frame", "hashupd", "hashclr", "serial"):
            if e.kind == "action" and st.env.same(e.a["type"], K(IACT)):
                continue
            return "%s at %s" % (msgstr(e) if is_out(e) else repr(e)[:200], e.loc)
    for o in (ctx.obj, "Config", paramsobj(L)):
        ch = [x for x in changed(L, ctx.st0, st, o) if (o, x[0]) not in skip]
        if ch:
            return "state of %s changes at offset %s to %s" % (o, ch[0][0], show(ch[0][2]) if ch[0][2] is not None else "?")
    return None


def P01(c):
    L = c.lib()
    un = unaddressed(L)
    LRN = enumval(L.w, "VlcbOpCodes", "OPC_NNLRN")
    for cls in svcs(L):
        if svc_id(L, cls) == 0:
            continue
        for op in range(256):
            if op in un or op < 0x40:
                continue
            ctx = Idle(c, L, cls, op=op, ln=list(range(3, 9)), nn="other")
            skip = ()
            if op == LRN and L.w.is_a(NS + cls, NS + "EventTeachingService"):
                # another node entering learn mode ends learn mode here (P11)
                o, s, y = L.w.field(NS + cls, "bLearn", want="bool")
                skip = [(ctx.obj, o), (paramsobj(L), enumval(L.w, "VlcbParams", "PAR_FLAGS"))]
            for st in ctx.states:
                e = no_effects(L, ctx, st, skip)
                c.ob("%s: %02X addressed to another node" % (cls, op), e is None, (e or "") + (" -- " + statestr(st)[:600] if e else ""), lastloc(st) if e else "")


# messages whose bytes 1 and 2 are not this module's node number
ANYNN = ("OPC_PARAMS", "OPC_NAME", "OPC_DTXC", "OPC_EVANS", "OPC_NNACK", "OPC_ENRSP", "OPC_NAME")


def addrless(L):
    u = {enumval(L.w, "VlcbOpCodes", n) for n in ANYNN}
    for s in ("ACON", "ACOF", "ASON", "ASOF", "ARON", "AROF", "ARSON", "ARSOF"):
        for i in ("", "1", "2", "3"):
            u.add(enumval(L.w, "VlcbOpCodes", "OPC_" + s + i))
    return u


def opvals(env, t):
    t = env.norm(t)
    if t.op == "c":
        return [t.a]
    m = env.mask(t) if t.op == "a" else None
    if m is None:
        return [v for v in range(256) if env.decide(eq(t, K(v))) is not False]
    return [v for v in range(256) if m >> v & 1]


def wellformed(L, env, e, known, un):
    ops = opvals(env, e.a["data"][0])
    if len(ops) > 40:
        return "opcode %s is not determined" % show(e.a["data"][0])
    n = env.norm(e.a["len"])
    if n.op != "c":
        return "length %s is not determined" % show(n)
    for o in ops:
        if o not in known:
            return "%02X is not an opcode" % o
        if n.a != 1 + (o >> 5):
            return "%d bytes sent with opcode %02X, which announces %d" % (n.a, o, 1 + (o >> 5))
    for i in range(n.a):
        u = undefined(env.norm(e.a["data"][i]))
        if u is not None:
            return "byte %d is not initialised (%s)" % (i, show(u)[:80])
    if any(o not in un for o in ops) and n.a >= 3:
        if not (env.same(e.a["data"][1], NNHI) and env.same(e.a["data"][2], NNLO)):
            return "does not carry this module's node number: %s" % msgstr(e)
    return None


def argterm(ty, i):
    ty = ty if isinstance(ty, str) else ty.get("type", "i64") if isinstance(ty, dict) else str(ty)
    if ty.startswith("i"):
        return atom("arg%d" % i, int(ty[1:]))
    return atom("ptrarg%d" % i, 64)


def P03(c):
    L = c.lib()
    known = set(all_enum(L.w, "VlcbOpCodes").values())
    un = addrless(L)
    n = 0

    def scan(name, states):
        for st in states:
            for e, lp in walk(st.log):
                if not is_out(e):
                    continue
                env = st.env
                if lp:
                    for q, e2, nv in lp[-1].a["_iters"]:
                        if any(x is e for x in q):
                            env = e2
                r = wellformed(L, env, e, known, un)
                c.ob("%s: message sent at %s" % (name, e.loc), r is None, (r or "") + (" -- path {%s}" % st.env.describe()[:300] if r else ""), e.loc)

    for cls in svcs(L):
        if svc_id(L, cls) == 0:     # user interfaces: nothing depends on the opcode
            scan("%s receiving" % cls, Idle(c, L, cls).states)
        else:
            for op in range(256):
                scan("%s receiving %02X" % (cls, op), Idle(c, L, cls, op=op).states)
        for k in (OUT, CANENUM, CHMODE, RENEG, IACT, IMODE, None):
            if svc_id(L, cls) != 0:
                scan("%s on action %s" % (cls, k), Idle(c, L, cls, kind=k).states)
            if not L.w.is_a(NS + cls, NS + "CanService"):
                scan("%s busy on action %s" % (cls, k), Ctx(c, L, cls, kind=k).states)
        for m in ("reportDiagnostics", "reportAllDiagnostics"):
            f = L.w.vmethod(NS + cls, m)
            if f is None:
                raise AnalysisError("anchor lost: %s::%s" % (cls, m))
            st = idle(L, L.state(), cls)
            o = L.obj(cls)
            args = [ptr(o, C64(0))] + [atom("arg%d" % i, 8) for i in range(len(f.params) - 1)]
            c.cases += 1
            scan("%s::%s" % (cls, m), [s for _, s in L.I.call(f, args, st)])
    # the sending interface of the services
    for cls, names in (("EventProducerService", ("sendEvent", "sendEventResponse")), ("LongMessageService", ("sendLongMessage", "process")),
                       ("LongMessageServiceEx", ("sendLongMessage",))):
        for t in L.services():
            if not L.w.is_a(t, NS + cls):
                continue
            for nm in names:
                for f in L.w.bydem.get(NS + cls + "::" + nm, []):
                    if f.decl or (nm == "process" and len(f.params) != 1):
                        continue
                    st = idle(L, L.state(), t[len(NS):])
                    args = [ptr(L.obj(t[len(NS):]), C64(0))] + [argterm(p, i) for i, p in enumerate(f.params[1:])]
                    c.cases += 1
                    scan("%s::%s/%d" % (t[len(NS):], nm, len(args) - 1), [s for _, s in L.I.call(f, args, st)])



# requests of each protocol service (by base class); "+" marks those that store something
EVENTS = [s + i for s in ("ACON", "ACOF", "ASON", "ASOF") for i in ("", "1", "2", "3")]
REQUESTS = {
    "MinimumNodeService": "RQNN +SNN QNN RQNP RQMN RQNPN RQSD RDGN +MODE +NNRSM NNRST",
    "NodeVariableService": "NVRD +NVSET +NVSETRD",
    "EventTeachingService": "NNLRN NNULN +NNCLR NNEVN NERD RQEVN NENRD REVAL REQEV MODE +EVLRN +EVULN +EVLRNI",
    "EventConsumerService": " ".join(EVENTS) + " ARON AROF",
    "ConsumeOwnEventsService": "",
    "EventProducerService": "ASRQ AREQ",
    "CanService": "ENUM +CANID",
    "LongMessageService": "DTXC",
}
ACTIVE = {"MinimumNodeService": (CHMODE, RENEG), "EventConsumerService": (OUT,), "ConsumeOwnEventsService": (OUT,), "CanService": (OUT, CANENUM)}


def P04(c):
    L = c.lib()
    op_ = lambda n: enumval(L.w, "VlcbOpCodes", "OPC_" + n)
    for cls in svcs(L):
        if svc_id(L, cls) == 0:
            continue
        base = [b for b in REQUESTS if L.w.is_a(NS + cls, NS + b)]
        if not base:
            c.note("service %s is not in the table of requests" % cls)
            continue
        words = " ".join(REQUESTS[b] for b in base).split()
        mine = {op_(w.lstrip("+")): w[0] == "+" for w in words}
        acts_ = {k for b in base for k in ACTIVE.get(b, ())}
        for op in range(256):
            ctx = Idle(c, L, cls, op=op, ln=list(range(1, 9)))
            for st in ctx.states:
                if op not in mine:
                    e = no_effects(L, ctx, st)
                    c.ob("%s: %02X is not a request of this service" % (cls, op), e is None, (e or "") + (" -- " + statestr(st)[:600] if e else ""), lastloc(st) if e else "")
                elif not mine[op]:
                    w = [x for x, lp in walk(st.log) if x.kind in ("swrite", "swriten", "sreset")]
                    c.ob("%s: %02X stores nothing" % (cls, op), not w, "%r -- %s" % (w[0], statestr(st)[:600]) if w else "", w[0].loc if w else "")
        for k in (OUT, CANENUM, CHMODE, RENEG, IACT, IMODE):
            if k in acts_:
                continue
            ctx = Idle(c, L, cls, kind=k)
            for st in ctx.states:
                e = no_effects(L, ctx, st)
                c.ob("%s: action %d is not its own" % (cls, k), e is None, (e or "") + (" -- " + statestr(st)[:600] if e else ""), lastloc(st) if e else "")


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
