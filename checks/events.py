"""Producing, consuming, and answering requests about events."""
from common import *

PROD, CONS = "EventProducerService", "EventConsumerService"
EN32 = zext(concat([D[4], D[3]]), 32)
NN32 = zext(MSGNN, 32)
HANDLER = atom("user.handler", 64)


def deriv(L, base):
    r = [t for t in L.services() if L.w.is_a(t, NS + base)]
    if not r:
        raise AnalysisError("anchor lost: no service class derived from " + base)
    return [t[len(NS):] for t in r]


def opcodes(L, stem):
    """the opcodes of an event with 0..3 data bytes"""
    return [enumval(L.w, "VlcbOpCodes", stem + (str(i) if i else "")) for i in range(4)]


def method(L, cls, name, nargs):
    """the overload of a public method with nargs parameters (this included)"""
    c = NS + cls
    for b in [c] + [x for x in L.w.types if L.w.is_a(c, x) and x != c]:
        fs = [f for f in L.w.bydem.get(b + "::" + name, []) if len(f.params) == nargs]
        if len(fs) == 1:
            return fs[0]
    raise AnalysisError("anchor lost: %s::%s with %d parameters" % (cls, name, nargs))


def hooked(L, st, cls, setter, handler):
    """install a user handler through the public interface; returns the state"""
    r = L.I.call(method(L, cls, setter, 2), [ptr(L.obj(cls), C64(0)), handler], st)
    if len(r) != 1:
        raise AnalysisError("%s is not a plain setter" % setter)
    s = r[0][1]
    s.log = ()
    return s


def setmode(L, st, m):
    o, s, y = L.w.field(NS + "Configuration", "currentMode")
    L.I.store(st, "Config", C64(o), s, const(8 * s, m))


class Rec:
    """what a sequence of events does to one event record"""

    def __init__(self, L, env, seq, idx):
        self.L, self.env, self.idx = L, env, idx
        base = L.evaddr(idx)[0]
        self.key = [None] * 4
        self.ev1 = None
        self.err = None
        self.wipe = None
        lastw, ref = -1, -1
        for i, e in enumerate(seq):
            if e.kind == "swrite":
                for k in range(5):
                    if env.same(e.a["addr"], add(base, C64(k))):
                        if k < 4:
                            self.key[k] = e.a["val"]
                            lastw = i
                        else:
                            self.ev1 = e.a["val"]
                            if self.wipe is not None and self.wipe[1] == 1:
                                self.err = self.err
                        break
                else:
                    self.err = self.err or "writes storage address %s at %s" % (show(e.a["addr"]), e.loc)
            elif e.kind in ("swriten", "sreset", "hashclr", "frame", "reboot", "callback"):
                self.err = self.err or "unexpected %r" % e
            elif e.kind == "hashupd":
                if not env.same(e.a["idx"], idx):
                    self.err = self.err or "refreshes look-up entry %s at %s" % (show(e.a["idx"]), e.loc)
                ref = i
            elif e.kind == "loop":
                w = [z for z, _ in walk((e,)) if z.kind == "swrite"]
                bad = [z for z, _ in walk((e,)) if z.kind in ("swriten", "sreset", "hashclr", "hashupd", "action", "callback")]
                if bad:
                    self.err = self.err or "unexpected %r" % bad[0]
                if w:
                    self.clear = e
                    self.wipe = (i, self.wiped(e))
        self.fresh = ref > lastw >= 0

    def wiped(self, e):
        """first event variable set to zero by loop e, which must reach the last one"""
        base = self.L.evaddr(self.idx)[0]
        NUM = self.L.cfg("EE_NUM_EVS")
        first = ev1 = None
        for q, env, nv in e.a["_iters"]:
            ws = [z for z in q if z.kind == "swrite"]
            if len(ws) != 1:
                return "loop at %s writes %d times in an iteration" % (e.loc, len(ws))
            n = slice_(sub(sub(ws[0].a["addr"], base), C64(3)), 0, 8)
            n = env.norm(n)
            rest = env.copy()
            if not env.same(ws[0].a["val"], K(0)):
                # the first event variable may be set in the same loop
                one = env.copy()
                if one.assume(eq(n, K(1))) is not False and not one.dead:
                    v = one.norm(ws[0].a["val"])
                    if ev1 is not None and ev1 is not v or support(v) & set(e.a["vars"]):
                        return "event variable 1 set to %s at %s" % (show(v), ws[0].loc)
                    ev1 = v
                if rest.assume(eq(n, K(1)), False) is not False and not rest.dead and not rest.same(ws[0].a["val"], K(0)):
                    return "event variable set to %s at %s" % (show(ws[0].a["val"]), ws[0].loc)
            if n.op == "c":
                if not env.le(n, NUM):
                    return "event variable %s set at %s" % (show(n), ws[0].loc)
                continue
            r = None
            for f in (2, 1):
                r, used, step = coverage(self.L, self.st(), e, env, n, f, NUM if False else add(zext(NUM, 64), C64(1)))
                if r is None:
                    first = f
                    break
            if r:
                return r
        if first is None:
            return "the event variables are not cleared by the loop at %s" % e.loc
        if ev1 is not None:
            if first != 1:
                return "event variable 1 is not set at %s" % e.loc
            self.ev1 = ev1
        return first

    def st(self):
        class S:
            pass
        s = S()
        s.env = self.env
        return s


def created(L, env, seq, idx, ev):
    """(error, key) of the creation of a default event in slot idx within seq"""
    r = Rec(L, env, seq, idx)
    NUM = L.cfg("EE_NUM_EVS")
    if r.err:
        return r.err, None
    if any(k is None for k in r.key):
        return "the key of the new event is not stored", None
    if not env.same(concat(r.key[1::-1]), OWNNN):
        return "the new event gets node number %s" % show(concat(r.key[1::-1])), None
    en = zext(concat([r.key[3], r.key[2]]), 32)
    ok = env.lt(zext(L.cfg("EE_MAX_EVENTS"), 32), en)
    for e, lp in walk(seq):
        if e.kind == "lookup" and e.a["fn"] == "findEvent" and not e.a["hit"] and env.same(zext(e.a["args"][0], 32), zext(OWNNN, 32)) and env.same(zext(e.a["args"][1], 32), en):
            ok = True
    if not ok:
        return "event number %s is not known to be unused" % show(en), None
    if r.ev1 is None or not env.same(r.ev1, ev):
        return "the new event's EV1 becomes %s, expected %s" % (show(r.ev1) if r.ev1 is not None else "unset", show(ev)), None
    if r.wipe is not None and not isinstance(r.wipe[1], int):
        return r.wipe[1], None
    if r.wipe is None and not env.lt(NUM, K(2)):
        return "the other event variables are not cleared", None
    if not r.fresh:
        return "the look-up entry of the new event is not refreshed", None
    return None, r.key


def notfull(env, L, seq):
    """(result) of the last search for a free slot in seq: None / (hit, idx)"""
    r = None
    for e, lp in walk(seq):
        if e.kind == "lookup" and e.a["fn"] == "findSpace":
            r = (e.a["hit"], e.a["res"])
    return r


def spec_event(L, st0, st, ev, on, data, LNG, SHT):
    """None, or how the final state deviates from producing one event"""
    env = st.env
    fb = [e for e, lp in walk(st.log) if e.kind == "lookup" and e.a["fn"] == "findByEv"]
    if not fb:
        return "does not look the event up"
    if not (env.same(fb[0].a["args"][0], K(1)) and env.same(fb[0].a["args"][1], ev)):
        return "looks for another event variable: %s" % [show(x) for x in fb[0].a["args"]]
    key = None
    if fb[0].a["hit"]:
        idx = fb[0].a["res"]
        key = [evbyte(L, st0, idx, i) for i in range(4)]
        if env.same(key[0], K(0xFF)) and env.same(key[1], K(0xFF)):
            key = None
        elif not (env.differ(key[0], K(0xFF)) or env.differ(key[1], K(0xFF)) or env.differ(concat(key[:2]), const(16, 0xFFFF)) or env.differ(concat(key[1::-1]), const(16, 0xFFFF))):
            return "the found record may be unused"
    log = [e for e in st.log if not is_out(e)]
    if key is None:
        sp = notfull(env, L, log)
        if sp is None:
            return "does not look for a free slot"
        if not sp[0]:
            if outs(st) or any(e.kind in ("swrite", "swriten", "sreset", "hashupd", "hashclr") for e, lp in walk(st.log)):
                return "table full, but something is sent or stored"
            return None
        err, key = created(L, env, log, sp[1], ev)
        if err:
            return err
    elif any(e.kind in ("swrite", "swriten", "sreset", "hashupd", "hashclr") for e, lp in walk(st.log)):
        return "storage is changed although the event exists"
    nn = concat([key[1], key[0]])
    z = zero_test(env, nn)
    if z is None:
        if zero_test(env, key[0]) or zero_test(env, key[1]):
            z = True
        elif zero_test(env, key[0]) is False and zero_test(env, key[1]) is False:
            z = False
    if z is None:
        return "long or short event undetermined"
    n = len(data)
    msg = [(LNG if z else SHT)[on][n]] + (key[:2] if z else [NNHI, NNLO]) + key[2:] + list(data)
    o = outs(st)
    if len(o) != 1 or not match_msg(env, o[0], msg):
        return "sends [%s], expected <%s>" % (", ".join(msgstr(e) for e in o), fmt(env, msg))
    return None


def P14(c):
    L = c.lib(partition=True)
    ev = atom("ev", 8)
    own = lambda env: env.assume(eq(OWNNN, const(16, 0xFFFF)), False)
    LNG = {1: opcodes(L, "OPC_ACON"), 0: opcodes(L, "OPC_ACOF")}
    SHT = {1: opcodes(L, "OPC_ASON"), 0: opcodes(L, "OPC_ASOF")}
    for cls in deriv(L, PROD):
        o = L.obj(cls)
        for n in range(4):
            data = [atom("x%d" % i, 8) for i in range(n)]
            f = method(L, cls, "sendEvent", 3 + n)
            for on in (0, 1):
                st = L.state()
                own(st.wenv())
                st0 = st.copy()
                c.cases += 1
                rs = L.I.call(f, [ptr(o, C64(0)), K(on, 1), ev] + data, st)
                c.paths += len(rs)
                for r, s in rs:
                    e = spec_event(L, st0, s, ev, on, data, LNG, SHT)
                    e = e or other_effects(s)
                    c.ob("%s: %s event with %d data bytes" % (cls, ("OFF", "ON")[on], n), e is None, (e or "") + (" -- " + statestr(s)[:900] if e else ""), lastloc(s) if e else "")
        # default events on the first change from uninitialised to normal
        NP = L.cfg("EE_PRODUCED_EVENTS")
        for m0 in (UNINIT, SETUP, NORMAL):
            for m1 in (UNINIT, SETUP, NORMAL):
                st = L.state()
                own(st.wenv())
                setmode(L, st, m0)
                fb = L.w.vmethod(NS + cls, "begin")
                st = fresh(L, st, cls)
                rs = L.I.call(fb, [ptr(o, C64(0))], st)
                if len(rs) != 1:
                    raise AnalysisError("start-up of %s forks" % cls)
                st = rs[0][1]
                setmode(L, st, m1)
                c.cases += 1
                for r, s in L.I.call(L.w.vmethod(NS + cls, "process"), [ptr(o, C64(0)), NULL], st):
                    c.paths += 1
                    if m0 == UNINIT and m1 == NORMAL:
                        e = defaults(L, s, NP)
                    else:
                        e = "creates events in modes %d -> %d" % (m0, m1) if writes(s) else None
                    e = e or other_effects(s) or ("sends messages" if outs(s) else None)
                    c.ob("%s: default events, mode at start %d, now %d" % (cls, m0, m1), e is None, (e or "") + (" -- " + statestr(s)[:900] if e else ""), lastloc(s) if e else "")
                    # ... and only once
                    s2 = s.copy()
                    s2.log = ()
                    for r2, s3 in L.I.call(L.w.vmethod(NS + cls, "process"), [ptr(o, C64(0)), NULL], s2):
                        w = writes(s3) or outs(s3)
                        c.ob("%s: default events only once" % cls, not w, "events are created again", lastloc(s3) if w else "")


def fresh(L, st, cls):
    """a newly constructed service object"""
    fs = [f for f in L.w.bydem.get(NS + cls + "::" + cls, []) if not f.decl and len(f.params) == 1]
    if not fs:
        raise AnalysisError("anchor lost: constructor of " + cls)
    r = L.I.call(fs[0], [ptr(L.obj(cls), C64(0))], st)
    if len(r) != 1:
        raise AnalysisError("constructor of %s forks" % cls)
    return r[0][1]


def other_effects(st):
    for e, lp in walk(st.log):
        if e.kind in ("reboot", "frame", "rxframe", "callback", "sreset", "serial") or (e.kind == "action" and not is_out(e) and not st.env.same(e.a["type"], K(IACT))):
            return "unexpected effect %r" % e
    return None


def defaults(L, st, NP):
    """events 1..NP are created, one per value"""
    if st.env.same(NP, K(0)) or st.env.lt(NP, K(1)):
        return "creates events" if writes(st) else None
    lo = [e for e in st.log if e.kind == "loop" and any(z.kind == "lookup" and z.a["fn"] == "findSpace" for z, _ in walk((e,)))]
    if len(lo) != 1:
        return "default events are not created one by one"
    if any(e.kind in ("swrite", "swriten", "hashupd") for e in st.log):
        return "storage changed outside the creation of events"
    lo = lo[0]
    for q, env, nv in lo.a["_iters"]:
        sp = notfull(env, L, q)
        if sp is None:
            return "an iteration does not look for a free slot"
        vs = [v for v, (z, s) in lo.a["vars"].items() if s in (1, -1)]
        er = None
        for v in vs:
            n = slice_(v, 0, 8)
            er, _, _ = coverage(L, st, lo, env, zext(v, 32) if v.w < 32 else v, 1, add(zext(NP, 64), C64(1)))
            if er is None:
                break
        else:
            return er or "no index of the events to create"
        if not sp[0]:
            if any(z.kind in ("swrite", "swriten", "hashupd") for z, _ in walk(q)):
                return "table full, but something is stored"
            continue
        er, key = created(L, env, [e for e in q if not is_out(e)], sp[1], n)
        if er:
            return er
    return None


# --------------------------------------------------------------- consuming
def is_handler(L, want, idx):
    def f(env, e):
        if not env.same(e.a["target"], HANDLER):
            return "calls %s" % show(e.a["target"])
        if not env.same(e.a["args"][0], idx):
            return "handler gets event index %s, expected %s" % (show(e.a["args"][0]), show(idx))
        for g, w in zip(e.a["mem"], want):
            if not env.same(g, w):
                return "handler gets a message with %s in place of %s" % (show(g), show(w))
        if len(e.a["mem"]) < len(want):
            return "handler does not get the message"
        return None
    return f


MSG = [LEN] + D


def P15(c):
    L = c.lib()
    ops = {}
    for s in ("ACON", "ACOF"):
        for n, o in enumerate(opcodes(L, "OPC_" + s)):
            ops[o] = (5 + n, NN32)
    for s in ("ARON", "AROF"):
        ops[enumval(L.w, "VlcbOpCodes", "OPC_" + s)] = (5, NN32)
    for s in ("ASON", "ASOF"):
        for n, o in enumerate(opcodes(L, "OPC_" + s)):
            ops[o] = (5 + n, const(32, 0))
    # responses to event requests may be consumed as events as well (optional)
    optional = set(opcodes(L, "OPC_ARON")[1:] + opcodes(L, "OPC_AROF")[1:] + opcodes(L, "OPC_ARSON") + opcodes(L, "OPC_ARSOF"))
    PF = enumval(L.w, "VlcbParams", "PAR_FLAGS")
    COE = enumval(L.w, "VlcbParamFlags", "PF_COE")
    coe = eq(band(param(L, L.state(), PF), K(COE)), K(0))

    class H(Ctx):
        handler = HANDLER

        def run(self, st, pa):
            st.wenv().assume(eq(HANDLER, NULL), False)
            st = hooked(L, st, self.cls, "setEventHandler", self.handler)
            self.st0 = st.copy()
            Ctx.run(self, st, pa)

    class H0(H):
        handler = NULL
    none = Expect()
    for cls in deriv(L, CONS):
        for op, (need, nn) in sorted(ops.items()):
            def want(st, op=op, nn=nn):
                lk = [e for e, lp in walk(st.log) if e.kind == "lookup" and e.a["fn"] == "findEvent"]
                if not lk:
                    return "does not look the event up"
                e = lk[-1]
                a = e.a["args"]
                if not (st.env.same(zext(a[0], 32), nn) and st.env.same(zext(a[1], 32), EN32)):
                    return "looks for event %s" % [show(x) for x in a]
                return Expect(callbacks=[is_handler(L, MSG, e.a["res"])] if e.a["hit"] else [])
            ln = list(range(need, 9))
            verify(c, H(c, L, cls, op=op, ln=ln, name="%s %02X received" % (cls, op)), want, "stored event reaches the handler")
            verify(c, H(c, L, cls, kind=OUT, op=op, ln=ln, pre=lambda env: env.assume(coe, False), name="%s %02X own, consume own events" % (cls, op)), want, "stored event reaches the handler")
            verify(c, H(c, L, cls, kind=OUT, op=op, ln=ln, pre=lambda env: env.assume(coe), name="%s %02X own" % (cls, op)), none, "own event not consumed")
            verify(c, H0(c, L, cls, op=op, ln=ln, name="%s %02X no handler" % (cls, op)), none, "no handler, no effect")
        rest = [o for o in range(256) if o not in ops and o not in optional]
        for k in (IN, OUT):
            verify(c, H(c, L, cls, kind=k, op=rest, ln=list(range(1, 9)), name="%s other messages %d" % (cls, k)), none, "other messages never reach the handler")
        for k in (CANENUM, CHMODE, RENEG, IACT, IMODE, None):
            verify(c, H(c, L, cls, kind=k, name="%s action %s" % (cls, k)), none, "other actions never reach the handler")


# ---------------------------------------------------------- event requests
def P16(c):
    L = c.lib(partition=True)
    ASRQ, AREQ = enumval(L.w, "VlcbOpCodes", "OPC_ASRQ"), enumval(L.w, "VlcbOpCodes", "OPC_AREQ")
    LNG = {1: opcodes(L, "OPC_ARON"), 0: opcodes(L, "OPC_AROF")}
    SHT = {1: opcodes(L, "OPC_ARSON"), 0: opcodes(L, "OPC_ARSOF")}

    class H(Ctx):
        handler = HANDLER

        def run(self, st, pa):
            st.wenv().assume(eq(HANDLER, NULL), False)
            o, s, y = L.w.field(NS + "Configuration", "currentMode")
            save = L.I.load(st, "Config", C64(o), s)
            st = fresh(L, st, self.cls)
            setmode(L, st, NORMAL)      # a producer that did not start uninitialised
            rs = L.I.call(L.w.vmethod(NS + self.cls, "begin"), [ptr(self.obj, C64(0))], st)
            if len(rs) != 1:
                raise AnalysisError("start-up of %s forks" % self.cls)
            st = rs[0][1]
            L.I.store(st, "Config", C64(o), s, save)
            st = hooked(L, st, self.cls, "setRequestEventHandler", self.handler)
            self.st0 = st.copy()
            Ctx.run(self, st, pa)

    class H0(H):
        handler = NULL
    none = Expect()
    for cls in deriv(L, PROD):
        def req(nn):
            def want(st):
                lk = [e for e, lp in walk(st.log) if e.kind == "lookup" and e.a["fn"] == "findEvent"]
                if not lk:
                    return "does not look the event up"
                e = lk[-1]
                a = e.a["args"]
                if not (st.env.same(zext(a[0], 32), nn) and st.env.same(zext(a[1], 32), EN32)):
                    return "looks for event %s" % [show(x) for x in a]
                cb = []
                if e.a["hit"]:
                    z = zero_test(st.env, L.I.load(st, EE, evval_addr(L, e.a["res"], K(1)), 1))
                    if z is None:
                        return "not decided by EV1 whether the event is produced here"
                    if z:
                        cb = [is_handler(L, MSG, e.a["res"])]
                return Expect(callbacks=cb)
            return want
        ln = list(range(5, 9))
        nz = lambda env: env.assume(eq(MSGNN, const(16, 0)), False)
        z = lambda env: env.assume(eq(MSGNN, const(16, 0)))
        verify(c, H(c, L, cls, op=AREQ, ln=ln, name=cls + " AREQ"), req(NN32), "request for a produced event reaches the handler")
        verify(c, H(c, L, cls, op=ASRQ, ln=ln, nn="own", name=cls + " ASRQ own NN"), req(const(32, 0)), "request for a produced short event reaches the handler")
        verify(c, H(c, L, cls, op=ASRQ, ln=ln, pre=z, name=cls + " ASRQ NN 0"), req(const(32, 0)), "request for a produced short event reaches the handler")
        verify(c, H(c, L, cls, op=ASRQ, ln=ln, nn="other", pre=nz, name=cls + " ASRQ other NN"), none, "request to another node ignored")
        for op in (ASRQ, AREQ):
            verify(c, H0(c, L, cls, op=op, ln=ln, name="%s %02X no handler" % (cls, op)), none, "no handler, no effect")
        rest = [o for o in range(256) if o not in (ASRQ, AREQ)]
        verify(c, H(c, L, cls, op=rest, ln=list(range(1, 9)), name=cls + " other messages"), none, "other messages never reach the handler")
        for k in (OUT, CANENUM, CHMODE, RENEG, IACT, IMODE, None):
            verify(c, H(c, L, cls, kind=k, name="%s action %s" % (cls, k)), none, "other actions never reach the handler")
        # responses
        o = L.obj(cls)
        idx = atom("index", 8)
        for n in range(4):
            data = [atom("x%d" % i, 8) for i in range(n)]
            f = method(L, cls, "sendEventResponse", 3 + n)
            for on in (0, 1):
                st = L.state()
                st.wenv().assume(ult(idx, L.cfg("EE_MAX_EVENTS")))
                st0 = st.copy()
                c.cases += 1
                rs = L.I.call(f, [ptr(o, C64(0)), K(on, 1), idx] + data, st)
                c.paths += len(rs)
                for r, s in rs:
                    env = s.env
                    key = [evbyte(L, st0, idx, i) for i in range(4)]
                    zt = [zero_test(env, k) for k in key[:2]]
                    nz_ = True if True in zt or zero_test(env, concat(key[1::-1])) else False if zt == [False, False] or zero_test(env, concat(key[1::-1])) is False else None
                    if nz_ is None:
                        e = "long or short event undetermined"
                    else:
                        msg = [(LNG if nz_ else SHT)[on][n]] + (key[:2] if nz_ else [NNHI, NNLO]) + key[2:] + data
                        e = check_msgs(c, L, s, [msg])
                    e = e or other_effects(s) or ("changes storage" if writes(s) else None)
                    c.ob("%s: %s response with %d data bytes" % (cls, ("OFF", "ON")[on], n), e is None, (e or "") + (" -- " + statestr(s)[:900] if e else ""), lastloc(s) if e else "")


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
