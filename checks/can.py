"""CAN service: frame translation and CAN id enumeration."""
from common import *
from events import deriv

RXLEN, RXCAN, RXEXT, RXRTR = atom("rx.len", 8), atom("rx.can", 7), atom("rx.ext", 1), atom("rx.rtr", 1)
RXD = [atom("rx.d%d" % i, 8) for i in range(8)]
PRIO = 0xB
NNACK = 0x52


class Can:
    """one CAN service object, driven through its public entry"""

    def __init__(self, c, L, cls):
        self.c, self.L, self.cls = c, L, cls
        self.rx = False
        L.w.virt[NS + "Transport::available"] = self.avail
        L.w.virt[NS + "CanTransport::available"] = self.avail
        self.tick = 0
        L.w.hooks["millis"] = self.clock
        self.base = construct(L, L.state(), cls, [transport(L)])
        self.obj = L.obj(cls)
        self.f = L.w.vmethod(NS + cls, "process")
        if self.f is None:
            raise AnalysisError("anchor lost: process() of " + cls)
        o, s, y = cfg_field(L, "CANID")
        self.cid = (o, s)

    def avail(self, I, st, fr, ins, args, obj):
        n = sum(1 for e, lp in walk(st.log) if e.kind == "rxframe")
        return [(const(1, 1 if self.rx and not n else 0), st)]

    def now(self, k=None):
        return atom(("now", self.tick if k is None else k), 64)

    def clock(self, I, st, fr, ins, args, fn):
        """one step is taken to happen at one point in time"""
        w = self.L.w.types and I.tybits(ins["ty"])
        return [(slice_(self.now(), 0, w), st)]

    def own(self, st):
        return self.L.I.load(st, "Config", C64(self.cid[0]), self.cid[1])

    def step(self, st, pa=None, rx=False, pre=None, later=True):
        st = st.copy()
        st.log = ()
        self.tick += later
        if pre:
            pre(st.wenv())
            if st.env.dead:
                raise AnalysisError("empty context of %s::process" % self.cls)
        self.rx = rx
        self.c.cases += 1
        r = [s for _, s in self.L.I.call(self.f, [ptr(self.obj, C64(0)), NULL if pa is None else pa(st)], st)]
        self.rx = False
        if not r:
            raise AnalysisError("no outcome of %s::process" % self.cls)
        self.c.paths += len(r)
        return r

    def header(self, env, t, st):
        """t is the id of a standard frame of this module"""
        return env.same(t, zext(concat([slice_(self.own(st), 0, 7), const(4, PRIO)]), 32))

    def frame(self, st, e, rtr, n, data=()):
        """None when e is the frame (rtr, length n, bytes) with the module's own id"""
        env = st.env
        z = lambda t: env.norm(slice_(t, 0, 8))
        if not self.header(env, e.a["id"], self.cur if self.cur is not None else st):
            return "frame id is %s at %s" % (show(env.norm(e.a["id"])), e.loc)
        if not env.same(z(e.a["ext"]), K(0)):
            return "frame is extended or undetermined (%s) at %s" % (show(e.a["ext"]), e.loc)
        if not env.same(z(e.a["rtr"]), K(1 if rtr else 0)):
            return "frame RTR bit is %s at %s" % (show(e.a["rtr"]), e.loc)
        if not env.same(e.a["len"], n if isinstance(n, T) else K(n)):
            return "frame length is %s, expected %s at %s" % (show(e.a["len"]), n if not isinstance(n, T) else show(n), e.loc)
        for i, x in enumerate(data):
            if not env.same(e.a["data"][i], x):
                return "frame byte %d is %s, expected %s at %s" % (i, show(e.a["data"][i]), show(x), e.loc)
        return None

    cur = None

    def effects(self, st0, st, frames=(), msgs=None, outs_=(), cfg=()):
        """None when the step from st0 to st does exactly this (activity indications aside)"""
        L, env = self.L, st.env
        fs = [e for e, lp in walk(st.log) if e.kind == "frame"]
        if len(fs) != len(frames):
            return "sends %d frame(s), expected %d%s" % (len(fs), len(frames), " (at %s)" % fs[-1].loc if fs else "")
        self.cur = st0
        for e, a in zip(fs, frames):
            r = self.frame(st, e, *a)
            if r:
                return r
        ins = [e for e, lp in walk(st.log) if e.kind == "action" and env.same(e.a["type"], K(IN))]
        oth = [e for e, lp in walk(st.log) if e.kind == "action" and not env.same(e.a["type"], K(IN)) and not env.same(e.a["type"], K(IACT))]
        if msgs is not None:
            if len(ins) != len(msgs):
                return "passes on %d message(s), expected %d%s" % (len(ins), len(msgs), " (at %s)" % ins[-1].loc if ins else "")
            for e, (n, data) in zip(ins, msgs):
                if not env.same(e.a["len"], n if isinstance(n, T) else K(n)):
                    return "message length is %s, expected %s at %s" % (show(e.a["len"]), n if not isinstance(n, T) else show(n), e.loc)
                for i, x in enumerate(data):
                    if not env.same(e.a["data"][i], x):
                        return "message byte %d is %s, expected %s at %s" % (i, show(e.a["data"][i]), show(x), e.loc)
        if len(oth) != len(outs_):
            return "queues %d other action(s), expected %d%s" % (len(oth), len(outs_), " (at %s)" % oth[-1].loc if oth else "")
        for e, m in zip(oth, outs_):
            if not match_msg(env, e, m):
                return "sends %s at %s, expected <%s>" % (msgstr(e), e.loc, fmt(env, m))
        for e, lp in walk(st.log):
            if e.kind in ("swriten", "sreset", "reboot", "callback", "hashupd", "hashclr") or e.kind == "swrite" and not cfg:
                return "unexpected %r" % e
        ch = changed(L, st0, st, "Config")
        for o, s, v in ch:
            if not cfg or o != self.cid[0]:
                return "module setting at offset %s changes" % o
        ch = changed(L, st0, st, paramsobj(L))
        if ch:
            return "module parameters change"
        return None

    def enumerating(self, st):
        """True/False/None: a further start request is ignored in this state"""
        r = self.step(st, self.start(0), later=False)
        k = {len([e for e, lp in walk(s.log) if e.kind == "frame"]) for s in r}
        return {frozenset([0]): True, frozenset([1]): False}.get(frozenset(k))

    def start(self, fromenum):
        def pa(st):
            p = self.L.action(st, "START_CAN_ENUMERATION", name="start%d" % fromenum)
            o, f = self.L.I.deref(st, p)
            self.L.I.store(st, o, add(f, C64(1)), 1, K(fromenum))
            return p
        return pa

    def msg(self, kind, **k):
        return lambda st: self.L.action(st, kind, **k)


def say(c, name, r, st):
    c.ob(name, r is None, (r or "") + " -- " + (statestr(st)[:700] if r else ""), lastloc(st) if r else "")


def active(st):
    n = [e for e, lp in walk(st.log) if e.kind == "action" and st.env.same(e.a["type"], K(IACT))]
    return None if n else "no activity is indicated"


def P24(c):
    L = c.lib()
    for cls in deriv(L, "CanService"):
        s = Can(c, L, cls)
        S = s.base
        T_ = lambda st: (K(0), ())
        # nothing to do
        for st in s.step(S):
            say(c, cls + ": nothing to do", s.effects(S, st, msgs=[]), st)
        # sending
        for n in range(0, 9):
            for st in s.step(S, s.msg("MESSAGE_OUT", length=n)):
                say(c, "%s: sends a message of %d bytes" % (cls, n), s.effects(S, st, [(False, n, D[:n])], msgs=[]), st)
                say(c, "%s: sending is indicated" % cls, active(st), st)
        for k in ("CHANGE_MODE", "RENEGOTIATE", "INDICATE_ACTIVITY", "INDICATE_MODE"):
            for st in s.step(S, s.msg(k)):
                say(c, "%s: action %s" % (cls, k), s.effects(S, st, msgs=[]), st)
        # receiving
        bit = lambda a, v: (lambda e: e.assume(eq(a, const(a.w, v))))
        both = lambda *f: (lambda e: [g(e) for g in f] and None)
        for st in s.step(S, rx=True, pre=bit(RXEXT, 1)):
            say(c, cls + ": extended frame ignored", s.effects(S, st, msgs=[]), st)
            say(c, cls + ": extended frame does not start an enumeration", None if s.enumerating(st) is False else "enumeration started", st)
        for st in s.step(S, rx=True, pre=both(bit(RXEXT, 0), bit(RXRTR, 1))):
            say(c, cls + ": RTR answered with an empty frame", s.effects(S, st, [(False, 0)], msgs=[]), st)
            say(c, cls + ": RTR frame does not start an enumeration", None if s.enumerating(st) is False else "enumeration started", st)
        data = both(bit(RXEXT, 0), bit(RXRTR, 0))
        mine = eq(zext(RXCAN, 8), slice_(s.own(S), 0, 8))
        for n in range(0, 9):
            p = both(data, bit(RXLEN, n))
            for st in s.step(S, rx=True, pre=both(p, lambda e: e.assume(mine, False))):
                r = None
                if n == 0:
                    r = s.effects(S, st, msgs=[])
                    r = s.effects(S, st, msgs=[(0, ())]) if r else None
                else:
                    r = s.effects(S, st, msgs=[(n, RXD[:n])])
                    say(c, "%s: receiving is indicated" % cls, active(st), st)
                say(c, "%s: received frame of %d bytes is passed on" % (cls, n), r, st)
                say(c, "%s: frame of another CAN id starts no enumeration" % cls, None if s.enumerating(st) is False else "enumeration started", st)
            for st in s.step(S, rx=True, pre=both(p, lambda e: e.assume(mine))):
                if n == 0:
                    r = s.effects(S, st, msgs=[]) and s.effects(S, st, msgs=[(0, ())])
                    say(c, "%s: empty frame with our CAN id" % cls, r, st)
                    say(c, "%s: empty frame starts no enumeration" % cls, None if s.enumerating(st) is False else "enumeration started", st)
                else:
                    r = s.effects(S, st, [(True, 0)], msgs=[(n, RXD[:n])])
                    if r:       # the enumeration may also start with the next step
                        r = s.effects(S, st, [], msgs=[(n, RXD[:n])])
                        if r is None:
                            for st2 in s.step(st):
                                r = r or s.effects(st, st2, [(True, 0)], msgs=[])
                    say(c, "%s: CAN id clash on %d bytes: enumeration started, message passed on" % (cls, n), r, st)
        # a frame and an action in the same step
        for st in s.step(S, s.msg("MESSAGE_OUT", length=5), rx=True, pre=both(data, bit(RXLEN, 3), lambda e: e.assume(mine, False))):
            say(c, "%s: sends and receives in one step" % cls, s.effects(S, st, [(False, 5, D[:5])], msgs=[(3, RXD[:3])]), st)
        # while enumerating
        for fe in (0, 1):
            for E in s.step(S, s.start(fe)):
                say(c, "%s: enumeration starts with an RTR frame" % cls, s.effects(S, E, [(True, 0)], msgs=[]), E)
                E.log = ()
                for n in range(1, 9):
                    for m in (False, True):
                        for st in s.step(E, rx=True, pre=both(data, bit(RXLEN, n), lambda e: e.assume(mine, m))):
                            e = [x for x in walk(st.log) if x[0].kind == "action" and st.env.same(x[0].a["type"], K(IN))]
                            ok = len(e) == 1 and st.env.same(e[0][0].a["len"], K(n)) and all(st.env.same(a, b) for a, b in zip(e[0][0].a["data"][:n], RXD))
                            c.ob("%s: messages are still received while enumerating (%d bytes)" % (cls, n), ok, statestr(st)[:600], lastloc(st))
                    for st in s.step(E, s.msg("MESSAGE_OUT", length=n)):
                        fs = [x for x, lp in walk(st.log) if x.kind == "frame"]
                        s.cur = E
                        r = "sends %d frames" % len(fs) if len(fs) != 1 else s.frame(st, fs[0], False, n, D[:n])
                        if r and len(fs) == 1:
                            s.cur = st      # the new id may be in use already
                            r = s.frame(st, fs[0], False, n, D[:n])
                        say(c, "%s: messages are still sent while enumerating (%d bytes)" % (cls, n), r, st)
                for st in s.step(E, rx=True, pre=both(bit(RXEXT, 0), bit(RXRTR, 1))):
                    fs = [x for x, lp in walk(st.log) if x.kind == "frame"]
                    s.cur = E
                    r = "sends %d frames" % len(fs) if len(fs) != 1 else s.frame(st, fs[0], False, 0)
                    say(c, "%s: RTR answered while enumerating" % cls, r, st)


def bitv(x, v):
    """value of term x when its only atom has value v"""
    a = [y for y in support(x) if y.op == "a"]
    return subst(x, {y: K(v, y.w) for y in a})


def freeids(c, L, cls, s, E, fe):
    """the id chosen at the end of the enumeration, for every set of ids in use"""
    # how a response is recorded: id -> (cell, old atom -> new value)
    both = lambda e: (e.assume(eq(RXEXT, const(1, 0))), e.assume(eq(RXRTR, const(1, 0))), e.assume(eq(RXLEN, K(0))), e.assume(ult(sub(s.now(), s.t0), const(64, 100))))
    H = E.copy()
    rec = {}        # id -> (offset, size) of the record a response changes

    def respond(base, k):
        return s.step(base, rx=True, pre=lambda e: (both(e), e.assume(eq(RXCAN, const(7, k)))))
    touched = {}
    for k in range(0, 128):
        for st in respond(E, k):
            ch = [x for x in changed(L, E, st, s.obj)]
            say(c, "%s: response of CAN id %d is not a message" % (cls, k), s.effects(E, st, msgs=[]), st)
            if k == 0:
                c.ob("%s: response with CAN id 0 is not counted" % cls, True)
                continue
            if len(ch) != 1 or ch[0][0] is None:
                c.ob("%s: response of CAN id %d is recorded" % (cls, k), False, "%d cells change" % len(ch), lastloc(st))
                return
            touched.setdefault(ch[0][0], ch[0][1])
            if k in rec and rec[k][0] != ch[0][0]:
                c.ob("%s: response of CAN id %d is recorded in one place" % (cls, k), False, "two places", lastloc(st))
                return
            rec[k] = (ch[0][0], ch[0][1], ch[0][2])
    A = {}
    for o, n in touched.items():
        A[o] = atom(("resp", o), 8 * n)
        L.I.store(H, s.obj, C64(o), n, A[o])
    fun = {}
    for k in range(1, 128):
        for st in respond(H, k):
            o, n, _ = rec[k]
            v = L.I.load(st, s.obj, C64(o), n)
            bad = [x for x in changed(L, H, st, s.obj) if x[0] != o]
            others = [a for a in support(v) if a is not A[o]]
            c.ob("%s: response of CAN id %d changes only its own mark" % (cls, k), not bad and not others, show(v), lastloc(st))
            if k in fun and fun[k] is not v:
                c.ob("%s: response of CAN id %d is recorded the same way always" % (cls, k), st.env.same(fun[k], v), show(v), lastloc(st))
            fun[k] = v
    # reachable contents of each cell, and which ids they stand for
    incell = {}
    for k in fun:
        incell.setdefault(rec[k][0], []).append(k)
    reach = {}
    for o, ks in incell.items():
        if rec[ks[0]][1] != 1:
            raise AnalysisError("responses are not kept in bytes")
        ap = {k: [bitv(fun[k], v) for v in range(256)] for k in ks}
        if any(x.op != "c" for k in ks for x in ap[k]):
            raise AnalysisError("recorded responses are not a function of the previous record")
        tab = {0: frozenset()}
        z = L.I.load(E, s.obj, C64(o), 1)
        c.ob("%s: the enumeration starts without recorded responses" % cls, E.env.same(z, K(0)), show(z), lastloc(E))
        todo = [0]
        while todo:
            v = todo.pop()
            for k in ks:
                n = ap[k][v].a
                want = tab[v] | {k}
                if n not in tab:
                    tab[n] = want
                    todo.append(n)
                elif tab[n] != want:
                    c.ob("%s: responses of CAN ids %s are told apart" % (cls, sorted(want ^ tab[n])), False, "the same record %02X stands for different ids" % n, lastloc(E))
                    return
        reach[o] = tab
    # selection
    for free in list(range(1, 128)) + [None]:
        def pre(e, st=None):
            for o, tab in reach.items():
                L.setvals(e, A[o], [v for v, ids in tab.items()
                                    if all(k in ids for k in incell[o] if free is None or k < free) and (free is None or free not in ids)])
        done = 0
        for st in s.step(H, pre=lambda e: (pre(e), e.assume(ult(sub(s.now(), s.t0), const(64, 100)), False))):
            id_ = s.own(st)
            if free is None:
                ok = all(v and v < 128 for v in opvals8(st.env, id_))
            else:
                ok = st.env.same(id_, K(free, id_.w))
            done += 1
            c.ob("%s: lowest free CAN id is taken when %s" % (cls, "all are in use" if free is None else "1..%d are in use" % (free - 1)), ok,
                 "CAN id becomes %s" % show(st.env.norm(id_)) + statestr(st)[:300], lastloc(st))
            cv = persistent(st, C64(1), L)
            c.ob("%s: the CAN id taken is stored" % cls, st.env.same(zext(cv, id_.w), id_), "storage has %s" % show(cv), lastloc(st))
            ws = {show(e.a["addr"]) for e, lp in walk(st.log) if e.kind == "swrite"}
            c.ob("%s: nothing but the CAN id is stored" % cls, ws <= {"1"} or all(st.env.same(e.a["addr"], C64(1)) for e, lp in walk(st.log) if e.kind == "swrite"), str(ws), lastloc(st))
            say(c, "%s: enumeration %s ends %s" % (cls, "by request" if fe else "by itself", "acknowledged" if fe else "silently"),
                s.effects(H, st, msgs=[], outs_=[[NNACK, NNHI, NNLO]] if fe else [], cfg=True), st)
            if free in (1, 9, None):
                c.ob("%s: the enumeration is over" % cls, s.enumerating(st) is False, "a new one cannot be started", lastloc(st))
                for st2 in s.step(st):
                    say(c, "%s: nothing follows the enumeration" % cls, s.effects(st, st2, msgs=[]), st2)
                for f2 in (0, 1):
                    for E2 in s.step(st, s.start(f2)):
                        bad = [o for o in A if not E2.env.same(L.I.load(E2, s.obj, C64(o), 1), K(0))]
                        c.ob("%s: a new enumeration forgets earlier responses" % cls, not bad, "record bytes %s are not cleared" % bad[:4], lastloc(E2))
                        t0 = s.now()
                        for st3 in s.step(E2, pre=lambda e: e.assume(ult(sub(s.now(), t0), const(64, 100)), False)):
                            r = s.effects(E2, st3, msgs=[], outs_=[[NNACK, NNHI, NNLO]] if f2 else [], cfg=True)
                            say(c, "%s: next enumeration, %s, ends %s" % (cls, "by request" if f2 else "by itself", "acknowledged" if f2 else "silently"), r, st3)
                            c.ob("%s: next enumeration takes the lowest id" % cls, st3.env.same(s.own(st3), K(1, 8 * s.cid[1])), show(s.own(st3)), lastloc(st3))
    for st in s.step(H, pre=lambda e: e.assume(ult(sub(s.now(), s.t0), const(64, 100)))):
        say(c, "%s: enumeration goes on for 100 ms" % cls, s.effects(H, st, msgs=[]), st)
        c.ob("%s: still enumerating before 100 ms" % cls, s.enumerating(st) is True and not changed(L, H, st, s.obj), "", lastloc(st))


def opvals8(env, t):
    t = env.norm(t)
    if t.op == "c":
        return [t.a]
    return [v for v in range(1 << min(t.w, 8)) if env.decide(eq(t, K(v, t.w))) is not False]


def P23(c):
    L = c.lib(partition=True)
    CANID, ENUM = enumval(L.w, "VlcbOpCodes", "OPC_CANID"), enumval(L.w, "VlcbOpCodes", "OPC_ENUM")
    INV, OK = enumval(L.w, "VlcbCmdErrs", "CMDERR_INV_EN_IDX"), enumval(L.w, "VlcbGrspCodes", "GRSP_OK")
    for cls in deriv(L, "CanService"):
        s = Can(c, L, cls)
        S = s.base
        sid = svc_id(L, cls)
        for fe in (0, 1):
            Es = s.step(S, s.start(fe))
            s.t0 = s.now()
            for E in Es:
                say(c, "%s: enumeration starts with an RTR frame" % cls, s.effects(S, E, [(True, 0)], msgs=[]), E)
                E.log = ()
                k = s.tick
                for st in s.step(E, s.start(1 - fe)):
                    # a second start neither restarts nor changes the running one
                    r = s.effects(E, st, msgs=[])
                    if r is None and changed(L, E, st, s.obj):
                        r = "state changes"
                    if r and not any(e.kind == "swrite" for e, lp in walk(st.log)):
                        say(c, "%s: start while enumerating is ignored" % cls, r, st)
                freeids(c, L, cls, s, E, fe)
        # an enumeration because of a clash happens once and ends silently
        for st in s.step(S, rx=True, pre=lambda e: (e.assume(eq(RXEXT, const(1, 0))), e.assume(eq(RXRTR, const(1, 0))), e.assume(eq(RXLEN, K(5))), e.assume(eq(zext(RXCAN, 8), slice_(s.own(S), 0, 8))))):
            for st1 in s.step(st, later=False):
                t0 = s.now()
                for st2 in s.step(st1, pre=lambda e: e.assume(ult(sub(s.now(), t0), const(64, 100)), False)):
                    say(c, "%s: enumeration after a clash ends silently" % cls, s.effects(st1, st2, msgs=[], cfg=True), st2)
                    for st3 in s.step(st2):
                        say(c, "%s: one clash causes one enumeration" % cls, s.effects(st2, st3, msgs=[]), st3)
                    t1 = None
                    for st3 in s.step(st2, s.start(1)):
                        t1 = s.now()
                        for st4 in s.step(st3, pre=lambda e: e.assume(ult(sub(s.now(), t1), const(64, 100)), False)):
                            say(c, "%s: enumeration by request after a clash" % cls, s.effects(st3, st4, msgs=[], outs_=[[NNACK, NNHI, NNLO]], cfg=True), st4)
        # requests
        for st in s.step(S, s.msg("MESSAGE_IN", opcodes=ENUM, length=list(range(3, 9)), nn="own")):
            say(c, "%s: ENUM starts an enumeration" % cls, s.effects(S, st, [(True, 0)], msgs=[]), st)
            st.log = ()
            s.t0 = s.now()
            for st2 in s.step(st, pre=lambda e: e.assume(ult(sub(s.now(), s.t0), const(64, 100)), False)):
                say(c, "%s: ENUM is acknowledged at the end" % cls, s.effects(st, st2, msgs=[], outs_=[[NNACK, NNHI, NNLO]], cfg=True), st2)
        for v, good in ((list(range(1, 100)), True), ([0] + list(range(100, 256)), False)):
            pa = s.msg("MESSAGE_IN", opcodes=CANID, length=list(range(4, 9)), nn="own")
            for st in s.step(S, pa, pre=lambda e: L.setvals(e, D[3], v)):
                if good:
                    r = s.effects(S, st, msgs=[], outs_=[WRACK, grsp(CANID, sid, OK)], cfg=True)
                    r = r or (None if st.env.same(s.own(st), zext(D[3], 8 * s.cid[1])) and st.env.same(persistent(st, C64(1), L), D[3]) else "CAN id becomes %s, stored %s" % (show(s.own(st)), show(persistent(st, C64(1), L))))
                    r = r or (None if all(st.env.same(e.a["addr"], C64(1)) for e, lp in walk(st.log) if e.kind == "swrite") else "stores something else")
                else:
                    r = s.effects(S, st, msgs=[], outs_=[cmderr(INV), grsp(CANID, sid, INV)])
                say(c, "%s: CANID request with a %s id" % (cls, "valid" if good else "invalid"), r, st)
                c.ob("%s: CANID request starts no enumeration" % cls, s.enumerating(st) is False, "", lastloc(st))
        for op in range(256):
            for nn in ("own", "other"):
                if op in (CANID, ENUM) and nn == "own":
                    continue
                for st in s.step(S, s.msg("MESSAGE_IN", opcodes=op, nn=nn)):
                    say(c, "%s: %02X for %s node" % (cls, op, nn), s.effects(S, st, msgs=[]), st)
                    if changed(L, S, st, s.obj):
                        say(c, "%s: %02X for %s node" % (cls, op, nn), "service state changes", st)


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
