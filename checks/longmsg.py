"""Long messages: sending (P26) and receiving (P27), basic and extended service."""
from common import *
from events import deriv, method, HANDLER

DTXC = 0xE9
INCOMPLETE, COMPLETE, SEQERR, TIMEOUT, CRCERR, TRUNC = range(6)
DELAY, TMO = atom("user.delay", 8), atom("user.timeout", 32)
SIDS = [atom("user.sid%d" % i, 8) for i in range(3)]


def data(i):
    return (i * 7 + 3) & 255


def crc_ref(bs):
    """the X.25 frame check sequence, bytes swapped"""
    if not bs:
        return 0
    crc = 0xFFFF
    for b in bs:
        for i in range(8):
            crc = (crc >> 1) ^ 0x8408 if (crc ^ (b >> i)) & 1 else crc >> 1
    crc = ~crc & 0xFFFF
    return (crc << 8 | crc >> 8) & 0xFFFF


class LM:
    def __init__(self, c, L, cls, nr=2, blen=32, ns=2, delay=DELAY, timeout=TMO):
        self.c, self.L, self.cls = c, L, cls
        self.ex = L.w.is_a(NS + cls, NS + "LongMessageServiceEx")
        self.tick, self.times = 0, None
        self.ns = ns if self.ex else 1
        self.blen = blen
        L.w.hooks["millis"] = self.clock
        self.obj = L.obj(cls)
        st = construct(L, L.state(), cls)
        self.st = st
        st.wenv().assume(eq(DELAY, K(0)), False)
        st.wenv().assume(eq(TMO, const(32, 0)), False)
        self.call1("setDelay", 2, [delay])
        self.call1("setTimeout", 2, [timeout])
        if self.ex:
            r = [(v, s) for v, s in self.call("allocateContexts", 4, [K(nr), const(32, blen), K(ns)], self.st)]
            r = [s for v, s in r if truth(s.env, v) is True]
            if len(r) != 1:
                raise AnalysisError("allocateContexts does not succeed")
            self.st = r[0]
        self.st.log = ()
        for n, g in L.w.globals.items():       # function-level state starts as initialised
            if not g["const"] and "init" in g and n.startswith("_ZZ") and "LongMessage" in n:
                L.I.store(self.st, L.I.gobj(n), C64(0), g["size"], L.I.ginit(g, 0, g["size"]))
        # identifiers of the subscribed streams
        for i, s in enumerate(SIDS):
            L.I.store(self.st, "ids", C64(i), 1, s)
            for q in SIDS[:i]:
                self.st.wenv().assume(eq(s, q), False)
        L.w.osize["ids"] = 3
        L.w.osize["rbuf"] = blen

    def now(self):
        return const(64, self.times(self.tick)) if self.times else atom(("now", self.tick), 64)

    def clock(self, I, st, fr, ins, args, fn):
        return [(slice_(self.now(), 0, I.tybits(ins["ty"])), st)]

    def call(self, name, nargs, args, st):
        st = st.copy()
        st.log = ()
        self.c.cases += 1
        r = self.L.I.call(method(self.L, self.cls, name, nargs), [ptr(self.obj, C64(0))] + args, st)
        if not r:
            raise AnalysisError("no outcome of %s::%s" % (self.cls, name))
        self.c.paths += len(r)
        return r

    def call1(self, name, nargs, args):
        r = self.call(name, nargs, args, self.st)
        if len(r) != 1:
            raise AnalysisError("%s::%s is not a plain setter" % (self.cls, name))
        self.st = r[0][1]
        self.st.log = ()

    def say(self, name, r, st):
        self.c.ob("%s: %s" % (self.cls, name), r is None, "%s -- %s" % (r, statestr(st)[:500]) if r else "", lastloc(st) if r else "")
        return r is None

    # ------------------------------------------------------------- sending
    def msgbytes(self, st, name, n, vals=None):
        self.L.w.osize[name] = n
        for i in range(n):
            self.L.I.store(st, name, C64(i), 1, K(vals[i]) if vals is not None else atom(("msgbyte", name, i), 8))
        return [self.L.I.load(st, name, C64(i), 1) for i in range(n)]

    def send(self, st, name, n, sid):
        """[(accepted, state)]"""
        self.tick += 1
        return [(truth(s.env, v), s) for v, s in
                self.call("sendLongMessage", 4, [ptr(name, C64(0)), n if isinstance(n, T) else const(32, n), sid], st)]

    def round(self, st, pre=None):
        """every stream gets one opportunity to send; all at one time"""
        self.tick += 1
        st = st.copy()
        if pre:
            pre(st.wenv())
            if st.env.dead:
                raise AnalysisError("empty context of %s::process" % self.cls)
        sts = [(st, ())]
        for i in range(self.ns):
            nx = []
            for s, lg in sts:
                for v, q in self.call("process", 1, [], s):
                    nx.append((q, lg + q.log))
            sts = nx
        out = []
        for s, lg in sts:
            s.log = lg
            out.append(s)
        return out

    def elapsed(self, last, yes=True, lim=DELAY):
        t = self.nextnow()
        return lambda env: env.assume(ult(sub(t, last), zext(lim, 64)), not yes)

    def nextnow(self):
        self.tick += 1
        t = self.now()
        self.tick -= 1
        return t

    def header(self, n, sid, crc=0):
        n = const(32, n) if not isinstance(n, T) else n
        crc = const(16, crc)
        return [DTXC, sid, 0, slice_(n, 8, 8), slice_(n, 0, 8), slice_(crc, 8, 8), slice_(crc, 0, 8), 0]

    def frag(self, sid, seq, bs):
        return [DTXC, sid, seq] + list(bs) + [0] * (5 - len(bs))

    def effects(self, st, msgs):
        """None when exactly these messages are sent (in any order), nothing else happens"""
        env = st.env
        mem = sorted(x for x in st.alarms if x[0] in ("oob", "null"))
        if mem:
            return "memory outside the contexts is touched: %s at %s" % (mem[0][2], mem[0][1])
        acts_ = [e for e, lp in walk(st.log) if e.kind == "action"]
        bad = [e for e, lp in walk(st.log) if e.kind in ("swrite", "swriten", "sreset", "frame", "callback", "reboot")]
        if bad:
            return "unexpected %r" % bad[0]
        left = list(msgs)
        for e in acts_:
            for m in left:
                if match_msg(env, e, m):
                    left.remove(m)
                    break
            else:
                return "sends %s at %s, expected %s" % (msgstr(e), e.loc, " ".join("<%s>" % fmt(env, m) for m in left) or "nothing")
        if left:
            return "does not send <%s>" % fmt(env, left[0])
        return None

    def sending(self, st):
        """number of streams in progress as told to the user (1/0 for the basic service)"""
        r = {truth(s.env, v) for v, s in self.call("is_sending", 1, [], st)}
        return r.pop() if len(r) == 1 else None


def truth(env, t):
    t = env.norm(t)
    z = env.decide(eq(t, const(t.w, 0)))
    return None if z is None else not z


def sendhist(c, L, cls, n, sym=True, vals=None, crc=None, again=True):
    """the whole life of one message of n bytes, and the start of the next"""
    s = LM(c, L, cls, **({} if sym else dict(delay=K(5))))
    if not sym:
        s.times = lambda k: 1000 + 10 * k
    tag = "message of %d bytes" % n
    S = s.st
    if crc is not None:
        s.call1("use_crc", 2, [const(1, 1)])
        S = s.st
        tag += ", CRC"
    bs = s.msgbytes(S, "msg", n, vals)
    work = [(S, bs, 1)]
    r = s.send(S, "msg", n, SIDS[0])
    nxt = []
    for ok, st in r:
        s.say("%s accepted" % tag, None if ok is True else "the message is refused", st)
        s.say("header of a %s" % tag, s.effects(st, [s.header(n, SIDS[0], crc or 0)]), st)
        if s.ex:
            for i in range(n):      # the caller may reuse its memory
                L.I.store(st, "msg", C64(i), 1, atom(("reused", i), 8))
        nxt.append(st)
    last = s.now()
    s.lastt = s.tick
    pos, seq, first = 0, 1, True
    while pos < n:
        k = min(5, n - pos)
        deep = pos < 15 or pos + 10 >= n
        if deep:
            for st in nxt:
                s.say("%s in progress is reported" % tag, None if s.sending(st) is True else "is_sending() is not true after %d bytes" % pos, st)
                for ok, q in s.send(st, "msg", n, SIDS[0]):
                    s.say("second message refused while a %s is being sent" % tag, "a second message on the stream is accepted" if ok is not False else s.effects(q, []), q)
                    if ok is False:
                        st = q
        if sym and deep and not (first and not s.ex):
            out = []
            for st in nxt:
                for q in s.round(st, s.elapsed(last, False)):
                    s.say("%s: waits between fragments" % tag, s.effects(q, []), q)
                    out.append(q)
            nxt = out
        elif not sym and deep and not (first and not s.ex):
            keep, s.times = s.times, (lambda f, t: lambda k: f(t) + 4)(s.times, s.lastt)
            out = []
            for st in nxt:
                for q in s.round(st):
                    s.say("%s: waits between fragments" % tag, s.effects(q, []), q)
                    out.append(q)
            s.times = keep
            nxt = out
        out = []
        for st in nxt:
            anysent = False
            for q in s.round(st, s.elapsed(last) if sym and not (first and not s.ex) else None):
                if first and not s.ex and s.effects(q, []) is None:
                    continue        # the time of an earlier message may still hold back the first fragment
                anysent = True
                s.say("%s: fragment %d" % (tag, seq), s.effects(q, [s.frag(SIDS[0], seq & 255, bs[pos:pos + k])]), q)
                out.append(q)
            if not anysent:
                s.say("%s: fragment %d" % (tag, seq), "nothing is sent", st)
        last = s.now()
        s.lastt = s.tick
        first = False
        nxt = out[:4]
        pos += k
        seq += 1
        if not nxt or c.failed():
            return
    for st in nxt:
        if n:
            s.say("end of a %s" % tag, None if s.sending(st) is False else "is_sending() is still true", st)
        else:
            for q in s.round(st, s.elapsed(last) if sym else None)[:1]:
                st = q
            s.say("end of a %s" % tag, None if s.sending(st) is False else "is_sending() is still true", st)
            last = s.now()
        for q in s.round(st, s.elapsed(last) if sym else None):
            s.say("nothing follows a %s" % tag, s.effects(q, []), q)
            # the next message starts from its first byte
            bs2 = s.msgbytes(q, "msg2", 6)
            for ok, z in s.send(q, "msg2", 6, SIDS[1]):
                s.say("message after a %s accepted" % tag, None if ok is True else "the message is refused", z)
                if crc is None:
                    s.say("header of the message after a %s" % tag, s.effects(z, [s.header(6, SIDS[1])]), z)
                last2 = s.now()
                zs = [z]
                for i, part in ((1, bs2[:5]), (2, bs2[5:])):
                    lim = last2 if s.ex or i == 2 else last
                    zz = []
                    for z1 in zs:
                        for y in s.round(z1, s.elapsed(lim) if sym else None):
                            if i == 1 and not s.ex and n == 0 and s.effects(y, []) is None:
                                continue
                            s.say("fragment %d of the message after a %s" % (i, tag), s.effects(y, [s.frag(SIDS[1], i, part)]), y)
                            zz.append(y)
                    last2 = s.now()
                    zs = zz


def sendtwo(c, L, cls):
    """extended service: concurrent messages are independent; no context, no message"""
    for n1, n2 in ((1, 7), (7, 1), (11, 6), (5, 5), (12, 12)):
        s = LM(c, L, cls)
        S = s.st
        ms = {0: s.msgbytes(S, "m0", n1), 1: s.msgbytes(S, "m1", n2)}
        sts, lasts = [S], {}
        for i, n in ((0, n1), (1, n2)):
            out = []
            for st in sts:
                for ok, q in s.send(st, "m%d" % i, n, SIDS[i]):
                    s.say("two messages: message %d accepted" % i, None if ok is True else "refused", q)
                    s.say("two messages: header %d" % i, s.effects(q, [s.header(n, SIDS[i])]), q)
                    out.append(q)
            lasts[i] = s.now()
            sts = out
        out = []
        for st in sts:
            s.msgbytes(st, "m2", 3)
            for ok, q in s.send(st, "m2", 3, SIDS[2]):
                s.say("third message refused without a free context", "accepted" if ok is not False else s.effects(q, []), q)
                out.append(q)
        sts = out
        pos, seq = {0: 0, 1: 0}, {0: 1, 1: 1}
        while any(pos[i] < len(ms[i]) for i in ms):
            act = [i for i in ms if pos[i] < len(ms[i])]
            want = [s.frag(SIDS[i], seq[i], ms[i][pos[i]:pos[i] + 5]) for i in act]
            fs = [s.elapsed(lasts[i]) for i in act]
            out = []
            for st in sts:
                for q in s.round(st, lambda env: [f(env) for f in fs] and None):
                    s.say("two messages: next fragments", s.effects(q, want), q)
                    out.append(q)
            for i in act:
                pos[i] += 5
                seq[i] += 1
                lasts[i] = s.now()
            sts = out
            if c.failed():
                return
        for st in sts:
            s.say("two messages: both complete", None if s.sending(st) is False else "still sending", st)
            for ok, q in s.send(st, "m2", 3, SIDS[2]):
                s.say("a context is free again", None if ok is True else "refused", q)


def sendthree(c, L, cls):
    """extended service: one message per stream whichever context it uses"""
    s = LM(c, L, cls, ns=3)
    st = s.st
    for i in range(3):
        s.msgbytes(st, "m%d" % i, 6)
    for i in range(3):
        for ok, q in s.send(st, "m%d" % i, 6, SIDS[i]):
            s.say("three messages: message %d accepted" % i, None if ok is True else "refused", q)
        st = q
        for j in range(i + 1):
            for ok, q in s.send(st, "m%d" % j, 6, SIDS[j]):
                s.say("a second message on stream %d refused" % j, "accepted" if ok is not False else s.effects(q, []), q)


def memcells(L, a, b):
    """cells (object, offset, size, old, new) that differ between two states"""
    out = []
    for o in b.mem:
        if isinstance(o, tuple) and o and o[0] == "alloca" or o == ("in", "act"):
            continue
        if a.mem.get(o) is b.mem[o]:
            continue
        cells, _ = objcells(L, b, o)
        for k, sz in sorted(cells.items()):
            x, y = L.I.load(a, o, C64(k), sz), L.I.load(b, o, C64(k), sz)
            if not b.env.same(x, y):
                out.append((o, k, sz, b.env.norm(x), b.env.norm(y)))
    return out


def role(cells, x, y):
    """the only cell that goes from x to y"""
    r = [z for z in cells if z[3].op == "c" and z[3].a == x and z[4].op == "c" and z[4].a == y]
    return r[0] if len(r) == 1 else None


def sendstep(c, L, cls):
    """one fragment of a message of any length from any position and sequence number"""
    s = LM(c, L, cls)
    N = atom("msg.len", 16)
    S = s.st
    S.wenv().assume(ult(N, const(16, 16)), False)
    N32 = zext(N, 32)
    L.w.osize["msg"] = zext(N, 64)
    hs = s.send(S, "msg", N32, SIDS[0])
    for ok, st in hs:
        s.say("message of any length accepted", None if ok is True else "refused", st)
        s.say("header of a message of any length", s.effects(st, [s.header(N32, SIDS[0])]), st)
    if c.failed():
        return
    one = [q for q in s.round(hs[0][1], s.elapsed(s.now()) if s.ex else None) if outs(q)]
    if len(one) != 1:
        return
    two = [q for q in s.round(one[0], s.elapsed(s.now())) if outs(q)]
    if len(two) != 1:
        return
    cells = memcells(L, one[0], two[0])
    idx, seq = role(cells, 5, 10), role(cells, 2, 3)
    last = [z for z in cells if z[4] is s.now()]
    if idx is None or seq is None or len(last) != 1:
        c.note("%s: internal progress of a message not recognised; bounded histories only" % cls)
        return
    I, Q, LAST = atom("msg.pos", 16), atom("msg.seq", 8), atom("msg.last", 64)
    base = two[0].copy()
    put = lambda cell, t: L.I.store(base, cell[0], C64(cell[1]), cell[2], zext(t, 8 * cell[2]) if t.w <= 8 * cell[2] else trunc(t, 8 * cell[2]))
    put(idx, I)
    put(seq, Q)
    put(last[0], LAST)
    c.note("%s: inductive step over position %s, sequence number %s" % (cls, idx[:3], seq[:3]))
    for m in (1, 2, 3, 4, 5, 6):
        st = base.copy()
        env = st.wenv()
        env.iv[I] = (0, 65535 - m)
        if m < 6:
            env.assume(eq(add(zext(I, 64), C64(m)), zext(N, 64)))
        else:
            env.assume(ult(add(zext(I, 64), C64(5)), zext(N, 64)))
        if env.dead:
            raise AnalysisError("empty context: %d bytes left" % m)
        for q in s.round(st, s.elapsed(LAST, False)):
            s.say("any position: waits between fragments", s.effects(q, []), q)
        for q in s.round(st, s.elapsed(LAST)):
            ms = outs(q)
            if len(ms) != 1 or ms[0].kind == "loop":
                s.say("any position: one fragment", "%d messages" % len(ms), q)
                continue
            k = min(m, 5)
            bs = [L.I.load(q, "msg", add(zext(I, 64), C64(j)), 1) for j in range(k)]
            r = s.effects(q, [s.frag(SIDS[0], Q, bs)])
            if r and s.ex:      # a copy made in an unmodelled way: the right places of one object
                r2 = s.effects(q, [s.frag(SIDS[0], Q, copied(q.env, ms[0].a["data"][3:3 + k], I))])
                r = r if r2 else None
            s.say("any position: the next fragment (%d bytes left)" % m, r, q)
            p = L.I.load(q, idx[0], C64(idx[1]), idx[2])
            if m == 6:
                ok = q.env.same(zext(p, 64), zext(add(zext(I, 32), const(32, 5)), 64)) or q.env.same(p, zext(add(zext(I, 8 * idx[2]), const(8 * idx[2], 5)), 8 * idx[2]))
                s.say("any position: advances by five", None if ok else "position becomes %s" % show(q.env.norm(p)), q)
                n = slice_(L.I.load(q, seq[0], C64(seq[1]), seq[2]), 0, 8)
                s.say("any position: sequence number advances", None if q.env.same(n, add(Q, K(1))) else "sequence number becomes %s" % show(q.env.norm(n)), q)
                n = L.I.load(q, last[0][0], C64(last[0][1]), last[0][2])
                s.say("any position: time of the fragment kept", None if q.env.same(n, s.now()) else "time becomes %s" % show(q.env.norm(n)), q)
            else:
                s.say("any position: ends after the last byte", None if s.sending(q) is False else "still sending", q)


def copied(env, ts, I):
    """the terms, when they are bytes I, I+1, ... of one object"""
    obj = None
    for j, t in enumerate(ts):
        t = env.norm(t)
        if t.op != "rd" or not env.same(t.a[1], add(zext(I, 64), C64(j))) or obj is not None and t.a[0] != obj:
            return [K(0)] * 9
        obj = t.a[0]
    return list(ts)


def P26(c):
    L = c.lib()
    for cls in deriv(L, "LongMessageService"):
        ex = L.w.is_a(NS + cls, NS + "LongMessageServiceEx")
        for n in (0, 1, 4, 5, 6, 10, 11, 15, 16):
            sendhist(c, L, cls, n)
            if c.failed():
                return
        for n in (256, 300, 1301):
            sendhist(c, L, cls, n, sym=False, vals=[data(i) for i in range(n)])
        sendstep(c, L, cls)
        if ex:
            sendtwo(c, L, cls)
            sendthree(c, L, cls)
            for n in (1, 2, 9, 17):
                for seed in ((0, 1, 5) if n > 1 else range(0, 256, 5 if c.tier == "quick" else 1)):
                    v = [(data(i) + seed * (i + 1)) & 255 for i in range(n)]
                    sendhist(c, L, cls, n, sym=False, vals=v, crc=crc_ref(v))
                    if c.failed():
                        return




# ---------------------------------------------------------------- receiving
class RX(LM):
    def __init__(self, c, L, cls, crc=None, const_time=False, **k):
        if const_time:
            k["timeout"] = const(32, 500)
        LM.__init__(self, c, L, cls, **k)
        if const_time:
            self.times = lambda t: 1000 + 10 * t
        ids = ptr("ids", C64(0))
        if self.ex:
            self.call1("subscribe", 4, [ids, K(3), HANDLER])
            if crc is not None:
                self.call1("use_crc", 2, [const(1, crc)])
        else:
            self.call1("subscribe", 6, [ids, K(3), ptr("rbuf", C64(0)), const(32, self.blen) if isinstance(self.blen, int) else self.blen, HANDLER])
        self.f = L.w.vmethod(NS + cls, "process")
        if self.f is None:
            raise AnalysisError("anchor lost: process() of " + cls)
        self.k = 0

    def fresh(self, n=5):
        self.k += 1
        return [atom(("fragment", self.k, i), 8) for i in range(n)]

    def feed(self, st, bs, pre=None):
        """an incoming DTXC message; one outcome per final state"""
        self.tick += 1
        st = st.copy()
        st.log = ()
        pa = self.L.action(st, "MESSAGE_IN", length=8)
        o, f = self.L.I.deref(st, pa)
        for i, b in enumerate([K(DTXC)] + list(bs)):
            self.L.I.store(st, o, add(f, C64(2 + i)), 1, b if isinstance(b, T) else K(b))
        if pre:
            pre(st.wenv())
            if st.env.dead:
                raise AnalysisError("empty context of %s" % self.cls)
        self.c.cases += 1
        r = [q for _, q in self.L.I.call(self.f, [ptr(self.obj, C64(0)), pa], st)]
        if not r:
            raise AnalysisError("no outcome of %s::process" % self.cls)
        self.c.paths += len(r)
        return r

    def hdr(self, sid, n, crc=0, flags=0):
        n = const(16, n) if not isinstance(n, T) else n
        crc = const(16, crc) if not isinstance(crc, T) else crc
        return [sid, K(0), slice_(n, 8, 8), slice_(n, 0, 8), slice_(crc, 8, 8), slice_(crc, 0, 8), K(flags) if not isinstance(flags, T) else flags]

    def start(self, st, sid, n, **k):
        r = self.feed(st, self.hdr(sid, n, **k))
        out = []
        for q in r:
            self.say("header of a message causes no report", self.calls(q, []), q)
            out.append(q)
        return out

    def calls(self, st, want, probe=False):
        """None when the user is told exactly [(status, count, stream, bytes)]"""
        env = st.env
        mem = sorted(x for x in st.alarms if x[0] in ("oob", "null"))
        if mem:
            return "memory outside the contexts is touched: %s at %s" % (mem[0][2], mem[0][1])
        bad = [e for e, lp in walk(st.log) if e.kind in ("swrite", "swriten", "sreset", "frame", "reboot", "hashupd", "hashclr") or e.kind == "action"]
        if bad:
            return "unexpected %r" % bad[0]
        cb = [e for e, lp in walk(st.log) if e.kind == "callback"]
        if len(cb) != len(want):
            return "%d reports to the user, expected %s" % (len(cb), [w[:2] for w in want])
        for e, (status, n, sid, bs) in zip(cb, want):
            if not env.same(e.a["target"], HANDLER):
                return "calls %s at %s" % (show(e.a["target"]), e.loc)
            p, cnt, s, x = e.a["args"][:4]
            if not env.same(slice_(x, 0, 8), K(status)):
                return "status is %s, expected %d at %s" % (show(env.norm(x)), status, e.loc)
            if not env.same(zext(cnt, 64), zext(n, 64) if isinstance(n, T) else C64(n)):
                return "byte count is %s, expected %s at %s" % (show(env.norm(cnt)), show(n) if isinstance(n, T) else n, e.loc)
            if not env.same(slice_(s, 0, 8), sid):
                return "stream id is %s, expected %s at %s" % (show(env.norm(s)), show(sid), e.loc)
            if bs is not None:
                for i, b in enumerate(bs):
                    if i >= len(e.a["mem"]) or not env.same(e.a["mem"][i], b):
                        return "byte %d of the message is %s, expected %s at %s" % (i, show(env.norm(e.a["mem"][i])) if i < len(e.a["mem"]) else "not in the buffer", show(b), e.loc)
        return None

    def silent(self, name, st, bs):
        """an incoming fragment of no consequence; returns the state after it"""
        out = []
        for q in self.feed(st, bs):
            self.say(name, self.calls(q, []), q)
            out.append(q)
        return out[0]

    def idle(self, tag, st, sid, seq):
        """no message is in progress on the stream"""
        if seq is not None and seq != 0:
            st = self.silent("%s: later fragments are ignored" % tag, st, [sid, K(seq & 255)] + self.fresh())
        self.whole("%s: a new message" % tag, st, sid, min(3, self.blen))

    def whole(self, tag, st, sid, n):
        """a short message from header to end"""
        for q in self.start(st, sid, n):
            bs = self.fresh()
            for z in self.feed(q, [sid, K(1)] + bs):
                self.say("%s is delivered" % tag, self.calls(z, [(COMPLETE, n, sid, bs[:n])]), z)


class Model:
    """what the user has to see of one message"""

    def __init__(self, rx, sid, n):
        self.rx, self.sid, self.n = rx, sid, n
        self.got, self.buf, self.seq, self.done = 0, [], 1, False

    def take(self, bs):
        out = []
        self.seq += 1
        for b in bs:
            self.buf.append(b)
            self.got += 1
            if self.got >= self.n:
                out.append((COMPLETE, len(self.buf), self.sid, list(self.buf)))
                self.done = True
                break
            if len(self.buf) >= self.rx.blen:
                out.append((TRUNC if self.rx.ex else INCOMPLETE, len(self.buf), self.sid, list(self.buf)))
                self.buf = []
                if self.rx.ex:
                    self.done = True
                    break
        return out


def recvhist(c, L, cls, n, blen):
    """every way the reception of a message of n bytes can go on, at every fragment"""
    s = RX(c, L, cls, blen=blen)
    tag = "message of %d bytes, buffer of %d" % (n, blen)
    sid = SIDS[1]
    m = Model(s, sid, n)
    sts = s.start(s.st, sid, n, crc=atom("hdr.crc", 16))
    last = s.now()
    other = atom("other.sid", 8)
    while not m.done:
        for st in sts:
            part = (len(m.buf), sid, list(m.buf))
            # too late
            for q in timeout(s, st, last, True):
                s.say("%s: time-out after %d bytes" % (tag, m.got), s.calls(q, [(TIMEOUT,) + part]), q)
                s.idle("%s: after a time-out" % tag, q, sid, m.seq)
                for z in timeout(s, q, last, True):
                    s.say("%s: one time-out report" % tag, s.calls(z, []), z)
            # out of sequence
            seq = atom("bad.seq", 8)
            def wrong(env):
                env.assume(eq(seq, K(m.seq & 255)), False)
                if s.ex:
                    env.assume(eq(seq, K(0)), False)
            for q in s.feed(st, [sid, seq] + s.fresh(), wrong):
                s.say("%s: wrong sequence number after %d bytes" % (tag, m.got), s.calls(q, [(SEQERR,) + part]), q)
                s.idle("%s: after a sequence error" % tag, q, sid, m.seq)
        out = []
        for st in sts:
            # not too late yet; fragments of other streams and headers with flags do not disturb
            for q in timeout(s, st, last, False):
                s.say("%s: no time-out yet" % tag, s.calls(q, []), q)
                for w_ in range(2):
                    def differ(env):
                        for x in SIDS:
                            env.assume(eq(other, x), False)
                    for z in s.feed(q, [other] + s.hdr(other, 9)[1:] if w_ else [other, K(m.seq & 255)] + s.fresh(), differ):
                        s.say("%s: other streams are ignored" % tag, s.calls(z, []), z)
                        q = z
                out.append(q)
        bs = s.fresh()
        want = m.take(bs)
        sts = []
        for st in out:
            for q in s.feed(st, [sid, K((m.seq - 1) & 255)] + bs):
                s.say("%s: fragment %d" % (tag, m.seq - 1), s.calls(q, want), q)
                sts.append(q)
        last = s.now()
        if c.failed():
            return
    for st in sts:
        s.idle("%s: after the end" % tag, st, sid, m.seq)
        for q in timeout(s, st, last, True):
            s.say("%s: no report after the end" % tag, s.calls(q, []), q)


def timeout(s, st, last, late):
    """process() when the last fragment is (not) too long ago"""
    s.tick += 1
    st = st.copy()
    t = s.now()
    st.wenv().assume(ult(sub(t, last), zext(TMO, 64)), not late)
    if st.env.dead:
        raise AnalysisError("empty context: time-out")
    return [q for v, q in s.call("process", 1, [], st)]


def recvidle(c, L, cls):
    """what does not start a message"""
    s = RX(c, L, cls)
    sid = atom("msg.sid", 8)
    seq, fl, n = atom("msg.seq", 8), atom("msg.flags", 8), atom("msg.len", 16)
    nots = lambda env: [env.assume(eq(sid, x), False) for x in SIDS] and None
    for name, bs, pre, sd in (
            ("header of a stream without subscription", s.hdr(sid, n), nots, sid),
            ("header with flags", s.hdr(SIDS[0], n, flags=fl), lambda env: env.assume(eq(fl, K(0)), False), SIDS[0]),
            ("fragment without a header", [SIDS[0], seq] + s.fresh(), lambda env: env.assume(eq(seq, K(0)), False), SIDS[0])):
        for q in s.feed(s.st, bs, pre):
            s.say("%s is ignored" % name, s.calls(q, []), q)
            for z in s.feed(q, [sd, K(1)] + s.fresh(), nots if sd is sid else None):
                s.say("%s starts nothing" % name, s.calls(z, []), z)
            s.whole("message after a %s" % name, q, SIDS[0], 3)
    for i in range(3):
        s.whole("message of subscription %d" % i, s.st, SIDS[i], 4)
    # nothing but long message fragments matters, nothing is due without a message
    for name, kind, op in (("other messages", "MESSAGE_IN", [x for x in range(256) if x != DTXC]), ("outgoing messages", "MESSAGE_OUT", None), ("no action", None, None),
                           ("mode changes", "CHANGE_MODE", None), ("activity", "INDICATE_ACTIVITY", None), ("enumeration", "START_CAN_ENUMERATION", None)):
        st = s.st.copy()
        st.log = ()
        pa = NULL if kind is None else L.action(st, kind, opcodes=op)
        for _, q in L.I.call(s.f, [ptr(s.obj, C64(0)), pa], st):
            c.paths += 1
            s.say("%s are ignored" % name, s.calls(q, []), q)
    for _, q in s.call("process", 1, [], s.st):
        s.say("nothing is due without a message", s.calls(q, []), q)


def recvlong(c, L, cls, busy=False):
    """a message with more than 256 fragments: the sequence number wraps"""
    n = 1302
    blen = 1400 if L.w.is_a(NS + cls, NS + "LongMessageServiceEx") else 32
    s = RX(c, L, cls, blen=blen, const_time=True)
    m = Model(s, SIDS[2], n)
    st = s.st
    if busy:        # another stream is waiting for its next fragment
        s.times = lambda k: 1000 if k < 3 else 1001
        st = s.start(st, SIDS[0], 9)[0]
    sts = s.start(st, SIDS[2], n)
    while not m.done:
        bs = [K(data(m.got + i)) for i in range(5)]
        want = m.take(bs)
        if blen > 32:
            want = [w[:3] + (None,) for w in want]
        out = []
        for st in sts[:2]:
            for q in s.feed(st, [SIDS[2], K((m.seq - 1) & 255)] + bs):
                s.say("long message: fragment %d" % (m.seq - 1), s.calls(q, want), q)
                out.append(q)
        sts = out
        if c.failed():
            return
    for st in sts:
        s.idle("long message: after the end", st, SIDS[2], None)
        if busy:
            bs = s.fresh()
            for q in s.feed(st, [SIDS[0], K(1)] + bs):
                b2 = s.fresh()
                for z in s.feed(q, [SIDS[0], K(2)] + b2):
                    s.say("long message: another stream goes on", s.calls(z, [(COMPLETE, 9, SIDS[0], None)]), z)


def recvstep(c, L, cls):
    """one fragment of a message of any length at any position of a buffer of any size"""
    BL = atom("user.buflen", 16)
    ex = L.w.is_a(NS + cls, NS + "LongMessageServiceEx")
    s = RX(c, L, cls, blen=64)
    sid = SIDS[0]
    N = 40
    a = s.start(s.st, sid, N)
    b = s.feed(a[0], [sid, K(1)] + s.fresh())
    d = s.feed(b[0], [sid, K(2)] + s.fresh())
    if c.failed() or len(b) != 1 or len(d) != 1:
        return
    cells = memcells(L, b[0], d[0])
    pos = [z for z in cells if z[3].op == "c" and z[4].op == "c" and (z[3].a, z[4].a) == (5, 10)]
    seq = role(cells, 2, 3)
    last = [z for z in cells if z[4] is s.now()]
    lens = [z for z in memcells(L, s.st, a[0]) if z[4].op == "c" and z[4].a == N and not (z[3].op == "c" and z[3].a == N)]
    st = d[0]
    bls = []
    for o in st.mem:
        if isinstance(o, tuple) and o and o[0] in ("alloca", "in"):
            continue
        cs, _ = objcells(L, st, o)
        bls += [(o, k, z) for k, z in cs.items() if z >= 2 and L.I.load(st, o, C64(k), z) is const(8 * z, 64)]
    if len(pos) != 2 or seq is None or len(last) != 1 or len(lens) != 1 or len(bls) != 1:
        c.note("%s: internal progress of a message not recognised; bounded histories only" % cls)
        return
    LX = atom("hdr.len", 16)
    for q in s.start(s.st, sid, LX):
        v = L.I.load(q, lens[0][0], C64(lens[0][1]), lens[0][2])
        s.say("the announced length is kept", None if q.env.same(zext(v, 64), zext(LX, 64)) else "length becomes %s" % show(q.env.norm(v)), q)
    B, R, X, LAST, LEN = atom("buf.pos", 16), atom("msg.pos", 16), atom("msg.seq", 8), atom("msg.last", 64), atom("msg.len", 16)
    # which of the two counters is the position in the buffer: the one the user is told at a time-out
    def put(st, cell, t):
        L.I.store(st, cell[0], C64(cell[1]), cell[2], zext(t, 8 * cell[2]) if t.w <= 8 * cell[2] else trunc(t, 8 * cell[2]))
    t = st.copy()
    put(t, pos[0], B)
    put(t, pos[1], R)
    r = [e for q in timeout(s, t, last[0][4], True) for e, lp in walk(q.log) if e.kind == "callback"]
    if len(r) != 1:
        return
    cnt = r[0].a["args"][1]
    if r[0].env.same(zext(cnt, 64), zext(R, 64)):
        pos.reverse()
    elif not r[0].env.same(zext(cnt, 64), zext(B, 64)):
        return
    bufobj = r[0].a["args"][0].a[0]
    c.note("%s: inductive step over buffer position %s, bytes received %s, sequence number %s" % (cls, pos[0][:3], pos[1][:3], seq[:3]))
    base = st.copy()
    put(base, pos[0], B)
    put(base, pos[1], R)
    put(base, seq, X)
    put(base, last[0], LAST)
    put(base, lens[0], LEN)
    L.I.store(base, bls[0][0], C64(bls[0][1]), bls[0][2], zext(BL, 8 * bls[0][2]))
    L.w.osize[bufobj] = zext(BL, 64)
    base.log = ()
    base.alarms = frozenset()
    for left in range(1, 7):
        for space in range(1, 7):
            st = base.copy()
            env = st.wenv()
            env.iv[B] = (0, 60000)
            env.iv[R] = (0, 60000)
            env.iv[BL] = (8, 65535)
            for v, lim, k in ((R, LEN, left), (B, BL, space)):
                if k < 6:
                    env.assume(eq(add(zext(v, 64), C64(k)), zext(lim, 64)))
                else:
                    env.assume(ult(add(zext(v, 64), C64(5)), zext(lim, 64)))
            if env.dead:
                raise AnalysisError("empty context: %d bytes left" % left)
            bs = s.fresh()
            b64 = lambda k: add(zext(B, 64), C64(k))
            want, p, done, inbuf = [], b64(0), False, 0
            probes = [(bufobj, b64(i)) for i in range(5)]
            for j in range(5):
                inbuf += 1
                if j + 1 == left:
                    want.append((COMPLETE, b64(inbuf) if not (want) else C64(inbuf), sid, None))
                    done = True
                    break
                if j + 1 == space:
                    want.append((TRUNC if ex else INCOMPLETE, b64(inbuf), sid, bs[:inbuf]))
                    inbuf = 0
                    if ex:
                        done = True
                        break
            if want and want[0][3] is None:
                want[0] = want[0][:3] + (bs[:inbuf],)
            L.w.cbprobe = probes
            tag = "any position (%s left, room for %s)" % tuple(k if k < 6 else "more" for k in (left, space))
            for q in s.feed(st, [sid, X] + bs):
                s.say("%s: the user is told" % tag, s.calls(q, want), q)
                al = [x for x in q.alarms]
                s.say("%s: stays in the buffer" % tag, None if not al else "access out of bounds: %s" % (al[0],), q)
                if done:
                    continue
                nb = add(zext(B, 64), C64(5)) if space > 5 else C64(inbuf)
                for cell, w_, what in ((pos[0], nb, "buffer position"), (pos[1], add(zext(R, 64), C64(5)), "byte count"), (seq, zext(add(X, K(1)), 64), "expected sequence number"),
                                       (last[0], s.now(), "time of the last fragment")):
                    v = L.I.load(q, cell[0], C64(cell[1]), cell[2])
                    s.say("%s: %s" % (tag, what), None if q.env.same(zext(v, 64), w_) else "becomes %s" % show(q.env.norm(v)), q)
                if space > 5:
                    for i in range(5):
                        v = L.I.load(q, bufobj, b64(i), 1)
                        s.say("%s: byte stored" % tag, None if q.env.same(v, bs[i]) else "byte %d is %s" % (i, show(q.env.norm(v))), q)
            L.w.cbprobe = ()
            if c.failed():
                return


def recvtwo(c, L, cls):
    """extended service: streams are received independently, as far as there are contexts"""
    for n0, n1 in ((3, 8), (8, 3), (12, 6), (5, 5)):
        s = RX(c, L, cls)
        ms = [Model(s, SIDS[i], n) for i, n in ((0, n0), (1, n1))]
        st = s.start(s.st, SIDS[0], n0)[0]
        st = s.start(st, SIDS[1], n1)[0]
        st = s.start(st, SIDS[2], 4)[0]
        st = s.silent("two messages: a third stream is not received", st, [SIDS[2], K(1)] + s.fresh())
        while not all(m.done for m in ms):
            for m in ms:
                if m.done:
                    continue
                bs = s.fresh()
                q0, w_ = m.seq, m.take(bs)
                for q in s.feed(st, [m.sid, K(q0)] + bs):
                    s.say("two messages: fragment %d of stream %s" % (q0, show(m.sid)), s.calls(q, w_), q)
                    st = q
                if m.done and not all(x.done for x in ms):
                    s.whole("two messages: third stream once there is room", st, SIDS[2], 4)
                    # the other message alone times out or goes out of sequence
            if c.failed():
                return
    # each message has its own time limit
    for l0 in (False, True):
        for l1 in (False, True):
            s = RX(c, L, cls)
            st = s.start(s.st, SIDS[0], 9)[0]
            t0 = s.now()
            st = s.start(st, SIDS[1], 9)[0]
            bs = s.fresh()
            st = s.feed(st, [SIDS[1], K(1)] + bs)[0]
            t1 = s.now()
            st.wenv().assume(ult(sub(s.nextnow(), t0), zext(TMO, 64)), not l0)
            want = ([(TIMEOUT, 0, SIDS[0], [])] if l0 else []) + ([(TIMEOUT, 5, SIDS[1], bs)] if l1 else [])
            for q in timeout(s, st, t1, l1):
                r = s.calls(q, want) and s.calls(q, want[::-1])
                s.say("two messages: each has its own time-out", r, q)
                for i, late, seq, got in ((0, l0, 1, []), (1, l1, 2, bs)):
                    b2 = s.fresh()
                    for z in s.feed(q, [SIDS[i], K(seq)] + b2):
                        w_ = [] if late or i == 0 else [(COMPLETE, 9, SIDS[1], (bs + b2)[:9])]
                        s.say("two messages: the other goes on after a time-out", s.calls(z, w_), z)


def recvcrc(c, L, cls):
    """extended service: a wrong check sum is reported, only when it is used"""
    for use in (True, False):
        for n in (1, 2, 5, 9, 16):
            for seed in ((0, 1, 90, 255) if c.tier == "quick" or n > 2 else range(256)):
                v = [(data(i) + seed * (i + 1)) & 255 for i in range(n)]
                H = atom("hdr.crc", 16)
                good = crc_ref(v)
                for which in ("right", "none", "wrong"):
                    s = RX(c, L, cls, crc=int(use), const_time=True)
                    st = s.st.copy()
                    env = st.wenv()
                    if which == "right":
                        env.assume(eq(H, const(16, good)))
                    elif which == "none":
                        env.assume(eq(H, const(16, 0)))
                    else:
                        env.assume(eq(H, const(16, good)), False)
                        env.assume(eq(H, const(16, 0)), False)
                    sts = s.start(st, SIDS[0], n, crc=H)
                    m = Model(s, SIDS[0], n)
                    while not m.done:
                        bs = [K(x) for x in (v + [7] * 5)[m.got:m.got + 5]]
                        q0, want = m.seq, m.take(bs)
                        if want and use and which == "wrong":
                            want = [(CRCERR,) + w[1:] for w in want]
                        out = []
                        for z in sts:
                            for q in s.feed(z, [SIDS[0], K(q0)] + bs):
                                s.say("message with a %s check sum%s" % (which, "" if use else " that is not used"), s.calls(q, want), q)
                                out.append(q)
                        sts = out
                        if c.failed():
                            return
                    for z in sts:
                        s.whole("message without a check sum after a %s one" % which, z, SIDS[1], 3)


def P27(c):
    L = c.lib()
    for cls in deriv(L, "LongMessageService"):
        ex = L.w.is_a(NS + cls, NS + "LongMessageServiceEx")
        recvidle(c, L, cls)
        for n, blen in ((1, 32), (4, 5), (5, 5), (5, 32), (6, 32), (10, 10), (11, 32), (16, 16), (3, 2), (7, 3), (9, 1), (12, 5), (13, 6), (21, 10), (8, 7)):
            recvhist(c, L, cls, n, blen)
            if c.failed():
                return
        recvlong(c, L, cls)
        recvstep(c, L, cls)
        if ex:
            recvlong(c, L, cls, busy=True)
            recvtwo(c, L, cls)
            recvcrc(c, L, cls)


if __name__ == "__main__":
    import sys
    main(globals()[sys.argv[1]], sys.argv[1], "x", 1)
