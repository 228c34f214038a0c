"""Event teaching service: learning, unlearning, clearing, reading back, learn mode."""
from common import *

ETS = "EventTeachingService"
EN32 = zext(concat([D[4], D[3]]), 32)
NN32 = zext(MSGNN, 32)
OP = dict(NNLRN=0x53, NNULN=0x54, NNCLR=0x55, NNEVN=0x56, NERD=0x57, RQEVN=0x58, NENRD=0x72, MODE=0x76,
          EVULN=0x95, REVAL=0x9C, REQEV=0xB2, EVLRN=0xD2, EVLRNI=0xF5)
NUMEV, EVNLF, NEVAL, ENRSP, EVANS = 0x74, 0x70, 0xB5, 0xF2, 0xD3


class ETSpec:
    def __init__(self, c, L, cls):
        self.c, self.L, self.cls = c, L, cls
        self.sid = svc_id(L, ETS)
        self.MAX, self.NUM = L.cfg("EE_MAX_EVENTS"), L.cfg("EE_NUM_EVS")
        self.obj = L.obj(cls)
        self.bl = L.w.field(NS + cls, "bLearn", want="bool")
        self.learn = self.L.I.load(L.state(), self.obj, C64(self.bl[0]), 1)
        e = lambda n: enumval(L.w, "VlcbCmdErrs", n)
        self.INV_CMD, self.EN_IDX, self.EV_IDX = e("CMDERR_INV_CMD"), e("CMDERR_INV_EN_IDX"), e("CMDERR_INV_EV_IDX")
        self.TOOMANY, self.INVEV, self.NOTLRN = e("CMDERR_TOO_MANY_EVENTS"), e("CMDERR_INVALID_EVENT"), e("CMDERR_NOT_LRN")
        self.GOK = enumval(L.w, "VlcbGrspCodes", "GRSP_OK")
        self.PFLRN = enumval(L.w, "VlcbParamFlags", "PF_LRN")
        self.PFPROD = enumval(L.w, "VlcbParamFlags", "PF_PRODUCER")
        self.keep = {self.bl: self.learn}       # learn mode unchanged

    def on(self, env):
        env.assume(eq(self.learn, K(0)), False)

    def off(self, env):
        env.assume(eq(self.learn, K(0)))

    def expect(self, **k):
        k.setdefault("svc", self.keep)
        return Expect(**k)

    def bad(self, op, code):
        return self.expect(msgs=[AnyOrder([cmderr(code), grsp(op, self.sid, code)])])

    def ok(self, op, **k):
        return self.expect(msgs=[AnyOrder([WRACK, grsp(op, self.sid, self.GOK)])], **k)

    def ctx(self, op, ln, nn=None, pre=(), name=""):
        op_ = OP[op] if isinstance(op, str) else op

        def pr(env):
            for p in pre:
                p(env)
        return Ctx(self.c, self.L, self.cls, op=op_, ln=ln, nn=nn, pre=pr, name="%s %s %s" % (self.cls, op, name))

    def record(self, idx):
        b = self.L.evaddr(idx)[0]
        return {b: D[1], add(b, C64(1)): D[2], add(b, C64(2)): D[3], add(b, C64(3)): D[4]}

    def looked(self, st, fn, args=None):
        """last result of a look-up with the given arguments: (hit, idx) or None"""
        r = None
        for e, lp in walk(st.log):
            if e.kind == "lookup" and e.a["fn"] == fn:
                if args and not all(st.env.same(zext(x, 32), zext(y, 32)) for x, y in zip(e.a["args"], args)):
                    return "looks for another event: %s at %s" % ([show(x) for x in e.a["args"]], e.loc)
                r = (e.a["hit"], e.a["res"])
        return r

    # ---------------------------------------------------------------- P09
    def teach(self):
        c, L = self.c, self.L
        lo = lambda a, b: list(range(a, b))
        # requests that are too short
        for op, need in (("EVLRN", 7), ("EVLRNI", 8), ("EVULN", 5)):
            verify(c, self.ctx(op, lo(1, need), pre=[self.on], name="short"), self.expect(msgs=[grsp(OP[op], self.sid, self.INV_CMD)]), "short request refused")
        evn, evv = D[5], D[6]
        badev = [lambda env: env.assume(eq(evn, K(0)))], [lambda env: env.assume(ult(self.NUM, evn))]
        for b in badev:
            verify(c, self.ctx("EVLRN", [7, 8], pre=[self.on] + b, name="bad EV index"), self.bad(0xD2, self.EV_IDX), "invalid EV index refused, nothing stored")
        good = lambda env: (env.assume(ult(K(0), evn)), env.assume(ult(self.NUM, evn), False))

        def normal(st):
            """search by NN/EN, else a free slot"""
            fe = self.looked(st, "findEvent", (NN32, EN32))
            if not isinstance(fe, tuple):
                return fe or "does not look the event up by its node and event number"
            hit, idx = fe
            if hit:
                return self.ok(0xD2, store={evval_addr(L, idx, evn): evv}, may=self.record(idx), mayhash=[idx])
            fs = self.looked(st, "findSpace")
            if not isinstance(fs, tuple):
                return "does not look for a free slot"
            sp, idx = fs
            if not sp:
                return self.bad(0xD2, self.TOOMANY)
            s = self.record(idx)
            s[evval_addr(L, idx, evn)] = evv
            return self.ok(0xD2, store=s, hashes=[idx])

        def rebind(st):
            """EV1 = produced value: an existing event with that EV1 gets the new number"""
            fb = self.looked(st, "findByEv")
            if not isinstance(fb, tuple):
                return "does not look for an existing event with that EV1"
            if fb[0]:
                for e, lp in walk(st.log):
                    if e.kind == "lookup" and e.a["fn"] == "findByEv":
                        if not (st.env.same(e.a["args"][0], K(1)) and st.env.same(e.a["args"][1], evv)):
                            return "looks for another EV: %s" % [show(x) for x in e.a["args"]]
                return self.ok(0xD2, store=self.record(fb[1]), may={evval_addr(L, fb[1], K(1)): evv}, hashes=[fb[1]])
            return normal(st)
        verify(c, self.ctx("EVLRN", [7, 8], pre=[self.on, good, lambda env: env.assume(eq(evn, K(1))), lambda env: env.assume(eq(evv, K(0)), False)], name="EV1>0"), rebind, "event with a produced value stored exactly")
        verify(c, self.ctx("EVLRN", [7, 8], pre=[self.on, good, lambda env: env.assume(eq(evn, K(1))), lambda env: env.assume(eq(evv, K(0)))], name="EV1=0"), normal, "event stored exactly")
        verify(c, self.ctx("EVLRN", [7, 8], pre=[self.on, good, lambda env: env.assume(ult(K(1), evn))], name="EV2.."), normal, "event stored exactly")
        # by index
        idx, evn, evv = D[5], D[6], D[7]
        inidx = lambda env: env.assume(ult(idx, self.MAX))

        def badidx(st):
            m = outs(st)
            one = [grsp(0xF5, self.sid, self.EN_IDX)]
            return self.expect(msgs=one) if len(m) == 1 else self.bad(0xF5, self.EN_IDX)
        verify(c, self.ctx("EVLRNI", 8, pre=[self.on, lambda env: env.assume(ult(idx, self.MAX), False)], name="bad index"), badidx, "invalid event index refused, nothing stored")
        for b in (lambda env: env.assume(eq(evn, K(0)))), (lambda env: env.assume(ult(self.NUM, evn))):
            verify(c, self.ctx("EVLRNI", 8, pre=[self.on, inidx, b], name="bad EV index"), self.bad(0xF5, self.EV_IDX), "invalid EV index refused, nothing stored")
        good = lambda env: (env.assume(ult(K(0), evn)), env.assume(ult(self.NUM, evn), False))

        def byidx(st):
            rec = self.record(idx)
            # unchanged record: either nothing or the same bytes are written
            same = all(st.env.same(persistent(self.base, a, L), v) for a, v in rec.items())
            if same:
                return self.ok(0xF5, store={evval_addr(L, idx, evn): evv}, may=rec, mayhash=[idx])
            rec[evval_addr(L, idx, evn)] = evv
            return self.ok(0xF5, store=rec, hashes=[idx])
        self.base = L.state()
        verify(c, self.ctx("EVLRNI", 8, pre=[self.on, inidx, good], name="write"), byidx, "event stored exactly at the index")
        # unlearn

        def unlearn(st):
            fe = self.looked(st, "findEvent", (NN32, EN32))
            if not isinstance(fe, tuple):
                return fe or "does not look the event up by its node and event number"
            if not fe[0]:
                return self.bad(0x95, self.INVEV)
            b = L.evaddr(fe[1])[0]
            s = {add(b, C64(i)): K(0xFF) for i in range(4)}
            return self.ok(0x95, store=s, hashes=[fe[1]])
        verify(c, self.ctx("EVULN", lo(5, 9), pre=[self.on], name="unlearn"), unlearn, "exactly that event is removed")
        # clear all

        def wipe(st, e):
            for q, env, nv in e.a["_iters"]:
                ws = [x for x in q if x.kind == "swrite"]
                if len(ws) != 4 or any(x.kind in ("swriten", "sreset", "loop") for x in q):
                    return "an iteration does not clear one record at %s" % e.loc
                iv = [a for a, (v0, s) in e.a["vars"].items() if s in (1, -1)]
                ok = False
                for i8 in [x for v in iv for x in around(v)]:
                    b = L.evaddr(wideidx(env, i8))[0]
                    if all(any(env.same(x.a["addr"], add(b, C64(k))) and env.same(x.a["val"], K(0xFF)) for x in ws) for k in range(4)):
                        r, _, _ = coverage(L, st, e, env, i8, 0, self.MAX)
                        if r:
                            return r
                        ok = True
                        break
                if not ok:
                    return "an iteration writes something else than an empty record: %s at %s" % (ws, e.loc)
            return None
        pf = enumval(L.w, "VlcbParams", "PAR_FLAGS")
        flags = param(L, L.state(), pf)
        for prod in (0, 1):
            pre = lambda env: env.assume(eq(band(flags, K(self.PFPROD)), K(0)), not prod)
            verify(c, self.ctx("NNCLR", lo(3, 9), nn="own", pre=[self.on, pre], name="producer" if prod else "consumer"),
                   self.ok(0x55, wloops=[wipe], hashclr=True, store={C64(5): None} if prod else {}), "every event is cleared")
        verify(c, self.ctx("NNCLR", lo(3, 9), nn="own", pre=[self.off], name="not learning"), self.bad(0x55, self.NOTLRN), "refused outside learn mode")

    # ---------------------------------------------------------------- P10
    def read(self):
        c, L = self.c, self.L
        lo = lambda a, b: list(range(a, b))
        I = L.I
        st0 = L.state()
        idx = D[3]
        used = hashcell(L, st0, idx)
        rec = lambda i: [evbyte(L, L.state(), i, k) for k in range(4)]
        full = dict(nn="own")
        for op, need in (("NENRD", 4), ("REVAL", 5)):
            verify(c, self.ctx(op, lo(3, need), nn="own", name="short"), self.expect(msgs=[grsp(OP[op], self.sid, self.INV_CMD)]), "short request refused")
            verify(c, self.ctx(op, lo(need, 9), nn="own", pre=[lambda env: env.assume(ult(idx, self.MAX), False)], name="bad index"), self.bad(OP[op], self.EN_IDX), "invalid event index refused")
            verify(c, self.ctx(op, lo(need, 9), nn="own", pre=[lambda env: env.assume(ult(idx, self.MAX)), lambda env: env.assume(eq(used, K(0)))], name="unused"), self.bad(OP[op], self.EN_IDX), "unused slot refused")
        inuse = [lambda env: env.assume(ult(idx, self.MAX)), lambda env: env.assume(eq(used, K(0)), False)]
        verify(c, self.ctx("NENRD", lo(4, 9), nn="own", pre=inuse, name="used"), self.expect(msgs=[[ENRSP, NNHI, NNLO] + rec(idx) + [idx]]), "stored event reported")
        verify(c, self.ctx("NERD", lo(3, 9), nn="own", name="all"),
               lambda st: self.expect(msgs=[Each(lambda i: [ENRSP, NNHI, NNLO] + rec(i) + [i], 0, upto=self.MAX, pos=7,
                                                 cond=lambda env, i: zero_test(env, hashcell(L, L.state(), i)))] if outs(st) else []),
               "every stored event reported once")
        verify(c, self.ctx("RQEVN", lo(3, 9), nn="own", name="count"), lambda st: self.expect(msgs=[[NUMEV, NNHI, NNLO, lambda env, t: t.op == "a" and t.a[0] == "numEvents"]]), "number of stored events")
        verify(c, self.ctx("NNEVN", lo(3, 9), nn="own", name="space"), lambda st: self.expect(msgs=[[EVNLF, NNHI, NNLO, lambda env, t: (
            counted(L, env, t, lambda e, i: (lambda z: None if z is None else not z)(zero_test(e, hashcell(L, L.state(), i))), self.MAX) is None)]]), "number of free slots")
        # event variables by index
        evn = D[4]
        ev = lambda i, n: I.load(L.state(), EE, evval_addr(L, i, n), 1)
        verify(c, self.ctx("REVAL", lo(5, 9), nn="own", pre=inuse + [lambda env: env.assume(ult(self.NUM, evn))], name="bad EV"), self.bad(0x9C, self.EV_IDX), "invalid EV index refused")
        verify(c, self.ctx("REVAL", lo(5, 9), nn="own", pre=inuse + [lambda env: env.assume(ult(self.NUM, evn), False), lambda env: env.assume(ult(K(0), evn))], name="one EV"),
               self.expect(msgs=[[NEVAL, NNHI, NNLO, idx, evn, ev(idx, evn)]]), "EV value reported")
        verify(c, self.ctx("REVAL", lo(5, 9), nn="own", pre=inuse + [lambda env: env.assume(eq(evn, K(0)))], name="all EVs"), lambda st:
               self.expect(msgs=[[NEVAL, NNHI, NNLO, idx, 0, self.NUM]] + ([Each(lambda n: [NEVAL, NNHI, NNLO, idx, n, ev(idx, n)], 1, last=self.NUM, pos=4)] if len(outs(st)) > 1 or not st.env.same(self.NUM, K(0)) else [])),
               "EV count and every EV reported")
        # event variables by event, learn mode
        evn = D[5]
        verify(c, self.ctx("REQEV", lo(1, 6), pre=[self.on], name="short"), self.expect(msgs=[grsp(0xB2, self.sid, self.INV_CMD)]), "short request refused")

        def reqev(then):
            def f(st):
                fe = self.looked(st, "findEvent", (NN32, EN32))
                if not isinstance(fe, tuple):
                    return fe or "does not look the event up by its node and event number"
                if not fe[0]:
                    return self.bad(0xB2, self.INVEV)
                return then(st, fe[1])
            return f
        h = lambda n, v: [EVANS, D[1], D[2], D[3], D[4], n, v]
        verify(c, self.ctx("REQEV", lo(6, 9), pre=[self.on, lambda env: env.assume(ult(self.NUM, evn))], name="bad EV"), reqev(lambda st, i: self.bad(0xB2, self.EV_IDX)), "invalid EV index refused")
        verify(c, self.ctx("REQEV", lo(6, 9), pre=[self.on, lambda env: env.assume(ult(self.NUM, evn), False), lambda env: env.assume(ult(K(0), evn))], name="one EV"),
               reqev(lambda st, i: self.expect(msgs=[h(evn, ev(i, evn))])), "EV value reported")
        verify(c, self.ctx("REQEV", lo(6, 9), pre=[self.on, lambda env: env.assume(eq(evn, K(0)))], name="all EVs"),
               reqev(lambda st, i: self.expect(msgs=[h(0, self.NUM)] + ([Each(lambda n: h(n, ev(i, n)), 1, last=self.NUM, pos=5)] if len(outs(st)) > 1 or not st.env.same(self.NUM, K(0)) else []))),
               "EV count and every EV reported")

    # ---------------------------------------------------------------- P11
    def gate(self):
        c, L = self.c, self.L
        pf = K(self.PFLRN)
        setf = lambda f: bor(f, pf)
        clrf = lambda f: band(f, K(0xFF & ~self.PFLRN))
        ON = self.expect(svc={self.bl: 1}, flags=setf)
        OFF = self.expect(svc={self.bl: 0}, flags=clrf)
        lo = lambda a, b: list(range(a, b))
        MODE_ON, MODE_OFF = enumval(L.w, "VlcbModeCmds", "MODE_LEARN_ON"), enumval(L.w, "VlcbModeCmds", "MODE_LEARN_OFF")
        verify(c, self.ctx("NNLRN", lo(3, 9), nn="own", name="own"), ON, "learn mode entered and flagged")
        verify(c, self.ctx("NNULN", lo(3, 9), nn="own", name="own"), OFF, "learn mode left and unflagged")
        verify(c, self.ctx("NNULN", lo(3, 9), nn="other", name="other"), self.expect(), "another node's request ignored")
        verify(c, self.ctx("MODE", lo(4, 9), nn="own", pre=[lambda env: env.assume(eq(D[3], K(MODE_ON)))], name="learn on"), ON, "learn mode entered and flagged")
        verify(c, self.ctx("MODE", lo(4, 9), nn="own", pre=[lambda env: env.assume(eq(D[3], K(MODE_OFF)))], name="learn off"), OFF, "learn mode left and unflagged")
        verify(c, self.ctx("MODE", lo(4, 9), nn="own", pre=[lambda env: (env.assume(eq(D[3], K(MODE_OFF)), False), env.assume(eq(D[3], K(MODE_ON)), False))], name="other mode"), self.expect(), "other modes leave learn mode alone")
        verify(c, self.ctx("MODE", lo(3, 9), nn="other", name="other node"), self.expect(), "another node's request ignored", key="MODE-learn-other-node")
        verify(c, self.ctx("NNLRN", lo(3, 9), nn="other", pre=[self.on], name="other"), OFF, "another node entering learn mode ends ours")
        verify(c, self.ctx("NNLRN", lo(3, 9), nn="other", pre=[self.off], name="other"), Expect(svc={self.bl: 0}, flags=None), "another node entering learn mode")
        for op in ("EVLRN", "EVLRNI", "EVULN", "REQEV"):
            verify(c, self.ctx(op, lo(0, 9), pre=[self.off], name="not learning"), self.expect(), "ignored outside learn mode")
        named = set(OP.values())
        verify(c, self.ctx([o for o in range(256) if o not in named], lo(0, 9), name="other opcodes"), self.expect(), "no other message changes events or learn mode")
        for k in (OUT, CANENUM, CHMODE, RENEG, IACT, IMODE, None):
            verify(c, Ctx(c, L, self.cls, kind=k), self.expect(), "no other action touches events")
        # the mode starts off
        b = [f for f in L.w.fns.values() if f.base == NS + ETS + "::" + ETS + "()"]


def each(c, f):
    L = c.lib()
    cl = [k.split("::")[-1] for k in L.services() if L.w.is_a(k, NS + ETS)]
    if not cl:
        raise AnalysisError("anchor lost: event teaching service")
    for cls in cl:
        f(ETSpec(c, L, cls))


def P09(c):
    each(c, ETSpec.teach)


def P10(c):
    each(c, ETSpec.read)


def P11(c):
    each(c, ETSpec.gate)


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
