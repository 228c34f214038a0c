"""Minimum node service: mode machine, identity, queries, discovery, heartbeat."""
from common import *

MNS = "MinimumNodeService"
RQNN, NNREL, NNACK, SNN, QNN, PNN, RQNP, PARAMS, RQMN, NAME = 0x50, 0x51, 0x52, 0x42, 0x0D, 0xB6, 0x10, 0xEF, 0x11, 0xE2
RQNPN, PARAN, RQSD, SD, ESD, MODE, NNRSM, NNRST, HEARTB, RDGN, DGN = 0x73, 0x9B, 0x78, 0xAC, 0xE7, 0x76, 0x4F, 0x5E, 0xAB, 0x87, 0xC7
lo = lambda a, b: list(range(a, b))


class MNSpec:
    def __init__(self, c, L, cls):
        self.c, self.L, self.cls = c, L, cls
        self.sid = svc_id(L, MNS)
        self.obj = L.obj(cls)
        w = L.w
        self.im_f = w.field(NS + cls, "instantMode", want=[y for (o, s, l, y) in w.leaves(NS + cls) if l == "instantMode" or "VlcbModeParams" in y][0] if False else None)
        self.nh_f = w.field(NS + cls, "noHeartbeat", want="bool")
        st = L.state()
        self.IM = L.I.load(st, self.obj, C64(self.im_f[0]), self.im_f[1])
        self.NH = L.I.load(st, self.obj, C64(self.nh_f[0]), 1)
        o, s, y = cfg_field(L, "currentMode")
        self.CM = L.I.load(st, "Config", C64(o), s)
        self.cw = 8 * s
        o, s, y = cfg_field(L, "heartbeat")
        e = lambda n: enumval(L.w, "VlcbCmdErrs", n)
        self.INV_CMD, self.INV_PARAM = e("CMDERR_INV_CMD"), e("CMDERR_INV_PARAM_IDX")
        g = lambda n: enumval(L.w, "VlcbGrspCodes", n)
        self.GOK, self.INVMODE, self.INVSVC = g("GRSP_OK"), g("GRSP_INVALID_MODE"), g("GRSP_INVALID_SERVICE")
        self.PFN = K(enumval(L.w, "VlcbParamFlags", "PF_NORMAL"))
        self.PFL = K(enumval(L.w, "VlcbParamFlags", "PF_LRN"))
        p = lambda n: enumval(L.w, "VlcbParams", n)
        self.P = {n: p(n) for n in ("PAR_MANU", "PAR_MINVER", "PAR_MTYP", "PAR_EVTNUM", "PAR_EVNUM", "PAR_NVNUM", "PAR_MAJVER", "PAR_FLAGS", "PAR_NUM")}

    def setmode(self, im=None, cm=None, hb=False):
        def f(env):
            if im is not None:
                env.assume(eq(self.IM, const(self.IM.w, im)))
            else:
                env.assume_any(self.IM, (UNINIT, SETUP, NORMAL)) if hasattr(env, "assume_any") else self.L.setvals(env, self.IM, [UNINIT, SETUP, NORMAL])
            if cm is not None:
                env.assume(eq(self.CM, const(self.CM.w, cm)))
            else:
                self.L.setvals(env, self.CM, [UNINIT, NORMAL])
            if not hb:
                env.assume(eq(self.NH, K(1)))
        return f

    def ctx(self, op=None, ln=None, nn=None, pre=(), name="", kind=IN):
        def pr(env):
            for p in pre:
                p(env)
        return Ctx(self.c, self.L, self.cls, kind=kind, op=op, ln=ln, nn=nn, pre=pr, name="%s %s" % (self.cls, name))

    def setn(self, on):
        return (lambda f: bor(f, self.PFN)) if on else (lambda f: band(f, bnot(self.PFN)))

    def expect(self, im=None, **k):
        """im: expected resulting mode (None: unchanged)"""
        sv = {self.im_f: self.IM if im is None else im}
        if "nh" in k:
            sv[self.nh_f] = k.pop("nh")
        else:
            sv[self.nh_f] = self.NH
        k.setdefault("svc", sv)
        return Expect(**k)

    def go(self, im, msgs=(), uninit=False, normal=None, pre_actions=(), **k):
        """transition to mode im, indicated on LEDs/flags; persisted for uninit/normal"""
        cfg, store = {}, {}
        if uninit:
            cfg = dict(currentMode=const(self.cw, UNINIT), nodeNum=0, CANID=0)
            store = {C64(0): K(UNINIT), C64(1): K(0), C64(2): K(0), C64(3): K(0)}
        if normal is not None:
            hi, lo_ = normal
            cfg = dict(currentMode=const(self.cw, NORMAL), nodeNum=concat([lo_, hi]))
            store = {C64(0): K(NORMAL), C64(2): hi, C64(3): lo_}
        imv = const(8, im) if isinstance(im, int) else im
        on = isinstance(im, int) and im == NORMAL
        return self.expect(im=im, msgs=msgs, actions=list(pre_actions) + [(IMODE, imv)], cfg=cfg, store=store,
                           flags=self.setn(on), **k)

    RQNNm = [RQNN, NNHI, NNLO]
    RELm = [NNREL, NNHI, NNLO]

    # ---------------------------------------------------------- P06
    def fsm(self):
        c, L = self.c, self.L
        own0 = lambda z: (lambda env: env.assume(eq(OWNNN, const(16, 0)), z))
        ok = [0xAF, NNHI, NNLO, MODE, self.sid, self.GOK]
        inv = [0xAF, NNHI, NNLO, MODE, self.sid, self.INVMODE]
        # user button: change mode
        verify(c, self.ctx(kind=CHMODE, pre=[self.setmode(UNINIT)], name="change mode, uninitialised"),
               self.go(SETUP, [self.RQNNm], pre_actions=[(CANENUM, 0)]), "enters setup, enumerates, asks for a node number")
        for z in (True, False):
            verify(c, self.ctx(kind=CHMODE, pre=[self.setmode(NORMAL), own0(z)], name="change mode, normal"),
                   self.go(UNINIT, [] if z else [self.RELm], uninit=True), "releases the node number and becomes uninitialised")
        verify(c, self.ctx(kind=CHMODE, pre=[self.setmode(SETUP)], name="change mode, setup"), self.go(UNINIT, [], uninit=True), "becomes uninitialised")
        # renegotiate
        verify(c, self.ctx(kind=RENEG, pre=[self.setmode(UNINIT)], name="renegotiate, uninitialised"), self.expect(), "ignored")
        verify(c, self.ctx(kind=RENEG, pre=[self.setmode(NORMAL)], name="renegotiate, normal"), self.go(SETUP, [self.RQNNm]), "enters setup and asks for a node number")
        for cm in (UNINIT, NORMAL):
            for z in (True, False):
                verify(c, self.ctx(kind=RENEG, pre=[self.setmode(SETUP, cm), own0(z)], name="renegotiate, setup"),
                       self.go(cm, [] if z else [[NNACK, NNHI, NNLO]]), "cancelled setup returns to the previous mode")
            # another node enters setup
            verify(c, self.ctx(op=RQNN, pre=[self.setmode(SETUP, cm)], name="RQNN in setup"), self.go(cm, []), "another node's request aborts our setup")
            for ln in (0, 1, 2):
                pass
        for im in (UNINIT, NORMAL):
            verify(c, self.ctx(op=RQNN, pre=[self.setmode(im)], name="RQNN outside setup"), self.expect(), "ignored outside setup")
            verify(c, self.ctx(op=SNN, pre=[self.setmode(im)], name="SNN outside setup"), self.expect(), "node number only accepted in setup")
        verify(c, self.ctx(op=SNN, ln=lo(0, 3), pre=[self.setmode(SETUP)], name="SNN short"), self.expect(msgs=[[0xAF, NNHI, NNLO, SNN, self.sid, self.INV_CMD]]), "short request refused")
        verify(c, self.ctx(op=SNN, ln=lo(3, 9), pre=[self.setmode(SETUP)], name="SNN in setup"),
               self.go(NORMAL, [[NNACK, D[1], D[2]]], normal=(D[1], D[2])), "takes the node number, normal mode, persisted, acknowledged with the new number")
        # MODE requests
        m = lambda v: (lambda env: env.assume(eq(D[3], K(v))))
        M = lambda im, v, z=None: self.ctx(op=MODE, ln=lo(4, 9), nn="own", pre=[self.setmode(im), m(v)] + ([own0(z)] if z is not None else []), name="MODE %d in %d" % (v, im))
        for z in (True, False):
            verify(c, M(NORMAL, UNINIT, z), self.go(UNINIT, [ok] + ([] if z else [self.RELm]), uninit=True), "factory reset from normal")
        verify(c, M(SETUP, UNINIT), self.go(UNINIT, [ok], uninit=True), "factory reset from setup")
        verify(c, M(UNINIT, UNINIT), self.expect(), "already uninitialised")
        verify(c, M(NORMAL, SETUP), self.go(SETUP, [ok, self.RQNNm]), "setup from normal")
        verify(c, M(SETUP, SETUP), self.expect(msgs=[inv]), "already in setup")
        verify(c, M(UNINIT, SETUP), self.expect(), "setup not possible when uninitialised")
        verify(c, M(NORMAL, NORMAL), self.expect(msgs=[ok]), "already normal")
        verify(c, M(SETUP, NORMAL), self.expect(msgs=[inv]), "normal not possible from setup")
        verify(c, M(UNINIT, NORMAL), self.expect(), "normal not possible when uninitialised")
        known = (UNINIT, SETUP, NORMAL, 0x0C, 0x0D)
        for im in (UNINIT, SETUP, NORMAL):
            verify(c, self.ctx(op=MODE, ln=lo(4, 9), nn="own", pre=[self.setmode(im), lambda env: L.setvals(env, D[3], [v for v in range(256) if v not in known])], name="MODE other in %d" % im),
                   lambda st: self.expect(msgs=[] if not outs(st) else [[0xAF, NNHI, NNLO, MODE, self.sid, lambda env, t: t.op == "c" and t.a != self.GOK]]), "other modes change nothing here")
            verify(c, self.ctx(op=MODE, ln=[3], nn="own", pre=[self.setmode(im)], name="MODE short"), self.expect(msgs=[[0xAF, NNHI, NNLO, MODE, self.sid, self.INV_CMD]]), "short request refused")
            verify(c, self.ctx(op=MODE, ln=lo(3, 9), nn="other", pre=[self.setmode(im)], name="MODE other node"), self.expect(), "another node's request ignored")
        # heartbeat switch
        for v, on in ((0x0C, 1), (0x0D, 0)):
            o, s, y = cfg_field(L, "heartbeat")
            old = L.I.load(L.state(), EE, C64(4), 1)
            new = bor(old, K(1)) if on else band(old, K(0xFE))
            for im in (UNINIT, SETUP):
                verify(c, self.ctx(op=MODE, ln=lo(4, 9), nn="own", pre=[self.setmode(im, UNINIT, hb=True), m(v)], name="MODE heartbeat %d" % on),
                       self.expect(nh=1 - on, cfg=dict(heartbeat=on), store={C64(4): new}), "heartbeat setting switched and persisted, other flags kept")
            verify(c, self.ctx(op=MODE, ln=lo(4, 9), nn="own", pre=[self.setmode(NORMAL, NORMAL, hb=True), m(v)], name="MODE heartbeat %d" % on),
                   lambda st: Expect(svc={self.im_f: self.IM, self.nh_f: 1 - on}, msgs=self.hbmsgs(st) if on else [], cfg=dict(heartbeat=on), store={C64(4): new}), "heartbeat setting switched and persisted, other flags kept")
        # nothing else changes the mode
        special = (RQNN, SNN, MODE, NNRSM, NNRST)
        for im in (UNINIT, SETUP, NORMAL):
            for part in (lo(0, 128), lo(128, 256)):
                x = self.ctx(op=[o for o in part if o not in special], pre=[self.setmode(im)], name="other opcodes in %d" % im)
                for st in x.states:
                    g = L.I.load(st, x.obj, C64(self.im_f[0]), self.im_f[1])
                    cc = changed(L, x.st0, st, "Config")
                    c.ob(x.name + ": mode and identity unchanged", st.env.same(g, self.IM) and not cc and not writes(st) and not changed(L, x.st0, st, paramsobj(L)),
                         "mode, identity, flags or storage changes -- " + statestr(st), lastloc(st))
            for k in (OUT, CANENUM, IACT, IMODE, None):
                verify(c, self.ctx(kind=k, pre=[self.setmode(im)], name="action %s in %d" % (k, im)), self.expect(), "no other action changes the mode")

    def hbmsgs(self, st):
        o = outs(st)
        if o and is_out(o[-1]) and st.env.same(o[-1].a["data"][0], K(HEARTB)):
            return [[HEARTB, NNHI, NNLO, None, 0, 0]]
        return []

    # ---------------------------------------------------------- P18 queries / P19 parameters
    def queries(self):
        c, L = self.c, self.L
        st0 = L.state()
        par = lambda n: param(L, st0, self.P[n])
        own0 = lambda z: (lambda env: env.assume(eq(OWNNN, const(16, 0)), z))
        for im in (UNINIT, SETUP, NORMAL):
            q = lambda op, **k: self.ctx(op=op, pre=[self.setmode(im)] + k.pop("pre", []), name="%s in %d" % (k.pop("name"), im), **k)
            verify(c, q(QNN, pre=[own0(False)], name="QNN"), self.expect(msgs=[[PNN, NNHI, NNLO, par("PAR_MANU"), par("PAR_MTYP"), par("PAR_FLAGS")]]), "node with a number answers PNN")
            verify(c, q(QNN, pre=[own0(True)], name="QNN without number"), self.expect(), "node without a number stays silent")
            verify(c, q(RQNP, name="RQNP"), self.expect(msgs=[[PARAMS] + [par("PAR_" + n) for n in ("MANU", "MINVER", "MTYP", "EVTNUM", "EVNUM", "NVNUM", "MAJVER")]] if im == SETUP else []), "parameters reported in setup only")
            nm_ = self.name()
            for lrn in (0, 1):
                verify(c, q(RQMN, pre=[lambda env: env.assume(eq(band(par("PAR_FLAGS"), self.PFL), K(0)), not lrn)], name="RQMN learn=%d" % lrn),
                       self.expect(msgs=[[NAME] + nm_] if im == SETUP or lrn else []), "name reported in setup or learn mode only")

    def name(self):
        L = self.L
        st = L.state()
        o, s, y = L.w.field(NS + "Controller", "_mname", want="unsigned char const*")
        ob, off = L.I.deref(st, L.I.load(st, "Ctrl", C64(o), 8, True))
        return [L.I.load(st, ob, add(off, C64(i)), 1) for i in range(7)]

    def params(self):
        c, L = self.c, self.L
        st0 = L.state()
        NUM = param(L, st0, self.P["PAR_NUM"])
        idx = D[3]
        m = [self.setmode(), lambda env: env.assume(ult(NUM, K(255)))]
        verify(c, self.ctx(op=RQNPN, ln=[3], nn="own", pre=m, name="RQNPN short"), self.expect(msgs=[[0xAF, NNHI, NNLO, RQNPN, self.sid, self.INV_CMD]]), "short request refused")
        verify(c, self.ctx(op=RQNPN, ln=lo(3, 9), nn="other", pre=m, name="RQNPN other"), self.expect(), "another node's request ignored")
        verify(c, self.ctx(op=RQNPN, ln=lo(4, 9), nn="own", pre=m + [lambda env: env.assume(ult(K(0), idx)), lambda env: env.assume(ult(NUM, idx), False)], name="RQNPN"),
               self.expect(msgs=[[PARAN, NNHI, NNLO, idx, param(L, st0, idx)]]), "parameter reported")
        verify(c, self.ctx(op=RQNPN, ln=lo(4, 9), nn="own", pre=m + [lambda env: env.assume(ult(NUM, idx))], name="RQNPN too high"),
               self.expect(msgs=[AnyOrder([cmderr(self.INV_PARAM), grsp(RQNPN, self.sid, self.INV_PARAM)])]), "unknown parameter refused")
        verify(c, self.ctx(op=RQNPN, ln=lo(4, 9), nn="own", pre=m + [lambda env: env.assume(eq(idx, K(0)))], name="RQNPN all"),
               self.expect(msgs=[Each(lambda i: [PARAN, NNHI, NNLO, i, param(L, st0, i)], 0, last=NUM)]), "count and every parameter reported once")

    # ---------------------------------------------------------- P35 restart / reset requests
    def restart(self):
        c, L = self.c, self.L
        for im in (UNINIT, SETUP, NORMAL):
            verify(c, self.ctx(op=NNRST, ln=lo(3, 9), nn="own", pre=[self.setmode(im)], name="NNRST in %d" % im), self.expect(reboot=True), "restarts and changes nothing")
            verify(c, self.ctx(op=[NNRST, NNRSM], ln=lo(3, 9), nn="other", pre=[self.setmode(im)], name="NNRST/NNRSM other"), self.expect(), "another node's request ignored")
            x = self.ctx(op=NNRSM, ln=lo(3, 9), nn="own", pre=[self.setmode(im)], name="NNRSM in %d" % im)
            for st in x.states:
                r = factory(L, st)
                if not r:
                    r = check_msgs(c, L, st, [self.RELm])
                c.ob(x.name + ": releases the number, resets everything, restarts", r is None, (r or "") + " -- " + statestr(st)[:800], lastloc(st))
        others = [o for o in range(256) if o not in (NNRST, NNRSM)]
        for im in (UNINIT, SETUP, NORMAL):
            x = self.ctx(op=others, pre=[self.setmode(im)], name="other opcodes in %d" % im)
            for st in x.states:
                bad = [e for e, lp in walk(st.log) if e.kind in ("reboot", "sreset")]
                c.ob(x.name + ": never restarts", not bad, statestr(st), bad[0].loc if bad else "")

    # ---------------------------------------------------------- P22 heartbeat
    def heart(self):
        c, L = self.c, self.L
        for cm in (UNINIT, NORMAL):
            for im in (UNINIT, SETUP, NORMAL):
                for nh in (0, 1):
                    x = self.ctx(kind=None, pre=[self.setmode(im, cm, hb=True), lambda env: env.assume(eq(self.NH, K(nh)))], name="idle cm=%d im=%d off=%d" % (cm, im, nh))
                    active = cm == NORMAL and im != SETUP and not nh
                    sent = 0
                    for st in x.states:
                        o = outs(st)
                        r = mismatch(c, L, x, st, self.expect(msgs=self.hbmsgs(st) if active else []))
                        c.ob(x.name + ": heartbeat only when enabled in normal mode", r is None, (r or "") + " -- " + statestr(st), lastloc(st))
                        sent += len(o)
                        if o:
                            self.due(x, st, True)
                        elif active:
                            self.due(x, st, False)
                    if active:
                        c.ob(x.name + ": a heartbeat can be sent", sent > 0, "no path sends it", "")

    # ---------------------------------------------------------- start-up
    def begun(self):
        """the states after begin(), and a context to compare them with"""
        c, L = self.c, self.L
        hb = cfg_field(L, "heartbeat")
        for cm in (UNINIT, NORMAL):
            for on in (0, 1):
                x = self.ctx(kind=None, pre=[self.setmode(None, cm)], name="start in %d, heartbeat %d" % (cm, on))
                st = x.st0.copy()
                st.log = ()
                L.I.store(st, "Config", C64(hb[0]), hb[1], K(on))
                x.st0 = st.copy()
                for _, q in L.I.call(L.w.vmethod(NS + self.cls, "begin"), [ptr(self.obj, C64(0))], st):
                    c.cases += 1
                    c.paths += 1
                    yield x, cm, on, q

    def startmode(self):
        for x, cm, on, st in self.begun():
            r = mismatch(self.c, self.L, x, st, self.expect(im=cm, nh=1 - on, actions=[(IMODE, const(8, cm))], flags=self.setn(cm == NORMAL)))
            self.c.ob(x.name + ": the stored mode is in force and indicated", r is None, (r or "") + " -- " + statestr(st), lastloc(st))

    def startbeat(self):
        c, L = self.c, self.L
        g = lambda n, s: L.I.load(s, self.obj, C64(L.w.field(NS + self.cls, n)[0]), L.w.field(NS + self.cls, n)[1])
        for x, cm, on, st in self.begun():
            c.ob(x.name + ": heartbeats as stored", st.env.same(g("noHeartbeat", st), K(1 - on)), "switched off is %s" % show(st.env.norm(g("noHeartbeat", st))), lastloc(st) or "MinimumNodeService.cpp")
        st = construct(L, L.state(), self.cls)
        for n, v in (("heartbeatSequence", 0), ("heartRate", 5000)):
            t = g(n, st)
            c.ob("%s: initial %s" % (self.cls, n), st.env.same(t, const(t.w, v)), "%s, expected %d" % (show(st.env.norm(t)), v), "MinimumNodeService.h")
        for f in L.w.bydem.get(NS + MNS + "::setHeartBeat", []):
            if not f.decl:
                for v in (0, 1):
                    for _, q in L.I.call(f, [ptr(self.obj, C64(0)), const(1, v)], L.state()):
                        c.ob("%s: setHeartBeat(%d)" % (self.cls, v), q.env.same(g("noHeartbeat", q), K(1 - v)), "switched off is %s" % show(q.env.norm(g("noHeartbeat", q))), "MinimumNodeService.h")

    def due(self, x, st, sent):
        """the elapsed time test: sent only when now - last > rate; then the
        sequence advances by one and last becomes now"""
        c, L = self.c, self.L
        w = L.w
        seq = w.field(NS + self.cls, "heartbeatSequence", want="unsigned char")
        last = w.field(NS + self.cls, "lastHeartbeat", want="unsigned long")
        rate = w.field(NS + self.cls, "heartRate")
        g = lambda s, f: L.I.load(s, x.obj, C64(f[0]), f[1])
        t = [e for e, lp in walk(st.log) if e.kind == "ext" and e.a["fn"] == "millis"]
        if not t:
            c.ob(x.name + ": reads the clock", False, statestr(st), lastloc(st))
            return
        now = t[0].a["ret"]
        el = sub(now, g(x.st0, last))
        rt = zext(g(x.st0, rate), el.w)
        env = st.env
        if sent:
            m = outs(st)[-1]
            c.ob(x.name + ": sent only after the heartbeat interval", env.lt(rt, el), "elapsed time not known to exceed the interval -- " + statestr(st), lastloc(st))
            c.ob(x.name + ": carries the sequence number", env.same(m.a["data"][3], g(x.st0, seq)), statestr(st), lastloc(st))
            c.ob(x.name + ": sequence advances by one", env.same(g(st, seq), add(g(x.st0, seq), K(1))), statestr(st), lastloc(st))
            c.ob(x.name + ": timer restarts at the current time", any(env.same(g(st, last), e.a["ret"]) for e in t), statestr(st), lastloc(st))
        else:
            c.ob(x.name + ": not withheld once the interval has passed", env.le(el, rt), "elapsed time not known to be within the interval -- " + statestr(st), lastloc(st))
            c.ob(x.name + ": sequence and timer unchanged when nothing is sent", env.same(g(st, seq), g(x.st0, seq)) and env.same(g(st, last), g(x.st0, last)), statestr(st), lastloc(st))


def factory(L, st, reboot=True):
    """None when the state is a complete factory reset"""
    evs = [e for e, lp in walk(st.log) if e.kind in ("sreset", "swrite", "swriten", "reboot")]
    top = [e for e in st.log if e.kind in ("sreset", "swrite", "swriten", "reboot", "loop")]
    if not evs or evs[0].kind != "sreset":
        return "storage is not reset first"
    if sum(1 for e in evs if e.kind == "sreset") != 1:
        return "storage reset more than once"
    if reboot and evs[-1].kind != "reboot":
        return "the module is not restarted after the reset"
    want = {0: UNINIT, 1: 0, 2: 0, 3: 0, 4: 0, 5: 99}
    names = {0: "mode", 1: "CAN id", 2: "node number high", 3: "node number low", 4: "flags", 5: "reset flag"}
    lastw = {}
    for e in top:
        if e.kind == "swrite":
            a = st.env.norm(e.a["addr"])
            if a.op != "c" or a.a not in want:
                return "writes storage %s at %s" % (show(a), e.loc)
            lastw[a.a] = e
    for a, v in want.items():
        if a not in lastw or not st.env.same(lastw[a].a["val"], K(v)):
            return "%s is not reset to %d" % (names[a], v)
    loops = [e for e in top if e.kind == "loop"]
    NUM = L.cfg("EE_NUM_NVS")
    START = zext(L.cfg("EE_NVS_START"), 64)
    if st.env.same(NUM, K(0)) and not loops:
        return None
    if len(loops) != 1:
        return "node variables are not cleared by one loop"
    e = loops[0]
    for q, env, nv in e.a["_iters"]:
        ws = [z for z in q if z.kind == "swrite"]
        if len(ws) != 1 or not env.same(ws[0].a["val"], K(0)):
            return "an iteration does not clear one node variable at %s" % e.loc
        off = env.norm(sub(ws[0].a["addr"], START))
        r = coverage(L, st, e, env, off, 0, NUM)[0]
        if r:
            return "node variables: " + r
    return None


def each(c, f):
    L = c.lib()
    cl = [k.split("::")[-1] for k in L.services() if L.w.is_a(k, NS + MNS)]
    if not cl:
        raise AnalysisError("anchor lost: minimum node service")
    for cls in cl:
        f(MNSpec(c, L, cls))


P06 = lambda c: each(c, lambda m: (m.fsm(), m.startmode()))
P18 = lambda c: each(c, MNSpec.queries)
P19 = lambda c: each(c, MNSpec.params)
P22 = lambda c: each(c, lambda m: (m.heart(), m.startbeat()))
P35 = lambda c: each(c, MNSpec.restart)

if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
