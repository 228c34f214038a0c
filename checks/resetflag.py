"""The stored reset flag: who sets it, who may change it."""
from teach import *
from wire import svcs, Idle
from table import CF, CONF

ADDR = C64(5)
SET = 99


def flagwrites(st):
    """[(write, in loop)] that may reach the flag byte; addresses computed from the layout are P13's"""
    return [e for e, lp in walk(st.log) if e.kind == "swrite" and st.env.norm(e.a["addr"]).op == "c" and st.env.same(e.a["addr"], ADDR)
            or e.kind == "swriten" and st.env.norm(e.a["addr"]).op == "c" and st.env.norm(e.a["addr"]).a <= 5]


def P44(c):
    L = c.lib()
    w = L.w
    byte = lambda st: L.I.load(st, EE, ADDR, 1)
    # the two operations and the query
    reads = []
    for name in ("setResetFlag", "clearResetFlag"):
        st = L.state()
        c.cases += 1
        for r, s in L.I.call(L.w.fn(CF + "::" + name), [CONF], st):
            c.paths += 1
            s2 = s.copy()
            s2.log = ()
            for g, t in L.I.call(L.w.fn(CF + "::isResetFlagSet"), [CONF], s2):
                v = t.env.norm(g)
                want = name.startswith("set")
                ok = v.op == "c" and bool(v.a) == want
                c.ob("%s then isResetFlagSet" % name, ok, "reports %s" % show(v), lastloc(s))
    st = L.state()
    setval = None
    for r, s in L.I.call(L.w.fn(CF + "::setResetFlag"), [CONF], st):
        setval = s.env.norm(byte(s))
    st0 = L.state()
    for g, t in L.I.call(L.w.fn(CF + "::isResetFlagSet"), [CONF], st0.copy()):
        is_ = eq(byte(st0), setval)
        v = t.env.norm(g)
        c.ob("isResetFlagSet: every stored byte", t.env.same(v, zext(is_, v.w)) or (v.op == "c" and t.env.decide(is_) == bool(v.a)), "reports %s" % show(v), "Configuration.cpp")
    # factory reset
    st = L.state()
    c.cases += 1
    for r, s in L.I.call(L.w.fn(CF + "::resetModule"), [CONF], st):
        c.paths += 1
        h = s.copy()
        cut = [k for k, e in enumerate(s.log) if e.kind == "reboot"]
        if cut:
            h.log = tuple(s.log[:cut[0] + 1])
        c.ob("factory reset leaves the flag set", s.env.same(byte(s), setval), "flag byte %s" % show(s.env.norm(byte(s))), lastloc(s))
        fw = flagwrites(s)
        k = [i for i, e in enumerate(s.log) if any(e is x for x in fw)]
        c.ob("factory reset sets the flag before it restarts", bool(k) and (not cut or k[0] < cut[0]), "not set when the module restarts", lastloc(s))
    # clearing all events
    for cls in svcs(L):
        if not w.is_a(NS + cls, NS + ETS):
            continue
        m = ETSpec(c, L, cls)
        flags = param(L, L.state(), enumval(w, "VlcbParams", "PAR_FLAGS"))
        for prod in (0, 1):
            pre = lambda env: env.assume(eq(band(flags, K(m.PFPROD)), K(0)), not prod)
            ctx = m.ctx("NNCLR", [3, 8], nn="own", pre=[m.on, pre], name="producer" if prod else "consumer")
            done = 0
            for st in ctx.states:
                wr = any(x.kind == "swrite" for x, lp in walk(st.log))
                if not any(e.kind == "loop" or e.kind in ("hashclr", "swrite") for e in st.log):
                    continue
                done += 1
                if prod:
                    ok = st.env.same(byte(st), setval)
                    d = "a producing module whose events are cleared leaves the flag byte as %s" % show(st.env.norm(byte(st)))
                else:
                    ok = not flagwrites(st)
                    d = "a module without producers changes the flag byte to %s" % show(st.env.norm(byte(st)))
                c.ob("%s: all events cleared, %s" % (cls, "producer" if prod else "not a producer"), ok, d + " -- " + statestr(st)[:500], lastloc(st))
            c.ob("%s: clearing all events is reached" % cls, done > 0, "no path clears the events")
    # nothing else touches the flag byte
    nnclr = OP["NNCLR"]
    for cls in svcs(L):
        for op in range(256) if svc_id(L, cls) else (None,):       # user interfaces do not look at messages
            if op == nnclr and w.is_a(NS + cls, NS + ETS):
                continue
            ctx = Idle(c, L, cls, op=op, ln=8)
            for st in ctx.states:
                fw = flagwrites(st)
                rs = any(e.kind == "sreset" for e, lp in walk(st.log))
                c.ob("%s: %02X leaves the reset flag alone" % (cls, op or 0), rs or not fw, "%r -- %s" % (fw[0], statestr(st)[:500]) if fw else "", fw[0].loc if fw else "")
        for k in sorted(set(ACTIONS.values())):
            if k == IN:
                continue
            ctx = Idle(c, L, cls, kind=k)
            for st in ctx.states:
                fw = flagwrites(st)
                rs = any(e.kind == "sreset" for e, lp in walk(st.log))
                c.ob("%s: action %d leaves the reset flag alone" % (cls, k), rs or not fw, "%r -- %s" % (fw[0], statestr(st)[:500]) if fw else "", fw[0].loc if fw else "")
    # a restart keeps it (so that the sketch can look after begin())
    st = L.state()
    env = st.wenv()
    env.assume(eq(concat([L.I.load(st, EE, C64(3), 1), L.I.load(st, EE, C64(2), 1)]), const(16, 0xFFFF)), False)
    c.cases += 1
    for r, s in L.I.call(L.w.fn(CF + "::begin"), [CONF], st):
        c.paths += 1
        fw = flagwrites(s)
        c.ob("start-up of a module in use keeps the flag", not fw, "%r" % (fw[0],) if fw else "", fw[0].loc if fw else "")


if __name__ == "__main__":
    main(globals()[sys.argv[1]], sys.argv[1], "x", 5)
