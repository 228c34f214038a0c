"""Service discovery and diagnostics."""
from common import *

RQSD, SD, ESD, RDGN, DGN, GRSP = 0x78, 0xAC, 0xE7, 0x87, 0xC7, 0xAF
MNS = "MinimumNodeService"


def services_model(L):
    """other services: their id and version are fixed properties of the object"""
    for n, b in (("getServiceID", 32), ("getServiceVersionID", 8)):
        def f(I, st, fr, ins, args, obj, n=n, b=b):
            I.ev(st, "svcask", fr, ins, what=n, obj=objref(obj))
            return [(zext(atom((n, obj), 8), b), st)]
        L.w.virt[NS + "Service::" + n] = f


def objref(o):
    return o[1] if isinstance(o, tuple) and o[0] == "*" else const(64, 0)


def affine(st, e, env, t):
    """(value in the first iteration, advance per iteration) of a term in loop e"""
    if t is None:
        return None
    vs = [a for a in support(t) if a in e.a["vars"]]
    if len(vs) != 1:
        return None
    v = vs[0]
    v0, step = e.a["vars"][v]
    if step is None:
        return None
    if v0.op == "p":
        v0 = v0.a[1]
    first = st.env.norm(subst(t, {v: v0}))
    adv = env.norm(sub(subst(t, {v: add(v, const(v.w, step))}), t))
    if adv.op != "c":
        return None
    return first, adv.a


def element(o):
    """index of the 8-byte element at byte offset o, or None"""
    sg = lambda x: x - (1 << 64) if x >> 63 else x
    if o.op == "c":
        return C64(o.a // 8) if o.a % 8 == 0 else None
    if o.op == "lin":
        c, ts = sg(o.a[0]), [(sg(k), x) for k, x in o.a[1]]
        if c % 8 or any(k % 8 for k, x in ts):
            return None
        r = const(64, c // 8)
        for k, x in ts:
            r = add(r, mul(const(64, k // 8), x))
        return r
    if slice_(o, 0, 3).op == "c" and slice_(o, 0, 3).a == 0:
        return zext(slice_(o, 3, 61), 64)
    return None


def whole(o):
    """x << k written as 2^k * x (the same 64-bit value)"""
    if o.op == "cat" and len(o.a) == 2 and o.a[0][0].op == "c" and o.a[1][1] == 0 and o.a[1][0].w == 64:
        k, x = o.a[0][2], o.a[1]
        if (o.a[0][0].a >> o.a[0][1]) & ((1 << k) - 1) == 0 and k + x[2] == 64:
            return mul(const(64, 1 << k), x[0])
    return o


class Svc:
    """the controller's service list as the analysis sees it"""

    def __init__(self, L):
        self.L = L
        w = L.w
        st = L.state()
        lv = w.leaves(NS + "Controller")
        a = [x for x in lv if x[2].startswith("services.") and x[3].endswith("*")]
        n = [x for x in lv if x[2].startswith("services.") and not x[3].endswith("*")]
        if len(a) != 1 or len(n) != 1:
            raise AnalysisError("anchor lost: the controller's list of services")
        self.arr = L.I.deref(st, L.I.load(st, "Ctrl", C64(a[0][0]), 8, True))
        self.len = L.I.load(st, "Ctrl", C64(n[0][0]), n[0][1])

    def offset(self, env, t):
        """byte offset in the list of the pointer t, or None"""
        t = env.norm(t)
        if t.op != "rd":
            return None
        obj, off = t.a[0], t.a[1]
        if obj != self.arr[0]:
            return None
        return whole(env.norm(sub(off, self.arr[1])))

    def is_nth(self, env, t, idx):
        """t is the service with (1-based) index idx"""
        o = self.offset(env, t)
        if o is None:
            return False
        i = zext(idx, 64) if idx.w < 64 else idx
        return env.same(o, mul(C64(8), sub(i, C64(1)))) or env.same(add(o, C64(8)), mul(C64(8), i))

    def is_nth_in(self, st, e, env, t, idx):
        """the same for loop e, where pointer and index may be separate loop variables"""
        if self.is_nth(env, t, idx):
            return True
        o = self.offset(env, t)
        a, b = affine(st, e, env, o), affine(st, e, env, env.norm(idx))
        if a is None or b is None:
            return False
        return st.env.same(zext(b[0], 64), const(64, 1 + a[0].a // 8)) and a[0].op == "c" and a[1] == 8 * b[1] if a[0].op == "c" else False

    def sid(self, t):
        return atom(("getServiceID", ("*", t)), 8)

    def ver(self, t):
        return atom(("getServiceVersionID", ("*", t)), 8)

    def is_real(self, env, t):
        """True/False/None: the service t has an id"""
        return zero_test(env, self.sid(t))

    def covers(self, st, e):
        """None when loop e visits every service once, in order.  Sets self.elem
        to the pointer each iteration handles."""
        el = {}
        for k, (q, env, nv) in enumerate(e.a["_iters"]):
            for x, lp in walk(q):
                if x.kind in ("svcask", "vcall"):
                    p = x.a["obj"] if x.kind == "svcask" else objref(x.a["obj"])
                    o = self.offset(env, p)
                    if o is None:
                        return "asks something else than a service of the list at %s" % x.loc
                    el.setdefault(k, (p, o))
                    if el[k][1] is not o and not env.same(el[k][1], o):
                        return "one iteration handles different services at %s" % x.loc
            if k not in el:
                return "an iteration handles no service at %s" % e.loc
            p, o = el[k]
            vs = [a for a in support(o) if a in e.a["vars"]]
            if len(vs) != 1:
                return "the service does not follow the loop at %s" % e.loc
            v = vs[0]
            v0, step = e.a["vars"][v]
            if v0.op == "p":
                v0 = v0.a[1]
            # value of the offset in the first iteration and its advance
            first = st.env.norm(subst(o, {v: v0}))
            if not st.env.same(first, C64(0)):
                return "the first service of the loop at %s is not the first of the list" % e.loc
            if step is None or v not in nv:
                return "irregular loop at %s" % e.loc
            n2 = nv[v]
            if n2.op == "p":
                n2 = n2.a[1]
            adv = env.norm(sub(whole(subst(o, {v: n2})), o))
            if not env.same(adv, C64(8)) and not env.same(whole(subst(o, {v: n2})), add(o, C64(8))):
                return "services are skipped by the loop at %s (advance %s)" % (e.loc, show(adv))
            end = mul(C64(8), self.len)
            k_ = element(o)
            if not (env.lt(o, end) or env.decide(eq(o, end)) is False or (k_ is not None and env.lt(env.norm(k_), zext(self.len, 64)))):
                return "the loop at %s runs past the list" % e.loc
            ends = st.env.norm(o)
            k_ = element(ends)
            if not (st.env.same(ends, end) or st.env.le(end, ends) or (k_ is not None and st.env.le(zext(self.len, 64), st.env.norm(k_)))):
                return "the loop at %s ends before the last service" % e.loc
        self.el = el
        return None


def svcloops(st):
    return [e for e in st.log if e.kind == "loop" and any(x.kind in ("svcask", "vcall") for x, _ in walk((e,)))]


def bounded(L, S, n):
    def f(env):
        env.assume(ult(S.len, const(S.len.w, n + 1)))
        env.assume(ult(const(S.len.w, 0), S.len))
    return f


def P20(c):
    L = c.lib(partition=True)
    services_model(L)
    S = Svc(L)
    INVSVC = enumval(L.w, "VlcbGrspCodes", "GRSP_INVALID_SERVICE")
    INVCMD = enumval(L.w, "VlcbCmdErrs", "CMDERR_INV_CMD")
    lim = bounded(L, S, 30)
    cl = [t[len(NS):] for t in L.services() if L.w.is_a(t, NS + MNS)]
    for cls in cl:
        sid = svc_id(L, cls)

        def ctx(ln, pre, name, nn="own"):
            def pr(env):
                lim(env)
                pre(env)
            x = Idle(c, L, cls, op=RQSD, ln=ln, nn=nn, pre=pr)
            x.name = "%s RQSD %s" % (cls, name)
            return x
        verify(c, ctx([3], lambda e: 0, "too short"), Expect(msgs=[grsp(RQSD, sid, INVCMD)]))
        ok = list(range(4, 9))
        verify(c, ctx(ok, lambda e: e.assume(ult(zext(S.len, 64), zext(D[3], 64))), "index above the number of services"), Expect(msgs=[grsp(RQSD, sid, INVSVC)]))

        def one(st):
            asks = [x for x, lp in walk(st.log) if x.kind == "svcask"]
            if not asks:
                return "the service is not looked at"
            p = asks[0].a["obj"]
            if not S.is_nth(st.env, p, D[3]):
                return "a service other than the requested is reported"
            r = S.is_real(st.env, p)
            if r is None:
                return "answer does not depend on the service being a protocol service"
            if not r:
                return Expect(msgs=[grsp(RQSD, sid, INVSVC)])
            return Expect(msgs=[[ESD, NNHI, NNLO, D[3], S.sid(p), 0, 0, 0]])

        def rng(e):
            e.assume(ult(const(8, 0), D[3]))
            e.assume(ult(zext(S.len, 64), zext(D[3], 64)), False)
        verify(c, ctx(ok, rng, "one service"), one)
        x = ctx(ok, lambda e: e.assume(eq(D[3], K(0))), "summary")
        for st in x.states:
            r = summary(L, S, st)
            c.ob("%s lists every service once, with its index, id and version" % x.name, r is None, (r or "") + (" -- " + statestr(st)[:600] if r else ""), lastloc(st) if r else "")
            r = no_more(L, x, st)
            c.ob("%s changes nothing" % x.name, r is None, r or "", "")
    # every service class reports a known id and a version
    for t in L.services():
        cls = t[len(NS):]
        i = svc_id(L, cls)
        known = set(all_enum(L.w, "VlcbServiceTypes").values()) | {0}
        c.ob("%s reports a defined service id" % cls, i in known, "id %d" % i)
        base = [b for b in L.services() if b != t and L.w.is_a(t, b)]
        for b in base:
            c.ob("%s has the same service id as %s" % (cls, b), svc_id(L, b[len(NS):]) == i or cls in ("ConsumeOwnEventsService",), "")
    ids = {}
    WANT = {"MinimumNodeService": "SERVICE_ID_MNS", "NodeVariableService": "SERVICE_ID_NV", "CanService": "SERVICE_ID_CAN", "EventTeachingService": "SERVICE_ID_OLD_TEACH",
            "EventProducerService": "SERVICE_ID_PRODUCER", "EventConsumerService": "SERVICE_ID_CONSUMER", "ConsumeOwnEventsService": "SERVICE_ID_CONSUME_OWN_EVENTS",
            "LongMessageService": "SERVICE_ID_STREAMING"}
    for b, n in WANT.items():
        v = enumval(L.w, "VlcbServiceTypes", n)
        for t in L.services():
            if L.w.is_a(t, NS + b) and not (b != "ConsumeOwnEventsService" and L.w.is_a(t, NS + "ConsumeOwnEventsService")):
                c.ob("%s identifies itself as %s" % (t[len(NS):], n), svc_id(L, t[len(NS):]) == v, "reports id %d" % svc_id(L, t[len(NS):]))


def no_more(L, ctx, st):
    for e, lp in walk(st.log):
        if e.kind in ("swrite", "swriten", "sreset", "reboot", "callback", "frame", "serial", "vcall"):
            return "%s" % repr(e)[:200]
    for o in (ctx.obj, "Config", paramsobj(L)):
        ch = changed(L, ctx.st0, st, o)
        if ch:
            return "state of %s changes at offset %s" % (o, ch[0][0])
    return None


def summary(L, S, st):
    got = outs(st)
    if len(got) != 2 or got[1].kind != "loop" or not is_out(got[0]):
        return "sends %s, expected one summary and one message per service" % ", ".join(msgstr(g)[:80] for g in got)
    # the loop of details
    e = got[1]
    r = S.covers(st, e)
    if r:
        return r
    for k, (q, env, nv) in enumerate(e.a["_iters"]):
        p = S.el[k][0]
        real = S.is_real(env, p)
        ms = [m for m in q if is_out(m) or m.kind == "loop" and any(is_out(z) for z, _ in walk((m,)))]
        if real is None:
            return "a service is reported or left out regardless of its kind at %s" % e.loc
        if not real:
            if ms:
                return "a service that is not a protocol service is reported at %s" % ms[0].loc
            continue
        if len(ms) != 1 or not is_out(ms[0]):
            return "%d messages for one service at %s" % (len(ms), e.loc)
        m = ms[0]
        i = m.a["data"][3]
        if not S.is_nth_in(st, e, env, p, i):
            return "service reported with index %s that is not its place in the list at %s" % (show(env.norm(i)), m.loc)
        if not match_msg(env, m, [SD, NNHI, NNLO, None, S.sid(p), S.ver(p)]):
            return "sends %s at %s" % (msgstr(m), m.loc)
    m = got[0]
    if not match_msg(st.env, m, [SD, NNHI, NNLO, 0, 0, None]):
        return "sends %s at %s, expected the number of services" % (msgstr(m), m.loc)
    return svccount(L, S, st, m.a["data"][5])


def svccount(L, S, st, t):
    """None when t counts the protocol services of the list"""
    t = st.env.norm(t)
    lv = [a for a in support(t) if isinstance(a.a, tuple) and a.a and a.a[0] == "lp"]
    low = lambda x: slice_(zext(x, 64), 0, 8)
    if len(lv) != 1:
        return "the number of services is reported as %s" % show(t)
    others = not st.env.same(t, low(lv[0]))
    if others and not st.env.same(low(add(t, low(lv[0]))), low(S.len)):
        return "the number of services is reported as %s" % show(t)
    for e in svcloops(st):
        if lv[0] not in e.a["vars"]:
            continue
        v0, step = e.a["vars"][lv[0]]
        up = v0.op == "c" and v0.a == 0
        # counting down from the total by those that are not reported
        down = not up and not others and st.env.same(low(v0), low(S.len))
        if not up and not down:
            return "the count of services starts at %s" % show(v0)
        r = S.covers(st, e)
        if r:
            return r
        for k, (q, env, nv) in enumerate(e.a["_iters"]):
            real = S.is_real(env, S.el[k][0])
            d = env.norm(sub(nv[lv[0]], lv[0])) if lv[0] in nv else None
            if d is None or d.op != "c" or real is None or d.a != (int(real != others) if up else -int(not real) & ((1 << d.w) - 1)):
                return "a service that is %s changes the count by %s at %s" % ({True: "reported", False: "not reported", None: "of any kind"}[real], show(d) if d is not None else "?", e.loc)
        return None
    return "the number of services %s is not counted over the list" % show(t)


# ------------------------------------------------------------- diagnostics
def report(c, L, cls, name, args, pre=None):
    f = L.w.vmethod(NS + cls, name)
    if f is None:
        raise AnalysisError("anchor lost: %s::%s" % (cls, name))
    st = L.state()
    if pre:
        pre(st.wenv())
    c.cases += 1
    st0 = st.copy()
    rs = [s for _, s in L.I.call(f, [ptr(L.obj(cls), C64(0))] + args, st)]
    c.paths += len(rs)
    return st0, rs


def pure(L, cls, st0, st):
    for e, lp in walk(st.log):
        if e.kind in ("swrite", "swriten", "sreset", "reboot", "callback", "frame", "serial"):
            return "%s" % repr(e)[:200]
        if e.kind == "action" and not is_out(e):
            return "queues an action at %s" % e.loc
    for o in (L.obj(cls), "Config", paramsobj(L)):
        if changed(L, st0, st, o):
            return "asking for diagnostics changes the state of %s" % o
    return None


def P21(c):
    L = c.lib(partition=True)
    services_model(L)
    S = Svc(L)
    idx = atom("svcIndex", 8)
    code = atom("code", 8)
    INVD = enumval(L.w, "VlcbGrspCodes", "GRSP_INVALID_DIAGNOSTIC")
    INVSVC = enumval(L.w, "VlcbGrspCodes", "GRSP_INVALID_SERVICE")
    INVCMD = enumval(L.w, "VlcbCmdErrs", "CMDERR_INV_CMD")
    ob = lambda name, r, st: c.ob(name, r is None, (r or "") + (" -- " + statestr(st)[:500] if r else ""), lastloc(st) if r else "")
    transport(L)

    counts = {}
    for t in L.services():
        cls = t[len(NS):]
        if svc_id(L, cls) == 0:
            continue
        # how many values the service announces
        st0, rs = report(c, L, cls, "reportAllDiagnostics", [idx])
        n = None
        for st in rs:
            got = [e for e in outs(st)]
            r = pure(L, cls, st0, st)
            if r is None and (not got or got[0].kind == "loop" or not match_msg(st.env, got[0], [DGN, NNHI, NNLO, idx, 0, 0, None])):
                r = "does not begin with the number of values: %s" % (msgstr(got[0]) if got else "nothing sent")
            if r is None:
                m = st.env.norm(got[0].a["data"][6])
                if m.op != "c":
                    r = "number of values %s" % show(m)
                elif n is not None and n != m.a:
                    r = "announces %d or %d values" % (n, m.a)
                else:
                    n = m.a
                    if len(got) != n + 1:
                        r = "announces %d values and sends %d" % (n, len(got) - 1)
                    for k in range(1, n + 1):
                        if r is None and not match_msg(st.env, got[k], [DGN, NNHI, NNLO, idx, k, None, None]):
                            r = "value %d is sent as %s at %s" % (k, msgstr(got[k]), got[k].loc)
            ob("%s: all diagnostic values" % cls, r, st)
        counts[cls] = n
        if n is None:
            continue
        allmsgs = [tuple(e.a["data"][5:7]) for e in outs(rs[0])[1:] if is_out(e)]
        # each single code
        vals = {}
        for k in range(1, n + 1):
            st0, rs = report(c, L, cls, "reportDiagnostics", [idx, K(k)])
            for st in rs:
                got = outs(st)
                r = pure(L, cls, st0, st)
                if r is None and (len(got) != 1 or not match_msg(st.env, got[0], [DGN, NNHI, NNLO, idx, k, None, None])):
                    r = "sends %s, expected the value of code %d" % (", ".join(msgstr(g) for g in got), k)
                ob("%s: diagnostic code %d" % (cls, k), r, st)
                if r is None:
                    vals[k] = [st.env.norm(x) for x in got[0].a["data"][5:7]] + [st]
        # unknown codes
        st0, rs = report(c, L, cls, "reportDiagnostics", [idx, code], pre=lambda e: e.assume(ult(K(n), code)))
        for st in rs:
            got = outs(st)
            own = any(L.w.vmethod(NS + cls, "reportDiagnostics") is f for f in L.w.bydem.get(NS + "Service::reportDiagnostics", []))
            r = pure(L, cls, st0, st)
            if r is None and (len(got) != 1 or not match_msg(st.env, got[0], [GRSP, NNHI, NNLO, RDGN, None if own else idx, INVD])):
                r = "sends %s, expected the response: invalid diagnostic" % ", ".join(msgstr(g) for g in got)
            ob("%s: unknown diagnostic code" % cls, r, st)
        meaning(c, L, cls, vals, ob)

    # the request itself
    lim = bounded(L, S, 30)
    cl = [t[len(NS):] for t in L.services() if L.w.is_a(t, NS + MNS + "WithDiagnostics")]
    if not cl:
        raise AnalysisError("anchor lost: minimum node service with diagnostics")
    for cls in cl:
        sid = svc_id(L, cls)

        def ctx(ln, pre, name):
            def pr(env):
                lim(env)
                pre(env)
            x = Idle(c, L, cls, op=RDGN, ln=ln, nn="own", pre=pr)
            x.name = "%s RDGN %s" % (cls, name)
            return x

        def calls(st):
            return [e for e in st.log if e.kind == "vcall"] + [e for e in st.log if e.kind == "loop" and any(x.kind == "vcall" for x, _ in walk((e,)))]

        def silent(x, exp, label):
            for st in x.states:
                r = mismatch(c, L, x, st, exp)
                if r is None and calls(st):
                    r = "reports diagnostics at %s" % calls(st)[0].loc
                ob("%s %s" % (x.name, label), r, st)
        silent(ctx([3, 4], lambda e: 0, "too short"), Expect(msgs=[grsp(RDGN, sid, INVCMD)]), "")
        ok = list(range(5, 9))
        silent(ctx(ok, lambda e: e.assume(ult(zext(S.len, 64), zext(D[3], 64))), "index above the number of services"), Expect(msgs=[grsp(RDGN, sid, INVSVC)]), "")

        def rng(e):
            e.assume(ult(K(0), D[3]))
            e.assume(ult(zext(S.len, 64), zext(D[3], 64)), False)
        x = ctx(ok, rng, "one service")
        for st in x.states:
            asks = [z for z, lp in walk(st.log) if z.kind == "svcask"]
            p = asks[0].a["obj"] if asks else None
            r = None
            if p is None or not S.is_nth(st.env, p, D[3]):
                r = "the requested service is not looked at"
            else:
                real = S.is_real(st.env, p)
                cs = calls(st)
                if real is None:
                    r = "answer does not depend on the service being a protocol service"
                elif not real:
                    r = mismatch(c, L, x, st, Expect(msgs=[grsp(RDGN, sid, INVSVC)])) or ("reports diagnostics" if cs else None)
                else:
                    r = mismatch(c, L, x, st, Expect())
                    if r is None and len(cs) != 1 or (cs and cs[0].kind == "loop"):
                        r = "asks %d services" % len(cs)
                    if r is None:
                        m = cs[0].a["method"].split("::")[-1]
                        z = zero_test(st.env, D[4])
                        a = cs[0].a["args"]
                        if cs[0].a["obj"] != ("*", p) and not S.is_nth(st.env, objref(cs[0].a["obj"]), D[3]):
                            r = "asks another service than the requested"
                        elif not st.env.same(a[0], D[3]):
                            r = "passes service index %s" % show(a[0])
                        elif m == "reportDiagnostics":
                            if not st.env.same(a[1], D[4]):
                                r = "passes diagnostic code %s" % show(a[1])
                        elif m == "reportAllDiagnostics":
                            if z is not False:
                                r = "reports all values although a code was given"
                        else:
                            r = "calls %s" % m
            ob(x.name, r, st)
        x = ctx(ok, lambda e: e.assume(eq(D[3], K(0))), "all services")
        for st in x.states:
            lp = svcloops(st)
            r = mismatch(c, L, x, st, Expect())
            if r is None:
                ls = [e for e in lp if any(z.kind == "vcall" for z, _ in walk((e,)))]
                if len(ls) != 1 or any(e.kind == "vcall" for e in st.log):
                    r = "does not ask the services one by one"
                else:
                    e = ls[0]
                    r = S.covers(st, e)
                    if r is None:
                        for k, (q, env, nv) in enumerate(e.a["_iters"]):
                            p = S.el[k][0]
                            real = S.is_real(env, p)
                            vc = [z for z in q if z.kind == "vcall"]
                            if real is None or len(vc) != int(real):
                                r = "%d reports from a service (%s) at %s" % (len(vc), real, e.loc)
                                break
                            if real and (vc[0].a["method"].split("::")[-1] not in ("reportAllDiagnostics", "reportDiagnostics") or not S.is_nth_in(st, e, env, p, vc[0].a["args"][0])):
                                r = "service asked with index %s at %s" % (show(vc[0].a["args"][0]), vc[0].loc)
                                break
                            if real and vc[0].a["method"].endswith("::reportDiagnostics") and not env.same(vc[0].a["args"][1], K(0)):
                                r = "service asked for a single value at %s" % vc[0].loc
                                break
            ob(x.name, r, st)


def word(v):
    """(member atom, bit offset) when the two bytes are 16 consecutive bits of one term"""
    hi, lo = v[0], v[1]
    return concat([lo, hi])


def meaning(c, L, cls, vals, ob):
    """what the values are taken from"""
    isa = lambda b: L.w.is_a(NS + cls, NS + b)
    if isa("CanService"):
        for k, m in ((1, "receiveErrorCounter"), (2, "transmitErrorCounter"), (3, "errorStatus"), (6, "transmitCounter"), (9, "receiveCounter")):
            if k not in vals:
                continue
            hi, lo, st = vals[k]
            vc = [e.a["method"].split("::")[-1] for e, lp in walk(st.log) if e.kind == "vcall"]
            r = None
            if not vc or any(x != m for x in vc):
                r = "value %d is taken from %s, expected %s" % (k, vc, m)
            else:
                for b, t in (("high", hi), ("low", lo)):
                    at = [a for a in support(t)]
                    if len(at) != 1 or not (isinstance(at[0].a, tuple) and at[0].a[0] == "vret"):
                        r = "%s byte of value %d is %s" % (b, k, show(t))
                    elif t is not slice_(at[0], 8 if b == "high" else 0, 8):
                        r = "%s byte of value %d is %s" % (b, k, show(t))
            ob("%s: diagnostic code %d reports %s" % (cls, k, m), r, st)
        return
    if isa(MNS):
        for k, sh in ((2, 16), (3, 0)):
            if k in vals:
                hi, lo, st = vals[k]
                a = [x for x in support(lo)]
                r = None
                now = [x for x in a if isinstance(x.a, tuple) and "millis" in str(x.a)]
                if len(now) != 1:
                    r = "value %d is %s, expected the uptime in seconds" % (k, show(concat([lo, hi])))
                else:
                    up = tm.op2("udiv", now[0], const(now[0].w, 1000))
                    same = lambda t, s: st.env.same(t, slice_(up, s, 8)) if s + 8 <= up.w else st.env.same(t, K(0))
                    if not same(lo, sh) or not same(hi, sh + 8):
                        r = "value %d is %s, expected bits %d.. of the uptime in seconds" % (k, show(concat([lo, hi])), sh)
                ob("%s: diagnostic code %d reports the uptime" % (cls, k), r, st)
    # counters: the member a value is taken from
    COUNT = {"EventConsumerService": (1, consumed), "EventProducerService": (1, produced), "EventTeachingService": (1, taught), MNS: (5, renumbered)}
    for b, (k, events) in COUNT.items():
        if not isa(b) or k not in vals or isa("ConsumeOwnEventsService"):
            continue
        hi, lo, st = vals[k]
        a = support(concat([lo, hi]))
        r = None
        m = None
        if len(a) != 1:
            r = "value %d is %s" % (k, show(concat([lo, hi])))
        else:
            m = list(a)[0]
            if lo is not slice_(m, 0, 8) or hi is not slice_(m, 8, 8):
                r = "value %d is sent as %s, expected high and low byte of the counter" % (k, show(concat([hi, lo])))
        ob("%s: diagnostic code %d reports a counter" % (cls, k), r, st)
        if r is None:
            counter(c, L, cls, m, events, ob)


def field_of(L, obj, m):
    st = L.state()
    ty = L.w.otype[obj]
    for (o, s, l, y) in L.w.leaves(ty):
        if s <= 8 and L.I.load(st, obj, C64(o), s) is m:
            return o, s
    return None


def counter(c, L, cls, m, events, ob):
    """the counter m advances by exactly the number of counted events"""
    obj = L.obj(cls)
    f = field_of(L, obj, m)
    if f is None:
        c.ob("%s: counter %s is a member" % (cls, show(m)), False, "not found")
        return
    s0 = construct(L, L.state(), cls)
    v = s0.env.norm(L.I.load(s0, obj, C64(f[0]), f[1]))
    c.ob("%s: counter starts at zero" % cls, v.op == "c" and v.a == 0, "a new service starts with %s" % show(v), cls + ".h")
    for name, st0, st in events(c, L, cls):
        n = events.count(L, st)
        old = L.I.load(st0, obj, C64(f[0]), f[1])
        new = L.I.load(st, obj, C64(f[0]), f[1])
        r = None
        if n is None:
            r = "number of counted events is not determined"
        elif not st.env.same(new, add(old, const(old.w, n))):
            r = "counter ends as %s after %d counted event(s)" % (show(st.env.norm(new)), n)
        ob("%s: counter after %s" % (cls, name), r, st)


def allops(c, L, cls, ops=range(256), pre=None, prep=None):
    class X(Idle):
        def run(self, st, pa):
            if prep:
                st = prep(st)
            Idle.run(self, st, pa)
    for op in ops:
        x = X(c, L, cls, op=op, ln=list(range(1, 9)), pre=pre)
        for st in x.states:
            yield "%02X" % op, x.st0, st


def consumed(c, L, cls):
    from events import hooked, HANDLER

    def prep(st):
        L.w.nonnull.add(HANDLER)
        return hooked(L, st, cls, "setEventHandler", HANDLER)
    yield from allops(c, L, cls, prep=prep)


def n_callbacks(L, st):
    return sum(1 for e, lp in walk(st.log) if e.kind == "callback")


consumed.count = n_callbacks


def produced(c, L, cls):
    from events import method
    for n in range(4):
        f = method(L, cls, "sendEvent", 3 + n)
        st = L.state()
        st0 = st.copy()
        for r, s in L.I.call(f, [ptr(L.obj(cls), C64(0)), atom("on", 1), atom("ev", 8)] + [atom("x%d" % i, 8) for i in range(n)], st):
            yield "an event with %d data bytes" % n, st0, s
    yield from allops(c, L, cls)


def n_events(L, st):
    ops = set()
    for s in ("ACON", "ACOF", "ASON", "ASOF"):
        for i in ("", "1", "2", "3"):
            ops.add(enumval(L.w, "VlcbOpCodes", "OPC_" + s + i))
    n = 0
    for e, lp in walk(st.log):
        if is_out(e):
            o = []
            for e2, v in casesplit(st.env, e.a["data"][0]):
                v = e2.values(v)
                if not v:
                    return None
                o += v
            if len(set(x in ops for x in o)) != 1:
                return None
            n += o[0] in ops
    return n


produced.count = n_events


def taught(c, L, cls):
    yield from allops(c, L, cls)


def n_taught(L, st):
    ok = enumval(L.w, "VlcbGrspCodes", "GRSP_OK")
    ev = [enumval(L.w, "VlcbOpCodes", n) for n in ("OPC_EVLRN", "OPC_EVLRNI")]
    return sum(1 for e, lp in walk(st.log) if is_out(e) and any(match_msg(st.env, e, [GRSP, NNHI, NNLO, o, None, ok]) for o in ev))


taught.count = n_taught


def renumbered(c, L, cls):
    yield from allops(c, L, cls)


def n_nnack(L, st):
    return sum(1 for e, lp in walk(st.log) if is_out(e) and st.env.same(e.a["data"][0], K(enumval(L.w, "VlcbOpCodes", "OPC_NNACK"))))


renumbered.count = n_nnack

if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
