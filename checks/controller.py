"""The controller: dispatch of actions to the services, queueing, flags parameter."""
from common import *
from diag import Svc, services_model, objref, svcloops
from buffer import truth

CB = NS + "CircularBuffer<" + NS + "Action>::"
ASZ = 10


def real_queue(L):
    """use the real queue instead of the effect boundary"""
    L.w.hooks.pop(CB + "put", None)


def queue_field(L):
    lv = [x for x in L.w.leaves(NS + "Controller") if x[2].endswith(".capacity")]
    if len(lv) != 1:
        raise AnalysisError("anchor lost: the controller's action queue")
    return lv[0][0] - [x for x in L.w.leaves(NS + "CircularBuffer<" + NS + "Action>") if x[2] == "capacity"][0][0]


def process_model(L, what, extra=None):
    """a service's reaction to being called: recorded, with the action it is given"""
    def f(I, st, fr, ins, args, obj, what=what):
        by = None
        who = None
        if what == "process":
            a = st.env.norm(args[1])
            if a.op == "c" and a.a == 0:
                by = "none"
            elif st.env.decide(eq(a, C64(0))) is None:
                by = "unknown"
            else:
                o, f = I.deref(st, a)
                who = o
                by = tuple(I.load(st, o, add(f, C64(i)), 1) for i in range(ASZ)) if o is not None and o != ("null",) else "none"
        I.ev(st, "vcall", fr, ins, method="Service::" + what, obj=obj, args=tuple(x for x in args[1:] if isinstance(x, T)), by=by, who=who)
        return [(None, st)]
    L.w.virt[NS + "Service::" + what] = f


def act(n):
    return tuple(atom(("action", n, i), 8) for i in range(ASZ))


def one(c, r, what):
    if len(r) != 1:
        c.ob(what, False, "%d possible outcomes" % len(r), "Controller.cpp")
        return None
    return r[0]


def with_queue(c, L):
    """a controller whose queue has just been constructed"""
    st = L.state()
    off = queue_field(L)
    f = [f for f in L.w.bydem[CB + "CircularBuffer"] if not f.decl][0]
    st = L.I.call(f, [ptr("Ctrl", C64(off)), K(30)], st)[0][1]
    st.log = ()
    return st


def put(L, st, a, how="ref"):
    o = ("newaction", st.fresh())
    L.w.osize[o] = ASZ
    for i, b in enumerate(a):
        L.I.store(st, o, C64(i), 1, b)
    f = [f for f in L.w.bydem[NS + "Controller::putAction"] if not f.decl and f.params[1]["type"] == "ptr"][0]
    return L.I.call(f, [ptr("Ctrl", C64(0)), ptr(o, C64(0))], st)


def process(L, st):
    st.log = ()
    return L.I.call(L.w.fn(NS + "Controller::process"), [ptr("Ctrl", C64(0))], st)


def handed(S, st, want, queue):
    """None when this step handed exactly `want` to every service"""
    ls = [e for e in svcloops(st) if any(z.kind == "vcall" for z, _ in walk((e,)))]
    if len(ls) != 1 or any(e.kind == "vcall" for e in st.log):
        # the list may be empty on this path
        if not ls and not [e for e in st.log if e.kind == "vcall"] and st.env.decide(eq(S.len, const(S.len.w, 0))) is True:
            return None
        return "the services are not called one by one"
    e = ls[0]
    r = S.covers(st, e)
    if r:
        return r
    for k, (q, env, nv) in enumerate(e.a["_iters"]):
        vc = [z for z, _ in walk(q) if z.kind == "vcall" and z.a["method"].endswith("::process")]
        if len(vc) != 1:
            return "a service is called %d times for one action" % len(vc)
        by = vc[0].a["by"]
        if want is None:
            if by != "none":
                return "services are handed an action although none is queued"
        elif not isinstance(by, tuple):
            return "services are not handed the queued action (%s)" % by
        elif not all(env.same(x, y) for x, y in zip(by, want)):
            return "services are handed %s instead of the oldest queued action" % ",".join(show(env.norm(x)) for x in by[:3])
        elif vc[0].a["who"] in queue:
            return "services work on the queue's own memory, which the next queued action may overwrite"
    return None


def dispatch(c):
    L = c.lib(contracts=False)
    real_queue(L)
    S = Svc(L)
    process_model(L, "process")
    base = with_queue(c, L)
    env = base.wenv()
    env.assume(ult(S.len, const(S.len.w, 255)))      # service indexes are bytes in the protocol
    o, s = queue_field(L), L.w.types[NS + "CircularBuffer<" + NS + "Action>"]["size"]
    lv = [x for x in L.w.leaves(NS + "Controller") if o <= x[0] < o + s and x[3].endswith("*")]
    queue = {L.I.deref(base, L.I.load(base, "Ctrl", C64(x[0]), 8, True))[0] for x in lv} | {"Ctrl"}
    loc = "Controller.cpp"
    for total in (0, 1, 2, 3, 29, 30, 31):
        sts = [base.copy()]
        acts_ = [act(i) for i in range(total)]
        for a in acts_:
            nx = []
            for st in sts:
                r = one(c, put(L, st, a), "queueing an action")
                if r is None:
                    return
                nx.append(r[1])
            sts = nx
        want = acts_[-30:]
        for i in range(len(want) + 2):
            w = want[i] if i < len(want) else None
            nx = []
            for st in sts:
                for _, s2 in process(L, st):
                    r = handed(S, s2, w, queue)
                    c.ob("%d actions queued: step %d hands %s to every service" % (total, i + 1, "action %d" % (i + 1) if w else "no action"), r is None, (r or "") + " -- " + (statestr(s2) if r else ""), lastloc(s2) if r else "")
                    c.ob("%d actions queued: step %d stays in bounds" % (total, i + 1), not s2.alarms, str(sorted(s2.alarms, key=repr)[:1]), loc)
                    s2.log = ()
                    nx.append(s2)
            if c.failed():
                return
            sts = nx[:4]
    # a service may queue actions while it is being called: they come next, in order
    order = [0]

    def reacting(I, st, fr, ins, args, obj):
        return NotImplemented
    # pendingAction tells whether anything is queued
    f = L.w.fn(NS + "Controller::pendingAction")
    st = base.copy()
    for want in (False, True, False):
        r = one(c, L.I.call(f, [ptr("Ctrl", C64(0))], st), "pendingAction")
        c.ob("pendingAction is %s" % want, r is not None and truth(r[1].env, r[0]) is want, "reports %s" % (show(r[0]) if r else "?"), loc)
        if r is None:
            return
        st = r[1]
        if not want:
            st = put(L, st, act(90))[0][1]
        else:
            st = process(L, st)[0][1]


def queueing(c):
    """each sending call queues exactly its one action"""
    L = c.lib()
    loc = "Controller.cpp"
    w = L.w

    def check(name, f, args, want, st=None):
        st = st or L.state()
        st0 = st.copy()
        for ret, s in L.I.call(f, [ptr("Ctrl", C64(0))] + args, st):
            aa = [e for e, lp in walk(s.log) if e.kind == "action"]
            lo = [1 for e, lp in walk(s.log) if e.kind == "action" and lp]
            r = None
            if len(aa) != 1 or lo:
                r = "queues %d actions" % len(aa)
            else:
                a = aa[0]
                ty, ln, data = want
                if not s.env.same(a.a["type"], K(ty)):
                    r = "queues an action of type %s" % show(a.a["type"])
                elif ln is not None and not s.env.same(a.a["len"], ln if isinstance(ln, T) else K(ln)):
                    r = "queues an action with %s as its first payload byte" % show(a.a["len"])
                else:
                    for i, d in enumerate(data):
                        if not s.env.same(a.a["data"][i], d):
                            r = "byte %d is %s" % (i, show(s.env.norm(a.a["data"][i])))
                            break
            if r is None and ret is not None and f.ret in ("i1", "i8") and truth(s.env, ret) is not True:
                r = "reports failure"
            if r is None:
                bad = [e for e, lp in walk(s.log) if e.kind in ("swrite", "swriten", "sreset", "callback", "frame")]
                if bad:
                    r = "has another effect at %s" % bad[0].loc
            if r is None and (s.alarms):
                r = "accesses memory outside its buffers: %s" % (sorted(s.alarms, key=repr)[0],)
            c.ob(name, r is None, (r or "") + " -- " + (statestr(s) if r else ""), lastloc(s) if r else loc)

    # messages
    msg = ("usermsg",)
    w.osize[msg] = 9
    st = L.state()
    bl = [atom(("user", i), 8) for i in range(9)]
    for i, b in enumerate(bl):
        L.I.store(st, msg, C64(i), 1, b)
    for n in range(9):
        s1 = st.copy()
        L.I.store(s1, msg, C64(0), 1, K(n))
        check("sendMessage queues a message of %d bytes unchanged" % n, w.fn(NS + "Controller::sendMessage"), [ptr(msg, C64(0))], (OUT, n, bl[1:1 + n]), s1)
    op = atom("opc", 8)
    b = [atom(("arg", i), 8) for i in range(5)]
    for f in w.bydem.get(NS + "Controller::sendMessageWithNN", []):
        if f.decl:
            continue
        k = len(f.params) - 2
        t = f.params[1]["type"]
        check("sendMessageWithNN with %d data bytes" % k, f, [zext(op, int(t[1:]))] + b[:k], (OUT, 3 + k, [op, NNHI, NNLO] + b[:k]))
    check("sendWRACK", w.fn(NS + "Controller::sendWRACK"), [], (OUT, 3, [K(0x59), NNHI, NNLO]))
    check("sendCMDERR", w.fn(NS + "Controller::sendCMDERR"), [b[0]], (OUT, 4, [K(0x6F), NNHI, NNLO, b[0]]))
    f = w.fn(NS + "Controller::sendGRSP")
    check("sendGRSP", f, [zext(op, int(f.params[1]["type"][1:])), b[0], b[1]], (OUT, 6, [K(0xAF), NNHI, NNLO, op, b[0], b[1]]))
    # actions
    for f in w.bydem.get(NS + "Controller::putAction", []):
        if f.decl:
            continue
        if f.params[1]["type"] == "ptr":
            o = ("useraction",)
            w.osize[o] = ASZ
            st = L.state()
            ab = [atom(("uact", i), 8) for i in range(ASZ)]
            for i, x in enumerate(ab):
                L.I.store(st, o, C64(i), 1, x)
            # messages by length, other actions with their one payload byte
            for ty, n in [(t, n) for t in (IN, OUT) for n in range(9)] + [(CANENUM, 0), (IMODE, 0)]:
                s1 = st.copy()
                L.I.store(s1, o, C64(0), 1, K(ty))
                if ty in (IN, OUT):
                    L.I.store(s1, o, C64(1), 1, K(n))
                for ret, s in L.I.call(f, [ptr("Ctrl", C64(0)), ptr(o, C64(0))], s1):
                    aa = [e for e, lp in walk(s.log) if e.kind == "action"]
                    ok = len(aa) == 1 and all(s.env.same(x, y) for x, y in zip([aa[0].a["type"], aa[0].a["len"]] + list(aa[0].a["data"]), [K(ty), K(n) if ty in (IN, OUT) else ab[1]] + ab[2:2 + n]))
                    c.ob("putAction queues the action unchanged (type %d, %d bytes)" % (ty, n), ok, "queues %d actions or changes it" % len(aa), loc)
        else:
            for t in range(7):
                check("putAction of type %d" % t, f, [const(int(f.params[1]["type"][1:]), t)], (t, None, []))
    check("indicateActivity", w.fn(NS + "Controller::indicateActivity"), [], (IACT, None, []))


def startup(c):
    """begin() and the constructors"""
    L = c.lib(contracts=False)
    S = Svc(L)
    w = L.w
    process_model(L, "begin")

    def cbegin(I, st, fr, ins, args, fn):
        I.ev(st, "cfgbegin", fr, ins)
        return [(None, st)]
    w.hooks[NS + "Configuration::begin"] = cbegin
    base = L.state()
    base.wenv().assume(ult(S.len, const(S.len.w, 255)))
    for _, st in L.I.call(w.fn(NS + "Controller::begin"), [ptr("Ctrl", C64(0))], base):
        r = None
        flat = [(e, lp) for e, lp in walk(st.log) if e.kind in ("cfgbegin", "vcall")]
        if len([1 for e, lp in flat if e.kind == "cfgbegin"]) != 1 or flat[0][0].kind != "cfgbegin" or flat[0][1]:
            r = "the configuration is not started once before the services"
        ls = [e for e in svcloops(st)]
        if r is None and not ls:
            if st.env.decide(eq(S.len, const(S.len.w, 0))) is not True:
                r = "the services are not started"
        elif r is None:
            if len(ls) != 1 or any(e.kind == "vcall" for e in st.log):
                r = "the services are not started one by one"
            else:
                r = S.covers(st, ls[0])
                for q, env, nv in ls[0].a["_iters"]:
                    vc = [z for z, _ in walk(q) if z.kind == "vcall"]
                    if r is None and (len(vc) != 1 or not vc[0].a["method"].endswith("::begin")):
                        r = "a service is started %d times" % len(vc)
        c.ob("begin starts the configuration and then every service once, in order", r is None, (r or "") + " -- " + (statestr(st) if r else ""), lastloc(st) if r else "Controller.cpp")
    # constructors: every service in the list knows its controller, the list is kept
    for n in range(0, 5):
        for f in [f for f in w.bydem.get(NS + "Controller::Controller", []) if not f.decl]:
            st = L.state()
            il = ("services", n)
            w.osize[il] = 8 * n
            svc = []
            for i in range(n):
                o = ("svc", i)
                w.otype[o] = NS + "Service"
                w.osize[o] = w.types[NS + "Service"]["size"]
                svc.append(o)
                L.I.store(st, il, C64(8 * i), 8, ptr(o, C64(0)))
            ctl = ("heap", "controller", n, len(f.params))
            w.otype[ctl] = NS + "Controller"
            w.osize[ctl] = w.types[NS + "Controller"]["size"]
            args = [ptr(ctl, C64(0))]
            if len(f.params) == 4:
                args.append(ptr("Config", C64(0)))
            args += [ptr(il, C64(0)), C64(n)]
            if len(args) != len(f.params):
                c.ob("constructor with %d parameters" % len(f.params), False, "parameters not understood", "Controller.cpp")
                continue
            nm = "controller of %d services (%d parameters)" % (n, len(f.params))
            res = L.I.call(f, args, st)
            for _, s in res:
                r = None
                lv = w.leaves(NS + "Controller")
                a = [x for x in lv if x[2].startswith("services.") and x[3].endswith("*")][0]
                k = [x for x in lv if x[2].startswith("services.") and not x[3].endswith("*")][0]
                if not s.env.same(L.I.load(s, ctl, C64(k[0]), k[1]), const(8 * k[1], n)):
                    r = "the list holds %s services" % show(L.I.load(s, ctl, C64(k[0]), k[1]))
                arr = L.I.load(s, ctl, C64(a[0]), 8, True)
                o, fo = L.I.deref(s, arr)
                cf = [x for x in w.leaves(NS + "Service") if x[2] == "controller"]
                for i in range(n):
                    if r is None and not s.env.same(L.I.load(s, o, add(fo, C64(8 * i)), 8, True), ptr(svc[i], C64(0))):
                        r = "entry %d of the list is not the given service" % i
                    if r is None and o == il:
                        r = "the list is not copied"
                    if r is None and cf and not s.env.same(L.I.load(s, svc[i], C64(cf[0][0]), 8, True), ptr(ctl, C64(0))):
                        r = "service %d does not get the controller" % i
                if r is None and len(f.params) == 4:
                    mc = [x for x in lv if x[2] == "module_config"][0]
                    if not s.env.same(L.I.load(s, ctl, C64(mc[0]), 8, True), ptr("Config", C64(0))):
                        r = "the configuration is not kept"
                elif r is None:
                    mc = [x for x in lv if x[2] == "module_config"][0]
                    g = [n for n in w.globals if n in ("config", "_ZN4VLCB6configE")]
                    if not g or not s.env.same(L.I.load(s, ctl, C64(mc[0]), 8, True), ptr(L.I.gobj(g[0]), C64(0))):
                        r = "the sketch's configuration is not used"
                if r is None and s.alarms:
                    r = "outside its memory: %s" % (sorted(s.alarms, key=repr)[0],)
                c.ob(nm, r is None, (r or ""), "Controller.cpp")
            c.ob(nm + " has one outcome", len(res) == 1, "%d outcomes" % len(res), "Controller.cpp")


def run(c):
    dispatch(c)
    queueing(c)
    startup(c)


# ------------------------------------------------------------------ parameters
def flags(c):
    L = c.lib(contracts=False, partition=True)
    w = L.w
    w.maxitems = 700
    services_model(L)
    loc = "Controller.cpp"
    E_ = lambda n: enumval(w, "VlcbParamFlags", n)
    SID = lambda n: enumval(w, "VlcbServiceTypes", n)
    PFL = enumval(w, "VlcbParams", "PAR_FLAGS")
    rule = {SID("SERVICE_ID_MNS"): 64, SID("SERVICE_ID_PRODUCER"): 2, SID("SERVICE_ID_CONSUMER"): 1, SID("SERVICE_ID_CONSUME_OWN_EVENTS"): 16}
    lv = w.leaves(NS + "Controller")
    fa = [x for x in lv if x[2].startswith("services.") and x[3].endswith("*")][0]
    fk = [x for x in lv if x[2].startswith("services.") and not x[3].endswith("*")][0]
    pf = w.field(NS + "Controller", "_mparams", want="unsigned char*")
    up = ("userparams",)
    w.osize[up] = 40
    sp = [f for f in w.bydem[NS + "Controller::setParams"] if not f.decl and w.j["functions"][f.name]["ptypes"][-1].startswith("unsigned char")]
    if len(sp) != 1:
        raise AnalysisError("anchor lost: Controller::setParams(unsigned char *)")
    mo = w.field(NS + "Configuration", "currentMode")

    def ids(n):
        return [atom(("getServiceID", ("svc", i)), 8) for i in range(n)]

    for n in range(0, 4 if c.tier == "quick" else 5):
        st = L.state()
        arr = ("list", n)
        w.osize[arr] = 8 * n
        for i in range(n):
            o = ("svc", i)
            w.otype[o] = NS + "Service"
            L.I.store(st, arr, C64(8 * i), 8, ptr(o, C64(0)))
        L.I.store(st, "Ctrl", C64(fa[0]), 8, ptr(arr, C64(0)))
        L.I.store(st, "Ctrl", C64(fk[0]), fk[1], const(8 * fk[1], n))
        before = [L.I.load(st, up, C64(i), 1) for i in range(40)]
        st.log = ()
        for _, s in L.I.call(sp[0], [ptr("Ctrl", C64(0)), ptr(up, C64(0))], st):
            c.cases += 1
            r = None
            g = L.I.load(s, up, C64(PFL), 1)
            m = L.I.load(s, "Config", C64(mo[0]), mo[1])
            tests = [[(eq(a, K(k)), b) for k, b in rule.items()] for a in ids(n)] + [[(eq(m, const(m.w, NORMAL)), 4)]]
            for e2, want in splits(s.env, tests):
                x = e2.norm(g)
                if not (x.op == "c" and x.a == want):
                    r = "flags are %s, expected %#x" % (show(x), want)
            if r is None:
                for i in range(40):
                    if i != PFL and not s.env.same(L.I.load(s, up, C64(i), 1), before[i]):
                        r = "parameter %d changes" % i
            if r is None and not s.env.same(L.I.load(s, "Ctrl", C64(pf[0]), 8, True), ptr(up, C64(0))):
                r = "the controller does not use the given parameters"
            c.ob("flags of %d services" % n, r is None, (r or "") + " -- " + (statestr(s) if r else ""), loc)
    # any number of services: all of them are asked
    S = Svc(L)
    st = L.state()
    st.wenv().assume(ult(S.len, const(S.len.w, 255)))
    for _, s in L.I.call(sp[0], [ptr("Ctrl", C64(0)), ptr(up, C64(0))], st):
        ls = svcloops(s)
        r = None
        if len(ls) != 1:
            r = None if not ls and s.env.decide(eq(S.len, const(S.len.w, 0))) is True else "the services are not asked one by one"
        else:
            r = S.covers(s, ls[0])
        c.ob("flags consider every service", r is None, (r or "") + " -- " + (statestr(s) if r else ""), loc)

    # changing single flags
    P = paramsobj(L)
    f = w.fn(NS + "Controller::setParamFlag")
    for nm, bit in all_enum(w, "VlcbParamFlags").items():
        for on in (0, 1):
            st = L.state()
            old = L.I.load(st, P, C64(PFL), 1)
            tys = [p["type"] for p in f.params[1:]]
            for _, s in L.I.call(f, [ptr("Ctrl", C64(0)), const(int(tys[0][1:]), bit), const(int(tys[1][1:]), on)], st):
                pc = changed(L, st, s, P)
                g = L.I.load(s, P, C64(PFL), 1)
                want = bor(old, K(bit)) if on else band(old, K(bit ^ 0xff))
                r = None if s.env.same(g, want) else "flags end as %s" % show(g)
                if any(o != PFL for o, _, _ in pc):
                    r = "another parameter changes"
                c.ob("setParamFlag(%s, %d)" % (nm, on), r is None, r or "", loc)
    L2 = c.lib()
    f = L2.w.fn(NS + "Controller::indicateMode")
    P = paramsobj(L2)
    for m in (UNINIT, SETUP, NORMAL):
        st = L2.state()
        old = L2.I.load(st, P, C64(PFL), 1)
        for _, s in L2.I.call(f, [ptr("Ctrl", C64(0)), const(int(f.params[1]["type"][1:]), m)], st):
            r = None
            g = L2.I.load(s, P, C64(PFL), 1)
            want = bor(old, K(4)) if m == NORMAL else band(old, K(0xfb))
            if not s.env.same(g, want):
                r = "flags end as %s" % show(g)
            if any(o != PFL for o, _, _ in changed(L2, st, s, P)):
                r = "another parameter changes"
            aa = [e for e, lp in walk(s.log) if e.kind == "action"]
            if r is None and (len(aa) != 1 or not s.env.same(aa[0].a["type"], K(IMODE)) or not s.env.same(aa[0].a["len"], K(m))):
                r = "does not queue one indication of the mode"
            c.ob("indicateMode(%d)" % m, r is None, r or "", loc)
    # reading
    f = L.w.fn(NS + "Controller::getParam")
    for i in range(21):
        st = L.state()
        for v, s in L.I.call(f, [ptr("Ctrl", C64(0)), const(int(f.params[1]["type"][1:]), i)], st):
            c.ob("getParam(%d)" % i, s.env.same(v, L.I.load(st, paramsobj(L), C64(i), 1)), "is %s" % show(v), "Controller.h")
    block(c, L)
    for b in BOARDS:
        block(c, c.lib(defines=(b[0],)), b)


def splits(env, tests):
    """every way the undecided tests can go; each test group is a list of exclusive (condition, bit)"""
    if not tests:
        yield env, 0
        return
    ds = [env.decide(cd) for cd, _ in tests[0]]
    for i, (cd, b) in enumerate(tests[0]):
        if ds[i] is False:
            continue
        e = env if ds[i] else env.copy()
        if not ds[i] and e.assume(cd, True) is False:
            continue
        for e2, v in splits(e, tests[1:]):
            yield e2, v | b
        if ds[i]:
            return
    e = env.copy()
    for i, (cd, _) in enumerate(tests[0]):
        if ds[i] is None and e.assume(cd, False) is False:
            return
    yield from splits(e, tests[1:])


def bor(a, b):
    return op2("or", a, b)


def band(a, b):
    return op2("and", a, b)


BOARDS = (("__AVR_ATmega328P__", "328P"), ("__AVR_ATSAM3X8E__", "3X8E"), ("__AVR_ATmega16U4__", "16U4"), ("__AVR_ATmega1280__", "1280"), ("__AVR_ATmega2560__", "2560"))


def block(c, L, board=None):
    """the parameter block filled by class Parameters"""
    w = L.w
    A = lambda n: enumval(w, "VlcbParams", n)
    loc = "Parameters.h"
    g = [n for n, d in w.globals.items() if (d.get("diname") == "params" and "Parameters" in n)]
    if len(g) != 1:
        raise AnalysisError("anchor lost: Parameters::params")
    G = ("g", g[0])
    SZ = w.globals[g[0]]["size"]
    cls = NS + "Parameters::"

    def call(name, args, st):
        f = [f for f in w.bydem.get(cls + name, []) if not f.decl]
        if not f:
            raise AnalysisError("anchor lost: Parameters::" + name)
        fit = [const(int(p["type"][1:]), a) if isinstance(a, int) else trunc(a, int(p["type"][1:])) if p["type"] != "ptr" and a.w > int(p["type"][1:]) else a for p, a in zip(f[0].params[1:], args)]
        r = L.I.call(f[0], [ptr("Params", C64(0))] + fit, st)
        c.ob("Parameters::%s has one outcome" % name, len(r) == 1, "%d" % len(r), loc)
        return r[0][1], r[0][0]

    def block_of(st):
        return [L.I.load(st, G, C64(i), 1) for i in range(SZ)]

    def expect(name, st0, st, want):
        old, new = block_of(st0), block_of(st)
        r = None
        for i in range(SZ):
            if i in want:
                v = want[i]
                if v is not None and not st.env.same(new[i], v if isinstance(v, T) else K(v)):
                    r = "parameter %d ends as %s" % (i, show(new[i]))
            elif not st.env.same(new[i], old[i]):
                r = "parameter %d changes" % i
            if r:
                break
        if st.alarms:
            r = "outside the parameter block: %s" % (sorted(st.alarms, key=repr)[0],)
        c.ob(name, r is None, r or "", loc)

    st = L.state()
    want = {A("PAR_NUM"): 20, A("PAR_MANU"): enumval(w, "VlcbManufacturer", "MANU_MERG_VLCB"), A("PAR_EVTNUM"): L.cfg("EE_MAX_EVENTS"), A("PAR_EVNUM"): L.cfg("EE_NUM_EVS"),
            A("PAR_NVNUM"): L.cfg("EE_NUM_NVS"), A("PAR_BUSTYPE"): enumval(w, "VlcbBusTypes", "PB_CAN", 1)}
    for i in range(4):
        want[A("PAR_LOAD") + i] = 0
        want[A("PAR_CPUMID") + i] = None
    want[A("PAR_CPUID")], want[A("PAR_CPUMAN")] = 50, enumval(w, "VlcbProcessorManufacturers", "CPUM_ATMEL", 2)
    s1, _ = call("Parameters", [ptr("Config", C64(0))], st)
    expect("Parameters: number, counts and defaults" + (", " + board[0] if board else ""), st, s1, {**want, **{A("PAR_CPUMID") + i: ord(b) for i, b in enumerate(board[1] if board else "????")}})
    if board:
        return
    c.ob("Parameters: the block has room for all parameters", SZ >= 21, "%d bytes" % SZ, loc)
    x = [atom(("par", i), 8) for i in range(3)]
    s1, _ = call("setVersion", x, st)
    expect("setVersion", st, s1, {A("PAR_MAJVER"): x[0], A("PAR_MINVER"): x[1], A("PAR_BETA"): x[2]})
    s1, _ = call("setManufacturer", x[:1], st)
    expect("setManufacturer", st, s1, {A("PAR_MANU"): x[0]})
    s1, _ = call("setModuleId", x[:1], st)
    expect("setModuleId", st, s1, {A("PAR_MTYP"): x[0]})
    s1, _ = call("setFlags", x[:1], st)
    expect("setFlags", st, s1, {PFL_(w): x[0]})
    nm = ("cpuname",)
    w.osize[nm] = 4
    s0 = L.state()
    s1, _ = call("setProcessor", [x[0], x[1], ptr(nm, C64(0))], s0)
    expect("setProcessor", s0, s1, {A("PAR_CPUMAN"): x[0], A("PAR_CPUID"): x[1], **{A("PAR_CPUMID") + i: L.I.load(s0, nm, C64(i), 1) for i in range(4)}})
    s1, p = call("getParams", [], st)
    o, f = L.I.deref(s1, p)
    c.ob("getParams hands out the block", o == G and s1.env.same(f, C64(0)), "is %s" % (o,), loc)


def PFL_(w):
    return enumval(w, "VlcbParams", "PAR_FLAGS")
