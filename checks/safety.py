"""Memory: nothing acts on members never given a value, and no access leaves its object."""
from common import *
from interp import isundef
from wire import argterm

KINDS = [None] + list(ACTIONS)


def sizes(L, count):
    """sizes of what the controller and the configuration point at, as the set-up functions make them"""
    w = L.w
    st = L.state()
    env = st.wenv()

    def target(obj, cls, name, want):
        o, s, y = w.field(NS + cls, name, want=want)
        return L.I.deref(st, L.I.load(st, obj, C64(o), 8, True))[0]
    w.osize[target("Config", "Configuration", "evhashtbl", "unsigned char*")] = zext(L.cfg("EE_MAX_EVENTS"), 64)
    w.osize[target("Ctrl", "Controller", "_mparams", "unsigned char*")] = 21
    w.osize[target("Ctrl", "Controller", "_mname", "unsigned char*")] = 7
    lv = w.leaves(NS + "Controller")
    a = [x for x in lv if x[2].startswith("services.") and x[3].endswith("*")]
    n = [x for x in lv if x[2].startswith("services.") and not x[3].endswith("*")]
    if len(a) != 1 or len(n) != 1:
        raise AnalysisError("anchor lost: the controller's list of services")
    arr = L.I.deref(st, L.I.load(st, "Ctrl", C64(a[0][0]), 8, True))[0]
    w.osize[arr] = 8 * count
    w.init[("Ctrl", n[0][0], n[0][1])] = const(8 * n[0][1], count)
    # the first parameter is the number of parameters
    P = target("Ctrl", "Controller", "_mparams", "unsigned char*")
    w.init[(P, enumval(w, "VlcbParams", "PAR_NUM"), 1)] = K(20)


def undef_at(st, L):
    """a description when an effect of the path depends on a value never written"""
    for e, lp in walk(st.log):
        for k, v in e.a.items():
            if k == "mem" or k == "ret":
                continue
            if e.kind == "action" and k == "data":
                n = st.env.rng(e.a["len"])[1] if not st.env.same(e.a["type"], K(IACT)) else 0
                if st.env.decide(eq(e.a["type"], K(OUT))) is False and st.env.decide(eq(e.a["type"], K(IN))) is False:
                    n = 0
                v = v[:n]
            if e.kind == "action" and k == "len" and not any(st.env.decide(eq(e.a["type"], K(x))) is not False for x in (IN, OUT, CANENUM, IMODE)):
                continue
            if e.kind == "frame" and k == "data":
                v = v[:min(8, st.env.rng(e.a["len"])[1])]
            for x in v if isinstance(v, (tuple, list)) else (v,):
                if isinstance(x, T) and any(isundef(a) for a in atoms(st.env.norm(x))):
                    return "%s at %s uses %s" % (e.kind, e.loc, show(x)[:80])
    return None


def constructed(c, L, full):
    """states of a service right after its construction and start-up"""
    cls = full[len(NS):]
    o = ("new", cls)
    L.obj(cls, o)
    fs = [f for f in L.w.bydem.get(full + "::" + cls, []) if not f.decl]
    if not fs:
        raise AnalysisError("anchor lost: constructor of " + cls)
    out = []
    for f in fs[:1]:
        args = [ptr(o, C64(0))] + [transport(L) if p["type"] == "ptr" else const(int(p["type"][1:]), 7 + i) for i, p in enumerate(f.params[1:])]
        for _, st in L.I.call(f, args, L.state()):
            off, sz, ty = L.w.field(full, "controller")
            L.I.store(st, o, C64(off), 8, ptr("Ctrl", C64(0)))
            al = [f2 for f2 in L.w.bydem.get(full + "::allocateContexts", []) if not f2.decl]
            sts = [st]
            if al:
                # the extended service must be given its contexts first
                sts = [s for _, s in L.I.call(al[0], [ptr(o, C64(0))] + [const(int(p["type"][1:]), v) for p, v in zip(al[0].params[1:], (2, 16, 2))], st)]
            fb = L.w.vmethod(full, "begin")
            for s in sts:
                out += [q for _, q in L.I.call(fb, [ptr(o, C64(0))], s)] if fb else [s]
    return o, out


def P34(c):
    L = c.lib()
    L.w.watch = True
    norm = lambda a: "%s %s" % (a[1], a[3])
    LIM = 400 if c.tier == "quick" else 4000
    for full in sorted(L.services()):
        cls = full[len(NS):]
        o, todo = constructed(c, L, full)
        fp = L.w.vmethod(full, "process")
        if fp is None:
            raise AnalysisError("anchor lost: process() of " + cls)

        def report(what, s):
            al = sorted((a for a in s.alarms if a[0] in ("undef", "null")), key=repr)
            r = None
            if al:
                r = "decides on a value never written: " + norm(al[0]) if al[0][0] == "undef" else "uses a null pointer: " + norm(al[0])
            else:
                r = undef_at(s, L)
            c.ob("%s: %s" % (cls, what), r is None, r or "", al[0][1] if al else lastloc(s))
            s.log = ()
            s.alarms = frozenset()
        for s in todo:
            report("construction and start-up", s)
        DEPTH = 2 if c.tier == "quick" else 3
        for st in todo:
            for m, args in (("reportAllDiagnostics", [K(1)]), ("reportDiagnostics", [K(1), atom("diagcode", 8)])):
                f = L.w.vmethod(full, m)
                if f is not None:
                    for _, s in L.I.call(f, [ptr(o, C64(0))] + args, st.copy()):
                        c.paths += 1
                        report(m, s)
        for depth in range(DEPTH):
            nxt = []
            cut = len(todo) > LIM
            for st in todo[:LIM]:
                for kind in KINDS:
                    s0 = st.copy()
                    c.cases += 1
                    pa = NULL if kind is None else L.action(s0, kind)
                    for _, s in L.I.call(fp, [ptr(o, C64(0)), pa], s0):
                        c.paths += 1
                        report("step %d %s" % (depth + 1, kind or "without action"), s)
                        nxt.append(s)
            if c.bad:
                break       # an undefined value has been followed far enough
            if cut:
                c.note("%s: only %d of %d states followed into step %d" % (cls, LIM, len(todo), depth + 1))
            if depth + 1 < DEPTH:
                todo = distinct(L, nxt, o)
    config_defined(c)


def anyobj(L, full, arrays=True, idling=False):
    """a service whose members have any value; with `arrays` False the bytes of
    member arrays are all ones, with `idling` it has no background work to do"""
    cls = full[len(NS):]
    o = L.obj(cls)
    st = L.state()
    if idling:
        st = idle(L, st, cls)
        for off, sz, nm, ty in L.w.leaves(full):
            if "(" in ty:
                L.I.store(st, o, C64(off), sz, L.I.load(L.state(), o, C64(off), sz, True))
        return o, [st]
    transport(L)
    for off, sz, nm, ty in L.w.leaves(full):
        if "[" in ty and not arrays:
            for i in range(sz):
                L.I.store(st, o, C64(off + i), 1, K(255))
        if "Transport" in ty and ty.endswith("*"):
            L.I.store(st, o, C64(off), 8, ptr("Transport", C64(0)))
        elif ty == "bool":
            L.I.store(st, o, C64(off), 1, zext(atom(("any", cls, nm), 1), 8))
    return o, [st]


def public(c, L, con):
    """look-up functions of the configuration called with any argument"""
    for name, args in (("getEvTableEntry", ["idx"]), ("findEventSpace", []), ("numEvents", []), ("clearEvHashTable", [])):
        f = L.w.fn(NS + "Configuration::" + name)
        st = L.state()
        res = [s for _, s in L.I.call(f, [ptr("Config", C64(0))] + [atom("arg." + a, 8) for a in args], st)]
        c.cases += 1
        c.paths += len(res)
        al = sorted(set(a for s in res for a in s.alarms if a[0] in ("oob", "null")), key=repr)
        c.ob("Configuration::%s" % name, not al, "; ".join("%s at %s: %s" % (a[0], a[1], a[3]) for a in al[:2]), al[0][1] if al else "")


    for cls, names in (("EventProducerService", ("sendEvent", "sendEventResponse")), ("LongMessageService", ("sendLongMessage",)), ("LongMessageServiceEx", ("sendLongMessage",))):
        if not con:
            break
        for name in names:
            fs = [f for f in L.w.bydem.get(NS + cls + "::" + name, []) if not f.decl]
            if not fs:
                raise AnalysisError("anchor lost: %s::%s" % (cls, name))
            for f in fs:
                o, sts = constructed(c, L, NS + cls) if "LongMessage" in cls else anyobj(L, NS + cls)
                for st in sts:
                    c.cases += 1
                    st.alarms = frozenset()
                    st.log = ()
                    res = [s for _, s in L.I.call(f, [ptr(o, C64(0))] + [argterm(t, i) for i, t in enumerate(f.params[1:])], st)]
                    c.paths += len(res)
                    al = sorted(set(a for s in res for a in s.alarms if a[0] in ("oob", "null")), key=repr)
                    c.ob("%s::%s with %d arguments" % (cls, name, len(f.params) - 1), not al, "; ".join("%s at %s: %s" % (a[0], a[1], a[3]) for a in al[:2]), al[0][1] if al else "")


def distinct(L, states, o):
    """one state of each kind: what the members and the configuration end as"""
    seen = {}
    for s in states:
        k = []
        for ob in (o, "Config"):
            cells, sym = objcells(L, s, ob)
            k.append(tuple((x, n, s.env.norm(L.I.load(s, ob, C64(x), n))) for x, n in sorted(cells.items()) if n <= 8))
        seen.setdefault(tuple(k), s)
    return list(seen.values())


def config_defined(c):
    """after start-up every member of the configuration has a value"""
    L = c.lib(contracts=False)
    L.w.watch = True
    o = ("new", "Configuration")
    L.obj("Configuration", o)
    fs = [f for f in L.w.bydem.get(NS + "Configuration::Configuration", []) if not f.decl and len(f.params) == 2]
    if len(fs) != 1:
        raise AnalysisError("anchor lost: Configuration(Storage *)")
    user = ("EE_NVS_START", "EE_NUM_NVS", "EE_EVENTS_START", "EE_MAX_EVENTS", "EE_NUM_EVS")
    for _, st in L.I.call(fs[0], [ptr(o, C64(0)), ptr("Storage", C64(0))], L.state()):
        for n in user:
            off, sz, ty = L.w.field(NS + "Configuration", n)
            L.I.store(st, o, C64(off), sz, L.cfg(n) if sz > 1 or L.cfg(n).w == 8 else zext(L.cfg(n), 8))
        for _, s in L.I.call(L.w.fn(NS + "Configuration::begin"), [ptr(o, C64(0))], st):
            c.cases += 1
            c.paths += 1
            al = [a for a in s.alarms if a[0] in ("undef", "null")]
            c.ob("Configuration::begin", not al and undef_at(s, L) is None, "%s" % (al[:1] or undef_at(s, L)), "Configuration.cpp")
            for off, sz, nm, ty in L.w.leaves(NS + "Configuration"):
                if sz > 8:
                    continue
                v = s.env.norm(L.I.load(s, o, C64(off), sz))
                c.ob("Configuration::%s has a value after start-up" % nm, not any(isundef(a) for a in atoms(v)), "is %s" % show(v), "Configuration.cpp")


def P30(c):
    unk = set()
    for con, count in ((True, 0), (True, 1), (True, 2), (True, 3), (False, 2)):
        L = c.lib(contracts=con)
        sizes(L, count)
        for full in sorted(L.services()):
            cls = full[len(NS):]
            if con and count != 3 and "MinimumNode" not in cls or not con and "CanService" in cls:
                continue
            for kind in KINDS:
                if "LongMessage" in cls or "UserInterface" in cls:
                    o, sts = constructed(c, L, full)
                else:
                    o, sts = anyobj(L, full, kind is None, "Producer" in cls and not con)
                for st in sts:
                    c.cases += 1
                    st.alarms = frozenset()
                    st.log = ()
                    pa = NULL if kind is None else L.action(st, kind)
                    res = [s for _, s in L.I.call(L.w.vmethod(full, "process"), [ptr(o, C64(0)), pa], st)]
                    c.paths += len(res)
                    al = sorted(set(a for s in res for a in s.alarms if a[0] in ("oob", "null")), key=repr)
                    c.ob("%s %s, %d services%s" % (cls, kind or "without action", count, "" if con else ", table functions included"), not al,
                         "; ".join("%s at %s: %s" % (a[0], a[1], a[3]) for a in al[:2]), al[0][1] if al else "")
        public(c, L, con)
        unk |= set(n for n, i in L.w.stats.get("bounds_unknown", ()))
    c.note("accesses to objects of unknown size (messages and buffers of the caller): " + ", ".join(sorted(unk)))


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
