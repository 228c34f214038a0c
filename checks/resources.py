"""What running code may use: the serial port, waiting functions and dynamic memory."""
import re
from longmsg import *
from termination import Term

SERIAL = re.compile(r"(^|[ (])(Serial_T::|Print::|Stream::|HardwareSerial::|operator<<\(Serial_T&)|^(printf|puts|putchar|fprintf|vprintf|fputs|putc|fputc)$|basic_ostream|std::cout|operator<<.*std::")
WAIT = re.compile(r"^(delay|delayMicroseconds|sleep|usleep|nanosleep|yield|pause)\b")
ALLOC = re.compile(r"^(malloc|calloc|realloc|strdup|strndup|operator new(\[\])?\(|asprintf)")


class Graph:
    """call graph of the library; virtual and indirect calls go to every candidate"""

    def __init__(self, L):
        self.L, self.T = L, Term(L)
        self.dem = {n: d.get("dem") or n for n, d in L.w.j["functions"].items()}
        self.callees = {n: sorted(x for x in self.T.direct(n)[2] if x) for n in self.T.fns}
        self.callers = {}
        for n, cs in self.callees.items():
            for x in cs:
                self.callers.setdefault(x, set()).add(n)

    def cls(self, n):
        """class (without namespace) a function belongs to"""
        d = self.dem[n].split("(")[0]
        if " " in d:
            d = d.split(" ")[-1]
        p = d.split("::")
        return p[-2] if len(p) >= 2 else ""

    def name(self, n):
        return self.dem[n].split("(")[0].replace(NS, "")

    def own(self, n):
        return not self.name(n).startswith("vp_probe")

    def member(self, n, classes):
        c = self.cls(n)
        return any(c == k or (c and self.L.w.is_a(NS + c, NS + k)) for k in classes)

    def reach(self, roots, stop=lambda n: False):
        """{function: caller} of everything reachable from the roots, not entering stop()"""
        seen = {r: None for r in roots if not stop(r)}
        todo = list(seen)
        while todo:
            n = todo.pop()
            for x in self.callees.get(n, ()):
                if x not in seen and not stop(x):
                    seen[x] = n
                    todo.append(x)
        return seen

    def path(self, seen, n):
        p = []
        while n is not None:
            p.append(self.name(n))
            n = seen[n]
        return " <- ".join(p)

    def loc(self, n, prim):
        f = self.T.fns[n]
        for i in f.ins.values():
            if i["op"] in ("call", "invoke") and i["callee"][0] == "fn" and i["callee"][1] == prim:
                return "%s:%s (%s)" % ((i.get("fl") or f.d.get("file") or "?").split("/")[-1], i.get("ln", "?"), self.name(n))
        return self.name(n)

    def exclusively(self, classes, restart=()):
        """functions that belong to these classes or are called by such functions only"""
        own = {n for n in self.T.fns if self.member(n, classes)}
        while True:
            more = {n for n in self.T.fns if n not in own and not self.cls(n) and self.callers.get(n) and {x for x in self.callers[n] if self.own(x)} and {x for x in self.callers[n] if self.own(x)} <= own}
            if not more:
                return own
            own |= more


PRINTING = re.compile(r"^(print|dump|show|debug|log)", re.I)


def P37(c):
    L = c.lib()
    g = Graph(L)
    ui = g.exclusively(("SerialUserInterface", "SerialGC"))
    roots = [n for n in g.T.fns if g.own(n) and n not in ui and not PRINTING.match(g.name(n).split("::")[-1])
             and (g.cls(n) or not g.callers.get(n))]
    seen = g.reach(roots, lambda n: n in ui)
    prims = {n for n in g.dem if SERIAL.search(g.dem[n])}
    if not prims or not ui:
        raise AnalysisError("anchor lost: no serial port access in the library")
    for n in sorted(seen):
        if n not in g.T.fns:
            continue
        bad = [x for x in g.callees[n] if x in prims]
        c.ob("%s does not use the serial port" % g.name(n), not bad, bad and "uses %s; reached by %s" % (g.dem[bad[0]], g.path(seen, n)), bad and g.loc(n, bad[0]))
    # a raw reference to the port outside the user interface (passed on, read through a pointer)
    for n in sorted(seen):
        f = g.T.fns.get(n)
        if f is None:
            continue
        hit = [i for i in f.ins.values() if any(o[0] == "g" and o[1] == "Serial" for o in i.get("ops", []) if isinstance(o, list) and len(o) >= 2)]
        if hit and not [x for x in g.callees[n] if x in prims]:
            c.ob("%s does not refer to the serial port" % g.name(n), g.cls(n) == "" or not hit, "refers to Serial; reached by %s" % g.path(seen, n), g.name(n))
    # waiting
    dr = g.exclusively(("Storage", "Transport", "CanTransport"))
    seen = g.reach([n for n in roots if n not in dr], lambda n: n in dr)
    wait = {n for n in g.dem if WAIT.match(g.dem[n])}
    for n in sorted(seen):
        if n in g.T.fns:
            bad = [x for x in g.callees[n] if x in wait]
            c.ob("%s does not wait" % g.name(n), not bad, bad and "calls %s; reached by %s" % (g.dem[bad[0]], g.path(seen, n)), bad and g.loc(n, bad[0]))


# ------------------------------------------------------------------ dynamic memory
STARTUP = re.compile(r"^(begin|allocateContexts)$")


class Heap(LM):
    """a sending service whose allocations are followed from call to call"""

    def live(self, tag, st, live):
        """the objects alive after st's log, or None after a violation"""
        live = set(live)
        err = None
        for e, lp in walk(st.log):
            if e.kind == "alloc":
                if lp:
                    err = err or "memory is taken inside a loop at %s" % e.loc
                live.add(e.a["_obj"])
            elif e.kind == "free":
                p = st.env.norm(e.a["ptr"])
                try:
                    o, f = self.L.I.deref(st, p)
                except Exception:
                    o, f = None, None
                if lp:
                    err = err or "memory is given back inside a loop at %s" % e.loc
                elif st.env.same(p, NULL) if isinstance(p, T) else False:
                    continue
                elif o not in live:
                    err = err or "memory that is not in use (given back already, or never taken for a message) is given back at %s" % e.loc
                else:
                    live.discard(o)
        self.say(tag + ": memory is given back once", err, st)
        return live


def heaphist(c, L, cls, seq):
    """messages of the given lengths one after the other; some refused in between"""
    s = Heap(c, L, cls, delay=K(5))
    s.times = lambda k: 1000 + 10 * k
    sts = [(s.st, set())]
    tag = "messages of %s bytes" % ", ".join(map(str, seq))
    for k, n in enumerate(seq):
        nx = []
        for st, live in sts:
            s.msgbytes(st, "m%d" % k, n)
            for ok, q in s.send(st, "m%d" % k, n, SIDS[k % 3]):
                l2 = s.live(tag, q, live)
                s.say(tag + ": one block per message", None if len(l2) <= len(live) + 1 else "%d blocks are taken" % (len(l2) - len(live)), q)
                if ok is False:
                    s.say(tag + ": a refused message takes nothing", None if l2 == live else "a block stays allocated", q)
                nx.append((q, l2))
                # a second message on the same stream is refused and takes nothing
                if n:
                    for ok2, r in s.send(q, "m%d" % k, n, SIDS[k % 3]):
                        l3 = s.live(tag, r, l2)
                        if ok2 is False:
                            s.say(tag + ": a refused message takes nothing", None if l3 == l2 else "a block stays allocated", r)
        sts = nx[:6]
        for i in range((n + 4) // 5 + 1):
            nx = []
            for st, live in sts:
                for q in s.round(st):
                    nx.append((q, s.live(tag, q, live)))
            # one state per memory in use, the most advanced
            sts = nx[:8]
            if c.failed():
                return
        done = 0
        for st, live in sts:
            if s.sending(st) is False:
                done += 1
                s.say(tag + ": nothing stays allocated after the end", None if not live else "%d blocks stay allocated" % len(live), st)
        if not done:
            s.say(tag + ": the message ends", "no analysed path ends the message", sts[0][0])
            return


def heaptwo(c, L, cls):
    """as many messages as contexts at once, then a refused one"""
    s = Heap(c, L, cls, ns=2, delay=K(5))
    s.times = lambda k: 1000 + 10 * k
    sts = [(s.st, set())]
    tag = "concurrent messages"
    for k, n in enumerate((7, 12, 3)):
        nx = []
        for st, live in sts:
            s.msgbytes(st, "m%d" % k, n)
            for ok, q in s.send(st, "m%d" % k, n, SIDS[k]):
                l2 = s.live(tag, q, live)
                if k == 2:
                    s.say(tag + ": a refused message takes nothing", None if ok is False and l2 == live else "accepted, or a block stays allocated", q)
                nx.append((q, l2))
        sts = nx
    for i in range(4):
        nx = []
        for st, live in sts:
            for q in s.round(st):
                nx.append((q, s.live(tag, q, live)))
        sts = nx[:24]
        if c.failed():
            return
    for st, live in sts:
        if s.sending(st) is False:
            s.say(tag + ": nothing stays allocated after the end", None if not live else "%d blocks stay allocated" % len(live), st)


def heapfail(c, L, cls):
    """no memory for the copy: refused without a trace"""
    s = Heap(c, L, cls)
    st = s.st
    s.msgbytes(st, "m0", 9)
    for nm in ("malloc", "calloc"):
        L.w.hooks[nm] = lambda I, st, fr, ins, args, fn: [(NULL, st)]
    try:
        for ok, q in s.send(st, "m0", 9, SIDS[0]):
            err = None
            if ok is not False:
                err = "the message is accepted without memory for it"
            err = err or s.effects(q, []) or (None if s.sending(q) is False else "is_sending() stays true")
            if not err and q.alarms:
                err = "%s access at %s" % (q.alarms[-1][0], q.alarms[-1][1])
            s.say("no memory for the copy: the message is refused", err, q)
    finally:
        for nm in ("malloc", "calloc"):
            L.w.hooks.pop(nm, None)


def setupfail(c, L, cls):
    """allocateContexts tells exactly when there is too little memory; afterwards every context is free"""
    o = L.obj(cls)
    f = method(L, cls, "allocateContexts", 4)
    count = [0, None]

    def take(I, st, fr, ins, args, fn):
        count[0] += 1
        if count[0] - 1 == count[1]:
            return [(NULL, st)]
        h = {nm: L.w.hooks.pop(nm) for nm in ("malloc", "calloc")}
        try:
            return I.external(fr, ins, st, fn, args)
        finally:
            L.w.hooks.update(h)
    base = construct(L, L.state(), cls)
    base.log = ()
    try:
        for nm in ("malloc", "calloc"):
            L.w.hooks[nm] = take
        for nr, ns in ((2, 2), (1, 0), (0, 1), (3, 1)):
            k = None
            while True:
                count[:] = [0, k]
                c.cases += 1
                res = L.I.call(f, [ptr(o, C64(0)), K(nr), const(32, 32), K(ns)], base.copy())
                used = count[0] if k is None else used
                for r, st in res:
                    c.paths += 1
                    v = truth(st.env, r)
                    if k is None:
                        ok, why = v is True, "with memory for all of them the result is %s" % show(r)
                    else:
                        ok, why = v is False, "without memory for the block number %d the result is %s" % (k, show(r))
                    if ok and st.alarms:
                        a = sorted(st.alarms, key=repr)[0]
                        ok, why = False, "%s at %s" % (a[0], a[1])
                    c.ob("%s: %d receive and %d send contexts%s" % (cls, nr, ns, "" if k is None else ", too little memory"), ok, why, lastloc(st) or "LongMessageService.cpp")
                k = 0 if k is None else k + 1
                if k >= used:
                    break
    finally:
        for nm in ("malloc", "calloc"):
            L.w.hooks.pop(nm, None)


def ctor(g, n):
    p = re.sub(r"<.*>", "", g.name(n)).split("::")
    return len(p) > 1 and p[-1] == p[-2].split("<")[0]


def P17(c):
    L = c.lib()
    g = Graph(L)
    start = {n for n in g.T.fns if STARTUP.match(g.name(n).split("::")[-1]) or ctor(g, n) or "::~" in g.name(n)}
    # what only construction and start-up use
    while True:
        more = {n for n in g.T.fns if n not in start and g.own(n) and g.callers.get(n) and {x for x in g.callers[n] if g.own(x)} and {x for x in g.callers[n] if g.own(x)} <= start}
        if not more:
            break
        start |= more
    lms = g.exclusively(("LongMessageService",))
    drv = g.exclusively(("Transport", "CanTransport", "Storage"))       # restart of the controller: P39
    stop = lambda n: n in start or n in drv
    roots = [n for n in g.T.fns if g.own(n) and not stop(n) and g.cls(n) and (not g.callers.get(n) or not {x for x in g.callers[n] if g.own(x)} <= start)]
    seen = g.reach(roots, stop)
    prims = {n for n in g.dem if ALLOC.match(g.dem[n])}
    if not prims:
        raise AnalysisError("anchor lost: no allocation in the library")
    for n in sorted(seen):
        if n in g.T.fns:
            bad = [x for x in g.callees[n] if x in prims]
            ok = not bad or n in lms
            c.ob("%s takes no memory while running" % g.name(n), ok, bad and "calls %s; reached by %s" % (g.dem[bad[0]], g.path(seen, n)), bad and g.loc(n, bad[0]))
    # receiving takes none: only the sending interface may
    n = 0
    for t in L.services():
        if not L.w.is_a(t, NS + "LongMessageServiceEx"):
            continue
        cls = t[len(NS):]
        n += 1
        L2 = c.lib()
        for seq in ((7, 11), (0, 6), (5, 5), (1, 16)):
            heaphist(c, L2, cls, seq)
            if c.failed():
                return
        heaptwo(c, L2, cls)
        heapfail(c, L2, cls)
        setupfail(c, L2, cls)
    for t in L.services():
        if L.w.is_a(t, NS + "LongMessageService"):
            cls = t[len(NS):]
            rx = [f for f in g.T.fns if g.member(f, (cls,)) and g.name(f).split("::")[-1] in ("processReceivedMessageFragment", "handleMessage", "subscribe")]
            seen = g.reach(rx, lambda f: f not in lms)
            for f in sorted(seen):
                if f in g.T.fns:
                    bad = [x for x in g.callees[f] if x in prims]
                    c.ob("%s: %s takes no memory when receiving" % (cls, g.name(f)), not bad, bad and "calls %s; reached by %s" % (g.dem[bad[0]], g.path(seen, f)), bad and g.loc(f, bad[0]))
    if not n:
        raise AnalysisError("anchor lost: extended long message service")


if __name__ == "__main__":
    main(globals()[sys.argv[1]], sys.argv[1], "x", 5)
