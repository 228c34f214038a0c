"""User interfaces: push button, LEDs and serial commands."""
from common import *
from buffer import truth

PIN = {"green": 7, "yellow": 8, "button": 9}
HOLD = 4000


class Panel:
    """one LEDUserInterface, driven through process() with chosen button levels"""

    def __init__(self, c):
        self.c = c
        self.L = L = c.lib(partition=True)
        self.tick, self.level = 0, 1
        self.times = {}
        H = L.w.hooks
        H["millis"] = lambda I, st, fr, ins, args, fn: [(slice_(self.now(), 0, I.tybits(ins["ty"])), st)]
        H["digitalRead"] = self.read
        H["digitalWrite"] = self.write
        self.pins = {}
        H["pinMode"] = self.setup
        self.base = construct(L, L.state(), "LEDUserInterface", [K(PIN["green"]), K(PIN["yellow"]), K(PIN["button"])])
        self.obj = L.obj("LEDUserInterface")
        off, sz, ty = L.w.field(NS + "LEDUserInterface", "controller")
        L.I.store(self.base, self.obj, C64(off), 8, ptr("Ctrl", C64(0)))
        self.f = L.w.vmethod(NS + "LEDUserInterface", "process")
        if self.f is None:
            raise AnalysisError("anchor lost: LEDUserInterface::process")

    def now(self, k=None):
        return atom(("now", self.tick if k is None else k), 64)

    def read(self, I, st, fr, ins, args, fn):
        p = st.env.norm(args[0])
        if p.op != "c" or p.a != PIN["button"]:
            I.ev(st, "badpin", fr, ins, pin=p)
        return [(const(I.tybits(ins["ty"]), self.level), st)]

    def setup(self, I, st, fr, ins, args, fn):
        p, m = [st.env.norm(a) for a in args]
        self.pins[p.a if p.op == "c" else None] = m.a if m.op == "c" else None
        return [(None, st)]

    def write(self, I, st, fr, ins, args, fn):
        I.ev(st, "pin", fr, ins, pin=st.env.norm(args[0]), val=st.env.norm(args[1]))
        return [(None, st)]

    def step(self, st, pressed, pa=None, pre=None):
        """one call of process() at a later time; the button connects the pin to ground"""
        st = st.copy()
        st.log = ()
        self.tick += 1
        self.level = 0 if pressed else 1
        if pre:
            pre(st.wenv())
            if st.env.dead:
                return []
        self.c.cases += 1
        r = [s for _, s in self.L.I.call(self.f, [ptr(self.obj, C64(0)), NULL if pa is None else pa(st)], st)]
        self.c.paths += len(r)
        for s in r:
            self.times[id(s)] = (s, self.tick)
        return r

    def at(self, s):
        """the time of the step that ended in s"""
        return self.now(self.times[id(s)][1])

    def mode(self, m):
        def make(st):
            a = self.L.action(st, "INDICATE_MODE")
            self.L.I.store(st, ("in", "act"), C64(1), 1, K(m))
            return a
        return make

    def activity(self, st):
        return self.L.action(st, "INDICATE_ACTIVITY")

    def shown(self, st):
        """pin -> last value written, None when not exactly known to be one of our LED pins"""
        out = {}
        for e, lp in walk(st.log):
            if e.kind == "badpin":
                return "reads pin %s at %s" % (show(e.a["pin"]), e.loc)
            if e.kind == "pin":
                if e.a["pin"].op != "c" or e.a["pin"].a not in (PIN["green"], PIN["yellow"]):
                    return "writes pin %s at %s" % (show(e.a["pin"]), e.loc)
                out[e.a["pin"].a] = e
        return out

    def actions(self, st):
        return [e for e, lp in walk(st.log) if e.kind == "action"]

    def anystate(self, levels, actions):
        """the constructed panel with every member that these stimuli ever change left open, within the values it can take"""
        L = self.L
        dom = {}
        S = self.base
        for rounds in range(6):
            S = self.base.copy()
            for (o, n), vs in sorted(dom.items()):
                a = atom(("panel", o), 8 * n)
                L.I.store(S, self.obj, C64(o), n, a)
                if vs is not None:
                    L.setvals(S.wenv(), a, sorted(vs))
            new = {}
            todo = [S]
            for depth in range(2):
                nxt = []
                for s in todo:
                    for p in levels:
                        for pa in actions:
                            nxt += self.step(s, p, pa)
                for s in nxt:
                    for o, n, v in changed(L, S, s, self.obj):
                        if o is None:
                            raise AnalysisError("panel members change at unknown offsets")
                        v = s.env.norm(v)
                        if n == 1:
                            vs = {v.a} if v.op == "c" else set(x for x in range(256) if s.env.decide(eq(v, K(x))) is not False)
                        else:
                            vs = None
                        new.setdefault((o, n), set())
                        if vs is None or new[(o, n)] is None:
                            new[(o, n)] = None
                        else:
                            new[(o, n)] |= vs
                todo = nxt[:1] if dom else nxt
                if dom:
                    break
            grown = False
            for k, vs in new.items():
                old = dom.get(k, set())
                if k not in dom:
                    if vs is not None:
                        v0 = L.I.load(self.base, self.obj, C64(k[0]), 1)
                        vs = vs | ({v0.a} if v0.op == "c" else {0, 1})
                    dom[k] = vs
                    grown = True
                elif old is not None and (vs is None or not vs <= old):
                    dom[k] = None if vs is None else old | vs
                    grown = True
            if not grown:
                break
        else:
            raise AnalysisError("the panel's members do not settle")
        self.members = dom
        return S

    def say(self, what, r, st, loc=None):
        self.c.ob(what, r is None, (r or "") + (" -- " + statestr(st) if r else ""), loc or lastloc(st))


def held(env, d):
    """kinds of press by duration d, refined on the path: set of possible results"""
    out = set()
    for lo, hi, act in ((0, 500, "START_CAN_ENUM"), (500, 1000, None), (1000, 2000, "RENEGOTIATE"), (2000, HOLD + 1, None), (HOLD + 1, None, "CHANGE_MODE")):
        e = env.copy()
        if lo and e.assume(ult(d, const(64, lo)), False) is False:
            continue
        if hi is not None and e.assume(ult(d, const(64, hi)), True) is False:
            continue
        out.add((lo, act))
    return out


def button(c, P, S):
    """what is queued for every sequence of button readings"""
    L = P.L
    c2 = {a: L.enumval("ACTION", "ACT_" + a) if hasattr(L, "enumval") else None for a in ()}
    names = {"START_CAN_ENUM": "ACT_START_CAN_ENUMERATION", "RENEGOTIATE": "ACT_RENEGOTIATE", "CHANGE_MODE": "ACT_CHANGE_MODE"}
    val = {k: enumval(L.w, "ACTION", n) for k, n in names.items()}

    def expect(what, hist, st):
        """hist: list of (pressed, tick); the first entries may follow an unknown past"""
        env = st.env
        r = None
        acts = P.actions(st)
        if any(e.kind in ("swrite", "frame", "callback", "vcall") for e, lp in walk(st.log)):
            r = "has another effect"
        cur = hist[-1][0]
        prev = hist[-2][0] if len(hist) > 1 else None
        if cur or prev == 0:
            if acts:
                r = "queues %s with no release (at %s)" % (msgstr(acts[0]), acts[0].loc)
        elif prev == 1:
            # released: when did the press begin
            j = len(hist) - 2
            while j > 0 and hist[j - 1][0] == 1:
                j -= 1
            if j == 0:
                if len(acts) > 1:
                    r = "queues %d actions" % len(acts)
            else:
                d = sub(hist[-1][1], hist[j][1])
                kinds = held(env, d)
                want = set(a for lo, a in kinds)
                if len(want) != 1:
                    r = "the same path serves presses of %s ms and more" % " and ".join(str(lo) for lo, a in sorted(kinds, key=lambda x: x[0]))
                else:
                    a = want.pop()
                    lo = min(kinds, key=lambda x: x[0])[0]
                    if a is None and acts:
                        r = "queues %s for a press of %d ms or more (at %s)" % (msgstr(acts[0]), lo, acts[0].loc)
                    elif a and len(acts) != 1:
                        r = "queues %d actions for a press of %d ms or more" % (len(acts), lo)
                    elif a and not env.same(acts[0].a["type"], K(val[a])):
                        r = "queues %s for a press of %d ms or more, expected %s (at %s)" % (show(acts[0].a["type"]), lo, a, acts[0].loc)
        P.say("%s, button %s" % (what, "".join("ud"[p] for p, k in hist)), r, st)

    depth = 4 if c.tier == "quick" else 5
    for what, st0 in (("after power up", P.base), ("at any time", S)):
        def go(st, hist):
            for p in (0, 1):
                for s in P.step(st, p):
                    h = hist + [(p, P.at(s))]
                    expect(what, h, s)
                    if len(h) - (what == "after power up") < depth:
                        go(s, h)
        # at power up the button counts as not pressed
        go(st0, [(0, None)] if what == "after power up" else [])


def lamps(c, P):
    G, Y = PIN["green"], PIN["yellow"]

    def lit(st, pin):
        sh = P.shown(st)
        if not isinstance(sh, dict):
            return sh
        if pin not in sh:
            return "does not drive pin %d" % pin
        v = st.env.norm(slice_(sh[pin].a["val"], 0, 8))
        z = st.env.decide(eq(v, const(v.w, 0)))
        if z is None:
            return "pin %d is driven %s at %s" % (pin, show(v), sh[pin].loc)
        return not z

    def steady(what, st, g, y):
        for nm, pin, w in (("green", G, g), ("yellow", Y, y)):
            if w is None:
                continue
            v = lit(st, pin)
            r = v if isinstance(v, str) else None if v == w else "the %s LED is %s" % (nm, "on" if v else "off")
            P.say("%s: %s LED %s" % (what, nm, "on" if w else "off"), r, st)

    def bylevel(states):
        """separate states by what the yellow LED shows"""
        for s in states:
            sh = P.shown(s)
            if isinstance(sh, dict) and Y in sh:
                z = eq(slice_(sh[Y].a["val"], 0, 8), K(0))
                if s.env.decide(z) is None:
                    for b in (True, False):
                        s2 = s.copy()
                        s2.wenv().assume(z, b)
                        if not s2.env.dead:
                            P.times[id(s2)] = (s2, P.times[id(s)][1])
                            yield s2
                    continue
            yield s

    def blinking(what, st, k):
        """yellow toggles each 500 ms from any state on; k further steps"""
        seen = []

        def go(s, hist, left):
            for s2 in bylevel(P.step(s, 0)):
                v = lit(s2, Y)
                if isinstance(v, str):
                    P.say(what + ": yellow LED blinks", v, s2)
                    continue
                h = hist + [(v, P.at(s2))]
                if len(h) > 1 and h[-1][0] != h[-2][0]:
                    seen.append(s2)
                # the last toggle seen
                j = len(h) - 2
                while j > 0 and h[j - 1][0] == h[j][0]:
                    j -= 1
                if len(h) > 2 and j > 0:
                    d = sub(h[-1][1], h[j][1])
                    due = s2.env.decide(ult(d, const(64, 500)))
                    r = None
                    if due is None:
                        r = "the LED does not depend on whether 500 ms have passed"
                    elif (due is False) != (h[-1][0] != h[-2][0]):
                        r = "the LED %s %s 500 ms" % ("changes" if h[-1][0] != h[-2][0] else "stays", "before" if due else "after")
                    P.say(what + ": yellow LED toggles every 500 ms", r, s2)
                if left:
                    go(s2, h, left - 1)
        go(st, [], k)
        P.say(what + ": yellow LED blinks", None if seen else "the LED never changes, however long it is left", st)

    modes = [P.mode(m) for m in (UNINIT, SETUP, NORMAL)]
    A0 = P.anystate((0,), [None] + modes)
    A1 = P.anystate((0,), [None, P.activity] + modes)
    starts = [(s, None) for s in P.step(A0, 0)] + [(s, P.at(s)) for s in P.step(A1, 0, P.activity)]
    for s, t in starts:
        # an earlier pulse is over after 5 ms
        over = (lambda e: e.assume(ult(sub(P.now(), t), const(64, 5)), False)) if t is not None else None
        for m, nm, g, y in ((NORMAL, "normal", False, True), (UNINIT, "uninitialised", True, False), (SETUP, "setup", False, None)):
            for s1 in P.step(s, 0, P.mode(m)):
                r = "queues an action" if P.actions(s1) else None
                P.say("indicating %s mode" % nm, r, s1)
                for s2 in P.step(s1, 0, pre=over):
                    steady("%s mode" % nm, s2, g, y)
                    for s3 in P.step(s2, 0):
                        steady("%s mode stays" % nm, s3, g, y)
                    if m != SETUP:
                        for s3 in P.step(s2, 0, P.activity):
                            for s4 in P.step(s3, 0):
                                early = s4.env.decide(ult(sub(P.at(s4), P.at(s3)), const(64, 5)))
                                if early is None and m != UNINIT:
                                    P.say("activity in %s mode" % nm, "the LED does not depend on whether 5 ms have passed", s4)
                                steady("activity in %s mode, %s" % (nm, "pulse" if early else "later"), s4, True if early else g, y)
                                if early is False:
                                    for s5 in P.step(s4, 0):
                                        steady("activity in %s mode, afterwards" % nm, s5, g, y)
                    for s3 in P.step(s2, 0, P.mode(9)):
                        for s4 in P.step(s3, 0):
                            steady("unknown mode after %s mode" % nm, s4, g, y)
                    # the button held for long shows setup, otherwise the LEDs stay
                    for s3 in P.step(s2, 1):
                        for s4 in P.step(s3, 1):
                            long_ = s4.env.decide(ult(const(64, HOLD), sub(P.at(s4), P.at(s3))))
                            if long_ is None and m != SETUP:
                                P.say("button held in %s mode" % nm, "the LEDs do not depend on whether 4 s have passed", s4)
                            for s5 in P.step(s4, 1 if long_ else 0, pre=(lambda e: e.assume(ult(const(64, HOLD), sub(P.now(), P.at(s3))))) if long_ else None):
                                if long_ is False:
                                    steady("short press in %s mode" % nm, s5, g, y)
                                elif long_:
                                    steady("long press in %s mode" % nm, s5, False, None)
                            if long_ and m != SETUP:
                                blinking("long press in %s mode" % nm, s4, 2)
                if m == SETUP:
                    blinking("setup mode", s1, 3)


COUNTERS = ("receiveCounter", "transmitCounter", "receiveErrorCounter", "transmitErrorCounter", "errorStatus")


def serial(c):
    """single character commands"""
    L = c.lib(partition=True, contracts=False)
    cls = "SerialUserInterface"
    S = construct(L, L.state(), cls, [transport(L)])
    off, sz, ty = L.w.field(NS + cls, "controller")
    L.I.store(S, cls, C64(off), 8, ptr("Ctrl", C64(0)))
    f = L.w.vmethod(NS + cls, "process")
    if f is None:
        raise AnalysisError("anchor lost: process() of " + cls)
    cur = {}

    def avail(I, st, fr, ins, args, fn):
        n = sum(1 for e, lp in walk(st.log) if e.kind == "key")
        return [(const(I.tybits(ins["ty"]), 1 if cur["c"] is not None and not n else 0), st)]

    def read(I, st, fr, ins, args, fn):
        I.ev(st, "key", fr, ins)
        w = I.tybits(ins["ty"])
        return [(const(w, cur["c"] if cur["c"] is not None else (1 << w) - 1), st)]
    L.w.hooks["Serial_T::available"] = avail
    L.w.hooks["Serial_T::read"] = read
    CH = enumval(L.w, "ACTION", "ACT_CHANGE_MODE")
    lim = {"EE_NUM_NVS": 3, "EE_MAX_EVENTS": 2, "EE_NUM_EVS": 2}

    def run(st, pa):
        c.cases += 1
        r = [s for _, s in L.I.call(f, [ptr(cls, C64(0)), pa], st)]
        c.paths += len(r)
        return r

    def evs(st, *kinds):
        return [e for e, lp in walk(st.log) if e.kind in kinds]

    def shown(st):
        return [a for e in evs(st, "ext") for a in e.a["args"]]

    def inert(st0, st, but=()):
        for e, lp in walk(st.log):
            if e.kind in but or e.kind in ("ext", "key", "sread", "sreadn", "loop"):
                continue
            if e.kind == "vcall" and e.a["method"].split("::")[-1] in COUNTERS:
                continue
            return "has the effect %s at %s" % (e.kind, e.loc)
        for o in (cls, "Config", "Ctrl"):
            if changed(L, st0, st, o):
                return "changes %s" % o
        if st.alarms:
            return "memory: %s" % (sorted(st.alarms, key=repr)[0],)

    for ch in list(range(256)) + [None]:
        cur["c"] = ch
        st = S.copy()
        for n, v in lim.items():
            st.wenv().assume(eq(L.cfg(n), const(L.cfg(n).w, v)))
        st0 = st.copy()
        k = chr(ch) if ch is not None and ch < 128 else ch
        L.w.maxitems = 200
        for s in run(st, NULL):
            nm = "command %r" % k if ch is not None else "no command"
            loc = lastloc(s)
            r = None
            if k == "s":
                a = evs(s, "action")
                r = inert(st0, s, ("action",))
                if len(a) != 1 or not s.env.same(a[0].a["type"], K(CH)):
                    r = r or "does not queue one mode change"
            elif k == "y":
                v = evs(s, "vcall")
                r = inert(st0, s, ("vcall",))
                if [e.a["method"].split("::")[-1] for e in v] != ["reset"]:
                    r = r or "does not reset the transport once"
            elif k == "*":
                r = inert(st0, s, ("reboot",))
                if len(evs(s, "reboot")) != 1:
                    r = r or "does not reboot"
            else:
                r = inert(st0, s)
            if r is None and len(evs(s, "key")) != (0 if ch is None else 1):
                r = "reads %d characters" % len(evs(s, "key"))
            if r is None and ch is None and evs(s, "ext", "sread"):
                r = "does something"
            sh = shown(s)
            has = lambda t: any(x.op != "ptr" and x.w >= t.w and s.env.same(zext(t, x.w), x) for x in sh if hasattr(x, "w"))
            if r is None and k == "v":
                for i in range(lim["EE_NUM_NVS"]):
                    if not has(persistent(s, add(zext(L.cfg("EE_NVS_START"), 64), C64(i)), L)):
                        r = "does not show node variable %d" % (i + 1)
                if len(evs(s, "sread")) != lim["EE_NUM_NVS"]:
                    r = r or "reads %d node variables" % len(evs(s, "sread"))
            if r is None and k == "n":
                for n in ("CANID", "nodeNum"):
                    o, z, y = cfg_field(L, n)
                    if not has(L.I.load(s, "Config", C64(o), z)):
                        r = "does not show %s" % n
            if r is None and k == "c":
                v = set(e.a["method"].split("::")[-1] for e in evs(s, "vcall"))
                if v != set(COUNTERS):
                    r = "does not show " + ", ".join(sorted(set(COUNTERS) - v))
            if r is None and k == "e":
                for i in range(lim["EE_MAX_EVENTS"]):
                    used = s.env.decide(eq(hashcell(L, s, C64(i)), K(0)))
                    if used is None:
                        r = "does not depend on whether event %d is used" % i
                        continue
                    bs = [persistent(s, add(zext(L.cfg("EE_EVENTS_START"), 64), C64(i * (4 + lim["EE_NUM_EVS"]) + b)), L) for b in range(4 + lim["EE_NUM_EVS"])]
                    for b, x in enumerate(bs):
                        if has(x) == used:
                            r = r or "%s byte %d of %s event %d" % ("shows" if used else "does not show", b, "unused" if used else "used", i)
                n = [s.env.decide(eq(hashcell(L, s, C64(i)), K(0))) for i in range(lim["EE_MAX_EVENTS"])].count(False)
                num = [x.a if x.op == "c" else None for x in (s.env.norm(x) for x in sh if hasattr(x, "w") and x.op != "ptr") if x.op == "c" or x.w < 64]
                if r is None and (n, lim["EE_MAX_EVENTS"] - n) not in list(zip(num, num[1:])):
                    r = "does not tell that %d events are used and %d free" % (n, lim["EE_MAX_EVENTS"] - n)
            c.ob(nm, r is None, (r or "") + (" -- " + statestr(s) if r else ""), loc)
    cur["c"] = None

    def text(st, p):
        """the constant string p points to, in lower case"""
        try:
            o, q = L.I.deref(st, p)
        except Exception:
            return ""
        b = ""
        for i in range(64):
            x = st.env.norm(L.I.load(st, o, add(q, C64(i)), 1))
            if x.op != "c" or not x.a:
                return b
            b += chr(x.a).lower()
        return b
    names = {"MODE_NORMAL": "normal", "MODE_UNINITIALISED": "uninitialised", "MODE_SETUP": "setup"}
    for m, word in names.items():
        mv = enumval(L.w, "VlcbModeParams", m)
        g = L.w.fn(NS + "Configuration::modeString")
        for v, s in L.I.call(g, [ptr("Config", C64(0))][:len(g.params) - 1] + [const(8, mv)], S.copy()):
            c.ob("name of " + m, word in text(s, v), "is %r" % text(s, v), "Configuration.cpp")
        st = S.copy()
        pa = L.action(st, [n for n, v in ACTIONS.items() if v == IMODE][0])
        o, q = L.I.deref(st, pa)
        off, sz, ty = L.w.field(NS + "Action", "mode")
        L.I.store(st, o, add(q, C64(off)), sz, const(8 * sz, mv))
        for s in run(st, pa):
            told = [text(s, a) for a in shown(s) if hasattr(a, "w") and a.w == 64 or hasattr(a, "op") and a.op == "ptr"]
            ok = any(word in t for t in told) and not any(w2 in t.replace("uninitialised", "") if w2 != "uninitialised" else w2 in t for w2 in names.values() if w2 != word for t in told)
            c.ob("indicated %s is told" % m, ok, "prints %s" % [t for t in told if t][:4], lastloc(s) or "SerialUserInterface.cpp")
    for kind in range(7):
        st = S.copy()
        pa = L.action(st, [n for n, v in ACTIONS.items() if v == kind][0])
        st0 = st.copy()
        for s in run(st, pa):
            r = inert(st0, s)
            if r is None and kind != IMODE and evs(s, "ext"):
                r = "prints"
            c.ob("action %d has no effect" % kind, r is None, (r or "") + (" -- " + statestr(s) if r else ""), lastloc(s))


def P32(c):
    serial(c)
    P = Panel(c)
    want = {PIN["green"]: 0, PIN["yellow"]: 0, PIN["button"]: 2}       # OUTPUT, INPUT_PULLUP of Arduino.h
    c.ob("pin modes", P.pins == want, "pins are set up as %s" % P.pins, "LED.cpp Switch.cpp")
    button(c, P, P.anystate((0, 1), [None]))
    lamps(c, P)


# ------------------------------------------------ switches and LEDs of a sketch

class Device:
    """one Switch or LED, its functions called in sequence, each at its own time"""

    def __init__(self, c, cls, args, level=None):
        self.c, self.cls = c, cls
        self.L = L = c.lib(partition=True)
        self.tick, self.level, self.pins = 0, level, []
        H = L.w.hooks
        H["millis"] = lambda I, st, fr, ins, args, fn: [(slice_(self.now(), 0, I.tybits(ins["ty"])), st)]
        H["digitalRead"] = self.read
        H["digitalWrite"] = self.write
        H["pinMode"] = self.setup
        self.obj = L.obj(cls)
        self.base = construct(L, L.state(), cls, args)

    def now(self, k=None):
        return atom(("now", self.tick if k is None else k), 64)

    def own(self, st, p):
        return st.env.same(slice_(p, 0, 8) if p.w > 8 else p, PINNO)

    def read(self, I, st, fr, ins, args, fn):
        if not self.own(st, args[0]):
            I.ev(st, "badpin", fr, ins, pin=args[0])
        return [(zext(self.level, I.tybits(ins["ty"])), st)]

    def write(self, I, st, fr, ins, args, fn):
        I.ev(st, "pin" if self.own(st, args[0]) else "badpin", fr, ins, pin=args[0], val=args[1])
        return [(None, st)]

    def setup(self, I, st, fr, ins, args, fn):
        m = st.env.norm(args[1])
        self.pins.append((self.own(st, args[0]), m.a if m.op == "c" else None))
        return [(None, st)]

    def call(self, name, st):
        f = [f for f in self.L.w.bydem.get(NS + self.cls + "::" + name, []) if not f.decl]
        if len(f) != 1:
            raise AnalysisError("anchor lost: %s::%s" % (self.cls, name))
        st = st.copy()
        st.log = ()
        self.c.cases += 1
        r = self.L.I.call(f[0], [ptr(self.obj, C64(0))], st)
        self.c.paths += len(r)
        if not r:
            raise AnalysisError("no outcome of %s::%s" % (self.cls, name))
        return r

    def say(self, what, err, st):
        self.c.ob("%s %s" % (self.cls, what), err is None, (err or "") + (" -- " + statestr(st)[:400] if err else ""), lastloc(st) or self.cls + ".cpp")

    def quiet(self, st):
        for e, lp in walk(st.log):
            if e.kind == "badpin":
                return "uses pin %s at %s" % (show(st.env.norm(e.a["pin"])), e.loc)
            if e.kind not in ("pin",) and not (e.kind == "ext" and e.a["fn"] == "millis"):
                return "%s at %s" % (e.kind, e.loc)
        if st.alarms:
            return "memory: %s" % (sorted(st.alarms, key=repr)[0],)


PINNO = atom("pinno", 8)


def switches(c, pressed, level):
    D = Device(c, "Switch", [PINNO, K(pressed)], K(level))
    name = "pressed when %s: " % ("high" if pressed else "low")
    ok = all(o for o, m in D.pins) and ([m for o, m in D.pins][-1:] == [2] if not pressed else all(m for o, m in D.pins))      # OUTPUT 0, INPUT_PULLUP 2 of Arduino.h
    c.ob("Switch %spin set up" % name, ok, "pinMode %s" % (D.pins,), "Switch.cpp")
    Z = const(64, 0)

    def verify_(what, st, m):
        """the answers of the switch, at a later time"""
        D.tick += 1
        for fn, want in (("getLastStateDuration", m["dur"]), ("getLastStateChangeTime", m["at"]), ("getCurrentStateDuration", sub(D.now(), m["at"])),
                         ("stateChanged", K(m["ch"])), ("getState", None if m["lv"] is None else K(m["lv"])), ("isPressed", None if m["lv"] is None else K(int(m["lv"] == pressed)))):
            for v, s in D.call(fn, st):
                if want is None:
                    continue
                if fn in ("stateChanged", "isPressed"):
                    t = truth(s.env, v)
                    good, v2 = t is bool(want.a), show(v)
                else:
                    v2 = show(s.env.norm(v))
                    good = s.env.same(v, zext(want, v.w) if want.w < v.w else slice_(want, 0, v.w))
                D.say("%s%s after %s" % (name, fn, what), D.quiet(s) or (None if good and not changed_obj(D, st, s) else "answers %s, expected %s" % (v2, show(want)) if not good else "changes the switch"), s)

    def go(seq, st, m, what):
        if c.failed():
            return
        for op in ("0", "1", "reset", "resetCurrentDuration"):
            if len(seq) >= 3 and op.startswith("r") or len(seq) >= 4:
                continue
            D.tick += 1
            now = D.now()
            m2 = dict(m)
            if op in "01":
                D.level = K(int(op))
                rs = D.call("run", st)
                lv = int(op)
                m2["lv"] = lv
                m2["ch"] = int(lv != m["last"])
                if m2["ch"]:
                    m2.update(dur=sub(now, m["at"]), at=now, last=lv)
            elif op == "reset":
                rs = D.call("reset", st)
                m2.update(at=Z, dur=Z, ch=0, last=1 - pressed)
            else:
                rs = D.call("resetCurrentDuration", st)
                m2["at"] = now
            w2 = what + [op]
            for _, s in rs:
                q = D.quiet(s)
                if q or evs_pin(s):
                    D.say("%suses only its pin: %s" % (name, " ".join(w2)), q or "writes to the pin", s)
                verify_(" ".join(w2), s, m2)
                go(seq + [op], s, m2, w2)
    verify_("construction", D.base, dict(lv=level, last=1 - pressed, at=Z, dur=Z, ch=0))
    if level != pressed:
        go([], D.base, dict(lv=level, last=1 - pressed, at=Z, dur=Z, ch=0), [])


def evs_pin(st):
    return [e for e, lp in walk(st.log) if e.kind == "pin"]


def changed_obj(D, a, b):
    n = D.L.w.osize.get(D.obj) if isinstance(D.L.w.osize.get(D.obj), int) else 0
    return any(not b.env.same(D.L.I.load(a, D.obj, C64(i), 1), D.L.I.load(b, D.obj, C64(i), 1)) for i in range(n))


def leds(c):
    D = Device(c, "LED", [PINNO])
    c.ob("LED pin set up as output", bool(D.pins) and all(o for o, m in D.pins) and D.pins[-1][1] == 0, "pinMode %s" % (D.pins,), "LED.cpp")
    Z = const(64, 0)

    def lit(st, m, now):
        """what a run of the LED does: (error, model afterwards)"""
        m = dict(m)
        env = st.env
        if m["blink"]:
            el = sub(now, m["last"])
            if env.le(const(64, 500), el):
                m.update(on=1 - m["on"], last=now)
            elif not env.lt(el, const(64, 500)):
                return "the blinking does not depend on 500 ms having passed", m
        if m["pulse"]:
            el = sub(now, m["start"])
            if env.le(const(64, 5), el):
                m["pulse"] = 0
            elif not env.lt(el, const(64, 5)):
                return "the pulse does not end after 5 ms", m
        w = evs_pin(st)
        want = 1 if m["pulse"] or m["on"] else 0
        if not w:
            return "the pin is not written", m
        v = env.norm(w[-1].a["val"])
        if v.op != "c" or (v.a != 0) != bool(want):
            return "the pin is set to %s, expected %d" % (show(v), want), m
        return None, m

    def go(n, st, m, what):
        if c.failed():
            return
        for op in ("run", "on", "off", "toggle", "blink", "pulse"):
            if n == 0 and op != "run":
                continue
            D.tick += 1
            now = D.now()
            m2 = dict(m)
            if op == "on":
                m2.update(on=1, blink=0)
            elif op == "off":
                m2.update(on=0, blink=0)
            elif op == "toggle":
                m2["on"] = 1 - m["on"]
            elif op == "blink":
                m2["blink"] = 1
            elif op == "pulse":
                m2.update(pulse=1, start=now)
            w2 = what + [op]
            for _, s in D.call(op, st):
                err, m3 = D.quiet(s), m2
                if not err and op in ("run", "pulse"):
                    err, m3 = lit(s, m2, now)
                elif not err and evs_pin(s):
                    v = s.env.norm(evs_pin(s)[-1].a["val"])
                    if v.op != "c" or (v.a != 0) != bool(m2["pulse"] or m2["on"]):
                        err = "the pin is set to %s" % show(v)
                D.say(" ".join(w2), err, s)
                if err:
                    return
                for v, q in D.call("getState", s):
                    if truth(q.env, v) is not bool(m3["on"]):
                        D.say(" ".join(w2) + " getState", "answers %s, expected %d" % (show(v), m3["on"]), q)
                if n:
                    go(n - 1, s, m3, w2)
    go(4, D.base, dict(on=0, blink=0, pulse=0, last=Z, start=Z), [])


def P45(c):
    for pressed in (0, 1):
        for level in (0, 1):
            switches(c, pressed, level)
    leds(c)


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
