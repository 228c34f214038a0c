"""Shared machinery of the checks: contexts, expected outcomes, reporting."""
import json, os, signal, sys, time, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "engine"))
from lib import *
import terms as tm

IN, OUT, CANENUM, CHMODE, RENEG, IACT, IMODE = range(7)
UNINIT, SETUP, NORMAL = 0xFF, 0, 1


def K(v, w=8):
    return const(w, v)


class Enough(Exception):
    pass


class Check:
    """collects obligations for one property"""

    def __init__(self, pid, tier, rule, minimum):
        self.pid, self.tier, self.rule, self.minimum = pid, tier, rule, minimum
        self.t0 = time.time()
        self.n = 0
        self.good = 0
        self.bad = []
        self.samples = []
        self.assume = []
        self.cases = 0
        self.paths = 0
        self.libs = []
        self.known = known_findings(pid)
        self.notes = []

    def lib(self, **k):
        L = Lib(**k)
        self.libs.append(L)
        return L

    def ob(self, name, ok, detail="", loc="", key=None):
        """one obligation; `key` names the construct for the known-findings file"""
        self.n += 1
        if ok:
            self.good += 1
            if len(self.samples) < 6 and (self.n % 7 == 1):
                self.samples.append(name)
        else:
            self.bad.append((key or name, name, detail, loc))
            if len(self.bad) >= 60:     # decided; the rest would repeat it
                raise Enough("60 refuted obligations")
        return ok

    def failed(self):
        return bool(self.bad)

    def note(self, text):
        if text not in self.notes:
            self.notes.append(text)

    def finish(self):
        for L in self.libs:
            for line, fn, stk, path in L.w.noexit:
                self.ob("loop at %s in %s ends" % (line, fn), False, "no path leaves this loop; reached through %s with {%s}" % (stk, path), line)
        if self.n < self.minimum and not self.bad:
            raise AnalysisError("%s: only %d obligations (expected at least %d): anchors lost" % (self.pid, self.n, self.minimum))
        newbad, found = [], {}
        for b in self.bad:
            if b[0] in self.known:
                found.setdefault(b[0], b)
            else:
                newbad.append(b)
        fns, blocks, instrs, calls, sites, loops = set(), 0, 0, 0, set(), 0
        for L in self.libs:
            s = L.w.stats
            fns |= s["functions"]
            blocks += s["blocks"]
            instrs += s["instrs"]
            calls += s["calls"]
            sites |= s["callsites"]
            loops += len(L.w.looplog)
        cov = {
            "explanation": self.rule,
            "obligations": self.n, "discharged": self.good,
            "contexts_analysed": self.cases, "final_abstract_states": self.paths,
            "functions_analysed": len(fns), "block_transfers": blocks, "instruction_transfers": instrs,
            "call_sites": len(sites), "loops": loops,
            "known_findings_present": sorted(found),
            "function_list": sorted(self.libs[0].w.fns[f].base for f in fns if f in self.libs[0].w.fns)[:120] if self.libs else [],
            "samples": self.samples, "notes": self.notes,
        }
        ev = {"property": self.pid, "tier": self.tier, "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "other",
              "coverage": cov, "assumptions": self.assume, "wall_s": round(time.time() - self.t0, 2), "violations": len(newbad)}
        os.makedirs(ROOT + "/evidence", exist_ok=True)
        json.dump(ev, open(ROOT + "/evidence/%s.json" % self.pid, "w"), indent=1)
        for k in sorted(found):
            print("KNOWN-FINDING: property=%s %s" % (self.pid, self.known[k]))
        if newbad:
            rp = ROOT + "/evidence/%s.violation.txt" % self.pid
            with open(rp, "w") as f:
                for key, name, detail, loc in newbad:
                    f.write("obligation: %s\n  at: %s\n  %s\n  key: %s\n\n" % (name, loc, detail, key))
            for key, name, detail, loc in newbad[:8]:
                print("  violated: %s\n     at %s: %s" % (name, loc, detail[:700]))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        print("OK property=%s obligations=%d contexts=%d states=%d functions=%d wall=%.1fs" % (self.pid, self.n, self.cases, self.paths, len(fns), time.time() - self.t0))
        return 0


def known_findings(pid):
    out = {}
    p = ROOT + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % pid):
                rest = l.split(" ", 2)[2]
                key, _, text = rest.partition(" :: ")
                out[key.replace("key=", "", 1)] = text
    return out


# ------------------------------------------------------------- idle services
def construct(L, st, cls, args=()):
    """state after constructing a service object"""
    n = cls.split("::")[-1]
    fs = [f for f in L.w.bydem.get(NS + cls + "::" + n, []) if not f.decl and len(f.params) == 1 + len(args)]
    if not fs:
        raise AnalysisError("anchor lost: constructor of " + cls)
    r = L.I.call(fs[0], [ptr(L.obj(cls), C64(0))] + list(args), st)
    if len(r) != 1:
        raise AnalysisError("constructor of %s forks" % cls)
    r[0][1].log = ()
    return r[0][1]


def transport(L):
    L.w.otype["Transport"] = NS + "CanTransport"
    L.w.osize["Transport"] = 64
    return ptr("Transport", C64(0))


def norx(L):
    """no frame is waiting in the transport"""
    for b in ("Transport", "CanTransport"):
        L.w.virt[NS + b + "::available"] = lambda I, st, fr, ins, args, obj: [(const(1, 0), st)]


def idle(L, st, cls):
    """a state of the service in which it has no background work to do"""
    isa = lambda b: L.w.is_a(NS + cls, NS + b)
    if isa("CanService"):
        norx(L)
        st = construct(L, st, cls, [transport(L)])
    elif isa("EventProducerService"):
        o, s, y = cfg_field(L, "currentMode")
        save = L.I.load(st, "Config", C64(o), s)
        st = construct(L, st, cls)
        L.I.store(st, "Config", C64(o), s, const(8 * s, NORMAL))
        r = L.I.call(L.w.vmethod(NS + cls, "begin"), [ptr(L.obj(cls), C64(0))], st)
        if len(r) != 1:
            raise AnalysisError("start-up of %s forks" % cls)
        st = r[0][1]
        L.I.store(st, "Config", C64(o), s, save)
    elif isa("MinimumNodeService"):
        o, s, y = L.w.field(NS + cls, "noHeartbeat", want="bool")
        L.I.store(st, L.obj(cls), C64(o), s, const(8 * s, 1))
    st.log = ()
    return st


# --------------------------------------------------------------- log views
def walk(log, loops=()):
    """all events including those inside loop summaries, with their loop stack"""
    for e in log:
        if e.kind == "loop":
            for q in e.a["seqs"]:
                yield from walk(q, loops + (e,))
        else:
            yield e, loops


def is_out(e):
    return e.kind == "action" and e.a["type"].op == "c" and e.a["type"].a == OUT


def outs(st):
    """outgoing messages in order; a summarised loop that sends is one entry"""
    r = []
    for e in st.log:
        if e.kind == "loop":
            if any(is_out(x) for x, _ in walk((e,))):
                r.append(e)
        elif is_out(e):
            r.append(e)
    return r


def acts(st):
    return [e for e, _ in walk(st.log) if e.kind == "action" and not is_out(e)]


def msgstr(e):
    if e.kind == "loop":
        return "loop{%s}" % " | ".join(",".join(msgstr(x) for x in q if is_out(x) or x.kind == "loop") for q in e.a["seqs"])
    n = e.a["len"]
    k = n.a if n.op == "c" else 8
    return "<%s>" % " ".join("%02X" % t.a if t.op == "c" else show(t) for t in e.a["data"][:k])


def statestr(st):
    parts = []
    for e in st.log:
        if e.kind in ("sread", "lookup"):
            continue
        if is_out(e) or e.kind == "loop":
            parts.append(msgstr(e) + "@%s" % e.loc if is_out(e) else repr(e)[:200])
        else:
            parts.append(repr(e)[:160])
    return "effects: [%s] on path {%s}" % ("; ".join(parts), st.env.describe()[:400])


def lastloc(st):
    for e in reversed(st.log):
        if e.loc:
            return "%s (%s)" % (e.loc, " > ".join(e.stk[-3:]))
    return "?"


def match_msg(env, e, want):
    """want: list of terms/ints/None for the whole message"""
    if not is_out(e):
        return False
    if not env.same(e.a["len"], K(len(want))):
        return False
    for t, x in zip(e.a["data"], want):
        if x is None:
            continue
        if isinstance(x, int):
            x = K(x)
        if callable(x):
            if not x(env, t):
                return False
            continue
        if not env.same(t, x):
            return False
    return True


class Each:
    """expected: one message per value of an index running first..last (step 1),
    built by make(index term) -> message, for exactly the indexes in range.
    `last` is an inclusive 8-bit (or wider) bound term; cond(env, idx) -> None/pred
    limits which indexes send (the others must be skipped)."""

    def __init__(self, make, first, last=None, upto=None, pos=3, cond=None, head=None):
        self.make, self.first, self.last, self.upto, self.pos, self.cond = make, first, last, upto, pos, cond
        self.head = head        # message of the first item when it differs from the others


def undefined(t):
    for a in support(t):
        x = a.a
        if isinstance(x, tuple) and x and x[0] in ("undef", "undefv"):
            return a
    return None


class Ctx:
    """one analysed context"""

    def __init__(self, c, L, cls, kind=IN, op=None, ln=None, nn=None, pre=None, name=""):
        self.c, self.L, self.cls = c, L, cls
        self.name = name or "%s %s%s" % (cls, "op=%02X" % op if isinstance(op, int) else "op=%s" % (op,) if op else "", " len=%s" % ln if ln is not None else "")
        st = L.state()
        self.obj = L.obj(cls)
        if kind is None:
            pa = NULL
        else:
            nm_ = [k for k, v in ACTIONS.items() if v == kind][0]
            pa = L.action(st, nm_, length=ln, opcodes=op, nn=nn)
        env = st.wenv()
        if nn == "own":
            pass
        if pre:
            pre(env)
        if env.dead:
            raise AnalysisError("empty context " + self.name)
        self.st0 = st.copy()
        c.cases += 1
        self.run(st, pa)
        c.paths += len(self.states)

    def run(self, st, pa):
        f = self.L.w.vmethod(NS + self.cls, "process")
        if f is None:
            raise AnalysisError("anchor lost: process() of " + self.cls)
        self.states = [s for _, s in self.L.I.call(f, [ptr(self.obj, C64(0)), pa], st)]
        if not self.states:
            raise AnalysisError("no outcome in context " + self.name)


def objcells(L, st, obj):
    """written (off,size) cells of an object, None when written at unknown offsets"""
    o = st.mem.get(obj)
    cells = {}
    if o is None:
        return cells, False
    sym = False
    for l in o.layers:
        if isinstance(l, dict):
            for k, (s, v) in l.items():
                cells[k] = max(s, cells.get(k, 0))
        else:
            sym = True
    return cells, sym


def changed(L, st0, st, obj):
    """[(off,size,new)] of cells of obj that may differ from the initial state"""
    cells, sym = objcells(L, st, obj)
    out = []
    for k, s in sorted(cells.items()):
        new = L.I.load(st, obj, C64(k), s)
        old = L.I.load(st0, obj, C64(k), s)
        if not st.env.same(new, old):
            out.append((k, s, new))
    if sym:
        out.append((None, None, None))
    return out


def writes(st):
    return [(e, lp) for e, lp in walk(st.log) if e.kind in ("swrite", "swriten", "sreset")]


def persistent(st, addr, L):
    return L.I.load(st, EE, addr, 1)


class Idle(Ctx):
    """a context of a service without background work"""

    def run(self, st, pa):
        st = idle(self.L, st, self.cls)
        self.st0 = st.copy()
        Ctx.run(self, st, pa)


class Expect:
    """expected outcome of a context; every final state has to agree"""

    def __init__(self, msgs=(), store=None, cfg=None, svc=None, hashes=None, actions=(), callbacks=(), flags=None,
                 reboot=False, anystore=False, hashclr=False, may=None, mayhash=(), wloops=()):
        self.__dict__.update(locals())


def cfg_field(L, name):
    o, s, y = L.w.field(NS + "Configuration", name)
    return o, s, y


class AnyOrder(list):
    """messages whose relative order is not part of the guarantee"""


def fmt(env, x):
    return " ".join("%02X" % v if isinstance(v, int) else "*" if v is None or callable(v) else show(env.norm(v)) for v in x)


def check_msgs(c, L, st, want):
    got = outs(st)
    want = list(want)
    i = 0
    skip = False
    for k, x in enumerate(want):
        if skip:
            skip = False
            continue
        y = want[k + 1] if k + 1 < len(want) else None
        if isinstance(x, list) and not isinstance(x, AnyOrder) and isinstance(y, Each) and y.cond is None and i < len(got) and got[i].kind == "loop":
            # the message before the items may come from the loop's first round
            x = Each(y.make, y.first - 1, y.last, y.upto, y.pos, head=x)
            skip = True
        if isinstance(x, AnyOrder):
            pend = list(x)
            for _ in range(len(pend)):
                hit = [p for p in pend if i < len(got) and match_msg(st.env, got[i], p)]
                if not hit:
                    return "sends %s, expected <%s>" % (msgstr(got[i]) + " at %s" % got[i].loc if i < len(got) else "nothing more", "> and <".join(fmt(st.env, p) for p in pend))
                pend.remove(hit[0])
                i += 1
            continue
        if i >= len(got):
            return "sends only %d message(s)/group(s) [%s], expected %d" % (len(got), ", ".join(msgstr(e) for e in got), len(want))
        e = got[i]
        i += 1
        if isinstance(x, Each):
            # leading items may be sent one by one before the loop
            first = x.first
            while x.cond is None and x.head is None and is_out(e) and i < len(got) and match_msg(st.env, e, x.make(K(first))):
                first += 1
                e = got[i]
                i += 1
            if first != x.first:
                x = Each(x.make, first, x.last, x.upto, x.pos)
            r, extra = check_each(L, st, e, x, got[i] if i < len(got) else None)
            if r:
                return r
            i += extra
        elif not match_msg(st.env, e, x):
            return "sends %s at %s, expected <%s>" % (msgstr(e), e.loc, fmt(st.env, x))
    if i < len(got):
        return "sends %s at %s in addition to the %d expected message(s)" % (msgstr(got[i]), got[i].loc, len(want))
    return None


def index_of_loop(env, e, idx):
    """(loop variable, first value, step, wide value) of a per-iteration index"""
    n = env.norm(idx)
    lv = [a for a in e.a["vars"] if a in support(n)]
    if len(lv) != 1:
        return None
    v = lv[0]
    v0, step = e.a["vars"][v]
    if step not in (1, -1):
        return None
    i0 = env.norm(subst(n, {v: v0}))
    w = 64
    f = env.linint(n)
    if f is not None and {x: q for x, q in f[1].items() if q} == {v: 1}:
        return v, i0, step, add(zext(v, w), const(w, f[0] & ((1 << w) - 1)))
    k = sub(slice_(n, 0, min(n.w, v.w)), slice_(v, 0, min(n.w, v.w)))
    if k.op != "c":
        return None
    kk = k.a if k.a < 1 << (k.w - 1) else k.a - (1 << k.w)
    wide = add(zext(v, w), const(w, kk & ((1 << w) - 1)))
    if not env.same(slice_(wide, 0, n.w) if n.w < w else wide, n):
        return None
    return v, i0, step, wide


def lockstep(st, e, v, count):
    """another variable of the loop counts exactly `count` rounds: it starts there and
    every round needs it above zero, the loop is left when it reaches zero; or the reverse"""
    envs = [x[1] for x in e.a["_iters"]]
    for u, (u0, step) in e.a["vars"].items():
        if u is v or u.op == "p" or u0.op == "p" or u.w > 64:
            continue
        z = zext(u, 64)
        if step == -1 and st.env.same(zext(u0, 64), count) and st.env.le(z, C64(0)) and all(x.le(C64(1), z) for x in envs):
            return True
        if step == 1 and u0.op == "c" and u0.a == 0 and st.env.le(count, z) and all(x.lt(z, count) for x in envs):
            return True
    return False


def coverage(L, st, e, env, idx, first, upto, extra=None):
    """None when the loop e visits exactly first..upto-1, once each.  `extra`
    is a predicate for one more item handled right after the loop."""
    il = index_of_loop(env, e, idx)
    if il is None:
        return "item index %s does not advance by one with the loop at %s" % (show(idx), e.loc), 0, 0
    v, i0, step, wide = il
    used = 0
    if step == 1:
        if not st.env.same(zext(i0, 32), K(first, 32)):
            return "first item is %s, expected %d (at %s)" % (show(i0), first, e.loc), 0, 1
        bi = zext(upto, 64) if upto.w < 64 else upto
        if not env.lt(wide, bi) and lockstep(st, e, v, sub(bi, C64(first))):
            return None, 0, 1
        if not env.lt(wide, bi):
            return "item index %s not limited by %s at %s" % (show(idx), show(upto), e.loc), 0, 1
        ex = wide
        if extra is not None and extra():
            ex = add(wide, C64(1))      # loop left at its end: last item follows the summary
            used = 1
        if not st.env.le(bi, ex):
            return "not every item up to %s is visited (loop at %s)" % (show(upto), e.loc), 0, 1
        return None, used, 1
    # descending
    bi = zext(upto, 64) if upto.w < 64 else upto
    if not st.env.same(add(zext(i0, 64), C64(1)), bi) and not (i0.w == upto.w and st.env.same(add(i0, const(i0.w, 1)), upto) and env.lt(wide, bi)):
        return "first item is %s, expected %s-1 (at %s)" % (show(i0), show(upto), e.loc), 0, -1
    if not env.le(C64(first), wide):
        return "item index %s falls below %d at %s" % (show(idx), first, e.loc), 0, -1
    if not st.env.lt(zext(st.env.norm(idx), 64) if idx.w < 64 else idx, C64(first)) and not st.env.same(idx, const(idx.w, (first - 1) & ((1 << idx.w) - 1))):
        return "not every item down to %d is visited (loop at %s)" % (first, e.loc), 0, -1
    return None, 0, -1


def heads(env, i, x):
    """[(environment, message)]: the first item apart from the others"""
    if x.head is None:
        return [(env, x.make(i))]
    r = []
    for v in (True, False):
        e = env.copy()
        if e.assume(eq(i, const(i.w, x.first)), v) is not False and not e.dead:
            r.append((e, x.head if v else x.make(i)))
    return r


def around(v):
    """byte indexes a loop variable may stand for: itself, or before/after its step"""
    b = slice_(v, 0, 8) if v.w > 8 else v
    return [b, sub(b, K(1)), add(b, K(1))]


def wideidx(env, i):
    """the index as an exact 64-bit sum"""
    f = env.linint(env.norm(i))
    if f is None:
        return zext(i, 64)
    t = C64(f[0] & ((1 << 64) - 1))
    for x, k in f[1].items():
        t = add(t, scale(zext(x, 64), k & ((1 << 64) - 1)))
    return t


def check_each(L, st, e, x, nxt=None):
    """(error or None, extra messages consumed)"""
    if e.kind != "loop":
        return "message %s is not one per item" % msgstr(e), 0
    sends = lambda q: [m for m in q if is_out(m) or (m.kind == "loop" and any(is_out(z) for z, _ in walk((m,))))]
    iters = e.a["_iters"]
    idx = None
    for q, env, nv in iters:
        ms = sends(q)
        if len(ms) > 1:
            return "an iteration sends %d messages at %s" % (len(ms), e.loc), 0
        if ms and ms[0].kind == "loop":
            return "nested loop of messages at %s" % ms[0].loc, 0
        if ms and (idx is None or idx.op == "c"):
            idx = env.norm(ms[0].a["data"][x.pos])
    if idx is None:
        return "no message sent", 0
    upto = x.upto if x.upto is not None else add(zext(x.last, 64), C64(1))
    extra = 0
    seen = False
    for q, env, nv in iters:
        ms = sends(q)
        i = ms[0].a["data"][x.pos] if ms else idx
        if env.norm(i).op == "c" and i is not idx:
            if not env.lt(zext(i, 64), zext(upto, 64)):
                return "item %s is beyond %s at %s" % (show(i), show(upto), e.loc), 0
        elif not seen:
            r, extra, step = coverage(L, st, e, env, i, x.first, upto,
                                      (lambda: nxt is not None and is_out(nxt) and all(match_msg(e2, nxt, w) for e2, w in heads(st.env, i, x))) if not x.cond else None)
            if r:
                return r, 0
            if step != 1:
                return "items are not sent in ascending order at %s" % e.loc, 0
            seen = True
        if not env.same(i, idx):
            return "items of one loop use different indexes, %s and %s, at %s" % (show(env.norm(i)), show(env.norm(idx)), e.loc), 0
        c = x.cond(env, i) if x.cond else True
        if ms:
            m = ms[0]
            if c is not True:
                return "sends %s at %s for an item that is not known to qualify" % (msgstr(m), m.loc), 0
            for e2, want in heads(env, i, x):
                if not match_msg(e2, m, want):
                    return "sends %s at %s, expected <%s>" % (msgstr(m), m.loc, fmt(e2, want)), 0
        elif c is not False:
            return "an item is skipped without being known to be irrelevant at %s" % e.loc, 0
    if not seen:
        return "the item does not advance with the loop at %s" % e.loc, 0
    return None, extra


def zero_test(env, t):
    """True when t is known non-zero, False when known zero, else None"""
    t = env.norm(t)
    if t.op == "c":
        return t.a != 0
    if env.lt(const(t.w, 0), t):
        return True
    if env.same(t, const(t.w, 0)):
        return False
    d = env.decide(eq(t, const(t.w, 0)))
    return None if d is None else not d


def evbyte(L, st, idx, off):
    """byte `off` of event record idx as currently stored"""
    return L.I.load(st, EE, add(L.evaddr(idx)[0], C64(off)), 1)


def evval_addr(L, idx, evnum):
    return add(L.evaddr(idx)[0], add(zext(evnum, 64), C64(3)))


def hashcell(L, st, idx):
    """look-up table byte of slot idx"""
    o, s, y = L.w.field(NS + "Configuration", "evhashtbl", want="unsigned char*")
    t = L.I.load(st, "Config", C64(o), 8, True)
    ob, off = L.I.deref(st, t)
    return L.I.load(st, ob, add(off, zext(idx, 64)), 1)


def fld(L, obj, cls, name, want=None, st=None):
    """value of a member of a service object (initial value by default)"""
    o, s, y = L.w.field(NS + cls, name, want=want)
    return L.I.load(st or L.state(), obj, C64(o), s)


def boolsin(t, out=None):
    """conditions a value is made from"""
    out = [] if out is None else out
    for x in support(t) if t.op in ("a", "rd", "c") else [t]:
        for y in (x.a if isinstance(x.a, tuple) else ()):
            for z in (y if isinstance(y, tuple) else (y,)):
                for q in (z if isinstance(z, tuple) else (z,)):
                    if isinstance(q, T) and q.w == 1 and q.op not in ("c",):
                        if q not in out:
                            out.append(q)
                    elif isinstance(q, T) and q.op not in ("a", "rd", "c"):
                        boolsin(q, out)
    return out


def casesplit(env, t, left=2):
    """[(environment, value)] in which the conditions inside t are decided"""
    t = env.norm(t)
    bs = boolsin(t)
    if t.op == "c" or not bs or not left:
        return [(env, t)]
    r = []
    for v in (True, False):
        e = env.copy()
        if e.assume(bs[0], v) is not False and not e.dead:
            r += casesplit(e, subst(t, {a: a for a in atoms(t)}, {bs[0]: const(1, int(v))}), left - 1)
    return r


def counted(L, env, t, cond, upto):
    """None when byte t is the number of i in 0..upto-1 with cond(env,i) True"""
    t = env.norm(t)
    lv = [a for a in support(t) if a.op == "a" and isinstance(a.a, tuple) and a.a and a.a[0] == "lp"]
    if len(lv) != 1 or t is not lv[0] and not (t.op != "c"):
        return "value %s is not a count" % show(t)
    if t is not lv[0] and env.same(add(t, slice_(zext(lv[0], 64), 0, t.w)), slice_(zext(upto, 64), 0, t.w)):
        # the total less the number of the others
        return counted(L, env, lv[0], lambda e, i: (lambda z: None if z is None else not z)(cond(e, i)), upto)
    for lid, rec in L.w.looplog.items():
        for inst in rec.get("inst", []):
            if lv[0] not in inst["vars"]:
                continue
            v0 = inst["vars"][lv[0]][0]
            up = v0.op == "c" and v0.a == 0
            # or counts down from the total by the others
            down = not up and env.same(slice_(zext(v0, 64), 0, 8), slice_(zext(upto, 64), 0, 8))
            if not (up or down) or not env.same(slice_(zext(t, 64), 0, 8), slice_(zext(lv[0], 64), 0, 8)):
                return "count starts at %s" % show(v0)
            # the index: another loop variable advancing by one
            # the index: another loop variable counting up from 0 or down from the size
            ivs = []
            for a, (z, s) in inst["vars"].items():
                if a is lv[0] or a.op == "p":
                    continue
                if s == 1 and z.op == "c":
                    ivs.append((a, sub(zext(a, 64), C64(z.a)), 1))
                elif s == -1 and env.same(zext(z, 64), zext(upto, 64)):
                    ivs.append((a, sub(zext(a, 64), C64(1)), -1))
                elif s == -1 and env.same(add(zext(z, 64), C64(1)), zext(upto, 64)):
                    ivs.append((a, zext(a, 64), -1))
            if len(ivs) != 1:
                return "no loop index next to count %s" % show(t)
            var, wide, step = ivs[0]
            iv = wide
            for q, e2, nv in inst["iters"]:
                n = nv.get(lv[0])
                for e3, d in [(e2, None)] if n is None else casesplit(e2, sub(n, lv[0])):
                    c = cond(e3, iv)
                    if d is not None and d.op == "c" and c is not None and d.a == (int(c) if up else -int(not c) & ((1 << d.w) - 1)):
                        continue
                    return "an iteration changes the count by %s although the item %s (%s)" % (show(d) if d is not None else "?", {True: "counts", False: "does not count", None: "is undetermined"}[c], rec["line"])
                if not e2.lt(wide, zext(upto, 64)) or not e2.le(C64(0), wide):
                    return "count runs past the table (%s)" % rec["line"]
            if step == 1 and not env.le(env.norm(zext(upto, 64)), env.norm(wide)) or step == -1 and not env.same(wide, C64((1 << 64) - 1)) and not env.same(slice_(wide, 0, var.w), const(var.w, (1 << var.w) - 1)):
                return "count stops early (%s)" % rec["line"]
            return None
    return "value %s is not computed by a counting loop" % show(t)


FLAG_ATOM = {}


def paramsobj(L):
    """the parameter block the controller points at"""
    o, s, y = L.w.field(NS + "Controller", "_mparams", want="unsigned char*")
    st = L.state()
    t = L.I.load(st, "Ctrl", C64(o), 8, True)
    ob, off = L.I.deref(st, t)
    return ob


def param(L, st, i):
    """current value of module parameter i (int or term)"""
    off = C64(i) if isinstance(i, int) else zext(i, 64)
    return L.I.load(st, paramsobj(L), off, 1)


def verify(c, ctx, want, label="", key=None):
    """one obligation per final state of the context"""
    L = ctx.L
    for st in ctx.states:
        w = want
        if callable(want):
            w = want(st)
        r = w if isinstance(w, str) else mismatch(c, L, ctx, st, w)
        c.ob("%s%s" % (ctx.name, (": " + label) if label else ""), r is None,
             (r or "") + " -- " + (statestr(st) if r else ""), lastloc(st) if r else "", key=key)


def mismatch(c, L, ctx, st, w):
    r = check_msgs(c, L, st, w.msgs)
    if r:
        return r
    env = st.env
    # other actions
    aa = [a for a in acts(st) if not env.same(a.a["type"], K(IACT))]
    if len(aa) != len(w.actions):
        return "queues %d other action(s): %s; expected %d" % (len(aa), ", ".join("type %s payload %s" % (show(a.a["type"]), show(a.a["len"])) for a in aa), len(w.actions))
    for a, (ty, pl) in zip(aa, w.actions):
        if not env.same(a.a["type"], K(ty)) or (pl is not None and not env.same(a.a["len"], pl if isinstance(pl, T) else K(pl))):
            return "queues action type %s payload %s at %s; expected %s/%s" % (show(a.a["type"]), show(a.a["len"]), a.loc, ty, pl if not isinstance(pl, T) else show(pl))
    # storage
    if not w.anystore:
        ws = writes(st)
        store = w.store or {}
        may = w.may or {}
        wl = list(w.wloops)
        loops = [e for e in st.log if e.kind == "loop" and any(z.kind in ("swrite", "swriten", "sreset") for z, _ in walk((e,)))]
        for e in loops:
            if not wl:
                break
            r = wl.pop(0)(st, e)
            if r:
                return r
        if wl:
            return "expected storage loop missing"
        for e, lp in ws:
            if lp and w.wloops and lp[0] in loops:
                continue
            if e.kind == "sreset":
                return "resets storage at %s" % e.loc
            if e.kind == "swriten":
                return "writes a variable-length block to storage at %s" % e.loc
            ad = e.a["addr"]
            if not any(env.same(ad, x) for x in store):
                hit = [v for x, v in may.items() if env.same(ad, x)]
                if not hit or not env.same(e.a["val"], hit[0]):
                    return "writes storage address %s (value %s) at %s, not allowed here" % (show(ad), show(e.a["val"]), e.loc)
        for ad, val in store.items():
            if val is None:
                continue
            v = persistent(st, ad, L)
            if not env.same(v, val):
                return "storage[%s] ends as %s, expected %s" % (show(env.norm(ad)), show(v), show(env.norm(val) if isinstance(val, T) else val))
    # configuration object
    cfgw = {}
    for n, v in (w.cfg or {}).items():
        o, s, y = cfg_field(L, n)
        cfgw[o] = (n, s, v)
    cells = changed(L, ctx.st0, st, "Config")
    for (o, s, v) in cells:
        if o not in cfgw:
            lf = L.w.leaf_at(NS + "Configuration", o, 1) if o is not None else None
            return "module setting %s changes to %s" % (lf[2] if lf else o, show(v) if v is not None else "?")
    for o, (n, s, v) in cfgw.items():
        if v is None:
            continue
        g = L.I.load(st, "Config", C64(o), s)
        if isinstance(v, int):
            v = const(8 * s, v)
        if not env.same(g, zext(v, 8 * s)):
            return "module setting %s ends as %s, expected %s" % (n, show(g), show(env.norm(v)))
    # parameter block flags
    po = paramsobj(L)
    pc = changed(L, ctx.st0, st, po)
    if w.flags is None:
        if pc:
            return "module parameter %s changes" % (pc[0][0],)
    else:
        PF = enumval(L.w, "VlcbParams", "PAR_FLAGS")
        for (o, s, v) in pc:
            if o != PF:
                return "module parameter %s changes" % o
        g = L.I.load(st, po, C64(PF), 1)
        if not env.same(g, w.flags(L.I.load(ctx.st0, po, C64(PF), 1))):
            return "flags parameter ends as %s" % show(g)
    # service object
    for n, v in (w.svc or {}).items():
        o, s, y = n
        g = L.I.load(st, ctx.obj, C64(o), s)
        if isinstance(v, int):
            v = const(8 * s, v)
        if not env.same(g, zext(v, 8 * s)):
            return "service state at offset %d ends as %s, expected %s" % (o, show(g), show(env.norm(v)))
    # event hash
    flat = [e for e, lp in walk(st.log)]
    hs = [(i, e) for i, e in enumerate(flat) if e.kind == "hashupd"]
    for h in (w.hashes or ()):
        # the entry has to be refreshed after the last write to the record's key
        base = L.evaddr(h)[0]
        keys = [add(base, C64(i)) for i in range(4)]
        lastw = max([i for i, e in enumerate(flat) if e.kind == "swrite" and any(env.same(e.a["addr"], k) for k in keys)] + [-1])
        if not any(i > lastw and env.same(e.a["idx"], h) for i, e in hs):
            return "event look-up entry of slot %s not refreshed after the record changed" % show(h)
    for i, e in hs:
        if not any(env.same(e.a["idx"], h) for h in list(w.hashes or ()) + list(w.mayhash)):
            return "refreshes the event look-up entry of slot %s at %s" % (show(e.a["idx"]), e.loc)
    hc = [e for e, lp in walk(st.log) if e.kind == "hashclr"]
    if bool(hc) != bool(w.hashclr):
        return "event look-up table %s cleared" % ("is" if hc else "is not")
    # callbacks
    cb = [e for e, lp in walk(st.log) if e.kind == "callback"]
    if len(cb) != len(w.callbacks):
        return "invokes %d user callback(s), expected %d" % (len(cb), len(w.callbacks))
    for e, f in zip(cb, w.callbacks):
        r = f(env, e)
        if r:
            return r
    # reboot
    rb = [e for e, lp in walk(st.log) if e.kind == "reboot"]
    if bool(rb) != bool(w.reboot):
        return "module %s restarted" % ("is" if rb else "is not")
    fr = [e for e, lp in walk(st.log) if e.kind in ("frame", "rxframe")]
    if fr:
        return "touches the CAN transport at %s" % fr[0].loc
    return None


def grsp(op, svc, err):
    return [0xAF, NNHI, NNLO, op, svc, err]


def cmderr(err):
    return [0x6F, NNHI, NNLO, err]


WRACK = [0x59, NNHI, NNLO]


def svc_id(L, cls):
    """the service id a class reports (constant return of getServiceID)"""
    f = L.w.vmethod(NS + cls, "getServiceID")
    if f is None:
        raise AnalysisError("anchor lost: getServiceID of " + cls)
    o = L.obj(cls)
    r = L.I.call(f, [ptr(o, C64(0))], L.state())
    if len(r) != 1 or r[0][0].op != "c":
        raise AnalysisError("service id of %s is not constant" % cls)
    return r[0][0].a & 0xFF


def main(fn, pid, rule, minimum):
    tier = os.environ.get("VERIF_TIER", "quick")
    c = Check(pid, tier, rule, minimum)

    def late(*a):
        raise Enough("time budget used up")
    signal.signal(signal.SIGALRM, late)
    signal.alarm(800 if tier == "quick" else 14000)
    try:
        try:
            fn(c)
            signal.alarm(0)
        except Exception as e:
            if not c.bad:       # obligations already refuted stand on their own
                raise
            c.note("stopped early: %r" % e)
        rc = c.finish()
    except Exception as e:
        traceback.print_exc()
        print("ANALYSIS-BROKEN property=%s %s" % (pid, e if isinstance(e, AnalysisError) else repr(e)))
        rc = 3
    sys.exit(rc)
