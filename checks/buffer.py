"""The queue behind the controller: order, capacity, overflow, statistics."""
from common import *


class Q:
    """one abstract history of a buffer with a given capacity; the entries are symbolic"""

    def __init__(self, c, L, elem, cap, name):
        self.c, self.L, self.elem, self.cap, self.name = c, L, elem, cap, name
        self.cls = NS + "CircularBuffer<%s>" % elem
        t = L.w.types.get(self.cls)
        if t is None:
            raise AnalysisError("anchor lost: " + self.cls)
        self.esz = {"unsigned short": 2}.get(elem) or L.w.types[elem]["size"]
        self.obj = ("heap", "queue", cap)
        L.w.osize[self.obj] = t["size"]
        L.w.otype[self.obj] = self.cls
        self.st = L.state()
        self.n = 0
        self.model = []
        self.puts = self.gets = self.over = self.hwm = 0
        self.bad = None
        self.one(self.fn("CircularBuffer"), [K(cap)])

    def fn(self, m):
        fs = [f for f in self.L.w.bydem.get(self.cls + "::" + m, []) if not f.decl]
        if not fs:
            raise AnalysisError("anchor lost: CircularBuffer::" + m)
        return fs[0]

    def one(self, f, args):
        r = self.L.I.call(f, [ptr(self.obj, C64(0))] + args, self.st)
        if len(r) != 1:
            self.fail("%s has %d possible outcomes" % (f.base.split("::")[-1], len(r)))
            raise StopIteration
        self.st = r[0][1]
        self.st.log = ()
        return r[0][0]

    def fail(self, what):
        if self.bad is None:
            self.bad = what + " (capacity %d, %s)" % (self.cap, self.hist())

    def hist(self):
        return "after %d puts and %d gets" % (self.puts, self.gets)

    def entry(self):
        self.n += 1
        return tuple(atom(("entry", self.n, i), 8) for i in range(self.esz))

    def put(self):
        e = self.entry()
        o = ("msg", self.n % 4)
        self.L.w.osize[o] = self.esz
        for i, b in enumerate(e):
            self.L.I.store(self.st, o, C64(i), 1, b)
        self.one(self.fn("put"), [ptr(o, C64(0))])
        self.model.append(e)
        self.puts += 1
        if len(self.model) > self.cap:
            self.model.pop(0)
            self.over += 1
        self.hwm = max(self.hwm, len(self.model))

    def content(self, p):
        st = self.st
        o, f = self.L.I.deref(st, p)
        return tuple(self.L.I.load(st, o, add(f, C64(i)), 1) for i in range(self.esz))

    def same(self, p, e, what):
        g = self.content(p)
        if not all(self.st.env.same(x, y) for x, y in zip(g, e)):
            self.fail("%s yields %s instead of the oldest entry" % (what, show(g[0])))

    def available(self):
        r = self.one(self.fn("available"), [])
        v = truth(self.st.env, r)
        if v is not bool(self.model):
            self.fail("available() is %s with %d entries" % (v, len(self.model)))

    def peek(self):
        r = self.one(self.fn("peek"), [])
        if not self.model:
            if self.st.env.decide(eq(r, C64(0))) is not True and not (r.op == "c" and r.a == 0):
                self.fail("peek() at an empty buffer is not null")
        else:
            self.same(r, self.model[0], "peek()")

    def pop(self):
        r = self.one(self.fn("pop"), [])
        e = self.model.pop(0)
        self.gets += 1
        self.same(r, e, "pop()")

    def clear(self):
        self.one(self.fn("clear"), [])
        self.model = []

    def look(self):
        self.available()
        self.peek()

    def stats(self):
        for m, v in (("getNumberOfPuts", self.puts), ("getNumberOfGets", self.gets), ("getOverflows", self.over)):
            r = self.one(self.fn(m), [])
            r = self.st.env.norm(r)
            if r.op != "c" or r.a % 256 != v % 256:
                self.fail("%s is %s, expected %d" % (m, show(r), v))
        r = self.st.env.norm(self.one(self.fn("getHighWaterMark"), []))
        if r.op != "c" or r.a != self.hwm:
            self.fail("high watermark is %s after at most %d entries" % (show(r), self.hwm))

    def check(self):
        if self.st.alarms and self.bad is None:
            self.fail("accesses memory outside the buffer: %s" % (sorted(self.st.alarms, key=repr)[0],))
        return self.bad

    def snap(self):
        return (self.st.copy(), list(self.model), self.puts, self.gets, self.over, self.hwm, self.n)

    def back(self, s):
        self.st, self.model, self.puts, self.gets, self.over, self.hwm, self.n = s[0].copy(), list(s[1]), *s[2:]


def truth(env, t):
    if t.w > 1 or t.op == "c":
        d = env.decide(eq(t, const(t.w, 0)))
        return None if d is None else not d
    return env.decide(t)


def history(c, L, elem, cap, rotations, sizes):
    """every position of the read index in `rotations` with every fill level in `sizes`"""
    done = set()
    q = Q(c, L, elem, cap, "")
    at = 0
    r0 = None
    try:
        for rot in rotations:
            while at < rot:
                q.put()
                q.pop()
                at += 1
            base = q.snap()
            fill = 0
            for s in sizes:
                while fill < s:
                    q.put()
                    fill += 1
                here = q.snap()
                q.look()
                q.stats()
                if s:
                    q.pop()
                    q.look()
                    q.stats()
                    q.put()
                    q.look()
                    q.pop() if q.model else None
                    q.look()
                c.ob("capacity %d, read position %d, %d entries" % (cap, rot, s), q.check() is None, q.bad or "", "CircularBuffer.h")
                if q.bad:
                    return
                q.back(here)
                q.clear()
                q.look()
                q.put()
                q.look()
                q.pop()
                q.look()
                c.ob("capacity %d, read position %d, %d entries: clear" % (cap, rot, s), q.check() is None, q.bad or "", "CircularBuffer.h")
                if q.bad:
                    return
                q.back(here)
                c.cases += 1
            # everything comes out in order, also what overflowed
            while q.model:
                q.look()
                q.pop()
            q.look()
            q.stats()
            c.ob("capacity %d, read position %d: drained in order" % (cap, rot), q.check() is None, q.bad or "", "CircularBuffer.h")
            if q.bad:
                return
            q.back(base)
    except StopIteration:
        c.ob("capacity %d" % cap, False, q.bad, "CircularBuffer.h")


def run(c):
    L = c.lib(contracts=False)
    put = NS + "CircularBuffer<" + NS + "Action>::put"
    L.w.hooks.pop(put, None)
    A = NS + "Action"
    for cap in range(1, 9 if c.tier == "quick" else 17):
        history(c, L, A, cap, range(cap), range(0, cap + 3))
    # the capacity the controller uses, and those around the limits of the index types
    history(c, L, A, 30, (0, 1, 15, 28, 29), (0, 1, 14, 15, 16, 28, 29, 30, 31, 33))
    history(c, L, A, 30, (254, 255, 256, 257, 300), (0, 1, 29, 30, 31))
    for cap in (3, 7):
        history(c, L, A, cap, (253, 254, 255, 256, 257, 258, 511, 513), range(0, cap + 2))
    big = (64, 127, 128, 129, 200, 254, 255)
    for cap in big:
        history(c, L, "unsigned short", cap, (0, 1, cap // 2, cap - 1), sorted({0, 1, 2, cap // 2, cap - 2, cap - 1, cap, cap + 1}))
