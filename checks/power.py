"""Power loss between any two stored bytes: what a restart makes of the half-done change."""
from mns import *
from table import CF, CONF


def effects(log):
    """the storage effects of a state in program order; those of a loop as one item"""
    out = []
    for e in log:
        if e.kind in ("swrite", "swriten", "sreset"):
            out.append(e)
        elif e.kind == "loop" and any(z.kind in ("swrite", "swriten", "sreset") for q, env, nv in e.a["_iters"] for z in q):
            out.append(e)
    return out


class Power:
    def __init__(self, c):
        self.c = c
        self.L = L = c.lib()
        self.names = {}
        for n in ("currentMode", "nodeNum", "CANID"):
            o, s, y = L.w.field(CF, n)
            self.names[n] = (o, s)

    def fld(self, st, n):
        o, s = self.names[n]
        return self.L.I.load(st, "Config", C64(o), s)

    def stored(self, st):
        """make the settings in memory those that are stored (an ordinary running module)"""
        L = self.L
        s = lambda a: L.I.load(st, EE, C64(a), 1)
        o, z = self.names["currentMode"]
        L.I.store(st, "Config", C64(o), z, zext(s(0), 8 * z))
        o, z = self.names["nodeNum"]
        L.I.store(st, "Config", C64(o), z, zext(concat([s(3), s(2)]), 8 * z))
        o, z = self.names["CANID"]
        L.I.store(st, "Config", C64(o), z, s(1))

    def restart(self, h):
        """the states after power on with the storage of h"""
        L = self.L
        for n, (o, s) in self.names.items():
            L.I.store(h, "Config", C64(o), s, atom("lost." + n, 8 * s))
        h.log = ()
        return [t for _, t in L.I.call(L.w.fn(CF + "::begin"), [CONF], h)]

    def check(self, label, st0, st, old):
        """every point between two storage effects of st, begun as st0 with stored mode `old`;
        a storage's reset erases the settings (flash) or leaves them to be written (EEPROM)"""
        n = self.scan(label, st0, st, old, True)
        if any(e.kind == "sreset" for e in effects(st.log)):
            n += self.scan(label + " (settings kept by the storage's reset)", st0, st, old, False)
        return n

    def scan(self, label, st0, st, old, erase):
        c, L = self.c, self.L
        ef = effects(st.log)
        head = [k for k, e in enumerate(ef) if e.kind == "sreset" or (e.kind == "swrite" and (st.env.norm(e.a["addr"]).op != "c" or st.env.norm(e.a["addr"]).a < 4))]
        if not head:
            return 0
        newN, newM = self.fld(st, "nodeNum"), self.fld(st, "currentMode")
        oldN = self.fld(st0, "nodeNum")
        h = st.copy()
        h.mem = dict(st0.copy().mem)
        n = 0
        for k, e in enumerate(ef):
            if e.kind == "swrite":
                L.I.store(h, EE, e.a["addr"], 1, e.a["val"])
            elif e.kind == "sreset":
                for a in range(6 if erase else 0):
                    L.I.store(h, EE, C64(a), 1, K(0xFF))
            elif e.kind == "loop":
                ws = [(z, env) for q, env, nv in e.a["_iters"] for z in q if z.kind in ("swrite", "swriten", "sreset")]
                if any(z.kind != "swrite" or not self.outside(env, z.a["addr"]) for z, env in ws):
                    c.notes.append("%s: a loop writes settings, the points inside it are not decided" % label)
                    return n
                continue
            else:
                return n
            n += 1
            for r in self.restart(h.copy()):
                M, N = self.fld(r, "currentMode"), self.fld(r, "nodeNum")
                same = r.env.same
                mw = lambda v: const(M.w, v)
                if same(M, mw(UNINIT)):
                    err = None
                elif not same(M, mw(NORMAL)):
                    err = "restarts in mode %s" % show(r.env.norm(M))
                elif old == NORMAL and same(N, oldN):
                    err = None
                elif same(newM, mw(NORMAL)) and same(N, newN):
                    err = None
                else:
                    err = "restarts in normal mode as node number %s, which is neither the old nor the new number" % show(r.env.norm(N))
                if err:
                    err = "power lost after the write at %s: %s" % (e.loc, err)
                c.ob("%s, stored mode %d, interrupted after storage effect %d" % (label, old, k + 1), err is None, (err or "") + (" -- " + statestr(st)[:600] if err else ""), e.loc if err else "")
        return n

    def outside(self, env, a):
        a = env.norm(a)
        return env.lt(K(5, 64), zext(a, 64)) if a.w <= 64 else False


def P40(c):
    p = Power(c)
    L = p.L
    points = 0
    cl = [k.split("::")[-1] for k in L.services() if L.w.is_a(k, NS + MNS)]
    if not cl:
        raise AnalysisError("anchor lost: minimum node service")

    class Run(Ctx):
        def run(self, st, pa):
            p.stored(st)
            env = st.wenv()
            env.assume(eq(L.I.load(st, EE, C64(0), 1), K(self.old)))
            if self.old == NORMAL:
                env.assume(eq(concat([L.I.load(st, EE, C64(3), 1), L.I.load(st, EE, C64(2), 1)]), const(16, 0xFFFF)), False)
            self.st0 = st.copy()
            Ctx.run(self, st, pa)

    for cls in cl:
        m = MNSpec(c, L, cls)
        for old in (UNINIT, NORMAL):
            Run.old = old
            def pr(env):
                # instant mode only; the current mode is the stored one
                L.setvals(env, m.IM, [UNINIT, SETUP, NORMAL])
                env.assume(eq(m.NH, K(1)))
            for op in range(256):
                ctx = Run(c, L, cls, op=op, ln=8, pre=pr)
                for st in ctx.states:
                    points += p.check("%s: message %02X" % (cls, op), ctx.st0, st, old)
            for kind in ("CHANGE_MODE", "RENEGOTIATE"):
                ctx = Run(c, L, cls, kind=ACTIONS[kind], pre=pr)
                for st in ctx.states:
                    points += p.check("%s: %s" % (cls, kind), ctx.st0, st, old)
    # the operations themselves, as a sketch may use them
    for name, args in (("setModuleNormalMode", [zext(atom("val16", 16), 32)]), ("setModuleUninitializedMode", []), ("resetModule", [])):
        for old in (UNINIT, NORMAL):
            st = L.state()
            p.stored(st)
            env = st.wenv()
            env.assume(eq(L.I.load(st, EE, C64(0), 1), K(old)))
            if old == NORMAL:
                env.assume(eq(concat([L.I.load(st, EE, C64(3), 1), L.I.load(st, EE, C64(2), 1)]), const(16, 0xFFFF)), False)
            if args:
                env.assume(eq(atom("val16", 16), const(16, 0xFFFF)), False)
            st0 = st.copy()
            c.cases += 1
            for r, s in L.I.call(L.w.fn(CF + "::" + name), [CONF] + args, st):
                c.paths += 1
                points += p.check(name, st0, s, old)
    c.ob("interruption points exist", points >= 6, "only %d points between storage effects of mode and number changes found" % points)


if __name__ == "__main__":
    main(globals()[sys.argv[1]], sys.argv[1], "x", 5)
