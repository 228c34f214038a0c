"""Configuration object: event table and look-up, storage layout, identity settings, start-up."""
from common import *
from mns import factory

CF = NS + "Configuration"
CONF = ptr("Config", C64(0))


def narrowed(env, r, size):
    """a byte result cut from a wider variable that is known to fit: the variable is that byte"""
    r = env.norm(r)
    for v in support(r):
        if r.w == 8 and v.op == "a" and v.w > 8 and env.rng(v)[1] < 256 and r is slice_(v, 0, 8):
            n, z = atom(("narrow", v), 8), zext(size, v.w)
            below, above = env.lt(v, z), env.le(z, v)
            most = env.le(v, z)
            env = env.copy()
            env._bind(v, zext(n, v.w))
            if below:
                env.assume(ult(n, size))
            elif above and most:
                env.assume(eq(n, size))
            elif above:
                env.assume(ult(n, size), False)
            r = env.norm(r)
    return env, r


class Tab:
    def __init__(self, c, contracts=False, partition=True):
        self.c = c
        self.L = L = c.lib(contracts=contracts, partition=partition)
        self.MAX, self.NUM = L.cfg("EE_MAX_EVENTS"), L.cfg("EE_NUM_EVS")

    def call(self, name, args=(), st=None, pre=None):
        """[(result, state)] of a public configuration operation"""
        L = self.L
        f = L.w.fn(CF + "::" + name)
        st = st.copy() if st is not None else L.state()
        if pre:
            pre(st.wenv())
            if st.env.dead:
                raise AnalysisError("empty context " + name)
        st0 = st.copy()
        self.c.cases += 1
        self.mark = {k: len(v.get("inst", [])) for k, v in L.w.looplog.items()}
        r = L.I.call(f, [CONF] + list(args), st)
        if not r:
            raise AnalysisError("no outcome of " + name)
        self.c.paths += len(r)
        return st0, r

    def newloops(self):
        out = []
        for k, v in self.L.w.looplog.items():
            for inst in v.get("inst", [])[self.mark.get(k, 0):]:
                out.append((v, inst))
        return out

    def ob(self, name, err, st=None):
        self.c.ob(name, err is None, (err or "") + (" -- " + statestr(st) if err and st is not None else ""), lastloc(st) if err and st is not None else "")

    def quiet(self, st0, st, allow=()):
        """None when the operation changed nothing but storage addresses/fields allowed"""
        for e, lp in walk(st.log):
            if e.kind in ("swrite", "swriten", "sreset", "action", "frame", "reboot", "callback"):
                if e.kind == "swrite" and any(st.env.same(e.a["addr"], a) for a in allow):
                    continue
                return "unexpected effect %r" % e
        return None

    # ------------------------------------------------------------ searches
    def search(self, name, args, hit, skip, pre=None):
        c, L = self.c, self.L
        st0, res = self.call(name, args, pre=pre)
        loops = self.newloops()
        hits = 0
        for r, st in res:
            env, r = narrowed(st.env, r, self.MAX)
            wide = st
            if env is not st.env:
                st = st.copy()
                st.env = env
            self.ob("%s: changes nothing" % name, self.quiet(st0, st), st)
            if env.lt(r, self.MAX):
                hits += 1
                self.ob("%s: a returned slot matches" % name, None if hit(st, r) else "returns slot %s without having found a match there" % show(r), st)
                continue
            if not env.same(r, self.MAX):
                self.ob("%s: returns a slot or the table size" % name, "result %s is neither a slot nor the table size" % show(r), st)
                continue
            if env.same(self.MAX, K(0)):
                continue
            # not found: a loop must have visited every slot
            errs = []
            for rec, inst in loops:
                e = Ev("loop", {"vars": inst["vars"], "seqs": (), "seqkey": ()}, rec["line"], (), None)
                for v in inst["vars"]:
                    for j in [v] + around(v)[1:]:
                        er = None
                        for q, env2, nv in inst["iters"]:
                            er = er or coverage(L, wide, e, env2, j, 0, self.MAX)[0]
                        errs.append(er)
            self.ob("%s: reports absence only after visiting every slot" % name, None if any(x is None for x in errs) else (errs or ["no search loop found"])[0], st)
        self.ob("%s: can find something" % name, None if hits else "no path returns a slot")
        n = 0
        for rec, inst in loops:
            iv = [v for v, (z, s) in inst["vars"].items() if s in (1, -1)]
            if not iv:
                continue
            for q, env2, nv in inst["iters"]:
                n += 1
                ok = any(skip(*narrowed(env2, j, self.MAX)) for v in iv for j in around(v))
                self.ob("%s: a slot is passed over only when it does not match" % name, None if ok else "continues past a slot that may match (loop at %s): %s" % (rec["line"], env2.describe()[:300]))
        self.ob("%s: searches" % name, None if n else "no search loop iterations")

    def rec(self, st, idx, i):
        return evbyte(self.L, st, idx, i)

    def hash_of(self, st0=None):
        """{outcome: (term, condition)} stored by a look-up refresh of slot 'k'"""


def P12(c):
    T_ = Tab(c)
    L = T_.L
    MAX = T_.MAX
    idx = atom("slot", 8)
    inr = lambda env: env.assume(ult(idx, MAX))
    st0, res = T_.call("updateEvHashEntry", [idx], pre=inr)
    H = None
    for r, st in res:
        env = st.env
        by = [T_.rec(st0, idx, i) for i in range(4)]
        v = hashcell(L, st, idx)
        unused = all(env.same(b, K(0xFF)) for b in by)
        used = any(env.differ(b, K(0xFF)) for b in by) or env.differ(concat(by), const(32, 0xFFFFFFFF))
        T_.ob("refresh: distinguishes used and unused records", None if unused or used else "path does not determine whether the record is unused", st)
        T_.ob("refresh: stores nothing but the look-up entry", T_.quiet(st0, st), st)
        other = atom("other", 8)
        s2 = st.copy()
        s2.wenv().assume(ult(other, MAX))
        s2.wenv().assume(eq(other, idx), False)
        T_.ob("refresh: leaves other entries alone", None if s2.env.same(hashcell(L, s2, other), hashcell(L, st0, other)) else "entry of another slot becomes %s" % show(hashcell(L, s2, other)), st)
        if unused:
            T_.ob("refresh: an unused record gets the free mark", None if env.same(v, K(0)) else "entry becomes %s" % show(v), st)
        elif used:
            T_.ob("refresh: a used record never gets the free mark", None if zero_test(env, v) is True else "entry %s may be 0" % show(v), st)
            H = H or []
            H.append((v, env, by))
    if not H:
        raise AnalysisError("no look-up value for used records")
    nn, en = [atom("nn.hi", 8), atom("nn.lo", 8)], [atom("en.hi", 8), atom("en.lo", 8)]
    key = nn + en
    NN, EN = zext(concat([nn[1], nn[0]]), 32), zext(concat([en[1], en[0]]), 32)

    def nohash(env, h):
        """the entry value h is not the value a record with the searched key has"""
        for v, e, by in H:
            x = env.copy()
            m = dict(zip(by, key))
            for b, k in zip(by, key):
                t = e.norm(b)
                if t.op == "c":
                    x.assume(eq(k, t))
            for b, k in zip(by, key):
                t, kk = e.norm(b), x.norm(k)
                if x.dead or t.op not in ("a", "rd") or t.w > 8:
                    continue
                if kk.op == "c":
                    x.dead = x.dead or not (e.mask(t) >> kk.a) & 1
                elif kk.op in ("a", "rd"):
                    x._setmask(kk, x.mask(kk) & e.mask(t))
            for p, val in e.facts.items():
                if support(p) & set(by):
                    x.assume(subst(p, m), val)
                if x.dead:
                    break
            if not x.dead and not x.differ(h, x.norm(subst(v, m))):
                return False
        return True

    def keydiff(env, s0, i):
        r = [T_.rec(s0, i, k) for k in range(4)]
        if any(env.differ(x, y) for x, y in zip(r, key)):
            return True
        big = lambda z: concat(z[::-1])
        return env.differ(big(r[:2]), big(key[:2])) or env.differ(big(r[2:]), big(key[2:])) or env.differ(big(r), big(key)) or env.differ(concat(r), concat(key))

    def hit(st, r):
        return all(st.env.same(T_.rec(st, r, k), key[k]) for k in range(4))

    base = L.state()

    def skip(env, i):
        h = hashcell(L, base, i)
        # (a free entry cannot match: refresh never stores 0 for a used record)
        return keydiff(env, base, i) or env.same(h, K(0)) or nohash(env, h)
    T_.search("findExistingEvent", [NN, EN], hit, skip)
    T_.search("findEventSpace", [], lambda st, r: zero_test(st.env, hashcell(L, st, r)) is False,
              lambda env, i: zero_test(env, hashcell(L, base, i)) is True)
    evn, evv = atom("evn", 8), atom("evv", 8)
    evok = lambda env: (env.assume(ult(K(0), evn)), env.assume(ult(T_.NUM, evn), False))
    T_.search("findExistingEventByEv", [evn, evv], lambda st, r: st.env.same(L.I.load(st, EE, evval_addr(L, r, evn), 1), evv),
              lambda env, i: env.differ(L.I.load(base, EE, evval_addr(L, i, evn), 1), evv) or zero_test(env, hashcell(L, base, i)) is False, pre=evok)
    # number of events
    st0, res = T_.call("numEvents")
    for r, st in res:
        if st.env.same(MAX, K(0)):
            T_.ob("numEvents: empty table", None if st.env.same(r, K(0)) else "counts %s" % show(r), st)
            continue
        T_.ob("numEvents: counts exactly the used slots", counted(L, st.env, r, lambda env, i: zero_test(env, hashcell(L, base, i)), MAX), st)
        T_.ob("numEvents: changes nothing", T_.quiet(st0, st), st)
    # clearing
    st0, res = T_.call("clearEvHashTable")
    for r, st in res:
        T_.ob("clear: touches no storage", T_.quiet(st0, st), st)
        allwritten(T_, st, "clear: every entry becomes free", lambda env, i, v: env.same(v, K(0)), MAX)
    # entry access
    st0, res = T_.call("getEvTableEntry", [idx])
    for r, st in res:
        env = st.env
        want = hashcell(L, st0, idx) if env.lt(idx, MAX) else K(0) if env.le(MAX, idx) else None
        T_.ob("entry: slot's entry, 0 beyond the table", None if want is not None and env.same(r, want) else "returns %s" % show(r), st)
    # start-up builds the table
    T2 = Tab(c, contracts=True, partition=False)
    pre = lambda env: env.assume(eq(T2.L.I.load(base, EE, C64(0), 1), K(1)))
    st0, res = T2.call("begin", pre=pre)
    o, s, y = T2.L.w.field(CF, "evhashtbl", want="unsigned char*")
    for r, st in res:
        if st.env.same(T2.MAX, K(0)):
            continue
        tb = T2.L.I.load(st, "Config", C64(o), 8, True)
        T2.ob("start-up: allocates the look-up table", None if tb.op == "p" and tb.a[0] != T2.L.I.load(st0, "Config", C64(o), 8, True).a[0] else "table pointer is %s" % show(tb), st)
        if tb.op == "p":
            sz = T2.L.I.objsize(st, tb.a[0])
            T2.ob("start-up: look-up table has one byte per slot", None if sz is not None and st.env.le(zext(T2.MAX, 64), sz if isinstance(sz, T) else C64(sz)) else "size %s" % (show(sz) if isinstance(sz, T) else sz), st)
        lo = [e for e in st.log if e.kind == "loop" and any(z.kind == "hashupd" for z, _ in walk((e,)))]
        err = "look-up entries are not refreshed by one loop" if len(lo) != 1 else None
        if not err:
            for q, env2, nv in lo[0].a["_iters"]:
                hu = [z for z in q if z.kind == "hashupd"]
                err = err or ("an iteration refreshes %d entries" % len(hu) if len(hu) != 1 else coverage(T2.L, st, lo[0], env2, hu[0].a["idx"], 0, T2.MAX)[0])
        T2.ob("start-up: refreshes the entry of every slot", err, st)


def allwritten(T_, st, name, ok, upto):
    """a loop of the last call wrote look-up entry i for each i < upto with ok(env,i,value)"""
    L = T_.L
    if st.env.same(upto, K(0)):
        return
    o, s, y = L.w.field(CF, "evhashtbl", want="unsigned char*")
    errs = []
    for rec, inst in T_.newloops():
        for v in inst["vars"]:
            if v.w > 32:
                continue
            e = Ev("loop", {"vars": inst["vars"], "seqs": (), "seqkey": ()}, rec["line"], (), None)
            for j in around(v):
                er = None
                for (q, env2, nv), bst in zip(inst["iters"], inst["bstates"]):
                    er = er or coverage(L, st, e, env2, j, 0, upto)[0]
                    val = hashcell(L, bst, j)
                    if not er and not ok(env2, j, val):
                        er = "entry becomes %s at %s" % (show(val), rec["line"])
                errs.append(er)
    # or one fill: an entry chosen anywhere in the table has the value
    i = atom("anyentry", 8)
    st2 = st.copy()
    st2.wenv().assume(ult(i, upto))
    if not any(x is None for x in errs) and ok(st2.env, i, hashcell(L, st2, i)):
        errs = [None]
    T_.ob(name, None if any(x is None for x in errs) else (errs or ["no loop over the table"])[0], st)


def P13(c):
    T_ = Tab(c)
    L = T_.L
    START = zext(L.cfg("EE_NVS_START"), 64)
    i, v = atom("i", 8), atom("v", 8)
    nz = lambda env: env.assume(ult(K(0), i))
    a = sub(add(START, zext(i, 64)), C64(1))
    base = L.state()

    def one(name, args, store=None, ret=None, pre=None, label=""):
        st0, res = T_.call(name, args, pre=pre)
        for r, st in res:
            err = T_.quiet(st0, st, list(store or {}))
            for ad, val in (store or {}).items():
                g = L.I.load(st, EE, ad, 1)
                if not err and not st.env.same(g, val):
                    err = "storage[%s] ends as %s, expected %s" % (show(st.env.norm(ad)), show(g), show(val))
            if not err and ret is not None and not st.env.same(r, ret):
                err = "returns %s, expected %s" % (show(r), show(st.env.norm(ret)))
            T_.ob(name + ": " + label, err, st)
        return st0, res
    one("readNV", [i], ret=L.I.load(base, EE, a, 1), pre=nz, label="reads the byte of this variable")
    one("writeNV", [i, v], store={a: v}, pre=nz, label="writes the byte of this variable only")
    n = atom("n", 8)
    ok = lambda env: (env.assume(ult(K(0), n)), env.assume(ult(T_.NUM, n), False), env.assume(ult(i, T_.MAX)))
    ea = evval_addr(L, i, n)
    one("getEventEVval", [i, n], ret=L.I.load(base, EE, ea, 1), pre=ok, label="reads this event variable")
    one("writeEventEV", [i, n, v], store={ea: v}, pre=ok, label="writes this event variable only")
    b = L.evaddr(i)[0]
    one("cleareventEEPROM", [i], store={add(b, C64(k)): K(0xFF) for k in range(4)}, label="marks this record unused only")
    buf = ("in", "buf")
    L.w.osize[buf] = 4
    st = L.state()
    by = [atom("k%d" % k, 8) for k in range(4)]
    for k in range(4):
        L.I.store(st, buf, C64(k), 1, by[k])
    st0, res = T_.call("writeEvent", [i, ptr(buf, C64(0))], st=st)
    for r, s in res:
        err = T_.quiet(st0, s, [add(b, C64(k)) for k in range(4)])
        for k in range(4):
            if not err and not s.env.same(L.I.load(s, EE, add(b, C64(k)), 1), by[k]):
                err = "byte %d of the record ends as %s" % (k, show(L.I.load(s, EE, add(b, C64(k)), 1)))
        T_.ob("writeEvent: stores the key in this record only", err, s)
    st0, res = T_.call("readEvent", [i, ptr(buf, C64(0))], st=st)
    for r, s in res:
        err = T_.quiet(st0, s)
        for k in range(4):
            if not err and not s.env.same(L.I.load(s, buf, C64(k), 1), L.I.load(st, EE, add(b, C64(k)), 1)):
                err = "byte %d read is %s" % (k, show(L.I.load(s, buf, C64(k), 1)))
        T_.ob("readEvent: reads the key of this record", err, s)
    # layout chosen at start-up
    T2 = Tab(c, contracts=True, partition=False)
    L2 = T2.L
    L2.w.initfield.pop(CF + ".EE_BYTES_PER_EVENT", None)
    es, ns, bpe, nn = [L2.w.field(CF, x) for x in ("EE_EVENTS_START", "EE_NVS_START", "EE_BYTES_PER_EVENT", "EE_NUM_NVS")]
    for auto in (True, False):
        def pre(env):
            env.iv.pop(L2.cfg("EE_EVENTS_START"), None)
            env.assume(eq(L2.cfg("EE_EVENTS_START"), const(32, 0)), auto)
        st0, res = T2.call("begin", pre=pre)
        for r, s in res:
            g = lambda f: L2.I.load(s, "Config", C64(f[0]), f[1])
            T2.ob("start-up: record size is the key plus all event variables", None if s.env.same(g(bpe), zext(add(T2.NUM, K(4)), 8 * bpe[1])) else "record size %s" % show(g(bpe)), s)
            want = add(L2.cfg("EE_NVS_START"), zext(L2.cfg("EE_NUM_NVS"), 32)) if auto else L2.cfg("EE_EVENTS_START")
            T2.ob("start-up: events start after the node variables unless placed by the user", None if s.env.same(g(es), want) else "events start at %s" % show(g(es)), s)
            T2.ob("start-up: node variables keep their place", None if s.env.same(g(ns), L2.cfg("EE_NVS_START")) else "NVs start at %s" % show(g(ns)), s)
    # constructor default keeps clear of the settings area
    for f in L2.w.bydem.get(CF + "::Configuration", []):
        if f.decl or len(f.params) > 2:
            continue
        st = L2.state()
        L2.w.otype["NewConfig"] = None
        L2.w.osize["NewConfig"] = L2.w.types[CF]["size"]
        rs = L2.I.call(f, [ptr("NewConfig", C64(0))] + [ptr("Storage", C64(0))] * (len(f.params) - 1), st)
        for r, s in rs:
            g = L2.I.load(s, "NewConfig", C64(ns[0]), ns[1])
            T2.ob("default: node variables start behind the settings", None if s.env.lt(C64(5), zext(g, 64)) else "NVs start at %s" % show(g), s)


IDS = {"mode": 0, "canid": 1, "hi": 2, "lo": 3, "flags": 4, "reset": 5}


def P07(c):
    T_ = Tab(c, contracts=True, partition=False)
    L = T_.L
    old = L.I.load(L.state(), EE, C64(4), 1)
    v8, v32, vb = atom("val", 8), zext(atom("val16", 16), 32), atom("flag", 1)
    a16 = atom("val16", 16)
    hi, lo = slice_(a16, 8, 8), slice_(a16, 0, 8)
    cw = 8 * L.w.field(CF, "currentMode")[1]
    flag = lambda bit, on: bor(old, K(1 << bit)) if on else band(old, K(0xFF ^ (1 << bit)))
    cases = [("setCANID", [v8], {1: v8}, dict(CANID=v8)),
             ("setNodeNum", [v32], {2: hi, 3: lo}, dict(nodeNum=v32)),
             ("setModuleNormalMode", [v32], {0: K(NORMAL), 2: hi, 3: lo}, dict(currentMode=const(cw, NORMAL), nodeNum=v32)),
             ("setModuleUninitializedMode", [], {0: K(UNINIT), 1: K(0), 2: K(0), 3: K(0)}, dict(currentMode=const(cw, UNINIT), nodeNum=0, CANID=0)),
             ("setResetFlag", [], {5: K(99)}, {}), ("clearResetFlag", [], {5: lambda env, t: env.differ(t, K(99))}, {})]
    for on in (0, 1):
        cases += [("setHeartbeat", [const(1, on)], {4: flag(0, on)}, dict(heartbeat=on)),
                  ("setEventAck", [const(1, on)], {4: flag(1, on)}, dict(eventAck=on))]

    class X:
        pass
    for name, args, store, cfg in cases:
        st0, res = T_.call(name, args)
        x = X()
        x.L, x.st0, x.obj = L, st0, "Config"
        for r, st in res:
            plain = {C64(a): t for a, t in store.items() if not callable(t)}
            e = Expect(store={C64(a): (t if not callable(t) else None) for a, t in store.items()}, cfg=cfg)
            err = mismatch(c, L, x, st, e)
            for a, t in store.items():
                if not err and callable(t) and not t(st.env, L.I.load(st, EE, C64(a), 1)):
                    err = "storage[%d] ends as %s" % (a, show(L.I.load(st, EE, C64(a), 1)))
            T_.ob(name + ": in memory and in storage alike, nothing else", err, st)
            # after a restart the same value is in effect
            s2 = st.copy()
            for n in ("currentMode", "CANID", "nodeNum", "heartbeat", "eventAck"):
                o, s, y = L.w.field(CF, n)
                L.I.store(s2, "Config", C64(o), s, atom("lost." + n, 8 * s))
            env = s2.wenv()
            if name in ("setNodeNum", "setModuleNormalMode"):
                env.assume(eq(a16, const(16, 0xFFFF)), False)
            elif 2 not in store:
                env.assume(eq(L.I.load(s2, EE, C64(2), 1), K(0xFF)), False)     # not a virgin storage
            s2.log = ()
            _, rr = T_.call("begin", st=s2)
            for r2, s3 in rr:
                for n, v in cfg.items():
                    o, s, y = L.w.field(CF, n)
                    g = L.I.load(s3, "Config", C64(o), s)
                    v = const(8 * s, v) if isinstance(v, int) else zext(v, 8 * s)
                    T_.ob("%s: %s is restored by a restart" % (name, n), None if s3.env.same(g, v) else "restored as %s" % show(g), s3)
                for a, t in plain.items():
                    T_.ob("%s: stored value survives a restart" % name, None if s3.env.same(L.I.load(s3, EE, a, 1), t) else "storage[%s] becomes %s" % (show(a), show(L.I.load(s3, EE, a, 1))), s3)
    # reset flag query
    st0, res = T_.call("isResetFlagSet")
    for r, st in res:
        set_ = eq(L.I.load(st0, EE, C64(5), 1), K(99))
        g = st.env.norm(r)
        T_.ob("isResetFlagSet: true exactly when set", None if st.env.same(g, zext(set_, g.w)) or (g.op == "c" and st.env.decide(set_) == bool(g.a)) else "returns %s" % show(g), st)


def P08(c):
    T_ = Tab(c, contracts=True, partition=False)
    L = T_.L
    base = L.state()
    s = lambda a: L.I.load(base, EE, C64(a), 1)
    cw = 8 * L.w.field(CF, "currentMode")[1]

    class X:
        pass

    def fields(st, mode, canid, hi, lo, flags):
        err = None
        want = dict(currentMode=zext(mode, cw), CANID=canid, nodeNum=concat([lo, hi]), heartbeat=slice_(flags, 0, 1), eventAck=slice_(flags, 1, 1))
        for n, v in want.items():
            o, sz, y = L.w.field(CF, n)
            g = L.I.load(st, "Config", C64(o), sz)
            if not err and not st.env.same(g, zext(v, 8 * sz)):
                err = "%s starts as %s, expected %s" % (n, show(g), show(st.env.norm(v)))
        return err
    virgin = lambda env, v: (env.assume(eq(s(0), K(0xFF))), env.assume(eq(s(2), K(0xFF))), env.assume(eq(s(3), K(0xFF)))) if v else None
    # (a) a used module: nothing is erased
    for name, pre in (("normal mode", lambda env: env.assume(eq(s(0), K(NORMAL)))),
                      ("uninitialised", lambda env: (env.assume(eq(s(0), K(UNINIT))), env.assume(eq(s(2), K(0xFF)), False))),
                      ("uninitialised, high byte FF", lambda env: (env.assume(eq(s(0), K(UNINIT))), env.assume(eq(s(2), K(0xFF))), env.assume(eq(s(3), K(0xFF)), False))),
                      ("normal, number FFFF", lambda env: (env.assume(eq(s(0), K(NORMAL))), env.assume(eq(s(2), K(0xFF))), env.assume(eq(s(3), K(0xFF))))),
                      ("left in setup", lambda env: (env.assume(eq(s(0), K(SETUP))), env.assume(eq(s(2), K(0xFF)), False)))):
        setup = name == "left in setup"
        st0, res = T_.call("begin", pre=pre)
        for r, st in res:
            w = [e for e, lp in walk(st.log) if e.kind in ("swrite", "swriten", "sreset", "reboot")]
            acc = [e.kind for e, lp in walk(st.log) if e.kind in ("sbegin", "sread", "sreadn", "swrite", "swriten", "sreset")]
            T_.ob("start-up, %s: the storage is started once, before it is used" % name, None if acc[:1] == ["sbegin"] and acc.count("sbegin") == 1 else
                  "the storage is %s" % ("never started" if "sbegin" not in acc else "started %d times, or used before" % acc.count("sbegin")), st)
            err = None
            for e in w:
                if not (setup and e.kind == "swrite" and st.env.same(e.a["addr"], C64(0)) and st.env.same(e.a["val"], K(UNINIT))):
                    err = "start-up changes storage or restarts: %r" % e
            T_.ob("start-up, %s: stored data kept" % name, err, st)
            T_.ob("start-up, %s: settings loaded from storage" % name, fields(st, K(UNINIT) if setup else s(0), s(1), s(2), s(3), s(4)), st)
            if setup:
                T_.ob("start-up, left in setup: falls back to uninitialised persistently", None if st.env.same(L.I.load(st, EE, C64(0), 1), K(UNINIT)) else "mode byte %s" % show(L.I.load(st, EE, C64(0), 1)), st)
    # (b) virgin storage: complete reset to defaults
    st0, res = T_.call("begin", pre=lambda env: virgin(env, True))
    for r, st in res:
        log = list(st.log)
        k = [i for i, e in enumerate(log) if e.kind == "reboot"]
        if len(k) != 1:
            T_.ob("start-up, blank storage: one restart after the reset", "restarts %d times" % len(k), st)
            continue
        h = st.copy()
        h.log = tuple(log[:k[0] + 1])
        T_.ob("start-up, blank storage: complete reset to defaults", factory(L, h), st)
        T_.ob("start-up, blank storage: starts uninitialised without a number", fields(st, K(UNINIT), K(0), K(0), K(0), K(0)), st)
    # (c) explicit factory reset
    st0, res = T_.call("resetModule")
    for r, st in res:
        T_.ob("factory reset: complete", factory(L, st), st)


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
