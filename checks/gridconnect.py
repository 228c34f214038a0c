"""GridConnect: text and CAN frames, and the serial transport."""
from common import *

HEX = b"0123456789ABCDEF"
BUF = 30


def hexd(n):
    """the character of the 4-bit value n"""
    if n.op == "c":
        return K(HEX[n.a])
    return atom(("hexd", n), 8)


def is_hexd(env, t, n):
    """t is the character of digit n (a term over one small atom, or constant)"""
    t, n = env.norm(t), env.norm(n)
    if env.same(t, hexd(n)):
        return True
    if t.op == "a" and isinstance(t.a, tuple) and t.a[0] == "hexd":
        return env.same(t.a[1], n)
    a = single_small(n)
    if a is None or t.op != "c" and single_small(t) is not a:
        return False
    return all(tm.ev(t, {a: v}) == HEX[tm.ev(n, {a: v})] for v in range(1 << a.w) if env.mask(a) >> v & 1)


def text_models(L):
    """the C library's text functions on character buffers"""
    L.w.hexd = True
    H = L.w.hooks

    def chars(I, st, fr, ins, p, stop=None, limit=64):
        """characters up to the NUL; None when an undetermined character may be the NUL"""
        o, f = I.deref(st, p)
        out = []
        for i in range(limit):
            I.access(fr, ins, st, o, st.env.norm(add(f, C64(i))), 1, "string", p)
            c = st.env.norm(I.load(st, o, add(f, C64(i)), 1))
            if c.op == "c" and c.a == 0:
                return out
            out.append(c)
            if zero_test(st.env, c) is not True:
                return None
        return None
    L.chars = chars

    def strlen(I, st, fr, ins, args, fn):
        o = chars(I, st, fr, ins, args[0])
        if o is None:
            r = atom(("strlen", st.fresh()), 64)
            I.ev(st, "badstr", fr, ins)
            return [(r, st)]
        return [(C64(len(o)), st)]

    def put(I, st, fr, ins, p, cs):
        o, f = I.deref(st, p)
        I.rangecheck(fr, ins, st, o, f, C64(len(cs) + 1), "string-copy")
        for i, c in enumerate(list(cs) + [K(0)]):
            I.store(st, o, add(f, C64(i)), 1, c)

    def strcpy(I, st, fr, ins, args, fn):
        cs = chars(I, st, fr, ins, args[1])
        if cs is None:
            raise AnalysisError("copy of an unterminated string")
        put(I, st, fr, ins, args[0], cs)
        return [(args[0], st)]

    def strcat(I, st, fr, ins, args, fn):
        a, cs = chars(I, st, fr, ins, args[0]), chars(I, st, fr, ins, args[1])
        if cs is None or a is None:
            raise AnalysisError("copy of an unterminated string")
        put(I, st, fr, ins, add_ptr(I, st, args[0], len(a)), cs)
        return [(args[0], st)]

    def add_ptr(I, st, p, n):
        o, f = I.deref(st, p)
        return ptr(o, add(f, C64(n)))

    def formatted(I, st, fr, ins, fmt_, rest):
        out = []
        i = 0
        rest = list(rest)
        while i < len(fmt_):
            ch = fmt_[i]
            if ch != ord("%"):
                out.append(K(ch))
                i += 1
                continue
            i += 1
            zero, wd = False, 0
            while fmt_[i] in b"0123456789":
                if fmt_[i] == 48 and wd == 0:
                    zero = True
                else:
                    wd = wd * 10 + fmt_[i] - 48
                i += 1
            while fmt_[i] in b"lhz":
                i += 1
            cv = chr(fmt_[i])
            i += 1
            if cv == "%":
                out.append(K(37))
                continue
            v = st.env.norm(rest.pop(0))
            if cv == "c":
                out.append(trunc(v, 8))
            elif cv == "s":
                cs = chars(I, st, fr, ins, v)
                if cs is None:
                    raise AnalysisError("formatted string is unterminated")
                out += cs
            elif cv in "Xx":
                hi = st.env.rng(v)[1]
                need = max(1, (hi.bit_length() + 3) // 4)
                if need > max(wd, 1) or not (zero or wd <= 1):
                    I.ev(st, "wide", fr, ins, width=wd, value=v)
                for k in reversed(range(max(wd, need))):
                    c = hexd(st.env.norm(slice_(v, 4 * k, 4)))
                    if cv == "x":
                        c = atom(("lower", c), 8) if c.op != "c" else K(ord(chr(c.a).lower()))
                    out.append(c)
            else:
                raise AnalysisError("format %%%s is not modelled" % cv)
        return out

    def sprintf(I, st, fr, ins, args, fn):
        f = chars(I, st, fr, ins, args[1])
        cs = formatted(I, st, fr, ins, bytes(c.a for c in f), args[2:])
        put(I, st, fr, ins, args[0], cs)
        return [(const(32, len(cs)), st)]

    def snprintf(I, st, fr, ins, args, fn):
        f = chars(I, st, fr, ins, args[2])
        cs = formatted(I, st, fr, ins, bytes(c.a for c in f), args[3:])
        n = st.env.norm(args[1])
        if n.op != "c":
            raise AnalysisError("snprintf size is not constant")
        put(I, st, fr, ins, args[0], cs[:n.a - 1])
        return [(const(32, len(cs)), st)]

    def strtol(I, st, fr, ins, args, fn):
        b = st.env.norm(args[2])
        if b.op != "c" or b.a != 16:
            raise AnalysisError("strtol base %s is not modelled" % show(b))
        o, f = I.deref(st, args[0])
        ds = []
        for i in range(20):
            c = st.env.norm(I.load(st, o, add(f, C64(i)), 1))
            if c.op == "c" and bytes([c.a]).upper() in [bytes([h]) for h in HEX]:
                ds.append(const(4, int(chr(c.a), 16)))
                continue
            n = digit(st.env, c)
            if n is not None:
                ds.append(n)
                continue
            if c.op == "c" or not any(st.env.decide(eq(c, K(h))) is not False for h in HEX + HEX.lower() + b"xX"):
                break
            return [(atom(("strtol", st.fresh()), 64), st)]
        if not ds:
            return [(C64(0), st)]
        return [(zext(concat(list(reversed(ds[-16:]))), 64), st)]

    def digit(env, c):
        if c.op == "a" and isinstance(c.a, tuple) and c.a[0] == "hexd":
            return c.a[1]
        a = single_small(c)
        if a is not None and a.w == 4 and is_hexd(env, c, a):
            return a
        if a is not None and a.w == 4:
            # a known kind of digit: character = digit + constant
            for v in (0x30, 0x37):
                if env.same(sub(c, K(v)), zext(a, 8)) and (env.rng(a)[1] < 10 if v == 0x30 else env.rng(a)[0] >= 10):
                    return a
        return None

    def ctype(pred, conv=None):
        def f(I, st, fr, ins, args, fn):
            x = st.env.norm(args[0])
            w = I.tybits(ins["ty"])
            g = (lambda v: conv(v)) if conv else (lambda v: 1 if pred(v) else 0)
            x8 = st.env.norm(slice_(x, 0, 8))
            if x8.op == "c":
                return [(const(w, g(x8.a)), st)]
            vs = st.env.values(x8)
            if vs is None:
                vs = list(range(256))
            rs = {g(v) for v in vs}
            if len(rs) == 1:
                return [(const(w, rs.pop()), st)]
            if conv and all(g(v) == v for v in vs):
                return [(x, st)]
            return [(tm.tbl(tuple(g(v) for v in range(256)), x8, w), st)]
        return f
    up = lambda v: v - 32 if 97 <= v <= 122 else v
    low = lambda v: v + 32 if 65 <= v <= 90 else v
    H["strlen"], H["strcpy"], H["strcat"], H["sprintf"], H["snprintf"], H["strtol"] = strlen, strcpy, strcat, sprintf, snprintf, strtol
    for n in ("strtoul", "__isoc23_strtol", "__isoc23_strtoul"):
        H[n] = strtol
    for n, p in (("isxdigit", lambda v: chr(v) in "0123456789abcdefABCDEF"), ("isdigit", lambda v: 48 <= v <= 57), ("islower", lambda v: 97 <= v <= 122),
                 ("isupper", lambda v: 65 <= v <= 90), ("isalpha", lambda v: 65 <= v <= 90 or 97 <= v <= 122), ("isalnum", lambda v: chr(v).isalnum() and v < 128), ("isspace", lambda v: v in b" \t\n\r\f\v")):
        H[n] = ctype(p)
    H["toupper"], H["tolower"] = ctype(None, up), ctype(None, low)


def ident(ext, loose=False):
    """(id term, digit terms of its text); loose: unused bits are arbitrary"""
    if ext:
        b28, b24 = atom("id.28", 4), atom("id.24", 4)
        if loose:
            d2, d3 = atom("id.20u", 4), atom("id.17u", 4)
            b20, b17 = slice_(d2, 1, 3), slice_(d3, 0, 2)
        else:
            b20, b17 = atom("id.20", 3), atom("id.17", 2)
            d2, d3 = concat([const(1, 0), b20]), zext(b17, 4)
        lo = [atom("id.%d" % k, 4) for k in (15, 11, 7, 3)]
        t = concat(list(reversed([const(3, 0), b28, b24, b20, b17] + lo)))
        return t, [b28, b24, d2, d3] + lo
    a, b = atom("id.10", 4), atom("id.6", 4)
    d = atom("id.2u", 4) if loose else concat([const(1, 0), atom("id.2", 3)])
    return concat(list(reversed([const(21, 0), a, b, slice_(d, 1, 3)]))), [a, b, d, atom("u.4", 4) if loose else const(4, 0)]


def text(ext, rtr, n, loose=False):
    """(characters, id term, data terms) of a frame"""
    t, ds = ident(ext, loose)
    nb = [(atom("b%d.hi" % i, 4), atom("b%d.lo" % i, 4)) for i in range(n)]
    cs = [K(ord(":")), K(ord("X" if ext else "S"))] + [hexd(d) for d in ds] + [K(ord("R" if rtr else "N"))]
    for h, l in nb:
        cs += [hexd(h), hexd(l)]
    return cs + [K(ord(";"))], t, [concat([l, h]) for h, l in nb], ds, nb


class GC:
    def __init__(self, c, L):
        self.c, self.L = c, L
        text_models(L)
        w = L.w
        self.T = NS + "CANFrame"
        self.enc = w.fn(NS + "encodeGridConnect")
        self.dec = w.fn(NS + "decodeGridConnect")
        w.osize["gcbuf"] = BUF
        w.osize["gctext"] = 48
        w.osize["gcframe"] = w.types[self.T]["size"]
        w.otype["gcframe"] = self.T

    def f(self, name):
        o, s, y = self.L.w.field(self.T, name)
        return o, s

    def setframe(self, st, id_, ext, rtr, n, data):
        for k, v in (("id", id_), ("ext", ext), ("rtr", rtr), ("len", n)):
            o, s = self.f(k)
            self.L.I.store(st, "gcframe", C64(o), s, v if isinstance(v, T) else const(8 * s, v))
        o, s = self.f("data")
        for i, d in enumerate(data):
            self.L.I.store(st, "gcframe", C64(o + i), 1, d)

    def getframe(self, st, obj="gcframe"):
        r = {}
        for k in ("id", "ext", "rtr", "len"):
            o, s = self.f(k)
            r[k] = st.env.norm(self.L.I.load(st, obj, C64(o), s))
        o, s = self.f("data")
        r["data"] = [st.env.norm(self.L.I.load(st, obj, C64(o + i), 1)) for i in range(8)]
        return r

    def encode(self, st):
        self.c.cases += 1
        r = self.L.I.call(self.enc, [ptr("gcbuf", C64(0)), ptr("gcframe", C64(0))], st)
        self.c.paths += len(r)
        if not r:
            raise AnalysisError("no outcome of the conversion")
        return r

    def decode(self, st, cs, nul=True, at=0, buf="gctext"):
        for i, x in enumerate(list(cs) + ([K(0)] if nul else [])):
            self.L.I.store(st, buf, C64(at + i), 1, x)
            if x.op == "a" and isinstance(x.a, tuple) and x.a[0] == "hexd":
                a = single_small(x.a[1])
                if a is not None:
                    self.L.setvals(st.wenv(), x, sorted({HEX[tm.ev(x.a[1], {a: v})] for v in range(1 << a.w)}))
        self.c.cases += 1
        r = self.L.I.call(self.dec, [ptr(buf, C64(at)), ptr("gcframe", C64(0))], st)
        self.c.paths += len(r)
        if not r:
            raise AnalysisError("no outcome of the conversion")
        return r


def truth(env, r):
    r = env.norm(r)
    return zero_test(env, r) if r.w > 1 else (bool(r.a) if r.op == "c" else env.decide(r))


def alarms(st):
    return "; ".join("%s %s" % (a[0], a[1]) + " " + str(a[3])[:120] for a in list(st.alarms)[:2])


def bad(env, allowed):
    """restrict an atom to the characters that are neither NUL nor allowed"""
    return [v for v in range(1, 256) if v not in allowed]


def P25(c):
    L = c.lib()
    g = GC(c, L)
    I = L.I
    # text -> frame, every well-formed text
    for ext in (0, 1):
        for rtr in (0, 1):
            for n in range(0, 9):
              for loose in (False, True):
                cs, t, data, ds, nb = text(ext, rtr, n, loose)
                nm = "decode %s%s with %d bytes%s" % ("X" if ext else "S", "R" if rtr else "N", n, ", unused bits set" if loose else "")
                for r, st in g.decode(L.state(), cs):
                    env = st.env
                    if truth(env, r) is not True:
                        c.ob(nm, False, "well-formed text is not accepted {%s}" % env.describe()[:300], "GridConnect.cpp")
                        continue
                    f = g.getframe(st)
                    ok = env.same(f["id"], t) and env.same(slice_(f["ext"], 0, 8), K(ext)) and env.same(slice_(f["rtr"], 0, 8), K(rtr)) and env.same(f["len"], K(n)) \
                        and all(env.same(a, b) for a, b in zip(f["data"], data))
                    c.ob(nm, ok, "frame is id %s ext %s rtr %s len %s data %s" % (show(f["id"]), show(f["ext"]), show(f["rtr"]), show(f["len"]), [show(x) for x in f["data"][:n]]), "GridConnect.cpp")
                    c.ob(nm + ": stays inside the buffers", not st.alarms, alarms(st), "GridConnect.cpp")
    # text that is not well-formed
    for ext in (0, 1):
        for n in (0, 1, 4, 8):
            cs, t, data, ds, nb = text(ext, 0, n)
            last = len(cs) - 1
            rt = 10 if ext else 6
            for p in range(len(cs)):
                good = [ord(":")] if p == 0 else [ord("X"), ord("S")] if p == 1 else [ord("R"), ord("N")] if p == rt else [ord(";")] if p == last else list(HEX)
                st = L.state()
                x = atom("bad", 8)
                L.setvals(st.wenv(), x, bad(st.env, good))
                for r, s in g.decode(st, cs[:p] + [x] + cs[p + 1:]):
                    c.ob("decode %s with %d bytes: bad character at %d is refused" % ("X" if ext else "S", n, p), truth(s.env, r) is False,
                         "accepted {%s}" % s.env.describe()[:300], "GridConnect.cpp")
            for k in range(0, len(cs)):
                for r, s in g.decode(L.state(), cs[:k]):
                    c.ob("decode %s with %d bytes: cut after %d characters is refused" % ("X" if ext else "S", n, k), truth(s.env, r) is False and not s.alarms,
                         "accepted or outside the buffer %s" % alarms(s), "GridConnect.cpp")
        for n, odd in [(8, 1), (8, 2), (9, 0), (0, 1), (3, 1)]:
            cs = text(ext, 0, n)[0]
            extra = [hexd(atom("x%d" % i, 4)) for i in range(odd)]
            if True:
                for r, s in g.decode(L.state(), cs[:-1] + extra + cs[-1:]):
                    c.ob("decode %s: %d data characters are refused" % ("X" if ext else "S", 2 * n + odd), truth(s.env, r) is False and not s.alarms, "accepted %s" % alarms(s), "GridConnect.cpp")
    # frame -> text
    for ext in (0, 1):
        for rtr in (0, 1):
            for n in range(0, 9):
                cs, t, data, ds, nb = text(ext, rtr, n)
                nm = "encode %s%s with %d bytes" % ("X" if ext else "S", "R" if rtr else "N", n)
                st = L.state()
                g.setframe(st, t, ext, rtr, n, data)
                for r, s in g.encode(st):
                    env = s.env
                    rd_ = [env.norm(I.load(s, "gcbuf", C64(i), 1)) for i in range(len(cs) + 1)]
                    want = cs + [K(0)]
                    k = [i for i, (a, b) in enumerate(zip(rd_, want)) if not (env.same(a, b) or b.op == "a" and is_hexd(env, a, b.a[1]))]
                    c.ob(nm, truth(env, r) is True and not k, "accepted: %s; character %s is %s, expected %s" % (truth(env, r), k[:1], show(rd_[k[0]]) if k else "", show(want[k[0]]) if k else ""), "GridConnect.cpp")
                    c.ob(nm + ": stays inside the buffer", not s.alarms and not [e for e in s.log if e.kind == "wide"], alarms(s), "GridConnect.cpp")
        # frames that cannot be expressed
        x = atom("id", 32)
        st = L.state()
        st.wenv().assume(ult(const(32, 0x1FFFFFFF if ext else 0x7FF), x))
        g.setframe(st, x, ext, 0, 2, [K(1), K(2)])
        for r, s in g.encode(st):
            c.ob("encode %s: id out of range is refused" % ("X" if ext else "S"), truth(s.env, r) is False and not s.alarms, "accepted {%s} %s" % (s.env.describe()[:200], alarms(s)), "GridConnect.cpp")
        cs, t, data, ds, nb = text(ext, 0, 8)
        st = L.state()
        ln = atom("len", 8)
        L.setvals(st.wenv(), ln, list(range(9, 256)))
        g.setframe(st, t, ext, 0, ln, data)
        for r, s in g.encode(st):
            c.ob("encode %s: more than 8 bytes are refused" % ("X" if ext else "S"), truth(s.env, r) is False and not s.alarms, "accepted %s" % alarms(s), "GridConnect.cpp")
    serial(c)


def serial(c):
    """the serial transport, character by character"""
    L = c.lib()
    g = GC(c, L)
    I, w, H = L.I, L.w, L.w.hooks
    cls = "SerialGC"
    port = "SerialPort"
    w.osize[port] = 64
    q = {"avail": 0, "ch": None}

    def savail(I, st, fr, ins, args, fn):
        n = sum(1 for e, lp in walk(st.log) if e.kind == "serialread")
        return [(const(I.tybits(ins["ty"]), 1 if q["avail"] and not n else 0), st)]

    def sread(I, st, fr, ins, args, fn):
        I.ev(st, "serialread", fr, ins)
        wd = I.tybits(ins["ty"])
        return [(zext(q["ch"], wd) if wd > 8 else q["ch"], st)]

    def sprint(I, st, fr, ins, args, fn):
        cs = L.chars(I, st, fr, ins, args[1])
        I.ev(st, "print", fr, ins, text=tuple(cs) if cs is not None else ())
        return [(None, st)]
    H["Serial_T::available"], H["Serial_T::read"], H["Serial_T::print"] = savail, sread, sprint

    def dec(I, st, fr, ins, args, fn):
        """contract of decodeGridConnect, decided above: takes 8 to 28 characters"""
        o, f = I.deref(st, args[0])
        cs = L.chars(I, st, fr, ins, args[0])
        fo, ff = I.deref(st, args[1])
        n = sum(1 for e, lp in walk(st.log) if e.kind == "decode")
        if cs is None:
            I.ev(st, "decode", fr, ins, text=(), bad=1)
            return [(const(1, 0), st)]
        I.ev(st, "decode", fr, ins, text=tuple(cs), bad=0)
        no = st.copy()
        out = [(const(1, 0), no)]
        if 8 <= len(cs) <= 28:
            for i in range(w.types[g.T]["size"]):
                I.store(st, fo, add(ff, C64(i)), 1, atom(("decoded", i), 8))
            out.append((const(1, 1), st))
        return out
    H[NS + "decodeGridConnect"] = dec
    obj = L.obj(cls)
    S = construct(L, L.state(), cls, [ptr(port, C64(0))])
    for n, v in w.globals.items():
        # function-level statics start with their initial value
        if cls in n and not v["const"] and v.get("init") is not None and v["size"] <= 64:
            o = I.gobj(n)
            for i in range(0, v["size"], 4 if v["size"] % 4 == 0 else 1):
                k = 4 if v["size"] % 4 == 0 else 1
                I.store(S, o, C64(i), k, I.ginit(v, i, k))
    vm = lambda n: w.vmethod(NS + cls, n)

    def call(name, st, *args):
        st = st.copy()
        st.log = ()
        f = vm(name)
        if f is None:
            raise AnalysisError("anchor lost: %s::%s" % (cls, name))
        c.cases += 1
        r = I.call(f, [ptr(obj, C64(0))] + list(args), st)
        c.paths += len(r)
        if not r:
            raise AnalysisError("no outcome of %s" % name)
        return r

    def counter(name, st):
        r = call(name, st)
        if len(r) != 1:
            raise AnalysisError("%s forks" % name)
        return r[0][0]
    COUNT = ("receiveCounter", "receiveErrorCounter", "transmitCounter", "transmitErrorCounter")
    # arbitrary counts so far
    S = S.copy()
    base = {}

    def feed(st, ch, allowed):
        st = st.copy()
        q["avail"], q["ch"] = 1, ch
        if allowed is not None:
            L.setvals(st.wenv(), ch, allowed)
        r = call("available", st)
        q["avail"] = 0
        return r

    def counts(name, st0, st, d):
        for n in COUNT:
            a, b = counter(n, st0), counter(n, st)
            if not st.env.same(b, add(a, const(a.w, d.get(n, 0)))):
                c.ob("%s: %s" % (name, n), False, "advances from %s to %s, expected +%d" % (show(a), show(b), d.get(n, 0)), lastloc(st))
                return
        c.ob("%s: counters" % name, True)

    decs = lambda st: [e for e, lp in walk(st.log) if e.kind == "decode"]
    prints = lambda st: [e for e, lp in walk(st.log) if e.kind in ("print", "ext")]
    c.ob("serial: counters start at zero", all(S.env.same(counter(n, S), const(counter(n, S).w, 0)) for n in COUNT), str([show(counter(n, S)) for n in COUNT]), "SerialGC.h")
    for v, s in L.I.call([f for f in L.w.bydem.get(NS + "SerialGC::begin", []) if not f.decl][0], [ptr(obj, C64(0))], S.copy()):
        ok = s.env.decide(eq(v, const(v.w, 0))) is False and all(s.env.same(counter(n, s), const(counter(n, s).w, 0)) for n in COUNT)
        c.ob("serial: started with its counters at zero", ok, "begin gives %s, counters %s" % (show(v), [show(counter(n, s)) for n in COUNT]), "SerialGC.cpp")
    anyc = [v for v in range(256) if v not in (ord(":"), ord(";"), 0)]
    up = lambda t: tm.tbl(tuple(v - 32 if 97 <= v <= 122 else v for v in range(256)), t, t.w)

    def same_text(env, got, want):
        """characters, letters in upper case"""
        if len(got) != len(want):
            return False
        for a, b in zip(got, want):
            if env.same(a, b):
                continue
            x = single_small(a)
            if b.op != "a" or x is not b:
                return False
            for v in range(256):
                if env.mask(b) >> v & 1:
                    k = tm.ev(a, {b: v})
                    if k != v and not (97 <= v <= 122 and k == v - 32):
                        return False
        return True
    # nothing waiting
    for r, st in call("available", S):
        c.ob("serial: nothing waiting", truth(st.env, r) is False and not decs(st), "", lastloc(st))

    def finish(name, st, want, k):
        """`;` arrives after the text want"""
        for r, s in feed(st, K(ord(";")), None):
            d = decs(s)
            env = s.env
            t = truth(env, r)
            if want is None:
                c.ob(name, t is False and not d, "reported as a message", lastloc(s))
                counts(name, st, s, {})
                continue
            full = want + [K(ord(";"))]
            if len(full) > 28:
                # longer than any frame: dropped or refused
                c.ob(name, t is False, "an overlong text is reported as a message", lastloc(s))
                if d:
                    counts(name, st, s, {"receiveCounter": 1, "receiveErrorCounter": 1})
            else:
                ok = len(d) == 1 and not d[0].a["bad"] and same_text(env, d[0].a["text"], full)
                c.ob(name + ": the text is decoded", ok, "decoded text: %s" % ([show(x) for x in d[0].a["text"]][:30] if d else "none"), lastloc(s))
                for i in range(w.types[g.T]["size"]):
                    pass
                q_ = call("getNextCanFrame", s, ptr("out", C64(0))) if False else None
                dec_ok = any(env.same(I.load(s, obj, C64(i), 1), atom(("decoded", 0), 8)) for i in range(w.types[NS + cls]["size"]))
                c.ob(name + ": reported exactly when well-formed", t is dec_ok, "reported %s, decoded %s" % (t, dec_ok), lastloc(s))
                counts(name, st, s, {"receiveCounter": 1} if t else {"receiveCounter": 1, "receiveErrorCounter": 1})
                if t:
                    frame_out(name, s)
            c.ob(name + ": stays inside the buffer", not s.alarms, alarms(s), lastloc(s))
            if k in (0, 5, 27, 28, 29):
                idle_(name + ", afterwards", s)

    def frame_out(name, s):
        f = vm("getNextCanFrame")
        w.osize["outframe"] = w.types[g.T]["size"]
        sret = len(f.params) == 2
        for r, t in call("getNextCanFrame", s, *([] if not sret else [])) if not sret else I.call(f, [ptr("outframe", C64(0)), ptr(obj, C64(0))], s.copy()):
            if sret:
                by = [t.env.norm(I.load(t, "outframe", C64(i), 1)) for i in range(w.types[g.T]["size"])]
            else:
                by = []
                for x in (r if isinstance(r, list) else [r]):
                    by += [t.env.norm(slice_(x, 8 * i, 8)) for i in range(x.w // 8)]
            fs = set()
            for k in ("id", "ext", "rtr", "len"):
                o, z = g.f(k)
                fs |= set(range(o, o + z))
            o, z = g.f("data")
            fs |= set(range(o, o + 8))
            c.ob(name + ": the decoded frame is handed over", all(by[i] is atom(("decoded", i), 8) for i in fs), str([show(x) for x in by])[:200], "SerialGC.cpp")

    def idle_(name, st):
        """outside a message: everything up to `:` is ignored"""
        for ch, al in ((atom("junk", 8), anyc + [0]), (K(ord(";")), None)):
            for r, s in feed(st, ch, al):
                c.ob(name + ": characters outside a message are ignored", truth(s.env, r) is False and not decs(s), "reported", lastloc(s))
                counts(name, st, s, {})
    idle_("serial: at first", S)
    # messages
    for r, S1 in feed(S, K(ord(":")), None):
        c.ob("serial: start of a message", truth(S1.env, r) is False and not decs(S1), "", lastloc(S1))
        cur = S1
        want = [K(ord(":"))]
        for k in range(0, 40):
            finish("serial: message of %d characters" % (k + 2), cur, want if len(want) == k + 1 else None, k)
            for r, s in feed(cur, K(ord(":")), None):
                # a new start discards the old one
                c.ob("serial: start inside a message of %d characters" % (k + 1), truth(s.env, r) is False and not decs(s) and not s.alarms, alarms(s), lastloc(s))
                if k in (0, 3, 28, 29, 30):
                    x = atom("n", 8)
                    for r2, s2 in feed(s, x, anyc):
                        finish("serial: restarted after %d characters" % (k + 1), s2, [K(ord(":")), x], 1)
            x = atom("c%d" % k, 8)
            nx = feed(cur, x, anyc)
            if len(nx) != 1:
                c.ob("serial: character %d of a message" % (k + 1), False, "%d outcomes" % len(nx), lastloc(cur))
                break
            r, s = nx[0]
            c.ob("serial: character %d of a message" % (k + 1), truth(s.env, r) is False and not decs(s) and not s.alarms, alarms(s), lastloc(s))
            counts("serial: character %d of a message" % (k + 1), cur, s, {})
            cur = s
            want = want + [x]
    # sending
    for ext in (0, 1):
        for n in range(0, 9):
            cs, t, data, ds, nb = text(ext, 0, n)
            st = S.copy()
            g.setframe(st, t, ext, 0, n, data)
            for r, s in call("sendCanFrame", st, ptr("gcframe", C64(0))):
                p = prints(s)
                ok = truth(s.env, r) is True and len(p) == 1 and p[0].kind == "print" and len(p[0].a["text"]) == len(cs) and all(s.env.same(a, b) or b.op == "a" and is_hexd(s.env, a, b.a[1]) for a, b in zip(p[0].a["text"], cs))
                c.ob("serial: sends %s frame of %d bytes" % ("extended" if ext else "standard", n), ok, "prints %s; result %s" % ([show(x) for e in p for x in e.a.get("text", ())][:40], truth(s.env, r)), lastloc(s))
                c.ob("serial: sending stays inside the buffer", not s.alarms, alarms(s), lastloc(s))
                counts("serial: sends a frame", st, s, {"transmitCounter": 1})
    st = S.copy()
    ln = atom("len", 8)
    L.setvals(st.wenv(), ln, list(range(9, 256)))
    g.setframe(st, text(0, 0, 0)[1], 0, 0, ln, [])
    for r, s in call("sendCanFrame", st, ptr("gcframe", C64(0))):
        c.ob("serial: a frame that cannot be expressed is not sent", truth(s.env, r) is False and not prints(s) and not s.alarms, alarms(s), lastloc(s))
        counts("serial: frame refused", st, s, {"transmitCounter": 1, "transmitErrorCounter": 1})


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
