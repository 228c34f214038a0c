"""Storage drivers and the MCP2515 CAN driver against models of their hardware libraries."""
from common import *
from buffer import truth

STUBS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "engine", "stubs")
CHIP = ("chip",)
I2CMAX = 32          # transmit buffer of the Arduino Wire library
PAGE = 32            # smallest page of the EEPROMs with two address bytes


def build(c, src, defines=(), include=None, stubs=()):
    L = c.lib(srcs=[os.path.join(REPO, "src", f) for f in ("Configuration.cpp", "CreateDefaultStorageForPlatform.cpp", src)], defines=tuple(defines), extra=tuple("-I" + os.path.join(STUBS, s) for s in stubs) + ("-I" + STUBS,) + (("-include", os.path.join(STUBS, include)) if include else ()), contracts=False, partition=True)
    return L


def wide(L, st, a):
    """the address as a 64-bit sum, so that a + 1 read before and after widening are the same"""
    a = st.env.norm(a)
    if a.op == "lin" and a.w < 64:
        a = L.I.widen_lin(st.env, a, 64)
    return st.env.norm(zext(a, 64) if a.w < 64 else a)


def chip(L, st, a):
    return L.I.load(st, CHIP, wide(L, st, a), 1)


def join(L, st, hi, lo):
    """the 64-bit address whose two low bytes these are"""
    hi, lo = st.env.norm(hi), st.env.norm(lo)
    ps = parts(hi)
    if len(ps) == 1 and ps[0][1:] == (8, 8):
        t = ps[0][0]
        if st.env.rng(t)[1] < 1 << 16 and st.env.same(slice_(t, 0, 8), lo):
            return wide(L, st, t)
    return wide(L, st, concat([lo, hi]))


class Driver:
    """common part: what was written where, in order"""
    cls, src, defines, include, stubs = None, None, (), None, ()
    limit = 0x7FFF

    def __init__(self, c):
        self.c = c
        self.L = L = build(c, self.src, self.defines, self.include, self.stubs)
        self.hooks(L.w.hooks)
        self.obj = L.obj(self.cls)
        self.base = self.setup(L.state())
        self.base.log = ()

    def setup(self, st):
        return st

    def put(self, I, st, fr, ins, a, v):
        a = wide(self.L, st, a)
        v = st.env.norm(slice_(v, 0, 8) if v.w > 8 else v)
        I.ev(st, "put", fr, ins, addr=a, val=v)
        I.store(st, CHIP, a, 1, v)

    def call(self, name, args, st):
        f = [f for f in self.L.w.bydem.get(NS + self.cls + "::" + name, []) if not f.decl]
        if len(f) != 1:
            raise AnalysisError("anchor lost: %s::%s" % (self.cls, name))
        fit = []
        for p, a in zip(f[0].params[1:], args):
            if p["type"] != "ptr":
                w = int(p["type"][1:])
                a = zext(a, w) if a.w < w else trunc(a, w)
            fit.append(a)
        st = st.copy()
        st.log = ()
        st.alarms = frozenset()
        self.c.cases += 1
        r = self.L.I.call(f[0], [ptr(self.obj, C64(0))] + fit, st)
        self.c.paths += len(r)
        return r

    def puts(self, st):
        return [e for e, lp in walk(st.log) if e.kind == "put"]

    def beyond(self, st0, st, buf, n):
        """the caller's memory after the n bytes asked for"""
        for i in range(n, n + 4):
            if not st.env.same(self.L.I.load(st, buf, C64(i), 1), self.L.I.load(st0, buf, C64(i), 1)):
                return "changes byte %d of the caller's buffer" % i

    def misuse(self, st):
        """wrong use of the hardware library"""
        for e, lp in walk(st.log):
            if e.kind == "misuse":
                return "%s at %s" % (e.a["why"], e.loc)
        if st.alarms:
            return "memory: %s" % (sorted(st.alarms, key=repr)[0],)

    def say(self, what, r, st):
        self.c.ob("%s%s: %s" % (self.cls, " " + " ".join(self.defines) if self.stubs else "", what), r is None, (r or "") + (" -- " + statestr(st)[:600] if r else ""), lastloc(st) or self.src)

    def addresses(self):
        """(label, address term, precondition)"""
        A = atom("address", 32)
        yield "any address", A, lambda e: e.iv.__setitem__(A, (0, self.limit))

    def written(self, st0, st, a, vals):
        """None when exactly these bytes were stored from address a on"""
        n = len(vals)
        ps = self.puts(st)
        seen = {}
        for e in ps:
            o = st.env.norm(sub(e.a["addr"], wide(self.L, st, a)))
            if o.op != "c" or o.a >= n:
                return "writes address %s at %s" % (show(e.a["addr"]), e.loc)
            seen[o.a] = e
        for i, v in enumerate(vals):
            if i not in seen:
                return "byte %d of %d is not written" % (i + 1, n)
            if not st.env.same(seen[i].a["val"], v):
                return "byte %d of %d is written as %s at %s" % (i + 1, n, show(seen[i].a["val"]), seen[i].loc)

    sizes = (0, 1, 2, 4, 7, 16, 30)

    def run(self):
        L, c = self.L, self.c
        buf = ("buffer",)
        src = ("source",)
        for lab, a, pre in self.addresses():
            S = self.base.copy()
            pre(S.wenv())
            V = atom("value", 8)
            for v, s in self.call("read", [a], S):
                r = None if s.env.same(slice_(v, 0, 8), chip(L, S, a)) else "returns %s" % show(v)
                self.say("read gives the stored byte, " + lab, r or ("writes" if self.puts(s) else None) or self.misuse(s), s)
            for _, s in self.call("write", [a, V], S):
                self.say("write stores the byte, " + lab, self.written(S, s, a, [V]) or self.misuse(s), s)
            for n in self.sizes:
                if not self.fits(a, n):
                    continue
                L.w.osize[buf], L.w.osize[src] = n + 4, max(n, 1)
                for v, s in self.call("readBytes", [a, K(n), ptr(buf, C64(0))], S):
                    r = None if s.env.same(slice_(v, 0, 8), K(n)) else "returns %s" % show(v)
                    for i in range(n):
                        if r is None and not s.env.same(L.I.load(s, buf, C64(i), 1), chip(L, S, add(wide(L, S, a), C64(i)))):
                            r = "byte %d is %s" % (i, show(L.I.load(s, buf, C64(i), 1)))
                    self.say("readBytes gives %d stored bytes, %s" % (n, lab), r or self.beyond(S, s, buf, n) or ("writes" if self.puts(s) else None) or self.misuse(s), s)
                for _, s in self.call("writeBytes", [a, ptr(src, C64(0)), K(n)], S):
                    vals = [L.I.load(S, src, C64(i), 1) for i in range(n)]
                    self.say("writeBytes stores %d bytes, %s" % (n, lab), self.written(S, s, a, vals) or self.misuse(s), s)
        for _, s in self.call("begin", [], self.base):
            self.say("begin changes nothing stored", ("writes" if self.puts(s) else None) or self.misuse(s), s)
        self.reset()

    def fits(self, a, n):
        return True

    def reset(self):
        L = self.L
        for what, top in (("any other content", 0xFE), ("an erased storage", 0xFF)):
            S = self.base.copy()
            for i in range(self.erased):
                v = K(0xFF)
                if top == 0xFE:
                    v = atom(("stored", i), 8)
                    S.wenv().iv[v] = (0, top)
                L.I.store(S, CHIP, C64(i), 1, v)
            for _, s in self.call("reset", [], S):
                bad = None
                for i in range(self.erased):
                    if i >= 10 and not s.env.same(chip(L, s, C64(i)), K(0xFF)):
                        bad = bad or "the byte at address %d is not erased" % i
                for e in self.puts(s):
                    lo, hi = s.env.rng(e.a["addr"])
                    if not s.env.same(e.a["val"], K(0xFF)) or hi >= self.erased:
                        bad = bad or "writes %s to address %s at %s" % (show(e.a["val"]), show(e.a["addr"]), e.loc)
                self.say("reset erases " + what, bad or self.misuse(s), s)

    erased = 4096


class Internal(Driver):
    cls, src = "EepromInternalStorage", "EepromInternalStorage.cpp"

    def hooks(self, H):
        H["EEPROM_T::read"] = lambda I, st, fr, ins, args, fn: [(chip(self.L, st, st.env.norm(args[1])), st)]
        H["EEPROM_T::write"] = self.wr

    def wr(self, I, st, fr, ins, args, fn):
        self.put(I, st, fr, ins, args[1], args[2])
        return [(None, st)]


class Emulated(Internal):
    """EEPROM emulated in flash: has to be begun with its size; what is written counts once committed"""
    stubs = ("emulated",)
    size = 4096
    limit = 4095 - 32

    def hooks(self, H):
        Internal.hooks(self, H)
        rd = H["EEPROM_T::read"]
        H["EEPROM_T::read"] = lambda I, st, fr, ins, args, fn: (self.inside(I, st, fr, ins, args[1]), rd(I, st, fr, ins, args, fn))[1]
        H["EEPROM_T::begin"] = self.begin
        H["EEPROM_T::commit"] = self.commit

    def setup(self, st):
        st.log = ()
        r = self.L.I.call([f for f in self.L.w.bydem.get(NS + self.cls + "::begin", []) if not f.decl][0], [ptr(self.obj, C64(0))], st)
        if len(r) != 1:
            raise AnalysisError("%s::begin forks" % self.cls)
        st = r[0][1]
        b = [e for e, lp in walk(st.log) if e.kind == "eebegin"]
        n = st.env.norm(b[0].a["size"]) if b else None
        self.say("begin starts the emulated EEPROM once", None if len(b) == 1 else "EEPROM.begin is called %d times" % len(b), st)
        self.say("begin gives the emulated EEPROM its full size", None if n is not None and n.op == "c" and n.a == self.size else "size %s, expected %d as reset() erases" % (show(n) if n is not None else None, self.size), st)
        return st

    def begin(self, I, st, fr, ins, args, fn):
        I.ev(st, "eebegin", fr, ins, size=args[1])
        return [(const(1, 1), st)] if ins["ty"] != "void" else [(None, st)]

    def commit(self, I, st, fr, ins, args, fn):
        I.ev(st, "commit", fr, ins)
        return [(const(I.tybits(ins["ty"]), 1), st)]

    def inside(self, I, st, fr, ins, a):
        a = wide(self.L, st, a)
        if st.env.rng(a)[1] >= self.size:
            I.ev(st, "misuse", fr, ins, why="uses address %s beyond the emulated EEPROM" % show(a))

    def wr(self, I, st, fr, ins, args, fn):
        self.inside(I, st, fr, ins, args[1])
        return Internal.wr(self, I, st, fr, ins, args, fn)

    def misuse(self, st):
        r = Internal.misuse(self, st)
        if r:
            return r
        ev = [e for e, lp in walk(st.log) if e.kind in ("put", "commit")]
        if ev and ev[-1].kind == "put":
            return "what was written is not committed (%s)" % ev[-1].loc


class Esp(Emulated):
    defines, include = ("ESP32",), "esp8266.h"


class Pico(Emulated):
    defines, include = ("ARDUINO_ARCH_RP2040",), "rp2040.h"


class Due(Driver):
    cls, src, defines = "DueEepromEmulationStorage", "DueEepromEmulationStorage.cpp", ("__SAM3X8E__",)
    include = "due.h"

    def hooks(self, H):
        H["DueFlashStorage::read"] = lambda I, st, fr, ins, args, fn: [(chip(self.L, st, st.env.norm(args[1])), st)]
        H["DueFlashStorage::write"] = self.wr

    def wr(self, I, st, fr, ins, args, fn):
        if len(args) == 3:
            self.put(I, st, fr, ins, args[1], args[2])
        else:
            n = st.env.norm(args[3])
            o, f = I.deref(st, args[2])
            if n.op != "c":
                raise AnalysisError("block write of unknown length")
            I.rangecheck(fr, ins, st, o, f, zext(n, 64), "flash-write-src")
            for i in range(n.a):
                self.put(I, st, fr, ins, add(wide(self.L, st, args[1]), C64(i)), I.load(st, o, add(f, C64(i)), 1))
        return [(const(I.tybits(ins["ty"]), 1), st)]


class External(Driver):
    """I2C EEPROM: address bytes and data in one transmission, page writes"""
    cls, src = "EepromExternalStorage", "EepromExternalStorage.cpp"
    sizes = (0, 1, 2, 4, 7, 16, 30)
    big = (33, 64, 100, 255)

    def setup(self, st):
        fs = [f for f in self.L.w.bydem.get(NS + self.cls + "::" + self.cls, []) if not f.decl and len(f.params) == 3]
        if len(fs) != 1:
            raise AnalysisError("anchor lost: constructor of " + self.cls)
        self.dev = atom("i2caddress", 8)
        self.L.w.osize["Bus"] = 64
        r = self.L.I.call(fs[0], [ptr(self.obj, C64(0)), self.dev, ptr("Bus", C64(0))], st)
        return r[0][1]

    def hooks(self, H):
        for n in ("begin", "beginTransmission", "endTransmission", "write", "read", "available", "requestFrom"):
            H["TwoWire::" + n] = getattr(self, "i2c_" + n)
        H["delay"] = self.delay

    def bad(self, I, st, fr, ins, why):
        I.ev(st, "misuse", fr, ins, why=why)

    def bus(self, I, st, fr, ins, args):
        o, f = I.deref(st, args[0])
        if o != "Bus":
            self.bad(I, st, fr, ins, "uses another bus")

    # state of bus and device: transmission open, its bytes, read pointer, bytes left to read, ms since the last write
    START = (False, (), None, 0, 5)

    def step(self, s, e):
        op, bs, p, left, t = s
        if e.kind == "loop":
            for q, lp in walk((e,)):
                s = self.step(s, q)
            return s
        if e.kind == "open":
            op, bs = True, ()
        elif e.kind == "byte":
            bs += (e.a["val"],)
        elif e.kind == "close":
            op = False
            if e.a["ptr"] is not None:
                p = add(e.a["ptr"], C64(len(bs) - 2))
            bs = ()
        elif e.kind == "request":
            left = e.a["n"]
        elif e.kind == "got":
            left -= 1
            p = add(p, C64(1)) if p is not None else None
        elif e.kind == "delay":
            t += e.a["ms"]
        elif e.kind == "put":
            t = 0
        return (op, bs, p, left, t)

    def now(self, st):
        memo = self.__dict__.setdefault("memo", {})
        log = st.log
        i = len(log)
        while i and (i, id(log[i - 1])) not in memo:
            i -= 1
        s = memo[(i, id(log[i - 1]))][1] if i else self.START
        for j in range(i, len(log)):
            s = self.step(s, log[j])
            memo[(j + 1, id(log[j]))] = (log[j], s)
        return s

    def call(self, name, args, st):
        self.memo = {}
        return Driver.call(self, name, args, st)

    def i2c_begin(self, I, st, fr, ins, args, fn):
        return [(None, st)]

    def busy(self, I, st, fr, ins):
        """a finished write needs 5 ms before the device answers again"""
        t = self.now(st)[4]
        if t < 5:
            self.bad(I, st, fr, ins, "addresses the device %d ms after a write" % t)

    def i2c_beginTransmission(self, I, st, fr, ins, args, fn):
        self.bus(I, st, fr, ins, args)
        if self.now(st)[0]:
            self.bad(I, st, fr, ins, "starts a transmission within another")
        if not st.env.same(slice_(args[1], 0, 8), self.dev):
            self.bad(I, st, fr, ins, "addresses device %s" % show(args[1]))
        self.busy(I, st, fr, ins)
        I.ev(st, "open", fr, ins)
        return [(None, st)]

    def i2c_write(self, I, st, fr, ins, args, fn):
        self.bus(I, st, fr, ins, args)
        if not self.now(st)[0]:
            self.bad(I, st, fr, ins, "sends a byte outside a transmission")
        I.ev(st, "byte", fr, ins, val=st.env.norm(slice_(args[1], 0, 8)))
        return [(const(I.tybits(ins["ty"]), 1) if ins.get("ty", "void") != "void" else None, st)]

    def i2c_endTransmission(self, I, st, fr, ins, args, fn):
        self.bus(I, st, fr, ins, args)
        bs = self.now(st)[1]
        a = join(self.L, st, bs[0], bs[1]) if len(bs) >= 2 else None
        I.ev(st, "close", fr, ins, n=len(bs), ptr=a)
        if len(bs) > I2CMAX:
            self.bad(I, st, fr, ins, "sends %d bytes in one transmission" % len(bs))
        if len(bs) > 2:
            n = len(bs) - 2
            if n > 1:
                low = st.env.norm(slice_(a, 0, 5))
                if st.env.rng(low)[1] + n > PAGE:
                    self.bad(I, st, fr, ins, "writes %d bytes across a page boundary of the EEPROM" % n)
            for i, b in enumerate(bs[2:]):
                self.put(I, st, fr, ins, add(a, C64(i)), b)
        return [(const(I.tybits(ins["ty"]), 0), st)]

    def i2c_requestFrom(self, I, st, fr, ins, args, fn):
        self.bus(I, st, fr, ins, args)
        if not st.env.same(slice_(args[1], 0, 8), self.dev):
            self.bad(I, st, fr, ins, "reads device %s" % show(args[1]))
        self.busy(I, st, fr, ins)
        n = st.env.norm(args[2])
        if n.op != "c":
            raise AnalysisError("I2C request of unknown length")
        if n.a > I2CMAX:
            self.bad(I, st, fr, ins, "requests %d bytes at once" % n.a)
        I.ev(st, "request", fr, ins, n=n.a)
        return [(const(I.tybits(ins["ty"]), n.a) if ins.get("ty", "void") != "void" else None, st)]

    def i2c_available(self, I, st, fr, ins, args, fn):
        w = I.tybits(ins["ty"])
        n = max(self.now(st)[3], 0)
        return [(const(w, n if w > 1 else int(n > 0)), st)]

    def i2c_read(self, I, st, fr, ins, args, fn):
        op, bs, p, left, t = self.now(st)
        if left <= 0:
            self.bad(I, st, fr, ins, "reads a byte that was not requested")
        if p is None:
            self.bad(I, st, fr, ins, "reads before an address was set")
            p = C64(0)
        v = chip(self.L, st, p)
        I.ev(st, "got", fr, ins)
        return [(zext(v, I.tybits(ins["ty"])), st)]

    def delay(self, I, st, fr, ins, args, fn):
        n = st.env.norm(args[0])
        I.ev(st, "delay", fr, ins, ms=n.a if n.op == "c" else 0)
        return [(None, st)]

    def misuse(self, st):
        r = Driver.misuse(self, st)
        if r:
            return r
        op, bs, p, left, t = self.now(st)
        if op:
            return "leaves a transmission open"
        if t < 5:
            return "returns %d ms after a write" % t

    def addresses(self):
        H = atom("page", 11)
        for low in range(PAGE):
            if low in (0, 1, 2, 15, 16, 17, 28, 29, 30, 31) or self.c.tier != "quick":
                yield "byte %d of any page" % low, zext(concat([const(5, low), H]), 32), lambda e: e.iv.__setitem__(H, (0, 2 ** 10 - 1 - 8))

    def run(self):
        Driver.run(self)
        # longer than the bus buffer
        src = ("source",)
        for lab, a, pre in self.addresses():
            S = self.base.copy()
            pre(S.wenv())
            for n in self.big:
                self.L.w.osize[src] = n
                for _, s in self.call("writeBytes", [a, ptr(src, C64(0)), K(n)], S):
                    vals = [self.L.I.load(S, src, C64(i), 1) for i in range(n)]
                    self.say("writeBytes stores %d bytes, %s" % (n, lab), self.written(S, s, a, vals) or self.misuse(s), s)


class Flash(Driver):
    """flash pages are erased and rewritten through a page cache"""
    cls, src, defines = "FlashStorage", "FlashStorage.cpp", ("DXCORE",)
    PG, NP, TOP = 512, 4, 0x20000
    sizes = (0, 1, 2, 4, 7, 16)
    erased = 2048

    def hooks(self, H):
        H["FlashClass::checkWritable"] = lambda I, st, fr, ins, args, fn: [(const(I.tybits(ins["ty"]), 0), st)]
        H["FlashClass::readByte"] = self.rd
        H["FlashClass::erasePage"] = self.er
        H["FlashClass::writeBytes"] = self.wr
        H["FlashClass::writeByte"] = self.wr1

    def area(self, I, st, fr, ins, a, n):
        """offset in the storage area"""
        if undefined(st.env.norm(a)):
            I.ev(st, "misuse", fr, ins, why="uses an uninitialised flash address")
            return C64(0)
        o = st.env.norm(sub(zext(a, 64), C64(self.TOP - self.PG * self.NP)))
        lo, hi = st.env.rng(o)
        if hi + n > self.PG * self.NP:
            I.ev(st, "misuse", fr, ins, why="accesses flash outside the storage area (%s, %d bytes)" % (show(o), n))
        return o

    def rd(self, I, st, fr, ins, args, fn):
        return [(chip(self.L, st, self.area(I, st, fr, ins, args[1], 1)), st)]

    def er(self, I, st, fr, ins, args, fn):
        n = st.env.norm(args[2])
        o = self.area(I, st, fr, ins, args[1], self.PG * (n.a if n.op == "c" else 1))
        if o.op != "c" or o.a % self.PG or n.op != "c":
            I.ev(st, "misuse", fr, ins, why="erases %s pages at %s" % (show(n), show(o)))
            return [(const(I.tybits(ins["ty"]), 0), st)]
        for i in range(self.PG * n.a):
            I.store(st, CHIP, C64(o.a + i), 1, K(0xFF))
        return [(const(I.tybits(ins["ty"]), 0), st)]

    def program(self, I, st, fr, ins, o, v):
        if not st.env.same(chip(self.L, st, C64(o)), K(0xFF)):
            I.ev(st, "misuse", fr, ins, why="programs flash that is not erased (offset %d)" % o)
        I.store(st, CHIP, C64(o), 1, v)

    def wr(self, I, st, fr, ins, args, fn):
        n = st.env.norm(args[3])
        if n.op != "c":
            raise AnalysisError("flash write of unknown length")
        o = self.area(I, st, fr, ins, args[1], n.a)
        d, f = I.deref(st, args[2])
        I.rangecheck(fr, ins, st, d, f, zext(n, 64), "flash-write-src")
        if o.op != "c":
            raise AnalysisError("flash write at unknown address")
        for i in range(n.a):
            self.program(I, st, fr, ins, o.a + i, st.env.norm(I.load(st, d, add(f, C64(i)), 1)))
        return [(const(I.tybits(ins["ty"]), 0), st)]

    def wr1(self, I, st, fr, ins, args, fn):
        o = self.area(I, st, fr, ins, args[1], 1)
        if o.op != "c":
            raise AnalysisError("flash write at unknown address")
        self.program(I, st, fr, ins, o.a, st.env.norm(args[2]))
        return [(const(I.tybits(ins["ty"]), 0), st)]

    def setup(self, st):
        L = self.L
        L.w.osize[CHIP] = self.PG * self.NP
        for n, g in L.w.globals.items():          # the driver's own variables start as initialised
            if not g["const"] and g.get("init") is not None and "VLCB" in n and n != "_ZN4VLCB10rebootFuncE" and g["size"] <= 4096:
                o = L.I.gobj(n)
                for i in range(g["size"]):
                    L.I.store(st, o, C64(i), 1, L.I.ginit(g, i, 1))
        r = self.call("begin", [], st)
        if len(r) != 1:
            raise AnalysisError("FlashStorage::begin forks")
        return r[0][1]

    def same(self, st0, st, a, vals):
        """None when the flash holds vals from a on and is as before elsewhere"""
        for i in range(self.PG * self.NP):
            w = vals[i - a] if a <= i < a + len(vals) else chip(self.L, st0, C64(i))
            if not st.env.same(chip(self.L, st, C64(i)), w):
                return "%s ends as %s" % ("byte %d of %d" % (i - a + 1, len(vals)) if a <= i < a + len(vals) else "byte at %d" % i, show(chip(self.L, st, C64(i))))

    def run(self):
        L, c = self.L, self.c
        P = self.PG
        buf, src = ("buffer",), ("source",)
        spots = [0, 9, P - 4, P - 2, P - 1, P, 2 * P - 3, 3 * P - 1, 4 * P - 16]
        if c.tier != "quick":
            spots += [P + 100, 2 * P, 3 * P, 3 * P + 200]
        hist = [self.base]
        for page in (1, 3):
            r = self.call("write", [const(32, page * P + 5), atom("earlier", 8)], self.base)
            for _, s in r:
                hist.append(s)
        for k, S in enumerate(hist):
            lab = ("fresh", "after writing page 1", "after writing page 3")[min(k, 2)]
            S.log = ()
            for a in spots:
                A = const(32, a)
                for v, s in self.call("read", [A], S):
                    self.say("read, " + lab, (None if s.env.same(slice_(v, 0, 8), chip(L, S, C64(a))) else "returns %s" % show(v)) or self.same(S, s, 0, []) or self.misuse(s), s)
                for n in ((1, 4) if c.tier == "quick" else self.sizes):
                    L.w.osize[src], L.w.osize[buf] = max(n, 1), n + 4
                    vals = [L.I.load(S, src, C64(i), 1) for i in range(n)]
                    for v, s in self.call("readBytes", [A, K(n), ptr(buf, C64(0))], S):
                        r = None if s.env.same(slice_(v, 0, 8), K(n)) else "returns %s" % show(v)
                        for i in range(n):
                            if not s.env.same(L.I.load(s, buf, C64(i), 1), chip(L, S, C64(a + i))):
                                r = r or "byte %d is %s" % (i, show(L.I.load(s, buf, C64(i), 1)))
                        self.say("readBytes %d, %s" % (n, lab), r or self.beyond(S, s, buf, n) or self.misuse(s), s)
                    for _, s in self.call("writeBytes", [A, ptr(src, C64(0)), K(n)], S):
                        self.say("writeBytes %d at %d, %s" % (n, a, lab), self.same(S, s, a, vals) or self.misuse(s), s)
                V = atom("value", 8)
                for _, s in self.call("write", [A, V], S):
                    self.say("write at %d, %s" % (a, lab), self.same(S, s, a, [V]) or self.misuse(s), s)
            for _, s in self.call("reset", [], S):
                self.say("reset erases everything, " + lab, self.same(S, s, 10, [K(0xFF)] * (P * self.NP - 10)) if not s.env.same(chip(L, s, C64(0)), K(0xFF)) else self.same(S, s, 0, [K(0xFF)] * (P * self.NP)) or self.misuse(s), s)
                for _, s2 in self.call("write", [const(32, P + 7), atom("value", 8)], s):
                    self.say("write after reset, " + lab, self.same(s, s2, P + 7, [atom("value", 8)]) or self.misuse(s2), s2)


def default(c, d):
    """a configuration for which no storage is chosen uses this platform's driver; otherwise the chosen one"""
    L = d.L
    o = ("new", "Configuration")
    L.obj("Configuration", o)
    off, sz, ty = L.w.field(NS + "Configuration", "storage")
    tag = "%s %s" % (d.cls, " ".join(d.defines))
    for n, args in ((1, []), (2, [ptr("Storage", C64(0))])):
        fs = [f for f in L.w.bydem.get(NS + "Configuration::Configuration", []) if not f.decl and len(f.params) == n]
        if not fs:
            raise AnalysisError("anchor lost: constructors of Configuration")
        for _, s in L.I.call(fs[0], [ptr(o, C64(0))] + args, L.state()):
            c.cases += 1
            c.paths += 1
            try:
                ob, f = L.I.deref(s, L.I.load(s, o, C64(off), sz, True))
                vt = show(s.env.norm(L.I.load(s, ob, f, 8, True))) if n == 1 else ob
            except AnalysisError:
                ob = vt = None
            want = "ZTVN4VLCB%d%sE" % (len(d.cls), d.cls)
            ok = vt is not None and want in vt if n == 1 else ob == "Storage"
            c.ob("%s: storage of a configuration made %s" % (tag, "with the user's storage" if n > 1 else "without one"), ok, "is %s" % (vt,), "CreateDefaultStorageForPlatform.cpp" if n == 1 else "Configuration.cpp")


def P38(c):
    for D in (Internal, Esp, Pico, Due, External, Flash):
        t = time.time()
        d = D(c)
        d.run()
        if D is not External:
            default(c, d)
        if os.environ.get("VP_TIME"):
            print(D.__name__, time.time() - t)


# ---------------------------------------------------------------- the MCP2515 CAN driver

class Can2515:
    cls = "CAN2515"

    def __init__(self, c, defines=(), include=None):
        self.c = c
        self.L = L = c.lib(srcs=[os.path.join(REPO, "src", f) for f in ("Configuration.cpp", "CreateDefaultStorageForPlatform.cpp", "CAN2515.cpp")], defines=tuple(defines), extra=("-I" + STUBS,) + (("-include", os.path.join(STUBS, include)) if include else ()), contracts=False, partition=True)
        H = L.w.hooks
        for t, ms in (("ACAN2515", ("ACAN2515", "begin", "isr", "poll", "available", "receive", "tryToSend", "end", "receiveErrorCounter", "transmitErrorCounter", "errorFlagRegister")), ("ACAN2515Settings", ("ACAN2515Settings",)), ("SPIClass", ("begin",)), ("SPIClassRP2040", ("setTX", "setRX", "setSCK", "setCS"))):
            for m in ms:
                H[t + "::" + m] = (lambda t, m: lambda I, st, fr, ins, args, fn: self.ext(t, m, I, st, fr, ins, args))(t, m)
        H["delay"] = lambda I, st, fr, ins, args, fn: [(None, st)]
        L.w.osize["Spi"] = 1
        self.obj = L.obj(self.cls)
        self.msglen = 8

    def ext(self, t, m, I, st, fr, ins, args):
        o, f = I.deref(st, args[0])
        a = [st.env.norm(x) if isinstance(x, T) else x for x in args[1:]]
        r = None
        ty = ins.get("ty", "void")
        w = self.L.w
        extra = {}
        if m == "begin" and t == "ACAN2515":
            so, sf = I.deref(st, a[0])
            for k in ("mRequestedMode", "mReceiveBufferSize", "mTransmitBuffer0Size", "mTransmitBuffer1Size", "mTransmitBuffer2Size"):
                off, sz, _ = w.field("ACAN2515Settings", k)
                extra[k] = st.env.norm(I.load(st, so, add(sf, C64(off)), sz))
            extra["made"] = tuple((e.a["args"]) for e, lp in walk(st.log) if e.kind == "can" and e.a["what"] == "ACAN2515Settings::ACAN2515Settings" and e.a["obj"] == so)
        if m == "receive":
            mo, mf = I.deref(st, a[0])
            for k, n in (("id", 4), ("ext", 1), ("rtr", 1)):
                off, sz, _ = w.field("CANMessage", k)
                v = atom(("recv", k), 8 * sz)
                if k != "id":
                    v = zext(atom(("recv", k), 1), 8)
                I.store(st, mo, add(mf, C64(off)), sz, v)
            off, sz, _ = w.field("CANMessage", "len")
            I.store(st, mo, add(mf, C64(off)), 1, K(self.msglen))
            off, sz, _ = w.field("CANMessage", "data")
            for i in range(8):
                I.store(st, mo, add(mf, C64(off + i)), 1, atom(("recv", "data", i), 8))
        if m == "tryToSend":
            mo, mf = I.deref(st, a[0])
            for k in ("id", "ext", "rtr", "len"):
                off, sz, _ = w.field("CANMessage", k)
                extra[k] = st.env.norm(I.load(st, mo, add(mf, C64(off)), sz))
            off, sz, _ = w.field("CANMessage", "data")
            extra["data"] = tuple(st.env.norm(I.load(st, mo, add(mf, C64(off + i)), 1)) for i in range(8))
        if ty != "void":
            n = sum(1 for e, lp in walk(st.log) if e.kind == "can")
            r = atom(("can", m, n), I.tybits(ty))
        I.ev(st, "can", fr, ins, what=t + "::" + m, obj=o, args=tuple(a), ret=r, more=tuple(sorted(extra.items())))
        return [(r, st)]

    def evs(self, st, *names):
        return [e for e, lp in walk(st.log) if e.kind == "can" and e.a["what"] in names]

    def call(self, name, st, *args, keep=False):
        fs = [f for f in self.L.w.bydem.get(NS + self.cls + "::" + name, []) if not f.decl and len(f.params) >= 1 + len(args)]
        if not fs:
            raise AnalysisError("anchor lost: CAN2515::" + name)
        f = fs[0]
        st = st.copy()
        if not keep:
            st.log = ()
        st.alarms = frozenset()
        self.c.cases += 1
        lead = []
        if len(f.params) == 2 + len(args):
            self.L.w.osize["out"] = self.L.w.types[NS + "CANFrame"]["size"]
            lead = [ptr("out", C64(0))]
        r = self.L.I.call(f, lead + [ptr(self.obj, C64(0))] + list(args), st)
        self.c.paths += len(r)
        if not r:
            raise AnalysisError("no outcome of CAN2515::" + name)
        return r

    def say(self, what, r, st):
        self.c.ob("CAN2515: " + what, r is None, (r or "") + (" -- " + statestr(st)[:600] if r else ""), lastloc(st) or "CAN2515.cpp")

    def canp(self, st):
        off, sz, _ = self.L.w.field(NS + self.cls, "canp")
        return self.L.I.deref(st, self.L.I.load(st, self.obj, C64(off), 8))[0]


def P39(c):
    for d, i in (((), None), (("ESP8266",), "esp8266.h"), (("ARDUINO_ARCH_RP2040",), "rp2040.h")):
        can2515(c, d, i)


def can2515(c, defines, include):
    x = Can2515(c, defines, include)
    L = x.L
    I = L.I
    esp = "ESP8266" in defines
    pico = "ARDUINO_ARCH_RP2040" in defines
    tag = defines[0] + ": " if defines else ""
    SPI0 = None
    for n in L.w.globals:
        if n == ("SPI_RP2040" if pico else "SPI"):
            SPI0 = I.gobj(n)

    def rule(what, r, st):
        x.say(tag + what, r, st)

    def begun(st, v, want, since=0):
        """the controller is set up as configured"""
        ev = [(e, i) for i, (e, lp) in enumerate(walk(st.log))]
        g = lambda n: [(e, i) for e, i in ev if e.kind == "can" and e.a["what"] == n]
        made, beg, spi = g("ACAN2515::ACAN2515"), g("ACAN2515::begin"), g("SPIClass::begin")
        if len(made) != 1 or len(beg) != 1:
            return "the controller is created %d times and started %d times" % (len(made), len(beg))
        m, b = made[0][0], beg[0][0]
        same = st.env.same
        o = x.canp(st)
        if b.a["obj"] != m.a["obj"] or o != m.a["obj"]:
            return "the controller started is not the one kept"
        if not spi or any(e.a["obj"] != want["spi"] for e, i in spi) or spi[0][1] > beg[0][1]:
            return "the SPI bus is not started before the controller"
        if pico:
            for n, k in (("setTX", "mosi"), ("setRX", "miso"), ("setSCK", "sck"), ("setCS", "cs")):
                es = g("SPIClassRP2040::" + n)
                if not es or es[-1][0].a["obj"] != want["spi"] or es[-1][1] > spi[0][1] or not same(es[-1][0].a["args"][0], zext(want[k], 32)):
                    return "%s is not told the %s pin" % (n, k)
        cs, bus, irq = m.a["args"]
        if not same(cs, want["cs"]):
            return "chip select pin is %s" % show(cs)
        if I.deref(st, bus)[0] != want["spi"]:
            return "another SPI bus is used: %s" % (I.deref(st, bus)[0],)
        poll = truth(st.env, want["poll"])
        if poll is None:
            return "the mode is not decided"
        if not same(irq, K(255) if poll else want["int"]):
            return "interrupt pin is %s" % show(irq)
        isr = b.a["args"][1]
        if zero_test(st.env, isr) is not (not poll) and not (isr.op == "p" and not poll):
            return "interrupt routine is %s" % show(isr)
        if len(b.a["more"]) != 6:
            return "settings are not readable"
        mo = dict(b.a["more"])
        if len(mo["made"]) != 1 or not same(mo["made"][0][0], zext(want["osc"], mo["made"][0][0].w)) or not same(mo["made"][0][1], const(mo["made"][0][1].w, 125000)):
            return "oscillator and bit rate are %s" % (", ".join(show(y) for y in mo["made"][0]) if mo["made"] else "unset")
        one = 1 if esp else 0
        for k, w in (("mRequestedMode", const(32, 0)), ("mReceiveBufferSize", zext(want["rx"], 32)), ("mTransmitBuffer0Size", zext(want["tx"], 32)), ("mTransmitBuffer1Size", const(32, one)), ("mTransmitBuffer2Size", const(32, one))):
            if not same(mo[k], w):
                return "%s is %s" % (k, show(mo[k]))
        if v is not None:
            ok = st.env.decide(eq(b.a["ret"], const(b.a["ret"].w, 0)))
            if ok is None or truth(st.env, v) is not ok:
                return "the result of starting the controller is not told"
        for n in ("receiveCounter", "transmitCounter"):
            for k, s in x.call(n, st):
                if not s.env.same(k, const(k.w, 0)):
                    return "%s is %s after start" % (n, show(k))
        if not poll:
            # an interrupt reaches the controller in use
            if isr.op != "p" or isr.a[0][0] != "fn":
                return "interrupt routine is %s" % show(isr)
            t = st.copy()
            t.log = ()
            for _, s in I.call(L.w.fns[isr.a[0][1]] if isr.a[0][1] in L.w.fns else L.w.fn(isr.a[0][1]), [], t):
                es = [e for e, lp in walk(s.log) if e.kind == "can"]
                if len(es) != 1 or es[0].a["what"] != "ACAN2515::isr" or es[0].a["obj"] != o:
                    return "an interrupt does not reach the controller in use"
        if st.alarms:
            return "memory: %s" % (sorted(st.alarms, key=repr)[0],)

    S0 = construct(L, L.state(), x.cls)
    dflt = {"cs": K(10), "int": K(2), "rx": K(4), "tx": K(2), "osc": const(64, 16000000)}
    user = {"cs": atom("cs", 8), "int": atom("int", 8), "rx": atom("rx", 8), "tx": atom("tx", 8), "osc": atom("osc", 64)}

    if pico:
        user.update((k, atom(k, 8)) for k in ("mosi", "miso", "sck"))

    def setup(st, w):
        for n, a in (("setPins", ("cs", "int") + (("mosi", "miso", "sck") if pico else ())), ("setNumBuffers", ("rx", "tx")), ("setOscFreq", ("osc",))):
            r = x.call(n, st, *[w[k] for k in a])
            if len(r) != 1:
                raise AnalysisError("%s forks" % n)
            st = r[0][1]
        return st
    starts = [("default settings", S0, dflt), ("any settings", setup(S0, user), user)]
    spis = ["Spi"] + ([SPI0] if SPI0 else [])
    POLL = atom("poll", 1)
    running = []
    for lab, S, w in starts[1 if pico else 0:]:
        for spi in spis:
            for v, st in x.call("begin", S, POLL, ptr(spi, C64(0))):
                want = dict(w, spi=spi, poll=POLL)
                rule("start with %s" % lab, begun(st, v, want), st)
                running.append((lab, st, want))
    n0 = len(running)
    for lab, st0, want in running:
        poll = truth(st0.env, want["poll"])
        if poll is None:
            continue
        mode = ("polling, " if poll else "interrupts, ") + lab
        o = x.canp(st0)
        # anything waiting?
        for v, st in x.call("available", st0):
            es = x.evs(st, "ACAN2515::poll", "ACAN2515::available")
            av = [e for e in es if e.a["what"].endswith("available")]
            r = None
            if len(av) != 1 or any(e.a["obj"] != o for e in es):
                r = "the controller is not asked once"
            elif poll and (es[0].a["what"] != "ACAN2515::poll"):
                r = "the controller is not polled"
            elif truth(st.env, v) is not truth(st.env, av[0].a["ret"]) or truth(st.env, v) is None and not st.env.same(slice_(v, 0, 1), slice_(av[0].a["ret"], 0, 1)):
                r = "the answer is %s" % show(v)
            rule("frames waiting, " + mode, r or bad(st, x), st)
        # error state
        for n, m in (("receiveErrorCounter", "receiveErrorCounter"), ("transmitErrorCounter", "transmitErrorCounter"), ("errorStatus", "errorFlagRegister")):
            for v, st in x.call(n, st0):
                es = x.evs(st, "ACAN2515::" + m)
                r = None if len(es) == 1 and es[0].a["obj"] == o and st.env.same(v, zext(es[0].a["ret"], v.w)) else "tells %s" % show(v)
                rule("%s, %s" % (n, mode), r or bad(st, x), st)
        # receiving and sending, from any counts
        base = st0.copy()
        cnt = {}
        for f in ("_numMsgsSent", "_numMsgsRcvd"):
            off, sz, _ = L.w.field(NS + x.cls, f)
            cnt[f] = atom(("count", f), 8 * sz)
            I.store(base, x.obj, C64(off), sz, cnt[f])
        counter = lambda st, n: x.call(n, st)[0][0]
        T = L.w.types[NS + "CANFrame"]["size"]
        fo = lambda k: L.w.field(NS + "CANFrame", k)
        for n in range(9):
            x.msglen = n
            for v, st in x.call("getNextCanFrame", base):
                by = frame_bytes(I, st, v, T)
                r = None
                if len(x.evs(st, "ACAN2515::receive")) != 1 or x.evs(st, "ACAN2515::receive")[0].a["obj"] != o:
                    r = "not exactly one frame is taken from the controller"
                for k, wv in (("id", atom(("recv", "id"), 32)), ("ext", zext(atom(("recv", "ext"), 1), 8)), ("rtr", zext(atom(("recv", "rtr"), 1), 8)), ("len", K(n))):
                    off, sz, _ = fo(k)
                    got = concat(by[off:off + sz])
                    if r is None and not st.env.same(got, wv):
                        r = "%s is %s" % (k, show(got))
                off = fo("data")[0]
                for i in range(n):
                    if r is None and not st.env.same(by[off + i], atom(("recv", "data", i), 8)):
                        r = "data byte %d is %s" % (i, show(by[off + i]))
                for q, d in (("receiveCounter", 1), ("transmitCounter", 0)):
                    a, b = counter(base, q), counter(st, q)
                    if r is None and not st.env.same(b, add(a, const(a.w, d))):
                        r = "%s goes from %s to %s" % (q, show(a), show(b))
                rule("received frame of %d bytes, %s" % (n, mode), r or bad(st, x), st)
            B = base.copy()
            fr = ("frame",)
            L.w.osize[fr] = T
            vals = {"id": atom("f.id", 32), "ext": zext(atom("f.ext", 1), 8), "rtr": zext(atom("f.rtr", 1), 8), "len": K(n)}
            for k, wv in vals.items():
                off, sz, _ = fo(k)
                I.store(B, fr, C64(off), sz, wv)
            off = fo("data")[0]
            for i in range(8):
                I.store(B, fr, C64(off + i), 1, atom(("f.data", i), 8))
            for v, st in x.call("sendCanFrame", B, ptr(fr, C64(0))):
                es = x.evs(st, "ACAN2515::tryToSend")
                r = None
                if len(es) != 1 or es[0].a["obj"] != o:
                    r = "not exactly one frame is given to the controller"
                else:
                    mo = dict(es[0].a["more"])
                    for k, wv in vals.items():
                        if r is None and not st.env.same(mo[k], wv):
                            r = "%s is %s" % (k, show(mo[k]))
                    for i in range(n):
                        if r is None and not st.env.same(mo["data"][i], atom(("f.data", i), 8)):
                            r = "data byte %d is %s" % (i, show(mo["data"][i]))
                    ok = slice_(es[0].a["ret"], 0, 1)
                    if r is None and not (st.env.same(slice_(v, 0, 1), ok)):
                        r = "the result is %s" % show(v)
                    for q, d in (("receiveCounter", None), ("transmitCounter", ok)):
                        a, b = counter(B, q), counter(st, q)
                        wv = a if d is None else add(a, zext(st.env.norm(d), a.w))
                        if r is None and not st.env.same(b, wv):
                            r = "%s goes from %s to %s" % (q, show(a), show(b))
                rule("sent frame of %d bytes, %s" % (n, mode), r or bad(st, x), st)
        # reset: the controller is set up again in the same way
        cur = [base]
        if lab == "any settings":
            w2 = dict(want, rx=atom("rx2", 8), tx=atom("tx2", 8))
            later = x.call("setNumBuffers", base, w2["rx"], w2["tx"])[0][1]
            cur.append(later)
        for k, B in enumerate(cur):
            wn = want if k == 0 else w2
            o1 = x.canp(B)
            for v, st in x.call("reset", B):
                r = ended(st, x, o1) or begun(st, None, wn)
                rule("reset, " + mode, r, st)
                for v2, st2 in x.call("reset", st):
                    rule("second reset, " + mode, ended(st2, x, x.canp(st)) or begun(st2, None, wn), st2)


def bad(st, x):
    if st.alarms:
        return "memory: %s" % (sorted(st.alarms, key=repr)[0],)


def frame_bytes(I, st, v, size):
    if v is None:
        return [st.env.norm(I.load(st, "out", C64(i), 1)) for i in range(size)]
    by = []
    for x in (v if isinstance(v, list) else [v]):
        by += [st.env.norm(slice_(x, 8 * i, 8)) for i in range(x.w // 8)]
    return by


def ended(st, x, old):
    """the earlier controller is stopped and released once, before another is started"""
    end = beg = None
    frees = []
    for i, (e, lp) in enumerate(walk(st.log)):
        if e.kind == "can" and e.a["what"] == "ACAN2515::end" and e.a["obj"] == old:
            end = i if end is None else end
        elif e.kind == "can" and e.a["what"] == "ACAN2515::begin":
            beg = i
        elif e.kind == "can" and e.a["obj"] == old and frees:
            return "the released controller is used at %s" % e.loc
        elif e.kind == "free":
            p = e.a["ptr"]
            frees.append((i, x.L.I.deref(st, p)[0] if isinstance(p, T) else p))
    if end is None or beg is not None and beg < end:
        return "the earlier controller is not stopped first"
    if [o for i, o in frees] != [old]:
        return "%d objects are released, expected the earlier controller" % len(frees)
    if frees[0][0] < end:
        return "the earlier controller is released before it is stopped"


if __name__ == "__main__":
    p = sys.argv[1]
    main(globals()[p], p, "x", 5)
