"""Loads /repo's current sources into the analysis world and defines the effect
boundary (action queue, persistent storage, CAN transport, user callbacks)."""
import glob, hashlib, json, os, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from terms import *
import terms as tm
import interp as ip
from interp import *
from env import Env, FULL

REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(os.path.dirname(HERE), "build")
LLVM = "/usr/lib/llvm-18/bin/"


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def build_tool():
    """compile irdump when missing or older than its source"""
    os.makedirs(BUILD, exist_ok=True)
    src = os.path.join(HERE, "irdump.cpp")
    h = hashlib.sha1(open(src, "rb").read()).hexdigest()[:12]
    out = os.path.join(BUILD, "irdump-" + h)
    if os.path.exists(out):
        return out
    cfg = lambda *a: sh([LLVM + "llvm-config", *a]).stdout.split()
    tmp = out + ".%d" % os.getpid()
    r = sh(["g++", "-O1"] + cfg("--cxxflags") + [src, "-o", tmp] + cfg("--ldflags", "--libs", "core"))
    if r.returncode:
        raise AnalysisError("irdump build failed: " + r.stdout[-400:])
    os.rename(tmp, out)
    return out


def compile_repo(srcs=None, defines=(), extra=(), key=""):
    """IR of every library source, as parsed JSON; cached by content hash"""
    tool = build_tool()
    files = sorted(glob.glob(REPO + "/src/*.cpp")) + [os.path.join(HERE, "probe.cpp")] if srcs is None else srcs
    hs = hashlib.sha1()
    for f in sorted(glob.glob(REPO + "/src/*") + glob.glob(REPO + "/Arduino/*")) + [os.path.join(HERE, "probe.cpp")] + list(srcs or []):
        if os.path.isfile(f):
            hs.update(f.encode())
            hs.update(open(f, "rb").read())
    hs.update(repr(("v2", defines, extra, key, os.path.basename(tool))).encode())
    cache = os.path.join(BUILD, "ir-%s.json" % hs.hexdigest()[:16])
    if os.path.exists(cache):
        return json.load(open(cache)), files
    d = tempfile.mkdtemp(prefix="vlcbir", dir=BUILD)
    try:
        flags = ["-std=gnu++11", "-fdebug-compilation-dir=/__cwd", "-fno-exceptions", "-fno-threadsafe-statics", "-g", "-fstandalone-debug", "-O0",
                 "-Xclang", "-disable-O0-optnone", "-w", "-S", "-emit-llvm", *extra, "-I" + REPO + "/src", "-I" + REPO + "/Arduino"] + ["-D" + x for x in defines]

        def one(f):
            o = os.path.join(d, os.path.basename(f) + ".ll")
            r = sh([LLVM + "clang++", *flags, f, "-o", o])
            return f, o, r
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, files))
        bad = [(f, r.stdout) for f, o, r in rs if r.returncode]
        if bad:
            raise AnalysisError("does not compile: %s: %s" % (bad[0][0], bad[0][1][:300]))
        tmp = os.path.join(d, "out.json")
        r = sh([tool, tmp] + [o for _, o, _ in rs])
        if r.returncode:
            raise AnalysisError("irdump failed: " + r.stdout[-300:])
        j = json.load(open(tmp))
        for old in glob.glob(BUILD + "/ir-*.json"):
            try:
                if len(glob.glob(BUILD + "/ir-*.json")) > 12:
                    os.unlink(old)
            except OSError:
                pass
        os.replace(tmp, cache)
        return j, files
    finally:
        shutil.rmtree(d, ignore_errors=True)


NS = "VLCB::"
EE = "EEPROM"          # the persistent store as one abstract byte array
ACTIONS = {"MESSAGE_IN": 0, "MESSAGE_OUT": 1, "START_CAN_ENUMERATION": 2, "CHANGE_MODE": 3, "RENEGOTIATE": 4, "INDICATE_ACTIVITY": 5, "INDICATE_MODE": 6}


def enumval(w, ty, name, unused=None):
    """value of an enumerator; `unused` when no analysed code mentions it (not in the debug info)"""
    t = w.types.get(NS + ty) or w.types.get(ty)
    if t and name in t["enum"]:
        return int(t["enum"][name])
    for n, t in w.types.items():
        if name in t["enum"]:
            return int(t["enum"][name])
    if unused is not None:
        return unused
    raise AnalysisError("anchor lost: enumerator %s" % name)


def all_enum(w, ty):
    for n in (NS + ty, ty):
        if n in w.types:
            return {k: int(v) for k, v in w.types[n]["enum"].items()}
    raise AnalysisError("anchor lost: enumeration %s" % ty)


# atoms every analysis shares
NNHI = atom("ownNN.hi", 8)
NNLO = atom("ownNN.lo", 8)
OWNNN = concat([NNLO, NNHI])
LEN = atom("len", 8)
D = [atom("d%d" % i, 8) for i in range(8)]
MSGNN = concat([D[2], D[1]])


class Lib:
    def __init__(self, srcs=None, defines=(), extra=(), hooks=True, contracts=True, partition=False):
        j, self.files = compile_repo(srcs, defines, extra)
        self.w = World(j)
        w = self.w
        w.partition = partition
        self.I = Interp(w)
        w.single[NS + "Configuration"] = "Config"
        w.otype["Config"] = NS + "Configuration"
        w.single[NS + "Controller"] = "Ctrl"
        w.otype["Ctrl"] = NS + "Controller"
        w.single[NS + "Storage"] = "Storage"
        w.otype["Storage"] = NS + "Storage"
        w.nonnulltype.add(NS + "Service")     # the list of services has no null entries
        w.initfield[NS + "Configuration.nodeNum"] = lambda w_, o: zext(OWNNN, 32)
        w.initfield[NS + "Configuration.EE_BYTES_PER_EVENT"] = lambda w_, o: add(self.cfg("EE_NUM_EVS"), const(8, 4))
        if hooks:
            self.install()
        if contracts:
            self.contracts()

    # -- configuration atoms
    def cfg(self, name):
        o, s, y = self.w.field(NS + "Configuration", name)
        if name == "nodeNum":
            return zext(OWNNN, 32)
        if y == "bool":
            return atom(("f", "Config", name), 1)
        return atom(("f", "Config", name), 8 * s)

    def base_env(self, env, layout=True):
        """deployment assumptions: 16-bit storage layout, at most 251 EVs per event"""
        for n in ("EE_NVS_START", "EE_EVENTS_START"):
            env.iv[self.cfg(n)] = (10, 0x7FFF)
        env.dom[self.cfg("EE_NUM_EVS")] = sum(1 << v for v in range(0, 252))
        return env

    def obj(self, ty, name=None):
        """a fresh symbolic object of class ty (dynamic type exactly ty)"""
        full = ty if ty in self.w.types else NS + ty
        o = name or ty.split("::")[-1]
        if full not in self.w.types:
            raise AnalysisError("anchor lost: class %s" % full)
        self.w.otype[o] = full
        self.w.osize[o] = self.w.types[full]["size"]
        vt = self.w.vtable(full)
        if vt:
            self.w.odyn[o] = vt
        return o

    def install(self):
        w = self.w
        H, V = w.hooks, w.virt

        def aput(I, st, fr, ins, args, fn):
            obj, off = I.deref(st, args[1])
            b = tuple(I.load(st, obj, add(off, C64(i)), 1) for i in range(10))
            I.ev(st, "action", fr, ins, type=b[0], len=b[1], data=b[2:10])
            return [(None, st)]
        H[NS + "CircularBuffer<" + NS + "Action>::put"] = aput

        def sread(I, st, fr, ins, args, obj):
            a = zext(addr64(st, args[1], I), 64)
            v = I.load(st, EE, a, 1)
            I.ev(st, "sread", fr, ins, addr=a, val=v)
            return [(v, st)]

        def swrite(I, st, fr, ins, args, obj):
            a = addr64(st, args[1], I)
            I.ev(st, "swrite", fr, ins, addr=a, val=st.env.norm(args[2]))
            I.store(st, EE, a, 1, st.env.norm(args[2]))
            return [(None, st)]

        def sreadb(I, st, fr, ins, args, obj):
            a = addr64(st, args[1], I)
            n = st.env.norm(args[2])
            do, df = I.deref(st, args[3])
            I.rangecheck(fr, ins, st, do, df, zext(n, 64), "storage-read-dst")
            if n.op == "c":
                for i in range(n.a):
                    v = I.load(st, EE, add(a, C64(i)), 1)
                    I.store(st, do, add(df, C64(i)), 1, v)
                    I.ev(st, "sread", fr, ins, addr=add(a, C64(i)), val=v)
            else:
                I.ev(st, "sreadn", fr, ins, addr=a, n=n)
                st.wobj(do).layers.append(("hv", ("sreadn", st.fresh()), 0, None))
            return [(n, st)]

        def swriteb(I, st, fr, ins, args, obj):
            a = addr64(st, args[1], I)
            n = st.env.norm(args[3])
            so, sf = I.deref(st, args[2])
            I.rangecheck(fr, ins, st, so, sf, zext(n, 64), "storage-write-src")
            if n.op == "c":
                for i in range(n.a):
                    v = I.load(st, so, add(sf, C64(i)), 1)
                    I.ev(st, "swrite", fr, ins, addr=add(a, C64(i)), val=v)
                    I.store(st, EE, add(a, C64(i)), 1, v)
            else:
                I.ev(st, "swriten", fr, ins, addr=a, n=n)
                st.wobj(EE).layers.append(("hv", ("swriten", st.fresh()), 0, None))
            return [(None, st)]

        def sreset(I, st, fr, ins, args, obj):
            I.ev(st, "sreset", fr, ins)
            st.wobj(EE).layers.append(("hv", ("sreset", st.fresh()), 0, None))
            return [(None, st)]
        def sbegin(I, st, fr, ins, args, obj):
            I.ev(st, "sbegin", fr, ins)
            return [(None, st)]
        V[NS + "Storage::begin"] = sbegin
        V[NS + "Storage::read"] = sread
        V[NS + "Storage::write"] = swrite
        V[NS + "Storage::readBytes"] = sreadb
        V[NS + "Storage::writeBytes"] = swriteb
        V[NS + "Storage::reset"] = sreset

        def reboot(I, st, fr, ins, args, fn):
            I.ev(st, "reboot", fr, ins)
            return [(None, st)]
        H[NS + "Configuration::reboot"] = reboot

        def sendframe(I, st, fr, ins, args, obj):
            o, f = I.deref(st, args[1])
            T_ = NS + "CANFrame"
            g = {}
            for n in ("id", "ext", "rtr", "len"):
                off, sz, y = w.field(T_, n)
                g[n] = I.load(st, o, add(f, C64(off)), sz)
            off, sz, y = w.field(T_, "data")
            g["data"] = tuple(I.load(st, o, add(f, C64(off + i)), 1) for i in range(8))
            I.ev(st, "frame", fr, ins, **g)
            return [(atom(("vret", "sendCanFrame", st.fresh()), 1), st)]
        V[NS + "CanTransport::sendCanFrame"] = sendframe

        def getframe(I, st, fr, ins, args, obj):
            """a received CAN frame: symbolic id/ext/rtr/len (0..8)/data"""
            T_ = NS + "CANFrame"
            size = w.types[T_]["size"]
            n = st.fresh()
            by = [atom(("rxpad", n, i), 8) for i in range(size)]

            def put(name, t):
                off, sz, y = w.field(T_, name)
                t = zext(t, 8 * sz)
                for i in range(sz):
                    by[off + i] = slice_(t, 8 * i, 8)
            rid, rext, rrtr, rlen = concat([atom("rx.can", 7), atom("rx.idhi", 25)]), atom("rx.ext", 1), atom("rx.rtr", 1), atom("rx.len", 8)
            st.wenv().assume(ult(rlen, const(8, 9)))
            put("id", rid)
            put("ext", rext)
            put("rtr", rrtr)
            put("len", rlen)
            off, sz, y = w.field(T_, "data")
            for i in range(8):
                by[off + i] = atom("rx.d%d" % i, 8)
            I.ev(st, "rxframe", fr, ins)
            if ins.get("sret"):
                so, sf = I.deref(st, args[0])
                for i in range(size):
                    I.store(st, so, add(sf, C64(i)), 1, by[i])
                return [(None, st)]
            return [([concat(by[i:i + 8]) for i in range(0, size, 8)], st)]
        V[NS + "CanTransport::getNextCanFrame"] = getframe

    # -- event table geometry
    def evaddr(self, idx, off=0):
        """storage address (64 bit) of byte `off` of event record idx (8-bit term)"""
        i = zext(idx, 64) if idx.w < 64 else idx
        e = add(zext(self.cfg("EE_EVENTS_START"), 64), add(mul(i, zext(self.cfg("EE_NUM_EVS"), 64)), mul(const(64, 4), i)))
        return e, off

    def contracts(self):
        """Look-up contracts of the event table, used by every analysis above the
        Configuration class; the event-table check verifies each of them against
        the implementation (contracts off)."""
        w = self.w
        H = w.hooks
        C = NS + "Configuration::"
        MAX = self.cfg("EE_MAX_EVENTS")

        def ver(st):
            return sum(1 for e in st.log if e.kind in ("swrite", "swriten", "sreset", "hashupd", "hashclr", "loop", "callback"))

        def lookup(name, nargs):
            def f(I, st, fr, ins, args, fn):
                ar = tuple(st.env.norm(x) for x in args[1:1 + nargs])
                a = atom((name, ver(st)) + ar, 8)
                miss = st.copy()
                out = []
                if st.wenv().assume(ult(a, MAX)):
                    I.ev(st, "lookup", fr, ins, fn=name, args=ar, hit=1, res=a)
                    out.append((a, st))
                if miss.wenv().assume(eq(a, MAX)):
                    r = miss.env.norm(MAX)
                    I.ev(miss, "lookup", fr, ins, fn=name, args=ar, hit=0, res=r)
                    out.append((r, miss))
                return out
            return f
        H[C + "findExistingEvent"] = lookup("findEvent", 2)
        H[C + "findEventSpace"] = lookup("findSpace", 0)
        H[C + "findExistingEventByEv"] = lookup("findByEv", 2)

        def numev(I, st, fr, ins, args, fn):
            a = atom(("numEvents", ver(st)), 8)
            st.wenv().assume(ult(MAX, a), False)
            return [(a, st)]
        H[C + "numEvents"] = numev

        def havoc(I, st):
            o, s, y = w.field(NS + "Configuration", "evhashtbl", want="unsigned char*")
            ob, off = I.deref(st, I.load(st, "Config", C64(o), 8, True))
            st.wobj(ob).layers.append(("hv", ("hash", st.fresh()), 0, None))

        def upd(I, st, fr, ins, args, fn):
            I.ev(st, "hashupd", fr, ins, idx=st.env.norm(args[1]))
            havoc(I, st)
            return [(None, st)]
        H[C + "updateEvHashEntry"] = upd

        def clr(I, st, fr, ins, args, fn):
            I.ev(st, "hashclr", fr, ins)
            havoc(I, st)
            return [(None, st)]
        H[C + "clearEvHashTable"] = clr

    # -- entries
    def state(self, layout=True):
        st = State()
        self.base_env(st.wenv(), layout)
        return st

    def action(self, st, kind, name="act", length=None, opcodes=None, nn=None, mode=None):
        """build an Action; returns pointer term"""
        I = self.I
        o = ("in", name)
        self.w.osize[o] = 10
        k = ACTIONS[kind] if isinstance(kind, str) else kind
        I.store(st, o, C64(0), 1, const(8, k) if isinstance(k, int) else k)
        env = st.wenv()
        if kind in ("MESSAGE_IN", "MESSAGE_OUT"):
            I.store(st, o, C64(1), 1, LEN)
            for i in range(8):
                I.store(st, o, C64(2 + i), 1, D[i])
            env.assume(ult(LEN, const(8, 9)))
            if length is not None:
                self.setvals(env, LEN, length)
            if opcodes is not None:
                self.setvals(env, D[0], opcodes)
            if nn == "own":
                env.assume(eq(NNHI, D[1]))
                env.assume(eq(NNLO, D[2]))
            elif nn == "other":
                env.assume(eq(MSGNN, OWNNN), False)
        else:
            I.store(st, o, C64(1), 1, atom("act.payload", 8))
            for i in range(8):
                I.store(st, o, C64(2 + i), 1, atom("act.pad%d" % i, 8))
        return ptr(o, C64(0))

    def setvals(self, env, a, vals):
        if isinstance(vals, int):
            vals = [vals]
        m = 0
        for v in vals:
            m |= 1 << v
        env._setmask(a, m & env.mask(a))

    def services(self):
        return [t for t in self.w.derived(NS + "Service") if self.w.vtable(t)]

    def run_process(self, cls, st, pa):
        f = self.w.vmethod(cls if cls.startswith(NS) else NS + cls, "process")
        if f is None:
            raise AnalysisError("anchor lost: process() of " + cls)
        o = self.obj(cls)
        return self.I.call(f, [ptr(o, C64(0)), pa], st)


def addr64(st, t, I):
    t = st.env.norm(t)
    if t.op == "lin":
        t = I.widen_lin(st.env, t, 64)
    return zext(t, 64) if t.w < 64 else t
