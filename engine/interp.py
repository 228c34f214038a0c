"""Interprocedural, context-sensitive abstract interpreter over the LLVM IR of
/repo.  Disjunctive (trace-partitioned) states over the term/constraint domain,
loops by bounded peeling when the trip count is decided, otherwise by a widened
fixpoint whose body effects are summarised symbolically.  Calls are inlined per
context; everything outside the library (storage, transport, user callbacks,
clock, serial) is an effect boundary recorded in the state's effect log."""
import json
import os
import sys
from terms import *
import terms as tm
from env import Env, FULL

sys.setrecursionlimit(20000)


KNOWN = None     # member names of the library as first analysed


class AnalysisError(Exception):
    pass


_evid = {}


def logkey(log):
    return tuple(e.kid for e in log)


def memeq(a, b):
    if a.mem.keys() != b.mem.keys():
        return False
    for o, x in a.mem.items():
        y = b.mem[o]
        if x is y:
            continue
        lx, ly = x.layers, y.layers
        if len(lx) != len(ly):
            return False
        for p, q in zip(lx, ly):
            if p is not q and p != q:
                return False
    return True


class Ev:
    """one boundary effect"""
    __slots__ = ("kind", "a", "loc", "stk", "env", "key", "kid")

    def __init__(self, kind, a, loc, stk, env):
        self.kind, self.a, self.loc, self.stk, self.env = kind, a, loc, stk, env
        self.key = (kind, tuple(sorted((k, v) for k, v in a.items() if not k.startswith("_")))) if kind != "loop" else (kind, a["seqkey"])
        try:
            self.kid = _evid.setdefault(self.key, len(_evid))
        except TypeError:
            self.key = (kind, id(self))
            self.kid = _evid.setdefault(self.key, len(_evid))

    def __repr__(self):
        if self.kind == "loop":
            return "loop%s{%s}" % (list(self.a["vars"].items()), " | ".join(str(list(s)) for s in self.a["seqs"]))
        return "%s(%s)@%s" % (self.kind, ", ".join("%s=%s" % (k, show(v) if isinstance(v, T) else "[" + ",".join(show(x) if isinstance(x, T) else str(x) for x in v) + "]" if isinstance(v, tuple) else v) for k, v in self.a.items() if not k.startswith("_")), self.loc)


class Obj:
    """contents of one abstract object: newest layer last"""
    __slots__ = ("layers",)

    def __init__(self, layers=()):
        self.layers = list(layers)

    def copy(self):
        o = Obj()
        o.layers = list(self.layers)
        if o.layers and isinstance(o.layers[-1], dict):
            o.layers[-1] = dict(o.layers[-1])
        return o

    def key(self):
        out = []
        for l in self.layers:
            if isinstance(l, dict):
                out.append(frozenset(l.items()))
            else:
                out.append(l)
        return tuple(out)


class Snap:
    """the source of a block copy as it was at that time"""
    __slots__ = ("obj", "off", "layers")

    def __init__(self, st, obj, off):
        o = st.mem.get(obj)
        self.obj, self.off = obj, off
        self.layers = o.copy().layers if o is not None else []


class State:
    __slots__ = ("mem", "own", "log", "env", "eown", "n", "alarms")

    def __init__(self):
        self.mem = {}
        self.own = set()
        self.log = ()
        self.env = Env()
        self.eown = True
        self.n = 0
        self.alarms = frozenset()

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.own = set()
        self.own = set()
        s.log = self.log
        s.env = self.env
        s.eown = False
        self.eown = False
        s.n = self.n
        s.alarms = self.alarms
        return s

    def wenv(self):
        if not self.eown:
            self.env = self.env.copy()
            self.eown = True
        return self.env

    def shenv(self):
        self.eown = False
        return self.env

    def fresh(self):
        self.n += 1
        return self.n

    def wobj(self, o):
        m = self.mem.get(o)
        if m is None:
            m = Obj()
            self.mem[o] = m
            self.own.add(o)
        elif o not in self.own:
            m = m.copy()
            self.mem[o] = m
            self.own.add(o)
        return m


class Frame:
    __slots__ = ("fn", "name", "args", "varargs", "uid", "stk", "line", "file")


C64 = lambda v: const(64, v)


class Fn:
    def __init__(self, name, d):
        self.name = name
        self.d = d
        self.dem = d["dem"]
        self.base = self.dem.split("(")[0] if not self.dem.startswith("operator") else self.dem
        self.decl = d["decl"]
        self.cls = d.get("class")
        self.file = d.get("file", "")
        self.line = d.get("line", 0)
        self.short = d.get("name") or self.base.split("::")[-1]
        self.blocks = d.get("blocks", [])
        self.params = d["params"]
        self.ret = d["ret"]
        self.loops = {}
        for l in d.get("loops", []):
            self.loops[l["header"]] = frozenset(l["blocks"])
        self._rpo = None
        self._live = None

    def succs(self, b):
        t = self.blocks[b][-1]
        if t["op"] == "br":
            return t["succ"]
        if t["op"] == "switch":
            return [x for _, x in t["cases"]] + [t["default"]]
        if t["op"] == "invoke":
            return t.get("succ", [])
        return []

    def rpo(self):
        """block -> reverse post-order index"""
        if self._rpo is None:
            seen, post = set(), []
            stack = [(0, iter(self.succs(0)))]
            seen.add(0)
            while stack:
                b, it = stack[-1]
                for x in it:
                    if x not in seen:
                        seen.add(x)
                        stack.append((x, iter(self.succs(x))))
                        break
                else:
                    post.append(b)
                    stack.pop()
            self._rpo = {b: i for i, b in enumerate(reversed(post))}
        return self._rpo

    def live(self):
        """block -> SSA values live on entry (after the block's phis)"""
        if self._live is None:
            use, dfn, phiuse = {}, {}, {}
            for b, ins in enumerate(self.blocks):
                u, d = set(), set()
                for i in ins:
                    if i["op"] == "dbg":
                        continue
                    if i["op"] == "phi":
                        for pb, v in i["inc"]:
                            if v[0] == "v":
                                phiuse.setdefault(pb, set()).add(v[1])
                        d.add(i["id"])
                        continue
                    for v in refs(i):
                        if v not in d:
                            u.add(v)
                    if "id" in i:
                        d.add(i["id"])
                use[b], dfn[b] = u, d
            phis = {b: {i["id"] for i in ins if i["op"] == "phi"} for b, ins in enumerate(self.blocks)}
            lin = {b: set() for b in use}
            ch = True
            order = sorted(self.rpo(), key=lambda b: -self.rpo()[b])
            while ch:
                ch = False
                for b in order:
                    out = set(phiuse.get(b, ()))
                    for x in self.succs(b):
                        out |= lin[x] - phis[x]
                    # live after phis: uses + (out - defs) ; phi defs used inside stay listed
                    n = use[b] | (out - dfn[b]) | (phis[b] & (use[b] | out))
                    # uses of phi results inside the block were removed via d; add them back
                    if n != lin[b]:
                        lin[b] = n
                        ch = True
            self._live = lin
        return self._live


def refs(i):
    """SSA values an instruction reads"""
    out = []

    def go(v):
        if isinstance(v, list):
            if len(v) == 2 and v[0] == "v" and isinstance(v[1], int):
                out.append(v[1])
            else:
                for x in v:
                    go(x)
    for k in ("ops", "base", "vars", "cond", "callee", "n"):
        if k in i:
            go(i[k])
    return out


class World:
    partition = False       # keep paths apart instead of joining them (small functions only)
    watch = False           # alarm for decisions on values never written
    maxitems = 24           # how many paths a loop may be unrolled into

    def __init__(self, j):
        self.j = j
        self.fns = {n: Fn(n, d) for n, d in j["functions"].items()}
        self.globals = j["globals"]
        self.types = j["types"]
        self.bydem = {}
        for f in self.fns.values():
            self.bydem.setdefault(f.base, []).append(f)
        self._leaves = {}
        self._vslots = {}
        self.otype = {}          # object -> type name
        self.osize = {}          # object -> size (bytes)
        self.odyn = {}           # object -> vtable global
        self.ptype = {}          # pointer atom/rd -> pointee type name
        self.nonnull = set()     # pointer atoms known non-null
        self.nonnulltype = set()  # pointees that are never pointed to by a null pointer
        self.single = {}         # pointee type name -> object (singleton)
        self.init = {}           # (obj, off, size) -> term override
        self.initfield = {}      # "Type.field" -> callable(world, obj)->term
        self.names = {}
        self.hooks = {}          # base demangled -> callable(interp, st, fr, ins, args) -> list of (ret, st)
        self.virt = {}           # "Class::method" -> callable
        self.stats = {"functions": set(), "blocks": 0, "instrs": 0, "calls": 0, "states": 0, "loops": {}, "callsites": set(), "unmodelled": set()}
        self.looplog = {}
        self.hexd = False       # hexadecimal characters are tracked (env._hexd)
        self.cbprobe = ()       # (object, offset) bytes recorded with every user callback
        self.noexit = []        # loops no path leaves
        self.maxstates = 20000

    # ---- types
    def leaves(self, ty):
        """flattened members: list of (off,size,label,type)"""
        r = self._leaves.get(ty)
        if r is not None:
            return r
        out = []
        t = self.types.get(ty)
        if t is None:
            self._leaves[ty] = out
            return out
        for bn, bo in t["bases"]:
            for (o, s, l, y) in self.leaves(bn):
                out.append((bo + o, s, l, y))
        alias = self.renamed(ty, t["members"])
        for m in t["members"]:
            mt = m["type"]
            if m["name"] in alias:
                m = dict(m, name=alias[m["name"]])
            if mt in self.types and self.types[mt]["tag"] in (0x13, 0x02, 0x17) and self.types[mt]["members"] + self.types[mt]["bases"]:
                for (o, s, l, y) in self.leaves(mt):
                    out.append((m["off"] + o, s, m["name"] + "." + l if m["name"] else l, y))
            elif "[" in mt and mt.split("[")[0] in self.types and self.types[mt.split("[")[0]]["tag"] in (0x13, 0x02):
                out.append((m["off"], m["size"], m["name"], mt))
            else:
                out.append((m["off"], m["size"], m["name"], mt))
        self._leaves[ty] = out
        return out

    def renamed(self, ty, members):
        """{new name: known name} of members that are the only ones of their type to have changed name"""
        global KNOWN
        if KNOWN is None:
            p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "members.json")
            KNOWN = json.load(open(p)) if os.path.exists(p) else {}
        old = KNOWN.get(ty)
        if not old:
            return {}
        have = {m["name"] for m in members}
        names = {n for n, y in old}
        out = {}
        for y in {y for n, y in old if n not in have}:
            gone = [n for n, z in old if z == y and n not in have]
            new = [m["name"] for m in members if m["type"] == y and m["name"] and m["name"] not in names]
            if len(gone) == len(new):
                out.update(zip(new, gone))
        return out

    def leaf_at(self, ty, off, size):
        best = None
        for (o, s, l, y) in self.leaves(ty):
            if o <= off and off + size <= o + s:
                if best is None or s < best[1]:
                    best = (o, s, l, y)
        return best

    def field(self, ty, name=None, want=None, all=False):
        """(off,size,type) of member `name`; else the unique member of type `want`"""
        ls = self.leaves(ty)
        for (o, s, l, y) in ls:
            if name is not None and l == name:
                return (o, s, y)
        if want is not None:
            c = [(o, s, y) for (o, s, l, y) in ls if y == want]
            if len(c) == 1:
                return c[0]
        raise AnalysisError("anchor lost: member %s of %s" % (name or want, ty))

    def derived(self, base):
        out = []
        for n, t in self.types.items():
            seen = [n]
            st = [n]
            while st:
                x = st.pop()
                for b, _ in self.types.get(x, {"bases": []})["bases"]:
                    st.append(b)
                    seen.append(b)
            if base in seen and n != base:
                out.append(n)
        return sorted(out)

    def is_a(self, ty, base):
        if ty == base:
            return True
        return any(self.is_a(b, base) for b, _ in self.types.get(ty, {"bases": []})["bases"])

    def vslots(self, ty):
        r = self._vslots.get(ty)
        if r is None:
            r = {}
            t = self.types.get(ty)
            if t:
                for b, _ in t["bases"]:
                    r.update(self.vslots(b))
                for m in t["methods"]:
                    if m["virt"] >= 0:
                        r[m["virt"]] = m["name"]
            self._vslots[ty] = r
        return r

    def vtable(self, ty):
        ns = ty.split("::")
        mang = "_ZTV" + ("N" if len(ns) > 1 else "") + "".join("%d%s" % (len(x), x) for x in ns) + ("E" if len(ns) > 1 else "")
        return mang if mang in self.globals and self.globals[mang].get("init") else None

    def vmethod(self, ty, name):
        """concrete Fn a virtual call of `name` on dynamic type `ty` resolves to"""
        vt = self.vtable(ty)
        if not vt:
            return None
        slots = [k for k, v in self.vslots(ty).items() if v == name]
        if not slots:
            return None
        off = 16 + 8 * slots[0]
        for o, s, v in self.globals[vt]["init"]:
            if o == off and v[0] == "fn":
                return self.fns[v[1]]
        return None

    def fn(self, dem_base, nparams=None):
        c = [f for f in self.bydem.get(dem_base, []) if not f.decl]
        if nparams is not None:
            c = [f for f in c if len(f.params) == nparams]
        if not c:
            raise AnalysisError("anchor lost: function %s" % dem_base)
        return c[0]


PTRW = 64


def isundef(a):
    return isinstance(a.a, tuple) and a.a and a.a[0] in ("undef", "undefv")


class Interp:
    def __init__(self, world):
        self.w = world
        self.depth = 0
        self.uid = 0
        self.und = []
        self.fail = None

    # ------------------------------------------------------------ memory
    def obj_init(self, st, obj, off, size):
        """initial contents of typed object at constant byte offset"""
        w = self.w
        ov = w.init.get((obj, off, size))
        if ov is not None:
            return ov
        if isinstance(obj, tuple) and obj[0] == "g":
            g = w.globals.get(obj[1])
            if g is not None and g["const"] and "init" in g:
                return self.ginit(g, off, size)
        if isinstance(obj, tuple) and obj[0] in ("alloca", "heap", "va", "vao", "new"):
            return concat([atom(("undef", obj, off + i), 8) for i in range(size)])
        ty = w.otype.get(obj)
        if ty:
            elt = ty
            eo = 0
            tsz = w.types[ty]["size"] if ty in w.types else 0
            base = 0
            label = obj
            if tsz and off >= tsz:
                base = (off // tsz) * tsz
                eo = off - base
            else:
                eo = off
            lf = w.leaf_at(elt, eo, size) if elt in w.types else None
            if lf:
                lo, ls, ln, lt = lf
                if "[" in lt and not lt.endswith("*"):
                    et = lt.split("[")[0]
                    es = {"unsigned char": 1, "char": 1, "bool": 1, "short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8}.get(et)
                    if et in w.types:
                        es = w.types[et]["size"]
                    if et.endswith("*"):
                        es = 8
                    if es and ls:
                        k = (eo - lo) // es
                        if eo - lo - k * es + size <= es:
                            v = self.leaf_atom(st, obj, base + lo + k * es, es, "%s[%d]" % (ln, k), et)
                            return slice_(v, 8 * (eo - lo - k * es), 8 * size)
                        # spans elements
                        return concat([self.obj_init(st, obj, off + i, 1) for i in range(size)])
                v = self.leaf_atom(st, obj, base + lo, ls, ln, lt)
                if v.op == "p" or v.w != 8 * ls:
                    return v
                return slice_(v, 8 * (eo - lo), 8 * size)
            if size > 1 and elt in w.types:
                return concat([self.obj_init(st, obj, off + i, 1) for i in range(size)])
            es = {"unsigned char": 1, "char": 1, "bool": 1, "short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8}.get(ty)
            if es is None and ty.endswith("*"):
                es = 8
            if es and off % es + size <= es:
                b = (off // es) * es
                v = self.leaf_atom(st, obj, b, es, "[%d]" % (off // es), ty)
                return v if v.op == "p" else slice_(v, 8 * (off - b), 8 * size)
        if size > 1 and not (size == 8 and off % 8 == 0 and False):
            return concat([rd(obj, C64(off + i), 8) for i in range(size)])
        return rd(obj, C64(off), 8)

    def leaf_atom(self, st, obj, off, size, label, ty):
        w = self.w
        ov = w.init.get((obj, off, size))
        if ov is not None:
            return ov
        oname = w.otype.get(obj, "")
        f = w.initfield.get("%s.%s" % (oname, label))
        if f is not None:
            t = f(w, obj)
            w.init[(obj, off, size)] = t
            return t
        a = atom(("f", obj, label), 8 * size)
        if label.startswith("_vptr"):
            vt = w.odyn.get(obj)
            if vt:
                return ptr(("g", vt), C64(16))
            w.ptype[a] = ("vptr", obj)
            return a
        if ty.endswith("*") or ty.endswith("&"):
            pt = ty[:-1]
            s = w.single.get(pt)
            if s is not None:
                return ptr(s, C64(0))
            w.ptype[a] = pt
            if ty.endswith("&"):
                w.nonnull.add(a)
        if ty == "bool":
            a = zext(atom(("f", obj, label), 1), 8)
        return a

    def ginit(self, g, off, size):
        ents = g["init"]
        out = []
        i = 0
        while i < size:
            hit = None
            for o, s, v in ents:
                if o <= off + i < o + s:
                    hit = (o, s, v)
                    break
            if hit is None:
                out.append(const(8, 0))
                i += 1
                continue
            o, s, v = hit
            if v[0] in ("zero", "null", "undef"):
                out.append(const(8, 0))
                i += 1
                continue
            if v[0] == "c":
                out.append(slice_(const(8 * s, int(v[2])), 8 * (off + i - o), 8))
                i += 1
                continue
            t = self.cval(v)
            if o == off and s == size:
                return t
            out.append(atom(("gslice", str(v), off + i - o), 8))
            i += 1
        return concat(out)

    def cval(self, v):
        k = v[0]
        if k == "c":
            return const(v[1], int(v[2]))
        if k == "null":
            return NULL
        if k == "fn":
            return ptr(("fn", v[1]), C64(0))
        if k == "g":
            self.gobj(v[1])
            return ptr(("g", v[1]), C64(0))
        if k == "cgep":
            return add(self.cval(v[1]), C64(v[2]))
        if k == "undef":
            return self.ty_undef(v[1])
        if k == "zero":
            return ("agg", v[1])
        if k == "fp":
            return atom(("fp",), 64)
        raise AnalysisError("constant %s" % (v,))

    def gobj(self, name):
        o = ("g", name)
        if o not in self.w.osize:
            g = self.w.globals.get(name)
            if g:
                self.w.osize[o] = g["size"]
                if g.get("dity"):
                    ty = g["dity"]
                    if "[" in ty:
                        ty = ty.split("[")[0]
                    self.w.otype[o] = ty
                    if ty in self.w.types:
                        vt = self.w.vtable(ty)
                        if vt:
                            self.w.odyn[o] = vt
        return o

    def ty_undef(self, ty):
        if ty.startswith("i"):
            return const(int(ty[1:]), 0) if ty == "i1" else atom(("undefv",), int(ty[1:]))
        if ty == "ptr":
            return atom(("undefv",), 64)
        return None

    def load(self, st, obj, off, size, isptr=False, layers=None):
        env = st.env
        if off.op != "c":
            off = env.norm(off)
        if layers is None:
            o = st.mem.get(obj)
            layers = o.layers if o is not None else ()
        if off.op == "c":
            k = off.a
            return self._loadc(st, obj, layers, len(layers), k, size, isptr)
        # symbolic offset
        key = None
        for li in range(len(layers) - 1, -1, -1):
            l = layers[li]
            if isinstance(l, dict):
                lo, hi = env.rng(off)
                for eo, (es, v) in l.items():
                    if eo + es <= lo or eo >= hi + size:
                        continue
                    if self.disjoint(env, off, size, C64(eo), es):
                        continue
                    return self.may(st, obj, off, size, isptr, li)
            elif l[0] == "sw":
                _, o2, s2, v = l
                if s2 == size and env.same(off, o2):
                    return env.norm(v)
                if self.disjoint(env, off, size, o2, s2):
                    continue
                return self.may(st, obj, off, size, isptr, li)
            elif l[0] == "cp":
                v = self._cpread(st, obj, off, size, isptr, l)
                if v is not None:
                    return v
            elif l[0] == "hvs":
                if not self._outside(env, off, size, l[2]):
                    return self.mkrd((obj, l[1]), obj, off, size, isptr)
            else:
                _, tag, lo2, hi2 = l
                lo, hi = env.rng(off)
                if hi2 is not None and (hi + size <= lo2 or lo >= hi2):
                    continue
                return self.mkrd((obj, tag), obj, off, size, isptr)
        # constant table
        if isinstance(obj, tuple) and obj[0] == "g":
            g = self.w.globals.get(obj[1])
            if g is not None and g["const"] and "init" in g and g["size"] <= 4096:
                lo, hi = env.rng(off)
                if lo == hi:
                    return self._loadc(st, obj, layers, len(layers), lo, size, isptr)
                vals = []
                ok = True
                for k in range(0, g["size"]):
                    if k + size > g["size"]:
                        vals.append(0)
                        continue
                    v = self.ginit(g, k, size)
                    if v.op != "c":
                        ok = False
                        break
                    vals.append(v.a)
                if ok:
                    return tm.tbl(tuple(vals), off, 8 * size)
        return self.mkrd(obj, obj, off, size, isptr)

    def may(self, st, obj, off, size, isptr, li):
        tag = "may%d.%d" % (li, st.fresh())
        return self.mkrd((obj, tag), obj, off, size, isptr)

    def mkrd(self, robj, obj, off, size, isptr):
        ty = self.w.otype.get(obj)
        if isptr:
            t = rd(robj, off, 64)
            if ty and ty.endswith("*"):
                s = self.w.single.get(ty[:-1])
                if s is not None:
                    return ptr(s, C64(0))
                self.w.ptype[t] = ty[:-1]
            elif ty in self.w.types:
                # element of an array member
                c = off.a[0] if off.op == "lin" else 0
                lf = self.w.leaf_at(ty, c, 1)
                if lf:
                    y = lf[3].split("[")[0]
                    if y.endswith("*"):
                        self.w.ptype[t] = y[:-1]
            return t
        if ty == "bool":
            return zext(rd(robj, off, 1), 8)
        es = {"short": 2, "unsigned short": 2, "int": 4, "unsigned int": 4, "long": 8, "unsigned long": 8}.get(ty)
        if es == size:
            return rd(robj, off, 8 * size)
        return concat([rd(robj, add(off, C64(i)) if i else off, 8) for i in range(size)])

    def disjoint(self, env, o1, s1, o2, s2):
        if o1 is o2:
            return False
        d = sub(o1, o2)
        if d.op == "c":
            v = d.a
            if v >= 1 << 63:
                v -= 1 << 64
            return v >= s2 or v <= -s1
        l1, h1 = env.rng(o1)
        l2, h2 = env.rng(o2)
        if h1 + s1 <= l2 or h2 + s2 <= l1:
            return True
        if s1 == 1 and s2 == 1:
            return env.differ(o1, o2)
        return env.le(add(o1, C64(s1)), o2) or env.le(add(o2, C64(s2)), o1)

    def _loadc(self, st, obj, layers, n, k, size, isptr):
        env = st.env
        for li in range(n - 1, -1, -1):
            l = layers[li]
            if isinstance(l, dict):
                e = l.get(k)
                if e is not None and e[0] == size:
                    return env.norm(e[1])
                hit = False
                for i in range(k - 15, k + size):
                    e = l.get(i)
                    if e is not None and i + e[0] > k:
                        hit = True
                        break
                if not hit:
                    continue
                # mixed: compose bytewise
                out = []
                for b in range(k, k + size):
                    v = None
                    for i in range(b - 15, b + 1):
                        e = l.get(i)
                        if e is not None and i + e[0] > b:
                            t = e[1]
                            if t.op == "p":
                                v = atom(("pslice", t.id, b - i), 8)
                            else:
                                v = slice_(t, 8 * (b - i), 8)
                    if v is None:
                        v = self._loadc(st, obj, layers, li, b, 1, False)
                    out.append(v)
                return env.norm(concat(out))
            elif l[0] == "sw":
                _, o2, s2, v = l
                if s2 == size and env.same(C64(k), o2):
                    return env.norm(v)
                if self.disjoint(env, C64(k), size, o2, s2):
                    continue
                return self.may(st, obj, C64(k), size, isptr, li)
            elif l[0] == "cp":
                v = self._cpread(st, obj, C64(k), size, isptr, l)
                if v is not None:
                    return v
            elif l[0] == "hvs":
                if not self._outside(env, C64(k), size, l[2]):
                    return env.norm(self.mkrd((obj, l[1]), obj, C64(k), size, isptr))
            else:
                _, tag, lo2, hi2 = l
                if hi2 is not None and (k + size <= lo2 or k >= hi2):
                    continue
                return env.norm(self.mkrd((obj, tag), obj, C64(k), size, isptr))
        v = self.obj_init(st, obj, k, size)
        if isptr and v.op != "p" and v not in self.w.ptype and obj in self.w.otype and self.w.otype[obj].endswith("*"):
            self.w.ptype[v] = self.w.otype[obj][:-1]
        return env.norm(v)

    def _outside(self, env, off, size, spans):
        """[off, off+size) misses every [lo, end) that a loop may have written"""
        end = add(off, C64(size))
        return all(env.le(end, lo) or env.le(hi, off) for lo, hi in spans)

    def _addspan(self, nspans, obj, eo, es):
        q = nspans.setdefault(obj, [])
        if q is not None and (C64(eo), C64(eo + es)) not in q:
            q.append((C64(eo), C64(eo + es)))

    def _span(self, off, size, lvars, info, pre):
        """bounds of a store at `off` over all iterations, or None"""
        if off.w != 64:
            return None
        c, d = to_lin(off)
        la = {a: k for k, a in lvars.items()}
        lo = hi = C64(c)
        for t, k in d.items():
            sup = atoms(t)
            lv = [a for a in sup if a in la]
            if any(a not in la and not (type(a.a) is tuple and a.a and a.a[0] == "f" or a in pre) for a in sup):
                return None
            if not lv:
                lo, hi = add(lo, scale(t, k)), add(hi, scale(t, k))
                continue
            if len(lv) != 1 or not 0 < k < 1 << 31:
                return None
            u = info[la[lv[0]]].get("u")
            if not u or u[1] >= 1 << 32 or zext(slice_(lv[0], 0, lv[0].w), 64) is not t:
                return None
            lo, hi = add(lo, C64(k * u[0])), add(hi, C64(k * u[1]))
        return lo, add(hi, C64(size))

    def _cpread(self, st, obj, off, size, isptr, l):
        """read through a block copy or fill; None when the block is not touched"""
        _, tag, df, n, src = l
        env = st.env
        end = add(off, C64(size))
        if env.le(df, off) and env.le(end, add(df, n)):
            if isinstance(src, Snap):
                return self.load(st, src.obj, add(sub(off, df), src.off), size, isptr, src.layers)
            return concat([src] * size)
        if env.le(end, df) or env.le(add(df, n), off):
            return None
        return self.mkrd((obj, tag), obj, off, size, isptr)

    def store(self, st, obj, off, size, v):
        if off.op != "c":
            off = st.env.norm(off)
        if self.w.hexd and isinstance(v, T):
            v = st.env.norm(v)
        o = st.wobj(obj)
        if off.op == "c":
            if not o.layers or not isinstance(o.layers[-1], dict):
                o.layers.append({})
            l = o.layers[-1]
            k = off.a
            if k not in l or l[k][0] != size:
                # trim overlaps
                for i in range(k - 15, k + size):
                    e = l.get(i)
                    if e is not None and i + e[0] > k and i < k + size and not (i == k and e[0] == size):
                        del l[i]
                        t = e[1]
                        for b in range(i, i + e[0]):
                            if not (k <= b < k + size):
                                l[b] = (1, slice_(t, 8 * (b - i), 8) if t.op != "p" else atom(("pslice", t.id, b - i), 8))
            l[k] = (size, v)
        else:
            o.layers.append(("sw", off, size, v))

    # pointer resolution: term -> (obj, off) ; None when null/unknown
    def deref(self, st, p):
        return self.deref_t(st.env.norm(p))

    def deref_t(self, p):
        if p.op == "p":
            return p.a
        if p.op == "lin":
            # pointer atom + offset
            cand = [x for k, x in p.a[1] if k == 1 and x in self.w.ptype]
            if len(cand) == 1:
                b = cand[0]
                return self.pobj(b), sub(p, b)
            cand = [x for k, x in p.a[1] if k == 1 and x.op in ("a", "rd") and x.w == 64]
            if len(cand) == 1:
                b = cand[0]
                return self.pobj(b), sub(p, b)
        if p.op in ("a", "rd"):
            return self.pobj(p), C64(0)
        if p.op == "c":
            return ("null",), p
        return ("unk", p.id), C64(0)

    def pobj(self, a):
        o = ("*", a)
        if o not in self.w.otype:
            pt = self.w.ptype.get(a)
            if isinstance(pt, str):
                self.w.otype[o] = pt
        return o

    # ------------------------------------------------------------ running
    def loc(self, fr, ins):
        f = ins.get("fl") or fr.fn.file
        return "%s:%s" % (f.split("/")[-1], ins.get("ln", "?"))

    def call(self, fn, args, st, stk=(), varargs=(), site=None):
        """returns list of (ret, State)"""
        w = self.w
        if len(stk) > 60:
            raise AnalysisError("recursion: " + " > ".join(stk[-6:]))
        w.stats["functions"].add(fn.name)
        fr = Frame()
        fr.fn = fn
        fr.name = fn.base
        fr.args = args
        fr.varargs = varargs
        self.uid += 1
        st.n += 1
        fr.uid = (fn.short, len(stk), st.n)
        fr.stk = stk + (fn.short,)
        backs, exits, rets = self.region(fr, [(0, None, {}, st)], None, None)
        # drop the frame's stack objects
        out = []
        for r, s in rets:
            dead = [o for o in s.mem if isinstance(o, tuple) and o[0] in ("alloca", "va", "vao") and o[1] == fr.uid]
            for o in dead:
                del s.mem[o]
            out.append((r, s))
        if not out and not stk and not st.env.dead and not self.w.noexit:
            raise AnalysisError("no path leaves %s" % fn.base)
        if len(out) > 1:
            out = self.merge(out)
        return out

    def merge(self, rets):
        groups = {}
        out = []
        for r, s in rets:
            if self.w.hexd and isinstance(r, T):
                r = s.env.norm(r)
            try:
                k = (r if not isinstance(r, list) else tuple(r), logkey(s.log), s.alarms)
                groups.setdefault(k, []).append((r, None, None, s))
            except TypeError:
                out.append((r, s))
        for g in groups.values():
            out += [(x[0], x[3]) for x in self.joingroup(g)]
        return out

    def region(self, fr, items, blocks, header):
        """run items until they leave `blocks` / reach `header` / return.
        Blocks are taken in reverse post-order (inner loops collapsed), so all
        states reaching a block are present when it is processed and those that
        agree on effects, memory and live values are joined there."""
        fn = fr.fn
        backs, exits, rets = [], [], []
        rpo = fn.rpo()
        work = {}
        cnt = 0

        def push(it):
            if blocks is not None and it[1] is not None and not (len(it) > 5 and it[5]):
                if it[0] == header:
                    backs.append(it[:4])
                    return
                if it[0] not in blocks:
                    exits.append(it[:4])
                    return
            work.setdefault(it[0], []).append(it)
        for it in items:
            push(it)
        while work:
            b = min(work, key=lambda x: rpo[x])
            its = work.pop(b)
            if b in fn.loops and b != header:
                its = self.joinitems(fr, b, its)
                for it in its:
                    be, br = self.loop(fr, b, it)
                    for x in be:
                        push(x)
                    rets += br
                continue
            its = self.joinitems(fr, b, its)
            for it in its:
                cnt += 1
                if cnt > self.w.maxstates:
                    raise AnalysisError("state explosion in %s" % fn.dem)
                for nx in self.block(fr, b, it[1], it[2], it[3], it[4] if len(it) > 4 else None, rets, blocks):
                    push(nx)
        return backs, exits, rets

    def phivals(self, fr, b, pred, regs, st, over):
        new = {}
        for ins in fr.fn.blocks[b]:
            if ins["op"] == "dbg":
                continue
            if ins["op"] != "phi":
                break
            if over is not None and ins["id"] in over:
                new[ins["id"]] = over[ins["id"]]
                continue
            for pb, v in ins["inc"]:
                if pb == pred:
                    t = self.val(fr, regs, v) if v[0] != "undef" else self.ty_undef(ins["ty"])
                    if isinstance(t, T):
                        t = st.env.norm(t)
                    new[ins["id"]] = t
                    break
        return new

    def joinitems(self, fr, b, its):
        """resolve phis, drop dead values and join states that agree on everything else"""
        fn = fr.fn
        if len(its) == 1:
            return its
        live = fn.live()[b]
        groups = {}
        out = []
        for it in its:
            _, pred, regs, st = it[:4]
            ov = self.phivals(fr, b, pred, regs, st, it[4] if len(it) > 4 else None)
            r = {k: v for k, v in regs.items() if k in live and k not in ov}
            if self.w.hexd:
                r = {k: st.env.norm(v) if isinstance(v, T) else v for k, v in r.items()}
                ov = {k: st.env.norm(v) if isinstance(v, T) else v for k, v in ov.items()}
            flag = it[5] if len(it) > 5 else None
            try:
                k = (tuple(sorted(ov.items(), key=lambda z: z[0])) if not any(isinstance(v, list) for v in ov.values()) else id(ov),
                     tuple(sorted(((x, tuple(v) if isinstance(v, list) else v) for x, v in r.items()), key=lambda z: z[0])),
                     logkey(st.log), st.alarms, flag)
                groups.setdefault(k, []).append((b, pred, r, st, ov, flag))
            except TypeError:
                out.append((b, pred, r, st, ov, flag))
        for g in groups.values():
            out += self.joingroup(g)
        self.w.stats["joins"] = self.w.stats.get("joins", 0) + len(its) - len(out)
        return out

    def joingroup(self, g):
        if len(g) == 1 or self.w.partition:
            return g
        classes = []
        for it in g:
            for c in classes:
                if memeq(c[0][3], it[3]):
                    c.append(it)
                    break
            else:
                classes.append([it])
        out = []
        for c in classes:
            it = c[0]
            if len(c) > 1:
                s = it[3].copy()
                s.env = join_env([x[3].env for x in c])
                s.eown = True
                s.n = max(x[3].n for x in c)
                it = it[:3] + (s,) + it[4:]
            out.append(it)
        return out

    def val(self, fr, regs, v):
        k = v[0]
        if k == "v":
            return regs[v[1]]
        if k == "c":
            return const(v[1], int(v[2]))
        if k == "a":
            return fr.args[v[1]]
        return self.cval(v)

    def block(self, fr, b, pred, regs, st, over, rets, region):
        """execute one block; returns successor items"""
        fn = fr.fn
        w = self.w
        w.stats["blocks"] += 1
        regs = dict(regs)
        instrs = fn.blocks[b]
        # phis
        i = 0
        if instrs and instrs[0]["op"] == "phi":
            new = {}
            while instrs[i]["op"] == "phi" or instrs[i]["op"] == "dbg":
                ins = instrs[i]
                if ins["op"] == "phi":
                    if over is not None and ins["id"] in over:
                        new[ins["id"]] = over[ins["id"]]
                    else:
                        for pb, v in ins["inc"]:
                            if pb == pred:
                                t = self.val(fr, regs, v) if v[0] != "undef" else self.ty_undef(ins["ty"])
                                new[ins["id"]] = t
                                break
                i += 1
            regs.update(new)
        return self.run(fr, b, i, regs, st, rets, region)

    def run(self, fr, b, i, regs, st, rets, region):
        """execute block b from instruction i; forks recurse"""
        fn = fr.fn
        instrs = fn.blocks[b]
        w = self.w
        n = len(instrs)
        val = self.val
        while i < n:
            ins = instrs[i]
            op = ins["op"]
            i += 1
            if op == "dbg":
                continue
            w.stats["instrs"] += 1
            if op == "load":
                p = val(fr, regs, ins["ops"][0])
                obj, off = self.deref(st, p)
                ty = ins["ty"]
                if ty == "ptr":
                    size, isptr = 8, True
                elif ty[0] == "i":
                    size, isptr = (int(ty[1:]) + 7) // 8, False
                elif ty[0] == "{":
                    # a small structure returned in registers
                    out, o2 = [], 0
                    for f in ty.strip("{} ").split(","):
                        f = f.strip()
                        fsz = (int(f[1:]) + 7) // 8 if f[0] == "i" else 8
                        o2 = (o2 + fsz - 1) // fsz * fsz
                        out.append(self.load(st, obj, add(off, C64(o2)), fsz, f == "ptr"))
                        o2 += fsz
                    self.access(fr, ins, st, obj, off, o2, "load", p)
                    regs[ins["id"]] = out
                    continue
                else:
                    size, isptr = self.tysize(ty), False
                self.access(fr, ins, st, obj, off, size, "load", p)
                if isinstance(obj, tuple) and obj[0] == "*" and isinstance(w.ptype.get(obj[1]), tuple) and w.ptype[obj[1]][0] == "vptr":
                    k = off.a // 8
                    regs[ins["id"]] = ("vfn", w.ptype[obj[1]][1], k)
                    continue
                t = self.load(st, obj, off, size, isptr)
                if ty[0] == "i" and int(ty[1:]) < t.w:
                    t = trunc(t, int(ty[1:]))
                elif ty in ("float", "double"):
                    t = atom(("fp", st.fresh()), t.w)
                regs[ins["id"]] = t
            elif op == "store":
                v = val(fr, regs, ins["ops"][0])
                p = val(fr, regs, ins["ops"][1])
                obj, off = self.deref(st, p)
                ty = ins["otys"][0]
                if isinstance(v, list):
                    o2 = 0
                    for x in v:
                        if x is not None:
                            self.store(st, obj, add(off, C64(o2)), x.w // 8, st.env.norm(x))
                            o2 += 8
                    self.access(fr, ins, st, obj, off, o2, "store", p)
                    continue
                if isinstance(v, tuple):
                    continue
                if ty == "ptr":
                    size = 8
                elif ty[0] == "i":
                    size = (int(ty[1:]) + 7) // 8
                else:
                    size = self.tysize(ty)
                if v.w < 8 * size:
                    v = zext(v, 8 * size)
                self.access(fr, ins, st, obj, off, size, "store", p)
                self.store(st, obj, off, size, st.env.norm(v))
            elif op == "getelementptr":
                if not ins["ok"]:
                    raise AnalysisError("gep in %s" % fn.dem)
                p = val(fr, regs, ins["base"])
                for ix, cnt in ins.get("arr", ()):
                    x = st.env.norm(val(fr, regs, ix))
                    if x.op == "c" and not x.a < cnt:
                        st.alarms = st.alarms | {("oob", self.loc(fr, ins), "subscript", "%s: index %d of an array of %d" % (fn.base, x.a, cnt))}
                off = C64(ins["off"])
                for v, sc in ins["vars"]:
                    x = val(fr, regs, v)
                    x = sext(x, 64) if x.w < 64 else x
                    off = add(off, scale(x, sc))
                if off.op == "c" and off.a == 0:
                    regs[ins["id"]] = p
                else:
                    p = st.env.norm(p)
                    if p.op != "p":
                        obj, o = self.deref(st, p)
                        p = ptr(obj, o)
                    regs[ins["id"]] = add(p, off)
            elif op in BIN:
                a, c = val(fr, regs, ins["ops"][0]), val(fr, regs, ins["ops"][1])
                if op == "sub" and (a.op == "p") != (c.op == "p") and a.op != "c" and c.op != "c":
                    # two pointers into one object, one of them still in its stored form
                    da, db = self.deref(st, a), self.deref(st, c)
                    if da[0] == db[0]:
                        regs[ins["id"]] = sub(da[1], db[1])
                        continue
                if a.op == "p" and op not in ("add", "sub"):
                    a = atom(("paddr", a.id), 64)
                regs[ins["id"]] = BIN[op](a, c)
            elif op in ("zext", "sext", "trunc"):
                a = val(fr, regs, ins["ops"][0])
                wd = int(ins["ty"][1:])
                if op == "zext":
                    a = st.env.norm(a)
                    if a.op == "cat" and len(a.a) == 1 and a.a[0][1] == 0 and a.a[0][0].op != "c" and st.env.rng(a.a[0][0])[1] < 1 << a.w:
                        b0 = a.a[0][0]          # a narrowed value that fits: no bits are lost
                        a = b0 if b0.w <= wd else slice_(b0, 0, wd)
                    if a.op == "lin":
                        a = self.widen_lin(st.env, a, wd)
                    regs[ins["id"]] = zext(a, wd)
                elif op == "sext":
                    a = st.env.norm(a)
                    if a.op != "c" and st.env.rng(a)[1] < 1 << (a.w - 1):
                        if a.op == "lin":
                            a = self.widen_lin(st.env, a, wd)
                        regs[ins["id"]] = zext(a, wd)
                    else:
                        regs[ins["id"]] = sext(a, wd)
                else:
                    regs[ins["id"]] = trunc(a, wd)
            elif op == "icmp":
                a, c = st.env.norm(val(fr, regs, ins["ops"][0])), st.env.norm(val(fr, regs, ins["ops"][1]))
                pr = ins["pred"]
                if isinstance(a, tuple) or isinstance(c, tuple):
                    regs[ins["id"]] = FALSE if pr == "eq" else TRUE
                    continue
                # pointer vs null
                if ins["otys"][0] == "ptr":
                    if c.op == "c" and c.a == 0 and (a in w.nonnull or a.op in ("a", "rd") and w.ptype.get(a) in w.nonnulltype):
                        regs[ins["id"]] = FALSE if pr == "eq" else TRUE
                        continue
                    if a.op == "p" and c.op in ("a", "rd", "lin"):
                        o, off = self.deref_t(c)
                        if o[0] != "unk":
                            c = ptr(o, off)
                    elif c.op == "p" and a.op in ("a", "rd", "lin"):
                        o, off = self.deref_t(a)
                        if o[0] != "unk":
                            a = ptr(o, off)
                if pr[0] == "s" and a.w > 1 and (a.op != "c" or c.op != "c"):
                    h = 1 << (a.w - 1)
                    if st.env.rng(a)[1] < h and st.env.rng(c)[1] < h:
                        pr = "u" + pr[1:]
                regs[ins["id"]] = icmp(pr, a, c)
            elif op == "select":
                c = val(fr, regs, ins["ops"][0])
                x, y = val(fr, regs, ins["ops"][1]), val(fr, regs, ins["ops"][2])
                if x is y:
                    regs[ins["id"]] = x
                    continue
                ts, fs = self.split(st, c)
                if ts is not None and fs is not None:
                    if w.watch:
                        self.undefined(fr, ins, ts, c)
                        self.undefined(fr, ins, fs, c)
                    r2 = dict(regs)
                    r2[ins["id"]] = y
                    out = self.run(fr, b, i, r2, fs, rets, region)
                    regs[ins["id"]] = x
                    return out + self.run(fr, b, i, regs, ts, rets, region)
                if ts is None and fs is None:
                    return []
                regs[ins["id"]] = x if ts is not None else y
                st = ts if ts is not None else fs
            elif op == "br":
                if "cond" not in ins:
                    return [(ins["succ"][0], b, regs, st)]
                c = val(fr, regs, ins["cond"])
                ts, fs = self.split(st, c)
                if w.watch and ts is not None and fs is not None:
                    self.undefined(fr, ins, ts, c)
                    self.undefined(fr, ins, fs, c)
                out = []
                if region is not None and self.und:
                    s0, s1 = ins["succ"]
                    if (s0 in region) != (s1 in region):
                        u = self.und[-1]
                        if fs is not None and ts is not None:
                            u[1] += 1
                            u[2] = max(u[2], self.span(st.env, c))
                        elif (ts is not None or fs is not None) and not self.shortcut(fr, b, ins["cond"]):
                            u[3] += 1
                if fs is not None:
                    out.append((ins["succ"][1], b, regs, fs))
                if ts is not None:
                    out.append((ins["succ"][0], b, regs, ts))
                return out
            elif op == "switch":
                return self.switch(fr, b, ins, regs, st)
            elif op == "ret":
                r = None
                if ins["ops"]:
                    r = val(fr, regs, ins["ops"][0])
                    if isinstance(r, T):
                        r = st.env.norm(r)
                rets.append((r, st))
                return []
            elif op == "unreachable":
                return []
            elif op == "alloca":
                o = ("alloca", fr.uid, ins["id"])
                nn = val(fr, regs, ins["n"])
                if nn.op == "c":
                    w.osize[o] = ins["size"] * nn.a
                regs[ins["id"]] = ptr(o, C64(0))
            elif op in ("call", "invoke"):
                res = self.docall(fr, ins, regs, st)
                if not res:
                    return []
                out = []
                for r, s in res[:-1]:
                    r2 = dict(regs)
                    r2[ins["id"]] = r
                    out += self.run(fr, b, i, r2, s, rets, region)
                r, st = res[-1]
                regs[ins["id"]] = r
                if out:
                    return out + self.run(fr, b, i, regs, st, rets, region)
            elif op == "extractvalue":
                a = val(fr, regs, ins["ops"][0])
                regs[ins["id"]] = a[ins["idx"][0]] if isinstance(a, list) else atom(("ev", st.fresh()), self.tybits(ins["ty"]))
            elif op == "insertvalue":
                a = None
                if ins["ops"][0][0] == "v":
                    a = regs[ins["ops"][0][1]]
                a = list(a) if isinstance(a, list) else [None, None]
                a[ins["idx"][0]] = val(fr, regs, ins["ops"][1])
                regs[ins["id"]] = a
            elif op in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
                a = val(fr, regs, ins["ops"][0])
                regs[ins["id"]] = a
            elif op == "phi":
                raise AnalysisError("stray phi")
            elif op in ("fadd", "fsub", "fmul", "fdiv", "uitofp", "sitofp", "fptoui", "fptosi", "fcmp", "fpext", "fptrunc", "fneg"):
                regs[ins["id"]] = atom(("fp", op, st.fresh()), self.tybits(ins["ty"]))
            else:
                raise AnalysisError("instruction %s in %s" % (op, fn.dem))
        return []

    def tybits(self, ty):
        if ty[0] == "i":
            return int(ty[1:])
        return 64

    def tysize(self, ty):
        if ty == "double":
            return 8
        if ty == "float":
            return 4
        return 8

    def widen_lin(self, env, a, wd):
        """zext(lin) as a wide lin when it provably does not wrap"""
        M = 1 << a.w
        c, ts = a.a
        c = c if c < M // 2 else c - M
        lo = hi = c
        for k, x in ts:
            k = k if k < M // 2 else k - M
            l, h = env.rng(x)
            lo += k * (l if k > 0 else h)
            hi += k * (h if k > 0 else l)
        ok = lo >= 0 and hi < M
        if not ok and (env.lins or any(x.op == "mul" for k, x in ts)):
            f = env.linint(a)
            ok = f is not None and not (len(f[1]) == 1 and a in f[1])
        if ok:
            r = const(wd, c)
            for k, x in ts:
                k = k if k < M // 2 else k - M
                if x.op == "lin":
                    xx = self.widen_lin(env, x, wd)
                elif x.op == "mul" and env.rng(x.a[0])[1] * env.rng(x.a[1])[1] < 1 << x.w:
                    xx = mul(zext(x.a[0], wd), zext(x.a[1], wd))
                else:
                    xx = zext(x, wd)
                if xx.w < wd:
                    xx = zext(xx, wd)
                r = add(r, scale(xx, k))
            return r
        return a

    def split(self, st, c):
        """(state if true | None, state if false | None)"""
        c = st.env.norm(c)
        v = st.env.decide(c, False)
        if v is True:
            return st, None
        if v is False:
            return None, st
        if c.op in ("and", "or") and c.w == 1:
            pass
        a = st
        b = st.copy()
        if c.op == "and" and c.w == 1:
            # false side: disjunction -> keep as fact only
            pass
        ta = a.wenv().assume(c, True)
        fb = b.wenv().assume(c, False)
        return (a if ta else None), (b if fb else None)

    def undefined(self, fr, ins, st, c):
        """alarm for a decision on a value never written"""
        for a in atoms(st.env.norm(c)) | atoms(c):
            if isundef(a):
                st.alarms = st.alarms | {("undef", self.loc(fr, ins), "branch", "%s on %s" % (" > ".join(fr.stk), show(a)))}
                return

    def switch(self, fr, b, ins, regs, st):
        c = st.env.norm(self.val(fr, regs, ins["cond"]))
        out = []
        if self.w.watch and c.op != "c":
            self.undefined(fr, ins, st, c)
        if c.op == "c":
            for v, tgt in ins["cases"]:
                if int(v) & ((1 << c.w) - 1) == c.a:
                    return [(tgt, b, regs, st)]
            return [(ins["default"], b, regs, st)]
        a = single_small(c)
        groups = {}
        order = []
        for v, tgt in ins["cases"]:
            if tgt not in groups:
                groups[tgt] = []
                order.append(tgt)
            groups[tgt].append(int(v) & ((1 << c.w) - 1))
        if a is not None:
            tb = table(c)
            m = st.env.mask(a)
            rest = m
            for tgt in order:
                vs = set(groups[tgt])
                mm = 0
                for v in range(1 << a.w):
                    if (m >> v) & 1 and tb[v] in vs:
                        mm |= 1 << v
                if mm:
                    rest &= ~mm
                    if tgt == ins["default"]:
                        rest |= mm
                        continue
                    s = st.copy()
                    if s.wenv()._setmask(a, mm):
                        out.append((tgt, b, regs, s))
            if rest:
                if st.wenv()._setmask(a, rest):
                    out.append((ins["default"], b, regs, st))
            return out
        cur = st
        for tgt in order:
            if tgt == ins["default"]:
                continue
            for v in groups[tgt]:
                ts, cur = self.split(cur, eq(c, const(c.w, v)))
                if ts is not None:
                    out.append((tgt, b, regs, ts))
                if cur is None:
                    break
            if cur is None:
                break
        if cur is not None:
            out.append((ins["default"], b, regs, cur))
        return out

    # ------------------------------------------------------------ loops
    def loop(self, fr, header, item):
        """returns (exit items, rets)"""
        fn = fr.fn
        blocks = fn.loops[header]
        w = self.w
        lid = (fn.dem, header)
        line = None
        for ins in fn.blocks[header]:
            if ins.get("ln"):
                line = "%s:%s" % ((ins.get("fl") or fn.file).split("/")[-1], ins["ln"])
                break
        rec = w.looplog.setdefault(lid, {"line": line, "fn": fn.base, "peeled": 0, "summarised": 0, "max_iter": 0})
        # ---- try peeling on a copy
        st0 = item[3]
        base = st0.copy()
        cur = [(item[0], item[1], item[2], st0, item[4] if len(item) > 4 else None, True)]
        exits, rets = [], []
        it = 0
        undecided = 0
        ok = True
        while cur:
            it += 1
            self.und.append([lid, 0, 0, 0])
            nxt, ex, rt = self.region(fr, cur, blocks, header)
            exits += ex
            rets += rt
            u = self.und.pop()
            soft = u[1] or bool(ex) and bool(nxt)
            if soft:
                undecided += 1
            cur = [(b, p, r, s, None, True) for (b, p, r, s) in nxt]
            if not cur:
                break
            if len(cur) > 1:
                cur = self.joinitems(fr, header, cur)
            if soft and not u[3] and (u[2] > 12 or undecided > 9):
                ok = False
                break
            if (soft and it > 40) or len(cur) > w.maxitems or it > (300 if undecided else 5000):
                ok = False
                break
        if ok:
            rec["peeled"] += 1
            rec["max_iter"] = max(rec["max_iter"], it)
            return exits, rets
        rec["summarised"] += 1
        return self.summarise(fr, header, blocks, (item[0], item[1], item[2], base, item[4] if len(item) > 4 else None), rec, line)

    def shortcut(self, fr, b, cond):
        """the condition is the outcome of && or ||: a path through it does not show that the loop is bounded"""
        return cond[0] == "v" and any(i["op"] == "phi" and i["id"] == cond[1] for i in fr.fn.blocks[b])

    def span(self, env, c):
        """how many more iterations an undecided exit test may allow"""
        c = env.norm(c)
        while c.op == "not":
            c = c.a[0]
        if c.op in ("ult", "slt"):
            x, y = c.a
            lx, hx = env.rng(x)
            ly, hy = env.rng(y)
            return max(hy - lx, hx - ly)
        a = single_small(c)
        if a is not None and c.op == "eq":
            return bin(env.mask(a)).count("1")
        return 99

    def summarise(self, fr, header, blocks, item, rec, line):
        fn = fr.fn
        _, pred, regs, st0, over0 = item
        env0 = st0.env
        phis = []
        for ins in fn.blocks[header]:
            if ins["op"] == "phi":
                if over0 is not None and ins["id"] in over0:
                    v = over0[ins["id"]]
                    phis.append((("phi", ins["id"]), ins, env0.norm(v) if isinstance(v, T) else v))
                    continue
                for pb, v in ins["inc"]:
                    if pb == pred:
                        phis.append((("phi", ins["id"]), ins, env0.norm(self.val(fr, regs, v)) if v[0] != "undef" else self.ty_undef(ins["ty"])))
            elif ins["op"] != "dbg":
                break
        n0 = st0.n
        tagbase = (fn.short, line, n0)
        phi_ids = [ins["id"] for _, ins, _ in phis]
        cells = {}       # (obj, off) -> size     loop-modified constant-offset cells
        ranges = {}      # obj -> [lo, hi|None]   loop-modified symbolic ranges
        spans = {}       # obj -> [(lo, end)] terms bounding them; None when not known
        pre = set(env0.dom) | {a for a in env0.iv if isinstance(a, T)}
        for t in list(regs.values()) + list(fr.args) + [x for e in st0.log for x in e.a.values()]:
            for x in (t if isinstance(t, (tuple, list)) else (t,)):
                if isinstance(x, T):
                    pre |= atoms(x)
        info = {}        # var key -> dict(varying, u=(lo,hi), s=(lo,hi))
        for k, ins, v in phis:
            info[k] = {"v0": v, "vary": False, "u": env0.rng(v) if v.op != "p" else None, "s": env0.srng(v) if v.op != "p" else None}
        cands = None     # candidate invariants  (const, {term:coef}) <= 0, over loop atoms
        okc = []
        TH = [0, 1, 8, 16, 32, 64, 127, 128, 254, 255, 256, 4095, 32767, 65535, 65536]

        def mkvar(k, v0):
            d = info[k]
            if not d["vary"]:
                return v0
            name = ("lp",) + tagbase + (str(k),)
            if v0.op == "p" or d.get("ptr"):
                a = atom(name, 64)
                return ptr(d["ptr"], a), a
            a = atom(name, v0.w)
            return a, a

        final = None
        for rnd in range(40):
            H = st0.copy()
            env = H.wenv()
            over = {}
            lvars = {}
            deriv = {}
            for k in info:
                info[k]["dfs"] = []
            for k, ins, v in sorted(phis, key=lambda x: "derived" in info[x[0]]):
                dv = info[k].get("derived")
                if dv and dv[0] in lvars:
                    over[ins["id"]] = deriv[k] = self.derive(v, lvars[dv[0]], info[dv[0]]["v0"], dv[1], dv[2])
                    continue
                r = mkvar(k, v)
                if isinstance(r, tuple):
                    over[ins["id"]], a = r
                    lvars[k] = a
                else:
                    over[ins["id"]] = r
            for (obj, off), size in cells.items():
                k = ("cell", obj, off)
                v0 = self.load(st0, obj, C64(off), size)
                if k not in info:
                    info[k] = {"v0": v0, "vary": True, "u": env0.rng(v0) if v0.op != "p" else None, "s": env0.srng(v0) if v0.op != "p" else None}
                d = info[k]
                if v0.op == "p" and not d.get("ptr"):
                    d["ptr"] = v0.a[0]
                r = mkvar(k, v0)
                if isinstance(r, tuple):
                    self.store(H, obj, C64(off), size, r[0])
                    lvars[k] = r[1]
            for obj, (lo, hi) in ranges.items():
                if spans.get(obj):
                    H.wobj(obj).layers.append(("hvs", tagbase + ("r",), tuple(spans[obj])))
                else:
                    H.wobj(obj).layers.append(("hv", tagbase + ("r",), lo, hi))
            nspans = {}
            for k, a in lvars.items():
                d = info[k]
                if d.get("u") is not None:
                    lo, hi = d["u"]
                    if a.w <= 8:
                        m = 0
                        for x in range(lo, hi + 1):
                            m |= 1 << x
                        env.dom[a] = m
                    else:
                        env.iv[a] = (lo, hi)
                    if d.get("s") is not None:
                        env.iv[("s", a)] = d["s"]
            for (c, dd) in okc:
                env.lins.append((c, dict(dd)))
            if okc:
                for k, a in lvars.items():
                    if a.w > 8:
                        lo, hi = env.rng(a)
                        ub = env._ub_lin(0, {a: 1}, 2)
                        if lo <= ub < hi:
                            env.iv[a] = (lo, int(ub))
            H.n = n0
            self.und.append([None, 0, 0, 0])
            backs, exits, rets = self.region(fr, [(header, pred, regs, H.copy(), over, True)], blocks, header)
            self.und.pop()
            # collect
            changed = False
            atoms2key = {a: k for k, a in lvars.items()}
            steps = {}
            newc = None
            for (bb, bp, br, bs) in backs:
                benv = bs.env
                for k, ins, v in phis:
                    nv = None
                    for pb, vv in ins["inc"]:
                        if pb == bp:
                            nv = benv.norm(self.val(fr, br, vv)) if vv[0] != "undef" else self.ty_undef(ins["ty"])
                    if k in deriv:
                        d = info[k]["derived"]
                        a = lvars[d[0]]
                        lim = (1 << a.w) - 1 if d[2] > 0 else 0
                        if not benv.same(sub(nv, deriv[k]), d[1]) or a.w < nv.w and benv.rng(a)[0 if d[2] < 0 else 1] == lim:
                            info[k]["derived"] = None
                            changed = True
                        continue
                    changed |= self.upd(info[k], over[ins["id"]], nv, benv, TH, rnd, steps, k)
                for (obj, off), size in list(cells.items()):
                    k = ("cell", obj, off)
                    if k not in info:
                        continue
                    nv = self.load(bs, obj, C64(off), size)
                    hv = self.load(H, obj, C64(off), size)
                    changed |= self.upd(info[k], hv, nv, benv, TH, rnd, steps, k)
                for obj, ob in bs.mem.items():
                    h = H.mem.get(obj)
                    if h is ob:
                        continue
                    if isinstance(obj, tuple) and obj[0] == "alloca" and obj not in st0.mem and obj[1] != fr.uid:
                        continue
                    hl = h.layers if h is not None else []
                    bl = ob.layers
                    for li, l in enumerate(bl):
                        if li < len(hl) and hl[li] is l:
                            continue
                        if isinstance(l, dict):
                            hd = hl[li] if li < len(hl) and isinstance(hl[li], dict) else {}
                            for eo, (es, v) in l.items():
                                if (eo in hd) and hd[eo] == (es, v):
                                    continue
                                if (obj, eo) in cells and cells[(obj, eo)] == es:
                                    continue
                                hv = self.load(H, obj, C64(eo), es)
                                if hv is v or benv.norm(hv) is benv.norm(v):
                                    continue
                                if any(o2 == obj and q < eo + es and eo < q + s2 for (o2, q), s2 in cells.items()):
                                    # size clash -> range
                                    for (o2, q) in [z for z in cells if z[0] == obj]:
                                        pass
                                    lo, hi = ranges.get(obj, (eo, eo + es))
                                    self._addspan(nspans, obj, eo, es)
                                    nr = (min(lo, eo), max(hi, eo + es)) if hi is not None else (lo, None)
                                    if ranges.get(obj) != nr:
                                        ranges[obj] = nr
                                        changed = True
                                    continue
                                if (obj in ranges) and ranges[obj][0] <= eo and (ranges[obj][1] is None or eo + es <= ranges[obj][1]):
                                    self._addspan(nspans, obj, eo, es)
                                    continue
                                cells[(obj, eo)] = es
                                changed = True
                        elif l[0] == "sw":
                            lo, hi = benv.rng(l[1])
                            hi += l[2]
                            sp = self._span(l[1], l[2], lvars, info, pre)
                            q = nspans.setdefault(obj, [])
                            if sp is None or q is None or len(q) > 8:
                                nspans[obj] = None
                            elif sp not in q:
                                q.append(sp)
                            if hi > 1 << 40:
                                hi = None
                            if obj in ranges:
                                a, c = ranges[obj]
                                nr = (min(a, lo), None if (c is None or hi is None) else max(c, hi))
                            else:
                                nr = (lo, hi)
                            if rnd > 14:
                                nr = (0, None)
                            elif rnd > 6:
                                nr = (nr[0], None)
                            if ranges.get(obj) != nr:
                                ranges[obj] = nr
                                changed = True
                        else:
                            if obj in ranges and l[1] == tagbase + ("r",):
                                continue
                            if l[0] != "hvs":
                                nspans[obj] = None
                            if l[0] == "cp":
                                lo, hi = benv.rng(l[2])[0], benv.rng(l[2])[1] + benv.rng(l[3])[1]
                                hi = hi if hi < 1 << 40 else None
                            elif l[0] == "hvs":
                                lo, hi = 0, None
                                for x in l[2]:
                                    sp = tuple(self._span(t, 0, lvars, info, pre) for t in x)
                                    q = nspans.get(obj, [])
                                    if None in sp or q is None:
                                        nspans[obj] = None
                                    elif (sp[0][0], sp[1][1]) not in q:
                                        nspans[obj] = q + [(sp[0][0], sp[1][1])]
                            else:
                                lo, hi = l[2], l[3]
                            if obj in ranges:
                                a, c = ranges[obj]
                                nr = (min(a, lo), None if (c is None or hi is None) else max(c, hi))
                            else:
                                nr = (lo, hi)
                            if ranges.get(obj) != nr:
                                ranges[obj] = nr
                                changed = True
            for obj in ranges:
                if obj in spans and spans[obj] is None:
                    continue
                q = nspans.get(obj)
                if obj in nspans and q is not None and spans.get(obj):
                    q = spans[obj] + [x for x in q if x not in spans[obj]] if rnd > 4 else q
                if obj not in nspans and obj in spans:
                    continue
                if rnd > 24 or q is not None and len(q) > 12:
                    q = None
                if obj not in spans or spans[obj] != q:
                    spans[obj] = q
                    changed = True
            if changed:
                okc = []
                continue
            # a variable advancing by an unchanging amount while another counts: start + count * amount
            again = False
            for k, ins, v in phis:
                dfs = info[k]["dfs"]
                if steps.get(k) != "?" or "derived" in info[k] or len(dfs) != len(backs) or v.op == "p":
                    continue
                lat = set(lvars.values())
                if any(x is not dfs[0] for x in dfs) or support(dfs[0]) & lat or self.known(st0, dfs[0]) - pre:
                    continue
                for k2, a in lvars.items():
                    v2 = info[k2]["v0"]
                    if k2[0] == "phi" and steps.get(k2) in (1, -1) and v2.op != "p" and not info[k2].get("derived"):
                        info[k]["derived"] = (k2, dfs[0], steps[k2])
                        again = True
                        break
            if again:
                cands = None
                okc = []
                continue
            # candidate relational invariants
            if cands is None and lvars:
                cands = []
                lat = set(lvars.values())
                for (bb, bp, br, bs) in backs[:4]:
                    for (c, dd) in bs.env.lins:
                        hit = [x for x in dd if x in lat or (support(x) & lat)]
                        if len(hit) != 1 or hit[0] not in lat:
                            continue
                        x = hit[0]
                        if any((support(y) - {x}) - self.known(st0, y) for y in dd):
                            continue
                        k = atoms2key[x]
                        stp = steps.get(k)
                        if stp is None or stp in ("?",):
                            continue
                        cand = (c - dd[x] * stp, frozenset(dd.items()))
                        if cand not in cands:
                            cands.append(cand)
                    # stepping by one until a fixed value is met: never beyond it
                    for p, val in bs.env.facts.items():
                        if val or p.op != "eq" or p.a[0].op == "p" or p.a[1].op == "p":
                            continue
                        fa, fb = bs.env.linint(p.a[0]), bs.env.linint(p.a[1])
                        if fa is None or fb is None:
                            continue
                        dd = dict(fa[1])
                        for y, z in fb[1].items():
                            dd[y] = dd.get(y, 0) - z
                        dd = {y: z for y, z in dd.items() if z}
                        hit = [x for x in dd if x in lat or (support(x) & lat)]
                        if len(hit) != 1 or hit[0] not in lat or abs(dd[hit[0]]) != 1:
                            continue
                        x = hit[0]
                        if any((support(y) - {x}) - self.known(st0, y) for y in dd):
                            continue
                        stp = steps.get(atoms2key[x])
                        if stp not in (1, -1):
                            continue
                        sg = stp * dd[x]
                        cand = (sg * (fa[0] - fb[0]), frozenset((y, sg * z) for y, z in dd.items()))
                        if cand not in cands:
                            cands.append(cand)
                # a variable that only moves one way stays on its side of where it started
                for k, a in lvars.items():
                    v0, stp = self.offs(info, k, info[k]["v0"]), steps.get(k)
                    if stp in (None, "?", 0) or not isinstance(v0, T) or v0.op in ("p", "c"):
                        continue
                    f = env0.linint(env0.norm(v0))
                    if f is None or any((support(y) & lat) for y in f[1]):
                        continue
                    sg = 1 if stp < 0 else -1
                    dd = {y: -sg * z for y, z in f[1].items() if z}
                    dd[a] = sg
                    cand = (-sg * f[0], frozenset(dd.items()))
                    if cand not in cands:
                        cands.append(cand)
                # two variables moving in step keep their sum or difference
                mv = []
                for k, a in lvars.items():
                    v0, stp = self.offs(info, k, info[k]["v0"]), steps.get(k)
                    if stp in (1, -1) and isinstance(v0, T) and v0.op != "p":
                        f = env0.linint(env0.norm(v0))
                        if f is not None and not any((support(y) & lat) for y in f[1]):
                            mv.append((a, stp, f))
                for i, (a, sa, fa) in enumerate(mv):
                    for b, sb, fb in mv[i + 1:i + 4]:
                        dd = {a: sa, b: -sb}
                        for (f, q) in ((fa, -sa), (fb, sb)):
                            for y, z in f[1].items():
                                dd[y] = dd.get(y, 0) + q * z
                        c = -sa * fa[0] + sb * fb[0]
                        for q in (1, -1):
                            cand = (q * c, frozenset((y, q * z) for y, z in dd.items() if z))
                            if cand not in cands:
                                cands.append(cand)
                good = []
                for c, ds in cands:
                    dd = dict(ds)
                    # entry
                    ks = [(y, atoms2key[y]) for y in dd if y in lat]
                    if not self.inv_holds(env0, c, dd, {x: self.offs(info, k, info[k]["v0"]) for x, k in ks}):
                        continue
                    good.append((c, dd, ks))
                # inductive check under assumption of all good
                okc = [(c, dd) for c, dd, ks in good]
                if okc:
                    chk = good
                    continue
            elif cands and okc:
                bad = []
                for (c, dd, ks) in chk:
                    for (bb, bp, br, bs) in backs:
                        nv = {x: self.offs(info, k, self.backval(fr, k, phis, bp, br, bs)) for x, k in ks}
                        if not self.inv_holds(bs.env, c, dd, nv):
                            bad.append((c, dd))
                            break
                if bad:
                    okc = [z for z in okc if z not in bad]
                    chk = [g for g in chk if (g[0], g[1]) not in bad]
                    continue
            final = (backs, exits, rets)
            break
        if final is None:
            raise AnalysisError("no fixpoint for loop at %s in %s" % (line, fn.dem))
        backs, exits, rets = final
        L = len(st0.log)
        seqs = []
        alarms = frozenset()
        iters = []
        for (bb, bp, br, bs) in backs:
            alarms |= bs.alarms
            sq = bs.log[L:]
            nv = {}
            for k, at in lvars.items():
                try:
                    if k[0] == "phi":
                        nv[at] = self.backval(fr, k, phis, bp, br, bs)
                    elif k[0] == "cell":
                        nv[at] = bs.env.norm(self.load(bs, k[1], C64(k[2]), cells[(k[1], k[2])]))
                except (KeyError, AttributeError, AnalysisError):
                    pass
            iters.append((sq, bs.env, nv))
            if sq and all(tuple(e.key for e in sq) != tuple(e.key for e in q) for q in seqs):
                seqs.append(sq)
        empty_iter = any(len(bs.log) == L for (_, _, _, bs) in backs)
        vars_ = {}
        for k, a in lvars.items():
            d = info[k]
            vars_[a] = (self.offs(info, k, d["v0"]) or d["v0"], steps.get(k) if steps.get(k) != "?" else None)
        rec.setdefault("vars", []).append({show(a): (show(v0), s) for a, (v0, s) in vars_.items()})
        rec.setdefault("inst", []).append({"vars": vars_, "bstates": [b[3] for b in backs], "iters": iters, "exits": [(e[0], e[3].env) for e in exits], "stk": fr.stk, "env0": env0, "nrets": len(rets)})
        lev = None
        if seqs:
            lev = Ev("loop", {"seqs": tuple(seqs), "vars": vars_, "skip": empty_iter, "line": line, "fn": fn.base, "_iters": iters,
                              "seqkey": tuple(tuple(e.key for e in q) for q in seqs)}, line, fr.stk, st0.shenv())
        nmax = max([b[3].n for b in backs] + [e[3].n for e in exits] + [r[1].n for r in rets] + [n0])
        if backs and not exits and not rets:
            self.w.noexit.append((line, fn.base, " > ".join(fr.stk[-4:]), env0.describe()[:300]))
        for s in [e[3] for e in exits] + [r[1] for r in rets]:
            s.alarms |= alarms
            if lev is not None:
                s.log = st0.log + (lev,) + s.log[L:]
            s.n = nmax
        return exits, rets

    def known(self, st0, t):
        return {x for x in support(t) if not (x.op == "a" and isinstance(x.a, tuple) and x.a and x.a[0] in ("lp", "call") and False)}

    def backval(self, fr, k, phis, bp, br, bs):
        if k[0] == "phi":
            for kk, ins, v in phis:
                if kk == k:
                    for pb, vv in ins["inc"]:
                        if pb == bp:
                            return bs.env.norm(self.val(fr, br, vv))
        return self.load(bs, k[1], C64(k[2]), info_size(k, self))

    def offs(self, info, k, v):
        """the offset of a loop variable that is a pointer"""
        if not info[k].get("ptr") or not isinstance(v, T):
            return v
        o, off = self.deref_t(v)
        return off if o == info[k]["ptr"] else None

    def derive(self, v, a, a0, amount, sg):
        n = sub(zext(a, v.w), zext(a0, v.w)) if a.w <= v.w else sub(slice_(a, 0, v.w), slice_(a0, 0, v.w))
        return add(v, mul(n if sg > 0 else sub(const(v.w, 0), n), amount))

    def inv_holds(self, env, c, dd, vals):
        """c + sum dd <= 0 with the variables of vals replaced by their values"""
        cc = c
        nd = {}
        for y, z in dd.items():
            v = vals.get(y, y)
            if v is None or v.op == "p":
                return False
            g = env.linint(env.norm(v))
            if g is None:
                return False
            cc += z * g[0]
            for yy, zz in g[1].items():
                nd[yy] = nd.get(yy, 0) + z * zz
        nd = {y: z for y, z in nd.items() if z}
        return env._ub_lin(cc, nd, 2) <= 0

    def upd(self, d, hv, nv, benv, TH, rnd, steps, k):
        """merge a back-edge value into the loop variable description; True if changed"""
        if nv is None:
            return False
        if isinstance(nv, T) and nv.op == "p" and isinstance(d["v0"], T) and d["v0"].op in ("a", "rd", "lin"):
            # a pointer value and its advanced form: one object, two offsets
            o, off = self.deref_t(d["v0"])
            if o == nv.a[0]:
                d["v0"] = ptr(o, off)
                if isinstance(hv, T) and hv.op in ("a", "rd", "lin"):
                    hv = ptr(*self.deref_t(hv))
        hv = benv.norm(hv) if isinstance(hv, T) else hv
        if isinstance(nv, tuple) or isinstance(hv, tuple):
            return False
        if nv is hv:
            if d["vary"]:
                steps.setdefault(k, 0)
                if steps[k] not in (0, "?"):
                    steps[k] = "?"
            return False
        # step
        if nv.op == "p" and hv.op == "p" and nv.a[0] == hv.a[0]:
            df = sub(nv.a[1], hv.a[1])
        elif nv.op != "p" and hv.op != "p" and nv.w == hv.w:
            df = sub(nv, hv)
            if df.op != "c":
                f1, f2 = benv.linint(nv), benv.linint(hv)
                if f1 and f2 and {x: c for x, c in f1[1].items() if c} == {x: c for x, c in f2[1].items() if c}:
                    df = const(nv.w, f1[0] - f2[0])
        else:
            df = None
        if df is not None and df.op == "c":
            s = df.a if df.a < (1 << (df.w - 1)) else df.a - (1 << df.w)
            if k in steps and steps[k] != s:
                steps[k] = "?"
            else:
                steps[k] = s
        else:
            steps[k] = "?"
            if df is not None:
                d.setdefault("dfs", []).append(df)
        ch = False
        if not d["vary"]:
            d["vary"] = True
            ch = True
        if nv.op == "p" or d["v0"].op == "p":
            if nv.op == "p" and d["v0"].op == "p" and nv.a[0] == d["v0"].a[0]:
                if not d.get("ptr"):
                    d["ptr"] = nv.a[0]
                    ch = True
                if d.get("u") is None:
                    d["u"] = (0, (1 << 63) - 1) if d["v0"].a[1].op != "c" or True else None
                    ch = True
            else:
                if d.get("ptr") != ("unkp",):
                    d["ptr"] = ("unkp",)
                    ch = True
            return ch
        lo, hi = benv.rng(nv)
        cl, chh = d["u"]
        nl, nh = min(lo, cl), max(hi, chh)
        M = (1 << nv.w) - 1
        if rnd >= 2:
            if nh > chh:
                nh = next((x for x in TH if x >= nh and x <= M), M)
                if rnd > 18:
                    nh = M
            if nl < cl:
                nl = next((x for x in reversed(TH) if x <= nl), 0)
        if (nl, nh) != d["u"]:
            d["u"] = (nl, nh)
            ch = True
        slo, shi = benv.srng(nv)
        cl, chh = d["s"]
        nl, nh = min(slo, cl), max(shi, chh)
        h = 1 << (nv.w - 1)
        if rnd >= 2:
            if nh > chh:
                nh = next((x for x in TH if x >= nh and x < h), h - 1)
                if rnd > 18:
                    nh = h - 1
            if nl < cl:
                nl = -1 if nl >= -1 else -h
        if (nl, nh) != d["s"]:
            d["s"] = (nl, nh)
            ch = True
        return ch

    # ------------------------------------------------------------ calls
    def ev(self, st, kind, fr, ins, **a):
        e = Ev(kind, a, self.loc(fr, ins), fr.stk, st.shenv())
        st.log = st.log + (e,)
        return e

    def docall(self, fr, ins, regs, st):
        w = self.w
        w.stats["calls"] += 1
        cal = ins["callee"]
        args = []
        for v in ins["ops"]:
            if v[0] == "md":
                args.append(None)
            else:
                t = self.val(fr, regs, v)
                args.append(st.env.norm(t) if isinstance(t, T) else t)
        target = None
        if cal[0] == "fn":
            target = cal[1]
        elif cal[0] == "asm":
            self.ev(st, "asm", fr, ins)
            return [(None, st)]
        else:
            t = self.val(fr, regs, cal)
            if isinstance(t, tuple) and t[0] == "vfn":
                return self.virtual(fr, ins, st, t[1], t[2], args)
            t = st.env.norm(t)
            if t.op == "p" and t.a[0][0] == "fn":
                target = t.a[0][1]
            else:
                # user-supplied function pointer
                isnull = st.env.decide(eq(t, NULL)) if t.op != "c" else (t.a == 0)
                data = self.cbdata(st, args)
                self.ev(st, "callback", fr, ins, target=t, args=tuple(x for x in args if isinstance(x, T)), mem=data, nonnull=(isnull is False))
                r = None
                if ins["ty"] != "void":
                    r = atom(("cbret", st.fresh()), self.tybits(ins["ty"]))
                return [(r, st)]
        fn = w.fns[target]
        w.stats["callsites"].add((fr.fn.name, ins["id"]))
        if ins.get("intr"):
            return self.intrinsic(fr, ins, st, target, args, regs)
        h = w.hooks.get(fn.base) or w.hooks.get(target)
        if h is not None:
            r = h(self, st, fr, ins, args, fn)
            if r is not NotImplemented:
                return r
        if fn.decl:
            return self.external(fr, ins, st, fn, args)
        # byval copies
        for k in range(len(args)):
            sz = ins.get("byval%d" % k)
            if sz:
                o = ("alloca", fr.uid, "bv", ins["id"], k, st.fresh())
                w.osize[o] = sz
                so, sf = self.deref(st, args[k])
                self.copy(st, o, C64(0), so, sf, sz)
                args[k] = ptr(o, C64(0))
        np_ = len(fn.params)
        return self.call(fn, args[:np_], st, fr.stk, tuple(zip(args[np_:], ins["otys"][np_:])))

    def cbdata(self, st, args):
        """first bytes of memory objects passed to a callback"""
        out = [self.load(st, o, f, 1) for o, f in self.w.cbprobe]
        for a in args:
            if isinstance(a, T) and a.op == "p" and not (a.a[0][0] == "fn"):
                obj, off = a.a
                sz = self.w.osize.get(obj)
                ty = self.w.otype.get(obj)
                if ty in self.w.types:
                    sz = self.w.types[ty]["size"]
                if isinstance(sz, int) and sz <= 4096 and off.op == "c":
                    k = sz - off.a
                    out += [self.load(st, obj, C64(off.a + i), 1) for i in range(max(0, min(k, 32)))]
        return tuple(out)

    def virtual(self, fr, ins, st, obj, slot, args):
        w = self.w
        ty = w.otype.get(obj, "?")
        name = w.vslots(ty).get(slot, "slot%d" % slot)
        # defining base class for the name
        h = None
        for b in self.mro(ty):
            h = w.virt.get(b + "::" + name)
            if h:
                break
        if h is not None:
            r = h(self, st, fr, ins, args, obj)
            if r is not NotImplemented:
                return r
        self.ev(st, "vcall", fr, ins, method="%s::%s" % (ty, name), obj=obj, args=tuple(x for x in args[1:] if isinstance(x, T)))
        if ins.get("sret"):
            so, sf = self.deref(st, args[0])
            tag = ("vret", name, st.fresh())
            st.wobj(so).layers.append(("hv", tag, 0, ins["sret"]))
        r = None
        if ins["ty"] != "void":
            wd = self.tybits(ins["ty"])
            pure = name.startswith("get") or name.startswith("is")
            r = atom(("vret", name, obj) if pure and name.startswith("getService") else ("vret", name, st.fresh()), wd)
        return [(r, st)]

    def mro(self, ty):
        out = [ty]
        for b, _ in self.w.types.get(ty, {"bases": []})["bases"]:
            out += self.mro(b)
        return out

    def copy(self, st, do, df, so, sf, size):
        """byte-exact copy of constant size"""
        df, sf = st.env.norm(df), st.env.norm(sf)
        k = 0
        sm = st.mem.get(so)
        cells = {}
        if sf.op == "c" and sm is not None:
            for l in sm.layers:
                if isinstance(l, dict):
                    for eo, (es, v) in l.items():
                        if es == 8 and sf.a <= eo and eo + es <= sf.a + size:
                            cells[eo - sf.a] = v
        vals = []
        while k < size:
            if k in cells and cells[k].op == "p":
                v = self.load(st, so, add(sf, C64(k)), 8, True)
                vals.append((k, 8, v))
                k += 8
                continue
            # pointer-typed leaf
            ty = self.w.otype.get(so)
            if sf.op == "c" and ty in self.w.types and k + 8 <= size:
                lf = self.w.leaf_at(ty, sf.a + k, 8)
                if lf and lf[1] == 8 and lf[0] == sf.a + k and (lf[3].endswith("*") or lf[3].endswith("&")):
                    vals.append((k, 8, self.load(st, so, add(sf, C64(k)), 8, True)))
                    k += 8
                    continue
            vals.append((k, 1, self.load(st, so, add(sf, C64(k)), 1)))
            k += 1
        for k, s, v in vals:
            self.store(st, do, add(df, C64(k)), s, v)

    def intrinsic(self, fr, ins, st, name, args, regs):
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
            do, df = self.deref(st, args[0])
            so, sf = self.deref(st, args[1])
            n = st.env.norm(args[2])
            self.rangecheck(fr, ins, st, do, df, n, "memcpy-dst")
            self.rangecheck(fr, ins, st, so, sf, n, "memcpy-src")
            return [(None, self.memcpy(st, do, df, so, sf, n))]
        if name.startswith("llvm.memset"):
            do, df = self.deref(st, args[0])
            n = st.env.norm(args[2])
            self.rangecheck(fr, ins, st, do, df, n, "memset")
            if n.op == "c" and df.op == "c" and n.a <= 4096:
                for i in range(n.a):
                    self.store(st, do, C64(df.a + i), 1, args[1])
            else:
                st.wobj(do).layers.append(("cp", ("memset", st.fresh()), st.env.norm(df), zext(n, 64), trunc(args[1], 8)))
            return [(None, st)]
        if name.startswith("llvm.va_start"):
            o, f = self.deref(st, args[0])
            nfix = len(fr.args)
            va, vo = ("va", fr.uid), ("vao", fr.uid)
            self.store(st, o, f, 4, const(32, 8 * nfix))
            self.store(st, o, add(f, C64(4)), 4, const(32, 48))
            self.store(st, o, add(f, C64(8)), 8, ptr(vo, C64(0)))
            self.store(st, o, add(f, C64(16)), 8, ptr(va, C64(0)))
            slot = nfix
            oo = 0
            for t, ty in fr.varargs:
                if not isinstance(t, T):
                    continue
                v = t if t.op == "p" else zext(t, 64)
                if slot < 6:
                    self.store(st, va, C64(8 * slot), 8, v)
                    slot += 1
                else:
                    self.store(st, vo, C64(oo), 8, v)
                    oo += 8
            return [(None, st)]
        if name.startswith("llvm.va_end") or name.startswith("llvm.lifetime") or name.startswith("llvm.stacksave") or name.startswith("llvm.stackrestore") or name.startswith("llvm.assume"):
            return [(ptr(("stk",), C64(0)) if ins["ty"] == "ptr" else None, st)]
        if name.startswith("llvm.trap"):
            return []
        m = name.split(".")[1]
        if m in ("umin", "umax", "smin", "smax"):
            a, b = args[0], args[1]
            lt = ult(a, b) if m[0] == "u" else slt(a, b)
            ts, fs = self.split(st, lt)
            out = []
            if ts is not None:
                out.append((a if m.endswith("min") else b, ts))
            if fs is not None:
                out.append((b if m.endswith("min") else a, fs))
            return out
        if m in ("umul", "uadd", "usub") and ".with.overflow" in name:
            a, b = st.env.norm(args[0]), st.env.norm(args[1])
            r = {"umul": mul, "uadd": add, "usub": sub}[m](a, b)
            (al, ah), (bl, bh) = st.env.rng(a), st.env.rng(b)
            top = 1 << a.w
            if m == "usub":
                o = const(1, 0) if al >= bh else ult(a, b)
            else:
                hi = ah * bh if m == "umul" else ah + bh
                lo = al * bl if m == "umul" else al + bl
                o = const(1, 0) if hi < top else const(1, 1) if lo >= top else atom(("intr", name, st.fresh()), 1)
            return [([r, o], st)]
        if ins["ty"] == "void":
            return [(None, st)]
        self.w.stats["unmodelled"].add(name)
        return [(atom(("intr", name, st.fresh()), self.tybits(ins["ty"])), st)]

    def memcpy(self, st, do, df, so, sf, n):
        if n.op == "c" and n.a <= 1024:
            self.copy(st, do, df, so, sf, n.a)
            return st
        src = Snap(st, so, st.env.norm(sf))
        st.wobj(do).layers.append(("cp", ("memcpy", st.fresh()), st.env.norm(df), zext(n, 64), src))
        return st

    def rangecheck(self, fr, ins, st, obj, off, n, what):
        self.bound(fr, ins, st, obj, off, n, what)

    def access(self, fr, ins, st, obj, off, size, what, p):
        if isinstance(obj, tuple) and obj[0] == "null":
            st.alarms = st.alarms | {("null", self.loc(fr, ins), what, " > ".join(fr.stk))}
            return
        if off.op == "c":
            sz = self.w.osize.get(obj)
            if sz is None or isinstance(sz, int) and off.a + size <= sz:
                if sz is not None or off.a < 4096:
                    return
        self.bound(fr, ins, st, obj, off, C64(size), what)

    def bound(self, fr, ins, st, obj, off, n, what):
        """alarm unless [off, off+n) is provably inside the object/array member"""
        w = self.w
        env = st.env
        off = env.norm(off)
        n = env.norm(n)
        if n.op == "c" and n.a == 0:
            return
        sz = self.objsize(st, obj)
        ty = w.otype.get(obj)
        lo, hi = env.rng(off)
        nlo, nhi = env.rng(n)
        tsz = w.types[ty]["size"] if ty in w.types else None
        if tsz and off.op != "c":
            # inside an array member?
            lf = None
            c = off.a[0] if off.op == "lin" else 0
            for base in (c, lo):
                lf = w.leaf_at(ty, base, 1) if base < tsz else None
                if lf and "[" in lf[3]:
                    break
            if lf and "[" in lf[3]:
                end = lf[0] + lf[1]
                if hi + nhi <= end and lo >= lf[0]:
                    w.stats.setdefault("bounds_ok", set()).add((fr.fn.name, ins["id"]))
                    return
                if env.le(add(off, n), C64(end)):
                    w.stats.setdefault("bounds_ok", set()).add((fr.fn.name, ins["id"]))
                    return
                st.alarms = st.alarms | {("oob", self.loc(fr, ins), what, "%s: member %s[%d bytes] offset %s" % (fr.fn.base, lf[2], lf[1], show(off)))}
                return
        if sz is None:
            w.stats.setdefault("bounds_unknown", set()).add((fr.fn.name, ins["id"]))
            return
        if isinstance(sz, int):
            szt = C64(sz)
            if hi + nhi <= sz:
                w.stats.setdefault("bounds_ok", set()).add((fr.fn.name, ins["id"]))
                return
        else:
            szt = sz
        if env.le(add(off, zext(n, 64)), szt):
            w.stats.setdefault("bounds_ok", set()).add((fr.fn.name, ins["id"]))
            return
        st.alarms = st.alarms | {("oob", self.loc(fr, ins), what, "%s: object %s size %s offset %s" % (fr.fn.base, show_obj(obj), show(szt), show(off)))}

    def objsize(self, st, obj):
        s = self.w.osize.get(obj)
        if s is not None:
            return s if isinstance(s, int) else st.env.norm(s)
        return None

    # external functions ---------------------------------------------------
    def external(self, fr, ins, st, fn, args):
        b = fn.base
        w = self.w
        ty = ins["ty"]
        if b in ("highByte", "lowByte"):
            k = 8 if b == "highByte" else 0
            return [(slice_(args[0], k, 8), st)]
        if b in ("malloc", "operator new(unsigned long)", "operator new[](unsigned long)", "calloc", "operator new[](unsigned long, std::nothrow_t const&)"):
            o = ("heap", fr.fn.short, ins["id"], st.fresh())
            n = args[0] if b != "calloc" else mul(args[0], args[1])
            n = st.env.norm(n)
            w.osize[o] = n.a if n.op == "c" else n
            self.ev(st, "alloc", fr, ins, fn=b, size=n, _obj=o)
            if b == "calloc" and n.op == "c" and n.a < 512:
                for i in range(n.a):
                    self.store(st, o, C64(i), 1, const(8, 0))
            return [(ptr(o, C64(0)), st)]
        if b in ("free", "operator delete(void*)", "operator delete[](void*)", "operator delete(void*, unsigned long)"):
            self.ev(st, "free", fr, ins, ptr=args[0])
            return [(None, st)]
        if b in ("memcpy", "memmove"):
            do, df = self.deref(st, args[0])
            so, sf = self.deref(st, args[1])
            self.rangecheck(fr, ins, st, do, df, args[2], "memcpy-dst")
            self.rangecheck(fr, ins, st, so, sf, args[2], "memcpy-src")
            self.memcpy(st, do, df, so, sf, st.env.norm(args[2]))
            return [(args[0], st)]
        if b in ("memcmp", "bcmp"):
            o1, f1 = self.deref(st, args[0])
            o2, f2 = self.deref(st, args[1])
            n = st.env.norm(args[2])
            self.rangecheck(fr, ins, st, o1, f1, args[2], "memcmp")
            self.rangecheck(fr, ins, st, o2, f2, args[2], "memcmp")
            if n.op == "c" and n.a <= 64:
                x = [self.load(st, o1, add(f1, C64(i)), 1) for i in range(n.a)]
                y = [self.load(st, o2, add(f2, C64(i)), 1) for i in range(n.a)]
                df_ = st.copy()
                out = []
                e = st.wenv()
                if all(e.assume(eq(p, q)) is not False and not e.dead for p, q in zip(x, y)):
                    out.append((const(32, 0), st))
                e = df_.wenv()
                pairs = [(p, q) for p, q in zip(x, y) if not e.same(p, q)]
                if pairs:
                    # at least one differing byte
                    if len(pairs) == 1:
                        e.assume(eq(*pairs[0]), False)
                    else:
                        e.assume(eq(concat([p for p, q in pairs]), concat([q for p, q in pairs])), False)
                    if not e.dead:
                        r = atom(("memcmp", df_.fresh()), 32)
                        e.assume(eq(r, const(32, 0)), False)
                        out.append((r, df_))
                return out
        if b in ("memset",):
            return self.intrinsic(fr, ins, st, "llvm.memset", [args[0], trunc(args[1], 8), args[2]], None)
        r = None
        if ty != "void":
            wd = self.tybits(ty)
            r = atom(("call", b, st.fresh()), wd)
        self.ev(st, "ext", fr, ins, fn=b, args=tuple(x for x in args if isinstance(x, T)), ret=r if r is not None else "")
        if ins.get("sret"):
            so, sf = self.deref(st, args[0])
            st.wobj(so).layers.append(("hv", ("ret", b, st.fresh()), 0, ins["sret"]))
        return [(r, st)]


def info_size(k, I):
    return 1


def show_obj(o):
    if isinstance(o, tuple) and o and o[0] == "*":
        return "*" + show(o[1])
    return nm(o) if isinstance(o, tuple) else str(o)


def join_env(es):
    e = es[0].copy()
    rest = es[1:]
    # equalities: keep the common ones; turn differing constants into value sets
    keys = set(e.sub)
    for x in rest:
        keys |= set(x.sub)
    nsub = {}
    ndom = {}
    niv = {}
    cand = set(k for k in keys)
    for x in es:
        cand |= set(x.dom)
        cand |= set(k for k in x.iv if not isinstance(k, tuple))
    for a in cand:
        vs = [x.sub.get(a) for x in es]
        if all(v is not None and v is vs[0] for v in vs):
            nsub[a] = vs[0]
            continue
        if a.w <= 8 and a.op in ("a", "rd"):
            m = 0
            for x in es:
                t = x.norm(a)
                q = x.values(t)
                if q is None:
                    m = FULL[a.w]
                    break
                for v in q:
                    m |= 1 << v
            if m != FULL[a.w]:
                ndom[a] = m
        else:
            lo = min(x.rng(x.norm(a))[0] for x in es)
            hi = max(x.rng(x.norm(a))[1] for x in es)
            if (lo, hi) != (0, (1 << a.w) - 1):
                niv[a] = (lo, hi)
    e.sub = nsub
    e.dom = ndom
    e.iv = niv
    e.facts = {p: v for p, v in es[0].facts.items() if all(x.facts.get(p) == v or x.decide(p) == v for x in rest)}
    e.lins = [l for l in es[0].lins if all(l in x.lins for x in rest)]
    return e


BIN = {
    "add": add, "sub": sub, "mul": mul, "and": band, "or": bor, "xor": bxor,
    "shl": shl, "lshr": lshr, "ashr": ashr,
    "udiv": lambda a, b: op2("udiv", a, b), "sdiv": lambda a, b: op2("sdiv", a, b),
    "urem": lambda a, b: op2("urem", a, b), "srem": lambda a, b: op2("srem", a, b),
}
