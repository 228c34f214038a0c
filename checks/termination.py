"""Loop termination: every loop of the library's own code has a counter that moves
towards its bound on every path round the loop, and the bound is reachable within the
counter's type.  Works on the compiled SSA form; nothing is executed."""
from common import *

MAXPATHS = 3000
# ranges of configuration quantities (documented limits of the protocol)
FIELDMAX = {"EE_NUM_EVS": 251, "PAR_NUM": 254, "services": 254}


class Op(Exception):
    pass


def opaque(tag):
    return ("op", tag)


class TFn:
    """one function prepared for the analysis"""

    def __init__(self, T, name, d):
        self.T, self.name, self.d = T, name, d
        self.ins = {}
        self.bof = {}
        for b, blk in enumerate(d["blocks"]):
            for i in blk:
                if i["op"] != "dbg":
                    self.ins[i["id"]] = i
                    self.bof[i["id"]] = b

    def succs(self, b):
        t = [i for i in self.d["blocks"][b] if i["op"] != "dbg"][-1]
        if t["op"] == "br":
            return t["succ"]
        if t["op"] == "switch":
            return [c[1] for c in t["cases"]] + [t["default"]]
        return []


class Term:
    def __init__(self, L):
        self.L = L
        self.w = L.w
        self.fns = {n: TFn(self, n, d) for n, d in L.w.j["functions"].items() if not d["decl"]}
        self.decls = L.w.j["functions"]
        self._eff = {}
        self._dir = {}
        self._slots = None

    # ---------------------------------------------------------- call effects
    def targets(self, f, i):
        c = i["callee"]
        if c[0] == "fn":
            return [c[1]]
        # indirect or virtual: every address-taken library function with these parameter types
        if self._slots is None:
            self._slots = {}
            taken = set()
            def refs(e):
                if isinstance(e, list):
                    if len(e) == 2 and e[0] == "fn":
                        taken.add(e[1])
                    for x in e:
                        refs(x)
            for g in self.w.globals.values():
                refs(g.get("init", []))
            for f2 in self.fns.values():
                for i2 in f2.ins.values():
                    refs(i2.get("ops", []))
            for n in sorted(taken & self.fns.keys()):
                p = tuple(x["type"] for x in self.fns[n].d["params"])
                self._slots.setdefault(p, []).append(n)
        return self._slots.get(tuple(i["otys"]), [])

    def direct(self, name):
        """own stores and callees of one function"""
        r = self._dir.get(name)
        if r is None:
            f = self.fns[name]
            fields, raw, callees = set(), False, set()
            for i in f.ins.values():
                if i["op"] == "store":
                    k = self.place(f, i["ops"][1])
                    if k is None:
                        raw = True
                    elif k[0] != "alloca":
                        fields.add(k)
                elif i["op"] in ("call", "invoke"):
                    if i.get("intr"):
                        raw = True
                    else:
                        callees.update(self.targets(f, i) or [None])
            r = self._dir[name] = (fields, raw, callees)
        return r

    def effect(self, name):
        """(fields stored: set of (type, off), stores through untyped pointers?, calls external code?)"""
        if name in self._eff:
            return self._eff[name]
        seen, todo = set(), [name]
        fields, raw, ext = set(), False, False
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            if n is None:
                ext = True       # unknown function pointer
            if n not in self.fns:
                continue         # platform functions do not write the library's own fields
            a, r, cs = self.direct(n)
            fields |= a
            raw |= r
            todo += cs
        self._eff[name] = (fields, raw, ext)
        return self._eff[name]

    def place(self, f, v):
        """field written through this pointer operand"""
        if v[0] == "g":
            return ("glob", v[1])
        if v[0] != "v":
            return None
        i = f.ins[v[1]]
        if i["op"] == "alloca":
            return ("alloca", v[1])
        if i["op"] == "getelementptr":
            ty = i.get("sty", "").split(" = ")[0]
            if i["ok"] and not i["vars"] and ty.startswith("%"):
                return (ty, i["off"])
            return ("elem", ty) if ty in ("i8", "i16", "i32", "i64", "ptr") or not ty.startswith("%") else ("array", ty, i["off"])
        return None

    def inline(self, f, name, args, depth=0):
        """value of a call to a straight-line accessor, as an expression over its arguments"""
        g = self.fns.get(name)
        if g is None or len(g.d["blocks"]) != 1 or depth > 6:
            return None
        p = Path(self, g, None, args, depth + 1)
        try:
            for i in g.d["blocks"][0]:
                if i["op"] == "store":
                    return None
                if i["op"] == "ret":
                    return p.val(i["ops"][0]) if i.get("ops") else None
                p.step(i)
        except Op:
            return None
        return None


def width(ty):
    return int(ty[1:]) if ty.startswith("i") and ty[1:].isdigit() else (64 if ty == "ptr" else 0)


class Path:
    """symbolic values along one path round a loop"""

    def __init__(self, T, f, loop, args=None, depth=0):
        self.T, self.f, self.loop, self.args, self.depth = T, f, loop, args, depth
        self.v = {}
        self.mem = {}
        self.clob = set()          # fields stored on this path
        self.facts = []
        self.n = 0
        self.ext = False

    def copy(self):
        p = Path(self.T, self.f, self.loop, self.args, self.depth)
        p.v, p.mem, p.clob, p.facts, p.n, p.ext = dict(self.v), dict(self.mem), set(self.clob), list(self.facts), self.n, self.ext
        return p

    def fresh(self, i):
        self.n += 1
        return opaque((self.f.name, i.get("id"), self.n))

    def val(self, o):
        k = o[0]
        if k == "c":
            return ("c", o[1], int(o[2]) % (1 << o[1]))
        if k == "a":
            return self.args[o[1]] if self.args is not None else ("inv", "arg%d" % o[1], width(self.f.d["params"][o[1]]["type"]))
        if k == "null":
            return ("c", 64, 0)
        if k == "v":
            if o[1] in self.v:
                return self.v[o[1]]
            i = self.f.ins[o[1]]
            if self.loop is not None and self.f.bof[o[1]] in self.loop["blocks"]:
                return opaque((self.f.name, o[1], "loop"))
            if i["op"] == "alloca":
                return ("inv", "alloca%d" % o[1], 64)
            # defined before the loop: its value is fixed, but its range may be known
            if i["op"] in ("zext", "sext", "load", "call", "getelementptr", "trunc") and self.depth < 8:
                q = Path(self.T, self.f, None, self.args, self.depth + 1)
                try:
                    q.step(i)
                    r = q.v.get(o[1])
                    if r is not None and r[0] != "op":
                        return ("pre", r)
                except (Op, RecursionError):
                    pass
            return ("inv", "%s.%d" % (self.f.name, o[1]), width(i["ty"]))
        if k == "g":
            return ("inv", "@" + o[1], 64)
        return ("inv", json.dumps(o), 64)

    def step(self, i):
        op = i["op"]
        if op == "dbg" or op in ("br", "switch", "ret", "unreachable"):
            return
        d = i["id"]
        if op == "load":
            a = self.val(i["ops"][0])
            if a[0] == "op":
                self.v[d] = self.fresh(i)
                return
            key = (a, width(i["ty"]))
            if key in self.mem:
                self.v[d] = self.mem[key]
            else:
                pl = self.T.place(self.f, i["ops"][0])
                if pl is not None and pl in self.clob:
                    self.v[d] = self.fresh(i)
                else:
                    self.v[d] = ("ld", a, pl, width(i["ty"]))
        elif op == "store":
            a = self.val(i["ops"][1])
            pl = self.T.place(self.f, i["ops"][1])
            for k in [k for k in self.mem if k[0] != a]:
                if pl is None or self.mem[k] is None or k[1] == width(i["otys"][0]):
                    if self.samefield(k[0], a):
                        self.mem[k] = self.fresh(i)
            if pl is not None:
                self.clob.add(pl)
            self.mem[(a, width(i["otys"][0]))] = self.val(i["ops"][0])
        elif op == "getelementptr":
            b = self.val(i["base"])
            ty = i.get("sty", "").split(" = ")[0]
            vs = tuple((self.val(x), s) for x, s in i["vars"])
            if not i["ok"]:
                self.v[d] = self.fresh(i)
            elif not vs:
                self.v[d] = add_(b, i["off"]) if not ty.startswith("%") or b[0] in ("h", "add") else ("fld", b, ty, i["off"])
            else:
                cs = [(x, s) for x, s in vs if x[0] == "c"]
                if len(cs) == len(vs):
                    self.v[d] = add_(b, i["off"] + sum(sgn(x) * s for x, s in cs))
                else:
                    self.v[d] = ("idx", b, i["off"], vs)
        elif op in ("zext", "sext", "trunc"):
            self.v[d] = ext_(op, self.val(i["ops"][0]), width(i["otys"][0]), width(i["ty"]))
        elif op in ("add", "sub"):
            x, y = self.val(i["ops"][0]), self.val(i["ops"][1])
            if y[0] == "c":
                k = sgn(y)
                self.v[d] = add_(x, k if op == "add" else -k, width(i["ty"]))
            elif x[0] == "c" and op == "add":
                self.v[d] = add_(y, sgn(x), width(i["ty"]))
            else:
                self.v[d] = ("v" + op, x, y, width(i["ty"]))
        elif op == "icmp":
            self.v[d] = ("cmp", i["pred"], self.val(i["ops"][0]), self.val(i["ops"][1]), width(i["otys"][0]))
        elif op == "phi":
            pass
        elif op in ("call", "invoke"):
            if i["ty"] != "void" and i["callee"][0] == "fn":
                r = self.T.inline(self.f, i["callee"][1], [self.val(o) for o in i["ops"]], self.depth)
                if r is not None:
                    self.v[d] = r
                    return
            if i.get("intr"):
                if i["ty"] != "void":
                    self.v[d] = self.fresh(i)
                return
            self.call(i)
            self.v[d] = self.fresh(i)
        elif op in ("and", "or", "xor", "mul", "udiv", "urem", "lshr", "shl", "ashr", "sdiv", "srem"):
            self.v[d] = (op, self.val(i["ops"][0]), self.val(i["ops"][1]), width(i["ty"]))
        elif op in ("bitcast", "freeze", "ptrtoint", "inttoptr"):
            self.v[d] = self.val(i["ops"][0])
        elif op == "select":
            c = self.val(i["ops"][0])
            self.v[d] = ("sel", c, self.val(i["ops"][1]), self.val(i["ops"][2]))
        elif op == "alloca":
            self.v[d] = ("inv", "alloca%d" % d, 64)
        else:
            self.v[d] = self.fresh(i)

    def samefield(self, a, b):
        """may the two addresses denote the same memory?  (typed fields are kept apart)"""
        if a[0] == "fld" and b[0] == "fld":
            return a[2:] == b[2:]
        if a[0] == "fld" or b[0] == "fld":
            return False
        return True

    def call(self, i):
        fields, raw, ext = set(), False, False
        for t in self.T.targets(self.f, i) or [None]:
            a, r, e = self.T.effect(t) if t else (set(), True, True)
            fields |= a
            raw |= r
            ext |= e
        self.clob |= fields
        self.ext |= ext
        for k in list(self.mem):
            self.mem[k] = self.fresh(i)

    def reads(self, e):
        """fields an expression reads"""
        out = set()
        if isinstance(e, tuple):
            if e and e[0] == "ld":
                out.add(e[2])
            for x in e:
                if isinstance(x, tuple):
                    out |= self.reads(x)
        return out


def sgn(c):
    return c[2] - (1 << c[1]) if c[2] >> (c[1] - 1) else c[2]


def add_(x, k, w=64):
    if k == 0:
        return x
    if x[0] == "add":
        return add_(x[1], x[2] + k, w)
    if x[0] == "c":
        return ("c", x[1], (x[2] + k) % (1 << x[1]))
    return ("add", x, k, w)


def ext_(op, x, f, t):
    if x[0] == "c":
        v = sgn(x) if op == "sext" else x[2]
        return ("c", t, v % (1 << t))
    if op == "trunc":
        if x[0] in ("zext", "sext"):
            if x[2] == t:
                return x[1]
            return (x[0], x[1], x[2], t) if x[2] < t else ("trunc", x[1], x[2], t)
        if x[0] == "add":
            return add_(ext_(op, x[1], f, t), x[2], t)
    return (op, x, f, t)


def opaq(e):
    return isinstance(e, tuple) and (bool(e) and e[0] == "op" or any(opaq(x) for x in e if isinstance(x, tuple)))


def mentions(e, r):
    return e == r or (isinstance(e, tuple) and any(mentions(x, r) for x in e if isinstance(x, tuple)))


class Loop:
    def __init__(self, T, f, lp):
        self.T, self.f, self.lp = T, f, lp
        self.hdr = lp["header"]
        self.blocks = set(lp["blocks"])
        self.inner = {}
        for q in f.d["loops"]:
            if q["header"] != self.hdr and q["header"] in self.blocks and set(q["blocks"]) < self.blocks:
                cur = self.inner.get(q["header"])
                if cur is None or len(q["blocks"]) > len(cur):
                    self.inner[q["header"]] = set(q["blocks"])
        for h, bs in list(self.inner.items()):
            if any(h in o and h != k for k, o in self.inner.items()):
                del self.inner[h]
        self.paths = []
        self.outp = []
        self.exits = 0
        self.truncated = False
        t = [i for i in f.d["blocks"][self.hdr] if i["op"] != "dbg"]
        self.phis = [i for i in t if i["op"] == "phi"]
        ln = [i.get("ln", 0) for i in t if i.get("ln")]
        for b in lp["blocks"]:
            ln += [i.get("ln", 0) for i in f.d["blocks"][b] if i.get("ln")] if not ln else []
        self.line = ln[0] if ln else 0
        fl = [i.get("fl") for b in lp["blocks"] for i in f.d["blocks"][b] if i.get("fl")]
        self.file = os.path.basename(fl[0]) if fl else "?"

    def loc(self):
        return "%s:%d" % (self.file, self.line)

    # ---------------------------------------------------------------- paths
    def run(self):
        p = Path(self.T, self.f, self.lp)
        for i in self.phis:
            p.v[i["id"]] = ("h", i["id"], width(i["ty"]))
        self.walk(p, self.hdr, None, set())

    def havoc(self, p, bs):
        for b in bs:
            for i in self.f.d["blocks"][b]:
                if i["op"] == "dbg":
                    continue
                if i["op"] == "store":
                    pl = self.T.place(self.f, i["ops"][1])
                    if pl is not None:
                        p.clob.add(pl)
                    p.mem = {k: p.fresh(i) for k in p.mem}
                elif i["op"] in ("call", "invoke") and not i.get("intr"):
                    p.call(i)
        for b in bs:
            for i in self.f.d["blocks"][b]:
                if i["op"] != "dbg" and i["op"] not in ("br", "store", "switch"):
                    if i["op"] == "phi" or i["op"] in ("load", "call"):
                        p.v[i["id"]] = p.fresh(i)
                    else:
                        p.v.pop(i["id"], None)
                        try:
                            p.step(i) if all(o[0] != "v" or o[1] in p.v or self.f.bof[o[1]] not in self.blocks for o in i.get("ops", [])) else p.v.__setitem__(i["id"], p.fresh(i))
                        except Op:
                            p.v[i["id"]] = p.fresh(i)

    def walk(self, p, b, prev, seen):
        if self.truncated:
            return
        if b not in self.blocks:
            self.exits += 1
            self.outp.append(p)
            return
        if b == self.hdr and prev is not None:
            p.next = {i["id"]: self.incoming(p, i, prev) for i in self.phis}
            self.paths.append(p)
            if len(self.paths) > MAXPATHS:
                self.truncated = True
            return
        if b in seen:
            self.truncated = True
            return
        seen = seen | {b}
        if b in self.inner and b != self.hdr:
            bs = self.inner[b]
            self.havoc(p, bs)
            outs_ = sorted({(x, s) for x in bs for s in self.f.succs(x) if s not in bs})
            for x, s in outs_:
                self.walk(p.copy(), s, x, seen | bs)
            return
        blk = self.f.d["blocks"][b]
        new = {}
        for i in blk:
            if i["op"] == "phi" and b != self.hdr:
                new[i["id"]] = self.incoming(p, i, prev)
        p.v.update(new)
        for i in blk:
            if i["op"] not in ("phi", "dbg"):
                p.step(i)
        t = [i for i in blk if i["op"] != "dbg"][-1]
        if t["op"] == "br":
            if "cond" not in t:
                return self.walk(p, t["succ"][0], b, seen)
            c = p.val(t["cond"])
            for k, s in ((True, t["succ"][0]), (False, t["succ"][1])):
                q = p.copy()
                if self.learn(q, c, k):
                    self.walk(q, s, b, seen)
        elif t["op"] == "switch":
            c = p.val(t["cond"])
            w = c[2] if c[0] in ("h",) else 32
            dst = {}
            for v, s in t["cases"]:
                dst.setdefault(s, []).append(int(v))
            for s, vs in dst.items():
                q = p.copy()
                q.facts.append(("in", c, tuple(vs), True))
                self.walk(q, s, b, seen)
            q = p.copy()
            q.facts.append(("in", c, tuple(int(v) for v, _ in t["cases"]), False))
            self.walk(q, t["default"], b, seen)
        else:
            self.exits += 1        # return, or does not come back
            self.outp.append(p)

    def incoming(self, p, i, prev):
        for b, o in i["inc"]:
            if b == prev:
                return p.val(o)
        return p.fresh(i)

    def learn(self, p, c, k):
        """record a branch outcome; False when it contradicts what is known on the path"""
        while True:
            if c[0] == "c":
                return bool(c[2]) == k
            if c[0] in ("zext", "trunc", "sext"):
                c = c[1]
                continue
            if c[0] == "xor" and c[2][0] == "c":
                k ^= bool(c[2][2] & 1)
                c = c[1]
                continue
            if c[0] == "cmp" and c[3] == ("c", c[4], 0) and c[1] in ("ne", "eq") and c[2][0] in ("zext", "cmp", "xor") and is_bool(c[2]):
                k ^= c[1] == "eq"
                c = c[2]
                continue
            break
        if c[0] == "cmp":
            x, y = c[2], c[3]
            if x[0] == "c" and y[0] == "c":
                return ceval(c[1], x, y) == k
            pr = c[1] if k else NEG[c[1]]
            f = (pr, x, y, c[4])
            if (NEG[pr], x, y, c[4]) in p.facts:
                return False
            p.facts.append(f)
        else:
            if ("bool", c, not k, 1) in p.facts:
                return False
            p.facts.append(("bool", c, k, 1))
        return True

    # -------------------------------------------------------------- decision
    def decide(self):
        """('proved'|'refuted'|'open', reason)"""
        self.run()
        if self.truncated:
            return "open", "too many paths"
        if not self.paths:
            return "proved", "no path returns to the loop head"
        if not self.exits:
            return "refuted", "the loop has no exit"
        roots = [("h", i["id"], width(i["ty"])) for i in self.phis]
        roots += sorted({("ld", k[0], None, k[1]) for p in self.paths for k in p.mem if not opaq(k[0])}, key=repr)
        whys = []
        for r in roots:
            res, why = self.counter(r)
            if res == "ok":
                return "proved", "counter %s" % self.rootname(r)
            whys.append((res, r, why))
        # positive evidence of non-termination
        for p in self.paths:
            e = self.stuck(p)
            if e:
                return "refuted", e
        e = self.frozen()
        if e:
            return "refuted", e
        sat = [w for w in whys if w[0] == "wrap"]
        if sat:
            return "refuted", sat[0][2]
        return "open", "; ".join(sorted({w for _, _, w in whys if w}))[:200] or "no counter recognised"

    def rootname(self, r):
        if r[0] == "h":
            for blk in self.f.d["blocks"]:
                for i in blk:
                    if i["op"] == "dbg" and i.get("val") == ["v", r[1]]:
                        return i["name"]
        return "value at %s" % (r[1],)

    def new(self, p, r):
        if r[0] == "h":
            return p.next[r[1]]
        return p.mem.get((r[1], r[3]), r)

    def lin(self, e, r):
        """e as (root + k) with the extension applied to it -> (k_inner, ext, k_outer) or None"""
        k2 = 0
        ext = None
        k1 = 0
        if e[0] == "add" and root_eq(e[1], r):
            return (e[2], None, 0)
        if root_eq(e, r):
            return (0, None, 0)
        if e[0] == "add":
            k2, e = e[2], e[1]
        if e[0] in ("zext", "sext"):
            ext, e = (e[0], e[2], e[3]), e[1]
            if e[0] == "add":
                k1, e = e[2], e[1]
            if root_eq(e, r):
                return (k1, ext, k2)
        return None

    def counter(self, r):
        w = r[2] if r[0] == "h" else r[3]
        steps = []
        for p in self.paths:
            n = self.new(p, r)
            if n[0] in ("lshr", "udiv") and n[2][0] == "c" and n[2][2] >= (1 if n[0] == "lshr" else 2) and self.halves(p, n[1], r):
                steps.append((p, "half"))
                continue
            l = self.lin(n, r) if n[0] not in ("idx",) else None
            if n[0] == "fld" and root_eq(n[1], r):
                l = (n[3], None, 0)
            if l is None or l[1] is not None:
                return "no", "%s is not stepped by a constant" % self.rootname(r) if not root_eq(n, r) else ""
            if l[0] == 0:
                return "stay", "a path leaves %s unchanged" % self.rootname(r)
            steps.append((p, l[0]))
        if any(s == "half" for _, s in steps):
            return ("ok", "") if all(s == "half" and self.nonzero(p, r) for p, s in steps) else ("no", "")
        if len({s > 0 for _, s in steps}) > 1:
            return "no", "steps in both directions"
        wrap = None
        if r[0] == "ld" and r[2] is None:
            for p in self.paths:
                pass
        for p, s in steps:
            best = "none"
            for f in p.facts:
                g = self.bound(p, f, r, s, w, {abs(t) for _, t in steps})
                if g == "ok":
                    best = "ok"
                    break
                if g:
                    best, wrap = "wrap", g
            if best == "none":
                return "no", "%s is not compared with a bound on some path" % self.rootname(r)
            if best == "wrap":
                return "wrap", wrap
        return "ok", ""

    def halves(self, p, e, r):
        while e[0] in ("zext", "sext"):
            e = e[1]
        return root_eq(e, r)

    def nonzero(self, p, r):
        for f in p.facts:
            if f[0] in ("ne", "ugt", "sgt") and self.halves(p, f[1], r) and f[2][0] == "c" and f[2][2] == 0:
                return True
            if f[0] == "bool" and f[2] and self.halves(p, f[1], r):
                return True
        return False

    def invariant(self, p, e, r):
        """the bound does not change while the loop runs"""
        if opaq(e) or any(mentions(e, ("h", i["id"], width(i["ty"]))) for i in self.phis):
            return False
        rd = p.reads(e)
        for q in self.paths:
            if rd & q.clob:
                return False
        return True

    def bound(self, p, f, r, s, w, steps):
        pr, x, y = f[0], f[1], f[2]
        if pr in ("bool", "in"):
            if pr == "in" and f[3] and self.lin(x, r):
                return "ok" if abs(s) % 2 == 1 or True else None
            return None
        l = self.lin(x, r)
        if l is None:
            l = self.lin(y, r)
            if l is None:
                return None
            x, y, pr = y, x, SWAP[pr]
        if not self.invariant(p, y, r):
            return None
        # through an exit test on another extension the test sees  ext(r + k1) + k2
        k1, ext, k2 = l
        vw = f[3]
        signed = pr[0] == "s"
        lo, hi = self.range(y, vw, signed)
        # values the tested expression can reach before the counter wraps
        if ext is not None:
            if ext[0] == "zext":
                mn, mx = k2, (1 << w) - 1 + k2
            else:
                mn, mx = -(1 << (w - 1)) + k2, (1 << (w - 1)) - 1 + k2
            nm = "%s (%d bits)" % (self.rootname(r), w)
        else:
            if signed:
                mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
                if w >= 32 and pr in ("slt", "sle", "sgt", "sge"):
                    # overflow of a signed int counter is excluded by the language
                    if (s > 0) == (pr in ("slt", "sle")):
                        return "ok"
            else:
                mn, mx = 0, (1 << w) - 1
            nm = "%s (%d bits)" % (self.rootname(r), w)
        a = max(steps)
        if s > 0 and pr in ("ult", "slt"):
            if hi <= mx - (a - 1):
                return "ok"
            return "%s steps by %d and is tested to be below a bound that can be %d" % (nm, a, hi)
        if s > 0 and pr in ("ule", "sle"):
            if hi <= mx - a:
                return "ok"
            return "%s steps by %d and is tested to be at most a bound that can be %d" % (nm, a, hi)
        if s < 0 and pr in ("ugt", "sgt"):
            if lo >= mn + (a - 1):
                return "ok"
            return "%s steps down by %d and is tested to be above a bound that can be %d" % (nm, a, lo)
        if s < 0 and pr in ("uge", "sge"):
            if lo >= mn + a:
                return "ok"
            return "%s steps down by %d and is tested to be at least a bound that can be %d" % (nm, a, lo)
        if pr == "ne":
            if r[0] == "h" and vw == 64 and ext is None:
                return "ok"      # pointer or size_t walked to its end
            if ext is not None and (hi > mx or lo < mn):
                return "%s is tested to differ from a bound that can be %d" % (nm, hi if hi > mx else lo)
            if steps <= {1} or (len(steps) == 1 and a % 2 == 1):
                return "ok"
            st = self.start(r)
            if st is not None and y[0] == "c" and len(steps) == 1 and ext is None and not k1 and not k2:
                d = (sgn(y) - st) * (1 if s > 0 else -1)
                if d >= 0 and d % a == 0:
                    return "ok"
            if y[0] in ("ld", "zext", "inv", "c", "pre"):
                return "%s steps by %d and may step over the value it is compared with" % (nm, a)
        if pr == "eq":
            return "ok"          # stays only while the stepping counter equals a fixed value
        return None

    def start(self, r):
        """constant value of a counter when the loop is entered"""
        if r[0] != "h":
            return None
        vs = set()
        for i in self.phis:
            if i["id"] == r[1]:
                for b, o in i["inc"]:
                    if b not in self.blocks:
                        vs.add(sgn(("c", o[1], int(o[2]) % (1 << o[1]))) if o[0] == "c" else None)
        return vs.pop() if len(vs) == 1 else None

    def frozen(self):
        """no exit test of the loop depends on anything the loop changes"""
        tests = 0
        back = {tuple(map(repr, p.facts[:k])) for p in self.paths for k in range(len(p.facts) + 1)}
        for p in self.paths:
            for k, f in enumerate(p.facts):
                alt = None
                if f[0] == "bool":
                    alt = ("bool", f[1], not f[2], 1)
                elif f[0] == "in":
                    return None
                else:
                    alt = (NEG[f[0]],) + f[1:]
                pre = tuple(map(repr, p.facts[:k])) + (repr(alt),)
                if pre in back:
                    continue
                tests += 1
                if not all(self.unchanged(f, q) for q in self.paths):
                    return None
        # every way out must be one of those tests
        if not tests or any(f[0] == "in" for p in self.outp for f in p.facts):
            return None
        return "nothing the exit tests of the loop depend on changes in it"

    def unchanged(self, f, p):
        for e in [f[1]] + ([f[2]] if f[0] not in ("bool", "in") else []):
            if opaq(e):
                return False
            for i in self.phis:
                h = ("h", i["id"], width(i["ty"]))
                if mentions(e, h) and p.next[i["id"]] != h:
                    return False
            rd = p.reads(e)
            if None in rd or rd & p.clob or (p.ext and rd):
                return False
            if any(mentions(e, k[0]) for k in p.mem):
                return False
        return True

    def range(self, e, w, signed):
        """interval of an invariant expression read at width w"""
        full = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
        r = self.rng(e, 0)
        if r is None:
            return full
        if r[0] < full[0] or r[1] > full[1]:
            return full
        return r

    def rng(self, e, d):
        if d > 20:
            return None
        if e[0] == "c":
            s = sgn(e)
            return (s, s) if s < 0 else (e[2], e[2])
        if e[0] == "pre":
            return self.rng(e[1], d + 1)
        if e[0] == "zext":
            r = self.rng(e[1], d + 1)
            return r if r and r[0] >= 0 else (0, (1 << e[2]) - 1)
        if e[0] == "sext":
            r = self.rng(e[1], d + 1)
            h = 1 << (e[2] - 1)
            return r if r and r[1] < h else (-h, h - 1)
        if e[0] == "add":
            r = self.rng(e[1], d + 1)
            if r is None or r[0] + e[2] < 0:
                return (r[0] + e[2], r[1] + e[2]) if r and e[3] >= 32 else None
            return (r[0] + e[2], r[1] + e[2]) if r[1] + e[2] < (1 << e[3]) else None
        if e[0] == "ld":
            n = self.T.fieldname(e)
            m = (1 << e[3]) - 1
            if n in FIELDMAX:
                m = min(m, FIELDMAX[n])
            return (0, m)
        if e[0] == "inv" and e[1].startswith(self.f.name + "."):
            k = e[1][len(self.f.name) + 1:]
            r = self.ssa(int(k), d + 1) if k.isdigit() and int(k) in self.f.ins else None
            if r is not None and r[0] >= 0:
                return r
        if e[0] in ("inv",) and e[2] and e[2] < 32:
            return (0, (1 << e[2]) - 1)
        if e[0] in ("lshr", "udiv", "sdiv", "ashr") and e[2][0] == "c":
            r = self.rng(e[1], d + 1)
            if r is None:
                return None
            k = e[2][2] if e[0] in ("udiv", "sdiv") else 1 << e[2][2]
            return (r[0] // k, r[1] // k) if k and r[0] >= 0 else None
        if e[0] == "and" and e[2][0] == "c":
            return (0, e[2][2])
        return None

    def ssa(self, v, d):
        """interval of a value chosen before the loop: the branches that choose it bound it"""
        i = self.f.ins[v]
        vis = self.__dict__.setdefault("vis", set())
        if v in vis or d > 16:
            return None
        vis.add(v)
        try:
            if i["op"] == "phi":
                ins = [(o, self.guards(b, self.f.bof[v])) for b, o in i["inc"]]
            elif i["op"] == "select":
                c = i["ops"][0]
                ins = [(i["ops"][1], [(c, True)]), (i["ops"][2], [(c, False)])]
            else:
                return None
            lo, hi = None, None
            for o, gs in ins:
                r = self.rng(Path(self.T, self.f, None).val(o), d + 1) or (0, (1 << width(i["ty"])) - 1)
                for c, k in gs:
                    r = self.narrow(o, r, c, k, d)
                if r[0] < 0:
                    return None
                lo = r[0] if lo is None else min(lo, r[0])
                hi = r[1] if hi is None else max(hi, r[1])
            return (lo, hi)
        finally:
            vis.discard(v)

    def guards(self, b, nxt):
        """[(condition, outcome)] known on the edge b -> nxt"""
        out = []
        for _ in range(6):
            t = [i for i in self.f.d["blocks"][b] if i["op"] != "dbg"][-1]
            if t["op"] == "br" and "cond" in t and t["succ"][0] != t["succ"][1]:
                out.append((t["cond"], t["succ"][0] == nxt))
            pr = [x for x in range(len(self.f.d["blocks"])) if b in self.f.succs(x)]
            if len(pr) != 1:
                break
            b, nxt = pr[0], b
        return out

    def strip(self, o):
        while o[0] == "v" and self.f.ins[o[1]]["op"] == "zext":
            o = self.f.ins[o[1]]["ops"][0]
        return o

    def narrow(self, o, r, c, k, d):
        """the interval of o given the outcome k of condition c"""
        i = self.f.ins.get(c[1]) if c[0] == "v" else None
        if i is None or i["op"] != "icmp":
            return r
        x, y, pr = i["ops"][0], i["ops"][1], i["pred"]
        me = self.strip(o)
        if me[0] != "v":
            return r
        if self.strip(x) != me:
            x, y, pr = y, x, SWAP[pr]
        if self.strip(x) != me or pr[0] == "s" and tuple(self.strip(x)) == tuple(x):
            return r
        q = self.rng(Path(self.T, self.f, None).val(y), d + 1)
        if q is None or q[0] < 0:
            return r
        pr = pr if k else NEG[pr]
        pr = {"slt": "ult", "sle": "ule", "sgt": "ugt", "sge": "uge"}.get(pr, pr)
        lo, hi = r
        if pr == "ult":
            hi = min(hi, q[1] - 1)
        elif pr == "ule":
            hi = min(hi, q[1])
        elif pr == "ugt":
            lo = max(lo, q[0] + 1)
        elif pr == "uge":
            lo = max(lo, q[0])
        elif pr == "eq":
            lo, hi = max(lo, q[0]), min(hi, q[1])
        return (lo, hi) if lo <= hi else r

    def stuck(self, p):
        """a path whose conditions cannot change once it is taken"""
        if not p.facts:
            return "a path returns to the loop head without any test"
        for f in p.facts:
            if not self.unchanged(f, p):
                return None
        return "a path round the loop changes nothing its conditions depend on"


def root_eq(e, r):
    if r[0] == "ld":
        return e[0] == "ld" and e[1] == r[1] and e[3] == r[3]
    return e == r


def is_bool(e):
    while e[0] in ("zext", "xor"):
        if e[0] == "zext" and e[2] == 1:
            return True
        e = e[1]
    return e[0] == "cmp"


NEG = {"eq": "ne", "ne": "eq", "ult": "uge", "uge": "ult", "ule": "ugt", "ugt": "ule", "slt": "sge", "sge": "slt", "sle": "sgt", "sgt": "sle"}
SWAP = {"eq": "eq", "ne": "ne", "ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}


def ceval(pr, x, y):
    a, b = (sgn(x), sgn(y)) if pr[0] == "s" else (x[2], y[2])
    return {"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[pr if pr in ("eq", "ne") else pr[1:]]


def fieldname(self, e):
    """name of the configuration quantity a load reads"""
    a = e[1]
    if a[0] == "fld":
        ty = a[2].strip('%"').replace("class.", "").replace("struct.", "")
        lf = self.w.leaf_at(ty, a[3], e[3] // 8) if ty in self.w.types else None
        if lf:
            n = lf[2].split(".")[-1]
            if n == "len" and "ArrayHolder" in ty:
                return "services"
            return n
        if "ArrayHolder" in ty and e[3] == 64:
            return "services"
    # first byte of the module parameter block
    if a[0] == "idx" and all(x[0] == "c" for x, _ in a[3]):
        pass
    b, k = a, 0
    if b[0] == "add":
        b, k = b[1], b[2]
    if b[0] == "ld" and self.fieldname(b) == "_mparams" and k == 0:
        return "PAR_NUM"
    return None


Term.fieldname = fieldname


def own(d):
    fl = d.get("file", "")
    return fl.startswith(REPO + "/src/")


def run(c):
    L = c.lib(contracts=False)
    T = Term(L)
    n = 0
    openl = []
    for name, f in sorted(T.fns.items()):
        if not own(f.d):
            continue
        L.w.stats["functions"].add(name)
        for lp in f.d["loops"]:
            lo = Loop(T, f, lp)
            base = L.w.fns[name].base.replace(NS, "")
            if base.endswith("::reboot") and not any(s not in lo.blocks for b in lo.blocks for s in f.succs(b)):
                continue         # waits for the restart it has requested
            r, why = lo.decide()
            n += 1
            nm = "loop at line %d of %s" % (lo.line, base)
            if r == "open":
                openl.append("%s %s: %s" % (lo.loc(), base, why))
            c.cases += 1
            c.paths += len(lo.paths)
            c.ob("%s ends" % base + " (%s)" % lo.loc(), r != "refuted", "%s: %s" % (nm, why), lo.loc())
            if os.environ.get("VP_TERM"):
                print(r, lo.loc(), base, why, len(lo.paths))
    for x in openl:
        c.note("undecided loop: " + x)
