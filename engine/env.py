"""Constraint part of an abstract state: equalities (substitution), exact value
sets for byte-sized atoms, unsigned intervals for wider terms, recorded branch
predicates, and linear inequalities over terms that provably do not wrap.
All entailment is by table look-up, interval arithmetic and bounded combination
of recorded inequalities (a small difference-bound style closure); no solver."""
from terms import *
import terms as tm

FULL = {w: (1 << (1 << w)) - 1 for w in range(1, 9)}

HEXMASK = sum(1 << v for v in b"0123456789ABCDEF")


def _minbit(m):
    return (m & -m).bit_length() - 1


class Env:
    __slots__ = ("sub", "dom", "iv", "facts", "lins", "dead", "nn")

    def __init__(self):
        self.sub = {}
        self.dom = {}
        self.iv = {}
        self.facts = {}
        self.lins = []      # list of (const, {term:coef}) meaning  const + sum <= 0
        self.dead = False

    def copy(self):
        e = Env.__new__(Env)
        e.sub = dict(self.sub)
        e.dom = dict(self.dom)
        e.iv = dict(self.iv)
        e.facts = dict(self.facts)
        e.lins = list(self.lins)
        e.dead = self.dead
        return e

    # ------------------------------------------------------------ values
    def norm(self, t):
        s = self.sub
        if not s or t.op == "c":
            return t
        n = 0
        while atoms(t) & s.keys():
            t = subst(t, s)
            n += 1
            if n > 20:
                break
        return t

    def mask(self, a):
        m = self.dom.get(a)
        if m is not None:
            return m
        if a.w == 8 and a.op == "a" and type(a.a) is tuple and a.a[0] == "hexd":
            return HEXMASK
        return FULL[a.w]

    def values(self, t):
        """exact list of possible values if t depends on one small atom (or is const)"""
        t = self.norm(t)
        if t.op == "c":
            return [t.a]
        a = single_small(t)
        if a is None:
            return None
        m = self.mask(a)
        tb = table(t)
        out = set()
        for v in range(1 << a.w):
            if (m >> v) & 1:
                if tb[v] is None:
                    return None
                out.add(tb[v])
        return sorted(out)

    def rng(self, t, d=0):
        """unsigned interval"""
        op = t.op
        w = t.w
        if op == "c":
            return t.a, t.a
        full = (0, (1 << w) - 1)
        if op == "p" or d > 12:
            return full
        r = full
        if op == "a" or op == "rd":
            if w <= 8:
                m = self.mask(t)
                if m == 0:
                    return 0, 0
                return _minbit(m), m.bit_length() - 1
            return self.iv.get(t, full)
        a = single_small(t)
        if a is not None:
            m = self.mask(a)
            tb = table(t)
            lo = hi = None
            ok = True
            for v in range(1 << a.w):
                if (m >> v) & 1:
                    x = tb[v]
                    if x is None:
                        ok = False
                        break
                    if lo is None or x < lo:
                        lo = x
                    if hi is None or x > hi:
                        hi = x
            if ok and lo is not None:
                return lo, hi
        if op == "cat":
            lo = hi = 0
            pos = 0
            for (b, l, n) in t.a:
                if b.op == "c":
                    v = (b.a >> l) & ((1 << n) - 1)
                    lo += v << pos
                    hi += v << pos
                else:
                    bl, bh = self.rng(b, d + 1)
                    if l:
                        bl, bh = bl >> l, bh >> l
                    if bh < (1 << n):
                        lo += bl << pos
                        hi += bh << pos
                    else:
                        hi += ((1 << n) - 1) << pos
                pos += n
            r = (lo, hi)
        elif op == "lin":
            c, ts = t.a
            M = 1 << w
            c = c if c < M // 2 else c - M
            lo = hi = c
            for k, x in ts:
                k = k if k < M // 2 else k - M
                a_, b_ = self.rng(x, d + 1)
                if k > 0:
                    lo += k * a_
                    hi += k * b_
                else:
                    lo += k * b_
                    hi += k * a_
            if hi < 0 and lo >= -M:
                lo += M
                hi += M
            if lo >= 0 and hi < M:
                r = (lo, hi)
        elif op == "mul":
            a0, a1 = self.rng(t.a[0], d + 1)
            b0, b1 = self.rng(t.a[1], d + 1)
            if a1 * b1 < (1 << w):
                r = (a0 * b0, a1 * b1)
        elif op == "urem":
            a0, a1 = self.rng(t.a[0], d + 1)
            b0, b1 = self.rng(t.a[1], d + 1)
            if a1 < b0:
                r = (a0, a1)
            else:
                r = (0, max(0, min(a1, b1 - 1)) if b1 else a1)
        elif op == "udiv":
            a0, a1 = self.rng(t.a[0], d + 1)
            b0, b1 = self.rng(t.a[1], d + 1)
            if b0 > 0:
                r = (a0 // b1, a1 // b0)
        elif op == "and":
            r = (0, min(self.rng(t.a[0], d + 1)[1], self.rng(t.a[1], d + 1)[1]))
        elif op == "or":
            h = max(self.rng(t.a[0], d + 1)[1], self.rng(t.a[1], d + 1)[1])
            r = (0, (1 << h.bit_length()) - 1)
        elif op == "tbl":
            vs = t.a[0]
            lo_, hi_ = self.rng(t.a[1], d + 1)
            sel = vs[lo_:hi_ + 1]
            if sel and hi_ < len(vs):
                r = (min(sel), max(sel))
        elif op == "sext":
            lo_, hi_ = self.rng(t.a[0], d + 1)
            if hi_ < 1 << (t.a[0].w - 1):
                r = (lo_, hi_)
        elif op in ("eq", "ult", "slt"):
            v = self.decide(t)
            if v is not None:
                return int(v), int(v)
        iv = self.iv.get(t)
        if iv:
            r = (max(r[0], iv[0]), min(r[1], iv[1]))
        return r

    # -------------------------------------------------------- linear forms
    def linint(self, t):
        """exact integer linear form (const, {term:coef}) of the unsigned value of t, or None"""
        if t.op == "c":
            return t.a, {}
        if t.op == "cat":
            c = 0
            d = {}
            pos = 0
            for (b, lo, n) in t.a:
                if b.op == "c":
                    c += ((b.a >> lo) & ((1 << n) - 1)) << pos
                else:
                    if lo == 0 and (n == b.w or self.rng(b)[1] < (1 << n)):
                        f = self.linint(b)
                        if f is None:
                            d[b] = d.get(b, 0) + (1 << pos)
                        else:
                            c += f[0] << pos
                            for x, k in f[1].items():
                                d[x] = d.get(x, 0) + (k << pos)
                    else:
                        x = from_parts([(b, lo, n)])
                        d[x] = d.get(x, 0) + (1 << pos)
                pos += n
            return c, d
        if t.op == "lin":
            w = t.w
            M = 1 << w
            c, ts = t.a
            c = c if c < M // 2 else c - M
            lo = hi = c
            cc = c
            d = {}
            for k, x in ts:
                k = k if k < M // 2 else k - M
                a_, b_ = self.rng(x)
                lo += k * (a_ if k > 0 else b_)
                hi += k * (b_ if k > 0 else a_)
                f = self.linint(x)
                if f is None:
                    d[x] = d.get(x, 0) + k
                else:
                    cc += k * f[0]
                    for y, q in f[1].items():
                        d[y] = d.get(y, 0) + k * q
            if lo >= 0 and hi < M:
                return cc, d
            # relational: maybe value is provably >= 0 thanks to recorded inequalities
            if (hi < M or self._ub_lin(cc - M + 1, d, 2) <= 0) and \
                    (lo >= 0 or self._ub_lin(-cc, {x: -k for x, k in d.items()}, 2) <= 0):
                return cc, d
            return 0, {t: 1}
        if t.op == "p":
            return None
        return 0, {t: 1}

    def _pairs(self, d):
        """upper bound of terms a*x + b*(x*y) of opposite sign taken together: x*(a + b*y)"""
        s = 0
        gone = set()
        for m, b in d.items():
            if m.op != "mul" or not b:
                continue
            p, q = m.a
            if self.rng(p)[1] * self.rng(q)[1] >> m.w:
                continue
            for x, y in ((p, q), (q, p)):
                f = self.linint(x)
                if f is None or f[0] or len(f[1]) != 1:
                    continue
                x = next(iter(f[1]))
                a = d.get(x, 0)
                if f[1][x] != 1 or x in gone or not a or (a > 0) == (b > 0):
                    continue
                yl, yh = self.rng(y)
                k = max(a + b * yl, a + b * yh)
                xl, xh = self.rng(x)
                s += k * (xh if k > 0 else xl)
                gone |= {x, m}
                break
        return s, gone

    def _ub(self, c, d):
        s = c
        if any(x.op == "mul" for x in d):
            t, gone = self._pairs(d)
            if gone:
                s += t
                d = {x: k for x, k in d.items() if x not in gone}
        for x, k in d.items():
            if k == 0:
                continue
            lo, hi = self.rng(x)
            s += k * (hi if k > 0 else lo)
        return s

    def _ub_lin(self, c, d, depth):
        """upper bound of c + sum d using recorded inequalities (bounded depth)"""
        best = self._ub(c, d)
        if depth <= 0:
            return best
        for (lc, ld) in self.lins:
            # e <= e - L  (L <= 0)
            use = False
            for x, k in ld.items():
                q = d.get(x)
                if q and (q > 0) == (k > 0):
                    use = True
                    break
            if not use:
                continue
            nd = dict(d)
            for x, k in ld.items():
                nd[x] = nd.get(x, 0) - k
                if nd[x] == 0:
                    del nd[x]
            b = self._ub_lin(c - lc, nd, depth - 1)
            if b < best:
                best = b
        return best

    def lt(self, a, b):
        """a < b (unsigned) proven?"""
        fa, fb = self.linint(a), self.linint(b)
        if fa is None or fb is None:
            return False
        d = dict(fa[1])
        for x, k in fb[1].items():
            d[x] = d.get(x, 0) - k
            if d[x] == 0:
                del d[x]
        return self._ub_lin(fa[0] - fb[0], d, 2) <= -1

    def le(self, a, b):
        fa, fb = self.linint(a), self.linint(b)
        if fa is None or fb is None:
            return False
        d = dict(fa[1])
        for x, k in fb[1].items():
            d[x] = d.get(x, 0) - k
            if d[x] == 0:
                del d[x]
        return self._ub_lin(fa[0] - fb[0], d, 2) <= 0

    # ------------------------------------------------------------ predicates
    def decide(self, p, norm=True):
        if norm:
            p = self.norm(p)
        if p.op == "c":
            return bool(p.a)
        f = self.facts.get(p)
        if f is not None:
            return f
        if p.op == "not":
            v = self.decide(p.a[0], False)
            return None if v is None else not v
        if p.op == "and":
            a, b = self.decide(p.a[0], False), self.decide(p.a[1], False)
            if a is False or b is False:
                return False
            if a and b:
                return True
            return None
        if p.op == "or":
            a, b = self.decide(p.a[0], False), self.decide(p.a[1], False)
            if a or b:
                return True
            if a is False and b is False:
                return False
            return None
        if p.op == "cat" and p.w == 1:
            pass
        a = single_small(p)
        if a is not None:
            m = self.mask(a)
            tb = table(p)
            st = sf = False
            for v in range(1 << a.w):
                if (m >> v) & 1:
                    x = tb[v]
                    if x is None:
                        st = sf = True
                        break
                    if x:
                        st = True
                    else:
                        sf = True
            if st and not sf:
                return True
            if sf and not st:
                return False
            return None
        s = support(p)
        if len(s) == 2:
            r = self._pair(p, s)
            if r is not None:
                return r
            # fall through: relational facts may still decide
        if p.op in ("eq", "ult", "slt"):
            x, y = p.a
            if x.op == "p" or y.op == "p":
                return None
            lx, hx = self.rng(x)
            ly, hy = self.rng(y)
            if p.op == "slt":
                h = 1 << (x.w - 1)
                if hx < h and hy < h:
                    q = ult(x, y)
                    return self.decide(q, False) if q is not p else None
                # signed intervals
                sx = self.srng(x)
                sy = self.srng(y)
                if sx[1] < sy[0]:
                    return True
                if sx[0] >= sy[1]:
                    return False
                return None
            if p.op == "ult":
                if hx < ly:
                    return True
                if lx >= hy:
                    return False
                if self.lins:
                    if self.lt(x, y):
                        return True
                    if self.le(y, x):
                        return False
                return None
            if hx < ly or hy < lx:
                return False
            if lx == hx == ly == hy:
                return True
            q = ult(x, y)
            if self.facts.get(q):
                return False
            q = ult(y, x)
            if self.facts.get(q):
                return False
            if self.lins:
                if self.lt(x, y) or self.lt(y, x):
                    return False
                if self.le(x, y) and self.le(y, x):
                    return True
            # disequality through parts
            if x.op == "cat" or y.op == "cat":
                for (px, py, n) in tm._align(x, y):
                    tx, ty = from_parts([px]), from_parts([py])
                    if tx is x and ty is y:
                        continue
                    q = eq(tx, ty)
                    if q is not p and self.decide(q, False) is False:
                        return False
                if y.op == "c" or x.op == "c":
                    # ... one of which is known to differ
                    qs = [eq(from_parts([px]), from_parts([py])) for (px, py, n) in tm._align(x, y)]
                    if len(qs) == 2 and self.facts.get(tm.band(qs[0], qs[1])) is False:
                        return False
        return None

    def srng(self, t):
        w = t.w
        h = 1 << (w - 1)
        lo, hi = self.rng(t)
        if hi < h:
            return lo, hi
        if lo >= h:
            return lo - 2 * h, hi - 2 * h
        if t.op == "sext":
            return self.srng(t.a[0])
        if t.op == "lin":
            M = 1 << w
            c, ts = t.a
            c = c if c < M // 2 else c - M
            lo = hi = c
            for k, x in ts:
                k = k if k < M // 2 else k - M
                a_, b_ = self.srng(x)
                lo += k * (a_ if k > 0 else b_)
                hi += k * (b_ if k > 0 else a_)
            if lo >= -h and hi < h:
                return lo, hi
        iv = self.iv.get(("s", t))
        if iv:
            return iv
        return -h, h - 1

    def _pair(self, p, s):
        a, b = s
        if a.w > 8 or b.w > 8:
            return None
        ma, mb = self.mask(a), self.mask(b)
        ca, cb = bin(ma).count("1"), bin(mb).count("1")
        if ca * cb > 600:
            return None
        st = sf = False
        for x in range(1 << a.w):
            if not (ma >> x) & 1:
                continue
            for y in range(1 << b.w):
                if not (mb >> y) & 1:
                    continue
                v = ev(p, {a: x, b: y})
                if v is None:
                    return None
                if v:
                    st = True
                else:
                    sf = True
                if st and sf:
                    return None
        return st

    # ------------------------------------------------------------ refinement
    def assume(self, p, val=True):
        """refine; returns False when the state becomes infeasible"""
        if self.dead:
            return False
        p = self.norm(p)
        if p.op == "c":
            if bool(p.a) != val:
                self.dead = True
                return False
            return True
        if p.op == "not":
            return self.assume(p.a[0], not val)
        v = self.decide(p, False)
        if v is not None:
            if v != val:
                self.dead = True
                return False
            # still useful to turn entailed equalities into substitutions
            if p.op == "eq" and val and p not in self.facts:
                return self._unify(p.a[0], p.a[1])
            return True
        if (p.op == "and" and val) or (p.op == "or" and not val):
            return self.assume(p.a[0], val) and self.assume(p.a[1], val)
        a = single_small(p)
        if a is not None:
            tb = table(p)
            m = self.mask(a)
            nm_ = 0
            for v in range(1 << a.w):
                if (m >> v) & 1 and (tb[v] is None or bool(tb[v]) == val):
                    nm_ |= 1 << v
            return self._setmask(a, nm_)
        if p.op == "eq" and val:
            return self._unify(p.a[0], p.a[1])
        self.facts[p] = val
        if p.op in ("ult", "slt"):
            x, y = p.a
            if not val:
                x, y = y, x      # y >= x  i.e. (new) x <= y
            strict = 1 if val else 0
            if p.op == "slt":
                h = 1 << (x.w - 1)
                # sign knowledge
                sx, sy = self.srng(x), self.srng(y)
                if sx[0] >= 0 or sy[0] >= 0 or sx[1] < 0 or sy[1] < 0:
                    pass
                # y > x >= 0  => y nonneg
                if sx[0] >= 0:
                    if not self.refine(y, sx[0] + strict, h - 1):
                        return False
                    if self.rng(y)[1] < h:
                        return self._lt_refine(x, y, strict)
                if sy[1] < h and self.rng(x)[1] < h and self.rng(y)[1] < h:
                    return self._lt_refine(x, y, strict)
                # keep signed interval of x if bounded by constant
                if y.op == "c" or sy[1] < h - 1:
                    o = self.srng(x)
                    self.iv[("s", x)] = (o[0], min(o[1], sy[1] - strict))
                if sx[0] > -h:
                    o = self.srng(y)
                    self.iv[("s", y)] = (max(o[0], sx[0] + strict), o[1])
                return True
            return self._lt_refine(x, y, strict)
        if p.op == "eq" and self.lins and p.a[0].op != "p" and p.a[1].op != "p":
            # x <= y and x != y
            x, y = p.a
            if self.le(x, y):
                return self._lt_refine(x, y, 1)
            if self.le(y, x):
                return self._lt_refine(y, x, 1)
        return True

    def _lt_refine(self, x, y, strict):
        lx, hx = self.rng(x)
        ly, hy = self.rng(y)
        if not self.refine(x, lx, min(hx, hy - strict)):
            return False
        if not self.refine(y, max(ly, lx + strict), hy):
            return False
        fx, fy = self.linint(x), self.linint(y)
        if fx is not None and fy is not None:
            d = dict(fx[1])
            for t, k in fy[1].items():
                d[t] = d.get(t, 0) - k
                if d[t] == 0:
                    del d[t]
            if len(d) >= 2:
                self.lins.append((fx[0] - fy[0] + strict, d))
        return True

    def refine(self, t, lo, hi):
        if lo > hi:
            self.dead = True
            return False
        t = self.norm(t)
        if t.op == "c":
            if not (lo <= t.a <= hi):
                self.dead = True
                return False
            return True
        cl, ch = self.rng(t)
        if cl > hi or ch < lo:
            self.dead = True
            return False
        if cl >= lo and ch <= hi:
            return True
        lo, hi = max(lo, cl), min(hi, ch)
        a = single_small(t)
        if a is not None:
            m = self.mask(a)
            tb = table(t)
            n = 0
            for v in range(1 << a.w):
                if (m >> v) & 1 and (tb[v] is None or lo <= tb[v] <= hi):
                    n |= 1 << v
            return self._setmask(a, n)
        if t.op == "cat":
            nz = [(i, p) for i, p in enumerate(t.a) if p[0].op != "c"]
            if len(nz) == 1 and nz[0][0] == 0 and nz[0][1][1] == 0:
                b, l, n = nz[0][1]
                rest = t.a[1:]
                if all((p[0].a >> p[1]) & ((1 << p[2]) - 1) == 0 for p in rest):
                    if n == b.w or self.rng(b)[1] < (1 << n):
                        return self.refine(b, lo, hi)
        if t.op == "lin" and len(t.a[1]) == 1 and t.a[1][0][0] == 1:
            M = 1 << t.w
            c = t.a[0]
            x = t.a[1][0][1]
            xl, xh = self.rng(x)
            # no wrap in current knowledge?
            if xh + c < M:
                if lo - c > xl or hi - c < xh:
                    if not self.refine(x, max(xl, lo - c), min(xh, hi - c)):
                        return False
                return True
            c2 = c - M
            if xl + c2 >= 0:
                return self.refine(x, max(xl, lo - c2), min(xh, hi - c2))
        if lo == hi and t.op in ("a", "rd"):
            return self._bind(t, const(t.w, lo))
        self.iv[t] = (lo, hi)
        return True

    def _setmask(self, a, m):
        if m == 0:
            self.dead = True
            return False
        if m & (m - 1) == 0:
            self.dom[a] = m
            if a.op == "a" and isinstance(a.a, tuple) and a.a[0] == "hexd":
                n, v = a.a[1], m.bit_length() - 1
                n = self.norm(n)
                if n.op == "a" and not self._setmask(n, 1 << (v - 48 if v < 65 else v - 55) & self.mask(n)):
                    return False
            return self._bind(a, const(a.w, m.bit_length() - 1))
        self.dom[a] = m
        if a.op == "a" and isinstance(a.a, tuple) and a.a[0] == "hexd":
            return self._hexd(a, m)
        return True

    def _hexd(self, a, m):
        """a is the character of a hexadecimal digit: on a path that knows the kind
        of the digit, character and digit differ by a constant"""
        n = a.a[1]
        for lo, hi, base, first in ((0x30, 0x39, 0x30, 0), (0x41, 0x46, 0x41, 10)):
            k = m & (((1 << (hi - lo + 1)) - 1) << lo)
            if k == m:
                if n.op == "a" and n not in self.sub:
                    nm = (m >> base) << first & self.mask(n)
                    if not self._setmask(n, nm):
                        return False
                return self._bind(a, add(zext(n, 8), const(8, (base - first) & 0xFF)))
        return True

    def _bind(self, a, t):
        """atom a := t"""
        t = self.norm(t)
        if a in atoms(t):
            return True
        # transfer domain knowledge
        if a.w <= 8 and a in self.dom:
            m = self.dom[a]
            if t.op == "c":
                if not (m >> t.a) & 1:
                    self.dead = True
                    return False
            else:
                s = single_small(t)
                if s is not None:
                    tb = table(t)
                    n = 0
                    mm = self.mask(s)
                    for v in range(1 << s.w):
                        if (mm >> v) & 1 and (tb[v] is None or (m >> tb[v]) & 1):
                            n |= 1 << v
                    if n == 0:
                        self.dead = True
                        return False
                    self.dom[s] = n
                else:
                    self.iv[t] = _meet(self.iv.get(t, (0, (1 << t.w) - 1)), (_minbit(m), m.bit_length() - 1))
        elif a in self.iv:
            lo, hi = self.iv.pop(a)
            self.sub[a] = t
            if not self.refine(t, lo, hi):
                return False
        self.sub[a] = t
        # renormalise everything mentioning a
        k = {a: t}
        for x in [x for x in self.dom if x.op == "rd" and x is not a and a in atoms(x)]:
            m = self.dom.pop(x)
            y = self.norm(x)
            if y.op == "c":
                if not (m >> y.a) & 1:
                    self.dead = True
                    return False
            elif y.op in ("a", "rd"):
                if not self._setmask(y, m & self.mask(y)):
                    return False
        for x in [x for x in self.sub if x.op == "rd" and x is not a and a in atoms(x)]:
            y = rd(x.a[0], self.norm(x.a[1]), x.w)
            v = self.sub[x]
            if y not in self.sub:
                self.sub[y] = v
        redo = [(p, v) for p, v in self.facts.items() if a in atoms(p)]
        for p, _ in redo:
            del self.facts[p]
        for x in [x for x in self.iv if not isinstance(x, tuple) and a in atoms(x)]:
            lo, hi = self.iv.pop(x)
            if not self.refine(x, lo, hi):
                return False
        if any(any(a in atoms(x) for x in d) for _, d in self.lins):
            nl = []
            for c, d in self.lins:
                if any(a in atoms(x) for x in d):
                    c2 = c
                    nd = {}
                    for x, q in d.items():
                        f = self.linint(self.norm(x))
                        c2 += q * f[0]
                        for y, r in f[1].items():
                            nd[y] = nd.get(y, 0) + q * r
                            if nd[y] == 0:
                                del nd[y]
                    if not nd:
                        if c2 > 0:
                            self.dead = True
                            return False
                        continue
                    nl.append((c2, nd))
                else:
                    nl.append((c, d))
            self.lins = nl
        # singleton small atoms in the replacement
        for p, v in redo:
            if not self.assume(p, v):
                return False
        s = single_small(t)
        if s is not None and t is s and s in self.dom:
            m = self.dom[s]
            if m & (m - 1) == 0 and s not in self.sub:
                return self._bind(s, const(s.w, m.bit_length() - 1))
        return True

    def _unify(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        p = eq(a, b)
        if p.op == "c":
            if not p.a:
                self.dead = True
                return False
            return True
        if p.op == "not" or p.op != "eq":
            return self.assume(p, True)
        a, b = p.a
        if a.op in ("a", "rd") and b.op in ("a", "rd"):
            # prefer keeping the older, more basic atom
            if a.id < b.id:
                a, b = b, a
            return self._bind(a, b)
        if a.op in ("a", "rd") and a not in atoms(b):
            return self._bind(a, b)
        if b.op in ("a", "rd") and b not in atoms(a):
            return self._bind(b, a)
        if a.op == "cat" or b.op == "cat":
            al = tm._align(a, b)
            if len(al) > 1:
                for (x, y, n) in al:
                    if not self._unify(from_parts([x]), from_parts([y])):
                        return False
                return True
        if a.op == "lin" or b.op == "lin":
            if a.op != "lin":
                a, b = b, a
            # bind a full-width atom with coefficient +-1
            M = 1 << a.w
            for k, x in a.a[1]:
                if x.op == "a" and (k == 1 or k == M - 1) and x not in atoms(b):
                    rest = sub(b, sub(a, scale(x, k)))
                    if x not in atoms(rest):
                        return self._bind(x, rest if k == 1 else neg(rest))
        s = single_small(p)
        if s is not None:
            tb = table(p)
            m = self.mask(s)
            n = 0
            for v in range(1 << s.w):
                if (m >> v) & 1 and (tb[v] is None or tb[v]):
                    n |= 1 << v
            return self._setmask(s, n)
        self.facts[p] = True
        la, ha = self.rng(a)
        lb, hb = self.rng(b)
        lo, hi = max(la, lb), min(ha, hb)
        if lo > hi:
            self.dead = True
            return False
        if not self.refine(a, lo, hi):
            return False
        if not self.refine(b, lo, hi):
            return False
        fa, fb = self.linint(a), self.linint(b)
        if fa is not None and fb is not None:
            d = dict(fa[1])
            for t, k in fb[1].items():
                d[t] = d.get(t, 0) - k
                if d[t] == 0:
                    del d[t]
            if d:
                self.lins.append((fa[0] - fb[0], d))
                self.lins.append((fb[0] - fa[0], {t: -k for t, k in d.items()}))
        return True

    def same(self, a, b):
        """a == b proven"""
        a, b = self.norm(a), self.norm(b)
        if a is b:
            return True
        if a.w != b.w:
            w = max(a.w, b.w)
            a, b = zext(a, w), zext(b, w)
            if a is b:
                return True
        if self.decide(eq(a, b)) is True:
            return True
        if a.op == "p" or b.op == "p" or a.op == "c" and b.op == "c":
            return False
        if a.op == "rd" and b.op == "rd" and a.a[0] == b.a[0]:
            x, y = self.canon(a), self.canon(b)
            return x is y
        fa, fb = self.linint(a), self.linint(b)
        return fa is not None and fb is not None and fa[0] == fb[0] and \
            {x: k for x, k in fa[1].items() if k} == {x: k for x, k in fb[1].items() if k}

    def canon(self, t):
        """t with narrowed values that fit replaced by the values themselves"""
        if t.op == "rd":
            o = self.canon(t.a[1])
            return t if o is t.a[1] else rd(t.a[0], o, t.w)
        if t.op == "lin":
            c, d = to_lin(t)
            n = {x: self.canon(x) for x in d}
            if all(x is y for x, y in n.items()):
                return t
            r = const(t.w, c)
            for x, k in d.items():
                r = add(r, scale(n[x], k))
            return r
        if t.op == "cat" and len(t.a) == 2:
            b, lo, n = t.a[0]
            c, cl, cn = t.a[1]
            if lo == 0 and b.op != "c" and c.op == "c" and not (c.a >> cl) & ((1 << cn) - 1):
                if n < b.w:
                    if self.rng(b)[1] < 1 << n:
                        return self.canon(zext(b, t.w) if b.w <= t.w else slice_(b, 0, t.w))
                elif b.op == "lin":
                    f = self.linint(b)
                    if f is not None and b not in f[1] and all(x.w <= t.w for x in f[1]):
                        r = const(t.w, f[0] & ((1 << t.w) - 1))
                        for x, k in f[1].items():
                            r = add(r, scale(zext(x, t.w), k))
                        return r
        return t

    def differ(self, a, b):
        return self.decide(eq(self.norm(a), self.norm(b))) is False

    def describe(self, atoms=None):
        out = []
        for a, m in self.dom.items():
            if a in self.sub:
                continue
            if m == FULL[a.w]:
                continue
            vs = [v for v in range(1 << a.w) if (m >> v) & 1]
            if len(vs) > 8:
                inv = [v for v in range(1 << a.w) if not (m >> v) & 1]
                if len(inv) <= 8:
                    out.append("%s∉{%s}" % (show(a), ",".join(hex(v) for v in inv)))
                else:
                    out.append("%s∈[%d..%d]#%d" % (show(a), vs[0], vs[-1], len(vs)))
            else:
                out.append("%s∈{%s}" % (show(a), ",".join(hex(v) for v in vs)))
        for a, t in self.sub.items():
            out.append("%s=%s" % (show(a), show(t)))
        for p, v in self.facts.items():
            out.append(show(p) if v else "!" + show(p))
        for t, (lo, hi) in self.iv.items():
            if not isinstance(t, tuple):
                out.append("%s∈[%d,%d]" % (show(t), lo, hi))
        return "; ".join(out)


def _meet(a, b):
    return max(a[0], b[0]), min(a[1], b[1])
