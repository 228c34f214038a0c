"""Value terms of the abstract domain.

Values are hash-consed terms in a canonical form that is insensitive to how the
source spells a computation: bit-provenance concatenations (`cat`) for anything
made from shifts, masks, byte splits and disjoint sums; affine sums (`lin`) for
other additions; opaque operators otherwise.  Equal canonical terms denote equal
run-time values (value numbering); nothing is ever executed.
"""

_tab = {}
_next = [0]


class T:
    __slots__ = ("op", "w", "a", "id", "_sup", "_tbl", "_at")

    def __repr__(self):
        return show(self)

    def __lt__(self, o):
        return self.id < o.id


def _mk(op, w, a):
    k = (op, w, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        t._sup = None
        t._tbl = None
        t._at = None
        _next[0] += 1
        t.id = _next[0]
        _tab[k] = t
    return t


def const(w, v):
    return _mk("c", w, v & ((1 << w) - 1))


TRUE = const(1, 1)
FALSE = const(1, 0)


def atom(name, w):
    return _mk("a", w, name)


def is_c(t):
    return t.op == "c"


def ptr(obj, off):
    """pointer into abstract object `obj` (any hashable) at 64-bit offset term"""
    return _mk("p", 64, (obj, off))


NULL = const(64, 0)


def support(t):
    s = t._sup
    if s is None:
        op = t.op
        if op == "c":
            s = frozenset()
        elif op == "a" or op == "rd":
            s = frozenset((t,))
        elif op == "cat":
            s = frozenset()
            for p in t.a:
                s |= support(p[0])
        elif op == "lin":
            s = frozenset()
            for _, x in t.a[1]:
                s |= support(x)
        elif op == "p":
            s = support(t.a[1])
        else:
            s = frozenset()
            for x in t.a:
                if isinstance(x, T):
                    s |= support(x)
        t._sup = s
    return s


def rd(obj, off, w):
    """value of memory object `obj` (initial or havocked version) at offset term"""
    return _mk("rd", w, (obj, off))


def atoms(t):
    """support plus every atom nested in the offsets of memory reads"""
    s = t._at
    if s is None:
        s = support(t)
        for x in s:
            if x.op == "rd":
                s = s | atoms(x.a[1])
        t._at = s
    return s


# ---------------------------------------------------------------- cat / slices

def parts(t):
    """list of (term, lo, n), LSB first"""
    if t.op == "cat":
        return list(t.a)
    return [(t, 0, t.w)]


def _part_slice(p, lo, n):
    b, blo, _ = p
    if b.op == "c":
        return (const(n, b.a >> (blo + lo)), 0, n)
    return (b, blo + lo, n)


def from_parts(ps):
    """canonical term from parts LSB first"""
    out = []
    for (b, lo, n) in ps:
        if n == 0:
            continue
        if b.op == "c":
            b = const(n, b.a >> lo)
            lo = 0
        elif b.op == "cat":
            for q in parts(_slice(b, lo, n)):
                _push(out, q)
            continue
        elif not (lo == 0 and n == b.w):
            s = _slice_base(b, lo, n)
            if s is not None:
                for q in parts(s):
                    _push(out, q)
                continue
        _push(out, (b, lo, n))
    if len(out) == 1:
        b, lo, n = out[0]
        if lo == 0 and n == b.w:
            return b
        return _mk("cat", n, tuple(out))
    w = sum(p[2] for p in out)
    return _mk("cat", w, tuple(out))


def _push(out, p):
    if out:
        q = out[-1]
        if q[0].op == "c" and p[0].op == "c":
            out[-1] = (const(q[2] + p[2], q[0].a | (p[0].a << q[2])), 0, q[2] + p[2])
            return
        if q[0] is p[0] and q[0].op != "c" and q[1] + q[2] == p[1]:
            out[-1] = (q[0], q[1], q[2] + p[2])
            return
    out.append(p)


def _slice_base(b, lo, n):
    """try to push a slice into a non-cat base; None = keep opaque"""
    if b.op == "lin" and lo == 0:
        c, ts = b.a
        d = {}
        cc = c
        for coef, x in ts:
            y = slice_(x, 0, n)
            c2, d2 = to_lin(y)
            cc += coef * c2
            for k, v in d2.items():
                d[k] = d.get(k, 0) + coef * v
        return from_lin(n, cc, d)
    if b.op == "sext":
        x = b.a[0]
        if lo + n <= x.w:
            return slice_(x, lo, n)
    if b.op in ("and", "or", "xor") and b.w > 1:
        f = {"and": band, "or": bor, "xor": bxor}[b.op]
        return f(slice_(b.a[0], lo, n), slice_(b.a[1], lo, n))
    if b.op == "not" and b.w > 1:
        return bnot(slice_(b.a[0], lo, n))
    if b.op == "mul" and lo == 0:
        return mul(slice_(b.a[0], 0, n), slice_(b.a[1], 0, n))
    return None


def _slice(t, lo, n):
    if lo == 0 and n == t.w:
        return t
    if t.op == "c":
        return const(n, t.a >> lo)
    if t.op == "cat":
        out = []
        pos = 0
        for p in t.a:
            a = max(lo, pos)
            b = min(lo + n, pos + p[2])
            if a < b:
                out.append(_part_slice(p, a - pos, b - a))
            pos += p[2]
        return from_parts(out)
    s = _slice_base(t, lo, n)
    if s is not None:
        return s
    return _mk("cat", n, ((t, lo, n),))


slice_ = _slice


def zext(t, w):
    if w == t.w:
        return t
    if w < t.w:
        return slice_(t, 0, w)
    return from_parts(parts(t) + [(const(w - t.w, 0), 0, w - t.w)])


def trunc(t, w):
    return slice_(t, 0, w)


def concat(lsb_first):
    ps = []
    for t in lsb_first:
        ps += parts(t)
    return from_parts(ps)


def nbits(t):
    """number of low bits that may be non-zero"""
    if t.op == "c":
        return t.a.bit_length()
    if t.op == "cat":
        n = t.w
        for p in reversed(t.a):
            if p[0].op == "c":
                v = (p[0].a >> p[1]) & ((1 << p[2]) - 1)
                if v == 0:
                    n -= p[2]
                    continue
                n -= p[2] - v.bit_length()
            break
        return n
    return t.w


def sext(t, w):
    if w == t.w:
        return t
    if t.op == "c":
        v = t.a
        if v >> (t.w - 1):
            v -= 1 << t.w
        return const(w, v)
    if nbits(t) < t.w:
        return zext(t, w)
    return _mk("sext", w, (t,))


# ---------------------------------------------------------------- linear

def to_lin(t):
    if t.op == "c":
        return t.a, {}
    if t.op == "lin":
        return t.a[0], {x: c for c, x in t.a[1]}
    if t.op == "cat":
        pos = 0
        c = 0
        d = {}
        w = t.w
        for p in t.a:
            b, lo, n = p
            if b.op == "c":
                c += ((b.a >> lo) & ((1 << n) - 1)) << pos
            else:
                k = from_parts([p, (const(w - n, 0), 0, w - n)]) if n < w else from_parts([p])
                if k.op == "cat" and k is not t and len(k.a) > 2:
                    d[k] = d.get(k, 0) + (1 << pos)
                else:
                    d[k] = d.get(k, 0) + (1 << pos)
            pos += n
        return c, d
    return 0, {t: 1}


def from_lin(w, c, d):
    m = (1 << w) - 1
    c &= m
    d = {x: k & m for x, k in d.items() if k & m}
    if not d:
        return const(w, c)
    # try to rebuild a concatenation of disjoint pieces
    ok = True
    rng = []
    for x, k in d.items():
        if k & (k - 1):
            ok = False
            break
        p = k.bit_length() - 1
        n = nbits(x)
        if p + n > w:
            n = w - p
        rng.append((p, n, x))
    if ok:
        rng.sort(key=lambda r: r[0])
        pos = 0
        ps = []
        for p, n, x in rng:
            if p < pos or (c >> p) & ((1 << n) - 1):
                ok = False
                break
            if p > pos:
                ps.append((const(p - pos, c >> pos), 0, p - pos))
            ps.append((x, 0, n))
            pos = p + n
        if ok:
            if pos < w:
                ps.append((const(w - pos, c >> pos), 0, w - pos))
            return from_parts(ps)
    return _mk("lin", w, (c, tuple(sorted(((k, x) for x, k in d.items()), key=lambda z: z[1].id))))


def add(a, b):
    w = a.w
    if a.op == "p" or b.op == "p":
        if b.op == "p":
            a, b = b, a
        return ptr(a.a[0], add(a.a[1], b))
    if a.op == "c" and b.op == "c":
        return const(w, a.a + b.a)
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    d = dict(da)
    for x, k in db.items():
        d[x] = d.get(x, 0) + k
    return from_lin(w, ca + cb, d)


def scale(a, k):
    if a.op == "c":
        return const(a.w, a.a * k)
    c, d = to_lin(a)
    return from_lin(a.w, c * k, {x: v * k for x, v in d.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    if a.op == "p" and b.op == "p" and a.a[0] == b.a[0]:
        return sub(a.a[1], b.a[1])
    if a.op == "p":
        return ptr(a.a[0], sub(a.a[1], b))
    return add(a, neg(b))


def mul(a, b):
    w = a.w
    if b.op == "c":
        a, b = b, a
    if a.op == "c":
        return scale(b, a.a)
    ca, da = to_lin(a)
    cb, db = to_lin(b)
    d = {}
    for x, k in da.items():
        if cb:
            d[x] = d.get(x, 0) + k * cb
    for y, k in db.items():
        if ca:
            d[y] = d.get(y, 0) + k * ca
    for x, kx in da.items():
        for y, ky in db.items():
            p, q = (x, y) if x.id <= y.id else (y, x)
            m = _mk("mul", w, (p, q))
            d[m] = d.get(m, 0) + kx * ky
    return from_lin(w, ca * cb, d)


# ---------------------------------------------------------------- bitwise

def _align(a, b):
    pa, pb = parts(a), parts(b)
    out = []
    i = j = 0
    oa = ob = 0
    while i < len(pa) and j < len(pb):
        na = pa[i][2] - oa
        nb = pb[j][2] - ob
        n = min(na, nb)
        out.append((_part_slice(pa[i], oa, n), _part_slice(pb[j], ob, n), n))
        oa += n
        ob += n
        if oa == pa[i][2]:
            i += 1
            oa = 0
        if ob == pb[j][2]:
            j += 1
            ob = 0
    return out


def _runs(v, n):
    """split n-bit constant into runs (bit, length) LSB first"""
    out = []
    i = 0
    while i < n:
        b = (v >> i) & 1
        j = i
        while j < n and ((v >> j) & 1) == b:
            j += 1
        out.append((b, j - i))
        i = j
    return out


def _bitop(a, b, op):
    w = a.w
    if a.op == "c" and b.op == "c":
        return const(w, {"and": a.a & b.a, "or": a.a | b.a, "xor": a.a ^ b.a}[op])
    if a is b:
        return const(w, 0) if op == "xor" else a
    ps = []
    for (x, y, n) in _align(a, b):
        if x[0].op == "c":
            x, y = y, x
        if y[0].op == "c":
            v = (y[0].a >> y[1]) & ((1 << n) - 1)
            pos = 0
            for bit, ln in _runs(v, n):
                xp = _part_slice(x, pos, ln)
                if op == "and":
                    ps.append(xp if bit else (const(ln, 0), 0, ln))
                elif op == "or":
                    ps.append((const(ln, -1), 0, ln) if bit else xp)
                else:
                    if not bit:
                        ps.append(xp)
                    else:
                        ps += parts(bnot(from_parts([xp])))
                pos += ln
        else:
            tx, ty = from_parts([x]), from_parts([y])
            if tx is ty:
                ps += parts(const(n, 0) if op == "xor" else tx)
                continue
            if n == 1 and (bnot(tx) is ty):
                ps += parts(const(1, 0 if op == "and" else 1))
                continue
            if tx.id > ty.id:
                tx, ty = ty, tx
            ps.append((_mk(op, n, (tx, ty)), 0, n))
    return from_parts(ps)


def band(a, b):
    return _bitop(a, b, "and")


def bor(a, b):
    return _bitop(a, b, "or")


def bxor(a, b):
    return _bitop(a, b, "xor")


def bnot(a):
    if a.op == "c":
        return const(a.w, ~a.a)
    if a.op == "not":
        return a.a[0]
    if a.op == "cat":
        return from_parts([q for p in a.a for q in parts(bnot(from_parts([p])) if not (len(a.a) == 1) else _mk("not", a.w, (a,)))])
    return _mk("not", a.w, (a,))


def shl(a, b):
    w = a.w
    if b.op == "c":
        k = b.a
        if k >= w:
            return const(w, 0)
        return from_parts([(const(k, 0), 0, k)] + parts(slice_(a, 0, w - k))) if k else a
    return _mk("shl", w, (a, b))


def lshr(a, b):
    w = a.w
    if b.op == "c":
        k = b.a
        if k >= w:
            return const(w, 0)
        return zext(slice_(a, k, w - k), w)
    return _mk("lshr", w, (a, b))


def ashr(a, b):
    if nbits(a) < a.w:
        return lshr(a, b)
    if b.op == "c" and b.a < a.w:
        return sext(slice_(a, b.a, a.w - b.a), a.w)
    return _mk("ashr", a.w, (a, b))


def op2(op, a, b):
    w = a.w
    if a.op == "c" and b.op == "c":
        v = _eval_op(op, w, a.a, b.a)
        if v is not None:
            return const(w, v)
    if b.op == "c":
        if op in ("udiv", "sdiv") and b.a == 1:
            return a
        if op in ("urem", "srem") and b.a == 1:
            return const(w, 0)
        pos = op[0] == "u" or nbits(a) < w
        if pos and b.a and b.a & (b.a - 1) == 0 and b.a < (1 << (w - 1)):
            k = b.a.bit_length() - 1
            if op in ("udiv", "sdiv"):
                return lshr(a, const(w, k))
            if op in ("urem", "srem"):
                return band(a, const(w, b.a - 1))
    if op in ("sdiv", "srem") and nbits(a) < w and nbits(b) < w:
        op = "u" + op[1:]
    return _mk(op, w, (a, b))


def _sg(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _eval_op(op, w, x, y):
    m = (1 << w) - 1
    if op == "udiv":
        return x // y if y else None
    if op == "urem":
        return x % y if y else None
    if op in ("sdiv", "srem"):
        a, b = _sg(x, w), _sg(y, w)
        if b == 0:
            return None
        q = abs(a) // abs(b)
        if (a < 0) != (b < 0):
            q = -q
        return (q if op == "sdiv" else a - q * b) & m
    if op == "shl":
        return (x << y) & m if y < w else 0
    if op == "lshr":
        return x >> y if y < w else 0
    if op == "ashr":
        return (_sg(x, w) >> min(y, w)) & m
    if op == "mul":
        return x * y & m
    return None


# ---------------------------------------------------------------- predicates

def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.a == b.a else FALSE
    if a.op == "p" or b.op == "p":
        if a.op == "p" and b.op == "p":
            if a.a[0] == b.a[0]:
                return eq(a.a[1], b.a[1])
            if a.a[0][0] != "*" and b.a[0][0] != "*":
                return FALSE
            x, y = (a, b) if a.id < b.id else (b, a)
            return _mk("eq", 1, (x, y))
        o = b if a.op == "p" else a
        if o.op == "c":
            return FALSE
        x, y = (a, b) if a.id < b.id else (b, a)
        return _mk("eq", 1, (x, y))
    if a.op == "lin" or b.op == "lin":
        w = a.w
        m = (1 << w) - 1
        c, d = to_lin(sub(a, b)) if not (a.op == "lin" and b.op == "c" and len(a.a[1]) == 1) else to_lin(sub(a, b))
        d = {x: k & m for x, k in d.items() if k & m}
        if not d:
            return TRUE if (c & m) == 0 else FALSE
        if len(d) == 1:
            (x, k), = d.items()
            if k == 1:
                return eq(x, const(w, -c))
            if k == m:
                return eq(x, const(w, c))
        # canonical: smallest-id term has coefficient with positive sign
        xs = sorted(d.items(), key=lambda z: z[0].id)
        if xs[0][1] >> (w - 1):
            c = -c
            d = {x: -k for x, k in d.items()}
        pos = {x: k & m for x, k in d.items() if not ((k & m) >> (w - 1))}
        ngt = {x: -k for x, k in d.items() if ((k & m) >> (w - 1))}
        l = from_lin(w, 0, pos)
        r = from_lin(w, -c, ngt)
        if l is r:
            return TRUE
        if l.op == "lin" or r.op == "lin":
            return _mk("eq", 1, (l, r))
        a, b = l, r
        if a.op == "c" and b.op == "c":
            return TRUE if a.a == b.a else FALSE
    if a.w == 1:
        if a.op == "c":
            a, b = b, a
        if b.op == "c":
            return a if b.a else bnot(a)
        return bnot(bxor(a, b))
    if a.op == "cat" or b.op == "cat":
        ra, rb = [], []
        pieces = 0
        for (x, y, n) in _align(a, b):
            tx, ty = from_parts([x]), from_parts([y])
            if tx is ty:
                continue
            if tx.op == "c" and ty.op == "c":
                if tx.a != ty.a:
                    return FALSE
                continue
            ra.append(x)
            rb.append(y)
            pieces += 1
        if not ra:
            return TRUE
        a, b = from_parts(ra), from_parts(rb)
        if a.w == 1:
            return eq(a, b)
        if pieces == 1 and (a.op == "lin" or b.op == "lin"):
            return eq(a, b)
    if a.op == "not" and b.op == "not":
        return eq(a.a[0], b.a[0])
    if a.op == "not" and b.op == "c":
        return eq(a.a[0], bnot(b))
    if a.op == "c" or (b.op != "c" and a.id > b.id):
        a, b = b, a
    if b.op == "c" and a.w > 1:
        if a.op == "or" and b.a == 0 or a.op == "and" and b.a == (1 << a.w) - 1:
            return band(eq(a.a[0], b), eq(a.a[1], b))
        if a.op == "xor" and b.a == 0:
            return eq(a.a[0], a.a[1])
    if a.op == "sext" and b.op == "c":
        x = a.a[0]
        if sext(const(x.w, b.a), a.w) is b:
            return eq(x, const(x.w, b.a))
        return FALSE
    return _mk("eq", 1, (a, b))


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.a < b.a else FALSE
    if a.op == "p" and b.op == "p" and a.a[0] == b.a[0]:
        return ult(a.a[1], b.a[1])
    if b.op == "c" and b.a == 0:
        return FALSE
    if a.op == "c" and a.a == (1 << a.w) - 1:
        return FALSE
    if a.w > 1:
        n = max(nbits(a), nbits(b))
        if n < a.w:
            return ult(slice_(a, 0, n), slice_(b, 0, n))
    if b.op == "c" and b.a == 1:
        return eq(a, const(a.w, 0))
    if b.op == "c" and b.a == (1 << a.w) - 1:
        return bnot(eq(a, b))
    if a.op == "c" and a.a == 0:
        return bnot(eq(b, a))
    if a.op == "c" and a.a == (1 << a.w) - 2:
        return eq(b, const(b.w, -1))
    if a.op == "c":
        # c < x   ==   not (x < c+1)
        return bnot(ult(b, const(b.w, a.a + 1)))
    if a.w == 1:
        return band(bnot(a), b)
    # drop common high parts
    pa, pb = parts(a), parts(b)
    if len(pa) > 1 and len(pb) > 1 and pa[-1] == pb[-1]:
        return ult(from_parts(pa[:-1]), from_parts(pb[:-1]))
    return _mk("ult", 1, (a, b))


def slt(a, b):
    if a is b:
        return FALSE
    w = a.w
    if a.op == "c" and b.op == "c":
        return TRUE if _sg(a.a, w) < _sg(b.a, w) else FALSE
    if nbits(a) < w and nbits(b) < w:
        return ult(a, b)
    if a.op == "sext" and b.op == "sext" and a.a[0].w == b.a[0].w:
        return slt(a.a[0], b.a[0])
    if a.op == "sext" and b.op == "c":
        x = a.a[0]
        c = const(x.w, b.a)
        if sext(c, w) is b:
            return slt(x, c)
    return _mk("slt", 1, (a, b))


def icmp(pred, a, b):
    if pred == "eq":
        return eq(a, b)
    if pred == "ne":
        return bnot(eq(a, b))
    if pred == "ult":
        return ult(a, b)
    if pred == "ugt":
        return ult(b, a)
    if pred == "ule":
        return bnot(ult(b, a))
    if pred == "uge":
        return bnot(ult(a, b))
    if pred == "slt":
        return slt(a, b)
    if pred == "sgt":
        return slt(b, a)
    if pred == "sle":
        return bnot(slt(b, a))
    if pred == "sge":
        return bnot(slt(a, b))
    raise ValueError(pred)


def opaque(op, w, *args):
    return _mk(op, w, tuple(args))


# ---------------------------------------------------------------- subst / eval

def subst(t, m, memo=None):
    """m: atom -> term"""
    if not (atoms(t) & m.keys()):
        return t
    if memo is None:
        memo = {}
    r = memo.get(t)
    if r is not None:
        return r
    op = t.op
    if op == "a":
        r = m[t]
    elif op == "rd":
        if t in m:
            r = m[t]
        else:
            r = rd(t.a[0], subst(t.a[1], m, memo), t.w)
            if r in m and r is not t:
                r = m[r]
    elif op == "cat":
        ps = []
        for (b, lo, n) in t.a:
            if b.op == "c":
                ps.append((b, lo, n))
            else:
                nb = subst(b, m, memo)
                ps += parts(slice_(nb, lo, n))
        r = from_parts(ps)
    elif op == "lin":
        c, ts = t.a
        r = const(t.w, c)
        for k, x in ts:
            r = add(r, scale(subst(x, m, memo), k))
    elif op == "p":
        r = ptr(t.a[0], subst(t.a[1], m, memo))
    else:
        r = rebuild(t, tuple(subst(x, m, memo) if isinstance(x, T) else x for x in t.a))
    memo[t] = r
    return r


def rebuild(t, args):
    op = t.op
    if op == "not":
        return bnot(args[0])
    if op == "and":
        return band(*args)
    if op == "or":
        return bor(*args)
    if op == "xor":
        return bxor(*args)
    if op == "eq":
        return eq(*args)
    if op == "ult":
        return ult(*args)
    if op == "slt":
        return slt(*args)
    if op == "mul":
        return mul(*args)
    if op == "shl":
        return shl(*args)
    if op == "lshr":
        return lshr(*args)
    if op == "ashr":
        return ashr(*args)
    if op in ("udiv", "urem", "sdiv", "srem"):
        return op2(op, *args)
    if op == "sext":
        return sext(args[0], t.w)
    if op == "tbl":
        return tbl(args[0], args[1], t.w)
    return _mk(op, t.w, args)


def tbl(values, idx, w):
    """constant-table lookup: values is a tuple of ints"""
    if idx.op == "c":
        if idx.a < len(values):
            return const(w, values[idx.a])
    return _mk("tbl", w, (values, idx))


def ev(t, val):
    """value of t under {atom: int}; None when not evaluable"""
    op = t.op
    if op == "c":
        return t.a
    if op == "a" or op == "rd":
        return val.get(t)
    if op == "cat":
        r = 0
        pos = 0
        for (b, lo, n) in t.a:
            v = ev(b, val)
            if v is None:
                return None
            r |= ((v >> lo) & ((1 << n) - 1)) << pos
            pos += n
        return r
    m = (1 << t.w) - 1
    if op == "lin":
        r = t.a[0]
        for k, x in t.a[1]:
            v = ev(x, val)
            if v is None:
                return None
            r += k * v
        return r & m
    if op == "p":
        return None
    if op == "tbl":
        i = ev(t.a[1], val)
        if i is None or i >= len(t.a[0]):
            return None
        return t.a[0][i] & m
    if not all(isinstance(x, T) for x in t.a):
        return None
    xs = [ev(x, val) for x in t.a]
    if any(x is None for x in xs):
        return None
    if op == "not":
        return ~xs[0] & m
    if op == "and":
        return xs[0] & xs[1]
    if op == "or":
        return xs[0] | xs[1]
    if op == "xor":
        return xs[0] ^ xs[1]
    if op == "eq":
        return int(xs[0] == xs[1])
    if op == "ult":
        return int(xs[0] < xs[1])
    if op == "slt":
        w = t.a[0].w
        return int(_sg(xs[0], w) < _sg(xs[1], w))
    if op == "sext":
        return _sg(xs[0], t.a[0].w) & m
    return _eval_op(op, t.w, xs[0], xs[1]) if len(xs) == 2 else None


def table(t):
    """for a term over exactly one atom of <= 8 bits: list of values (None entries possible)"""
    if t._tbl is None:
        s = support(t)
        (a,) = s
        t._tbl = [ev(t, {a: v}) for v in range(1 << a.w)]
    return t._tbl


def single_small(t):
    s = support(t)
    if len(s) == 1:
        (a,) = s
        if a.w <= 8:
            return a
    return None


def nm(n):
    if isinstance(n, tuple):
        return ".".join(nm(x) for x in n if x not in ("", None))
    return str(n)


def show(t, d=0):
    if d > 6:
        return "…"
    op = t.op
    if op == "c":
        return hex(t.a) if t.a > 9 else str(t.a)
    if op == "a":
        return nm(t.a)
    if op == "rd":
        return "%s[%s]" % (nm(t.a[0]), show(t.a[1], d + 1))
    if op == "cat":
        ps = list(t.a)
        while ps and ps[-1][0].op == "c" and ps[-1][0].a == 0:
            ps.pop()
        if len(ps) == 1 and ps[0][1] == 0 and ps[0][2] == ps[0][0].w:
            return show(ps[0][0], d + 1)
        out = []
        for (b, lo, n) in reversed(ps):
            s = show(b, d + 1)
            if b.op != "c" and not (lo == 0 and n == b.w):
                s += "[%d:%d]" % (lo + n - 1, lo)
            elif b.op == "c":
                s += "'%d" % n
            out.append(s)
        return "{" + ",".join(out) + "}"
    if op == "lin":
        c, ts = t.a
        m = 1 << t.w
        out = []
        for k, x in ts:
            k2 = k if k < m // 2 else k - m
            out.append(("%d*" % k2 if k2 != 1 else "") + show(x, d + 1))
        c2 = c if c < m // 2 else c - m
        if c2:
            out.append(str(c2))
        return "(" + " + ".join(out) + ")"
    if op == "p":
        o, f = t.a
        return "&%s+%s" % (nm(o), show(f, d + 1))
    if op == "not":
        return "!" + show(t.a[0], d + 1)
    if op in ("eq", "ult", "slt", "and", "or", "xor", "mul", "udiv", "urem", "shl", "lshr"):
        s = {"eq": "==", "ult": "<", "slt": "<s", "and": "&", "or": "|", "xor": "^", "mul": "*"}.get(op, op)
        return "(%s %s %s)" % (show(t.a[0], d + 1), s, show(t.a[1], d + 1))
    return "%s(%s)" % (op, ", ".join(show(x, d + 1) if isinstance(x, T) else nm(x) if isinstance(x, tuple) and len(x) < 6 else str(x)[:20] for x in t.a))
