"""Arithmetic domains: machine integers as mathematical integers (IntDom, wrap-around made explicit and
signed overflow an obligation) or as bit vectors (BVDom).  Constants are kept as canonical signed python ints;
i1 values are python bools / z3 Bools."""
import z3
from ll import Unsupported


def isc(x):
    return isinstance(x, int) and not isinstance(x, bool)


def isb(x):
    return isinstance(x, bool)


def csigned(w, x):
    x &= (1 << w) - 1
    return x - (1 << w) if x >> (w - 1) else x


def B(x):
    return z3.BoolVal(x) if isinstance(x, bool) else x


def And(*xs):
    xs = [x for l in xs for x in (l if isinstance(l, (list, tuple)) else [l])]
    r = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        r.append(x)
    if not r:
        return True
    return r[0] if len(r) == 1 else z3.And(r)


def Or(*xs):
    xs = [x for l in xs for x in (l if isinstance(l, (list, tuple)) else [l])]
    r = []
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        r.append(x)
    if not r:
        return False
    return r[0] if len(r) == 1 else z3.Or(r)


def Not(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def Implies(a, b):
    if a is True:
        return b
    if a is False or b is True:
        return True
    if b is False:
        return Not(a)
    return z3.Implies(B(a), B(b))


def Iff(a, b):
    if isinstance(a, bool):
        return b if a else Not(b)
    if isinstance(b, bool):
        return a if b else Not(a)
    return a == b


class IntDom:
    name = 'int'

    def __init__(self, eng):
        self.eng = eng
        self.rng = {}
        self.cache = {}
        self.keep = []

    # ---- terms
    def sort(self, w):
        return z3.IntSort()

    def lift(self, x, w=None):
        return z3.IntVal(x) if isc(x) else x

    def fresh(self, w, name='v', lo=None, hi=None):
        v = z3.Int(self.eng.nm(name))
        a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
        lo = a if lo is None else lo
        hi = b if hi is None else hi
        self.setr(v, lo, hi)
        self.eng.fact(z3.And(v >= lo, v <= hi))
        return v

    def ghost(self, name):
        """unbounded mathematical integer"""
        return z3.Int(self.eng.nm(name))

    def setr(self, t, lo, hi):
        self.keep.append(t)
        i = t.get_id()
        o = self.rng.get(i)
        if o:
            lo = max(lo, o[0]) if o[0] is not None and lo is not None else (o[0] if lo is None else lo)
            hi = min(hi, o[1]) if o[1] is not None and hi is not None else (o[1] if hi is None else hi)
        self.rng[i] = (lo, hi)
        return t

    INF = 1 << 200

    def range(self, t):
        if isc(t):
            return (t, t)
        r = self.rng.get(t.get_id())
        if r:
            return r
        return (-self.INF, self.INF)

    def inrange(self, w, t):
        if isc(t):
            return -(1 << (w - 1)) <= t < (1 << (w - 1))
        return z3.And(t >= -(1 << (w - 1)), t <= (1 << (w - 1)) - 1)

    def fromleaf(self, w, t):
        """a term read from memory: give it its machine range"""
        a, b = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if t.get_id() not in self.rng:
            self.eng.fact(z3.And(t >= a, t <= b))
        self.setr(t, a, b)
        return t

    def ite(self, c, a, b):
        if isc(a) and isc(b) and a == b:
            return a
        t = z3.If(B(c), self.lift(a), self.lift(b))
        ra, rb = self.range(a), self.range(b)
        self.setr(t, min(ra[0], rb[0]), max(ra[1], rb[1]))
        return t

    def u(self, w, a):
        if isc(a):
            return a & ((1 << w) - 1)
        lo, hi = self.range(a)
        if lo >= 0:
            return a
        if hi < 0:
            t = a + (1 << w)
            return self.setr(t, lo + (1 << w), hi + (1 << w))
        t = z3.If(a < 0, a + (1 << w), a)
        return self.setr(t, 0, (1 << w) - 1)

    def wrap(self, w, t):
        """mathematical value -> canonical signed representation"""
        if isc(t):
            return csigned(w, t)
        M = 1 << w
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        lo, hi = self.range(t)
        if lo >= mn and hi <= mx:
            return t
        if lo >= mn - M and hi <= mx + M:
            r = t
            if hi > mx:
                r = z3.If(t > mx, t - M, r)
            if lo < mn:
                r = z3.If(t < mn, t + M, r)
            return self.setr(r, mn, mx)
        key = ('wrap', w, t.get_id())
        c = self.cache.get(key)
        if c is None:
            k = z3.Int(self.eng.nm('wk'))
            r = z3.Int(self.eng.nm('wr'))
            self.eng.fact(z3.And(t == r + M * k, r >= mn, r <= mx))
            self.setr(r, mn, mx)
            self.cache[key] = c = r
            self.keep.append(t)
        return c

    def _lin(self, w, t, lo, hi, fl, what, a, b):
        mn, mx = -(1 << (w - 1)), (1 << (w - 1)) - 1
        if not isc(t):
            self.setr(t, lo, hi)
            lo, hi = self.range(t)
        if lo >= mn and hi <= mx:
            return t
        if 'nsw' in fl:
            if isc(t):
                self.eng.oblige('nsw', mn <= t <= mx, 'signed overflow in ' + what)
                return csigned(w, t)
            self.eng.oblige('nsw', z3.And(t >= mn, t <= mx), 'signed overflow in ' + what)
            return t      # the mathematical sum; in range whenever the obligation holds
        return self.wrap(w, t)

    def add(self, w, a, b, fl=()):
        if isc(a) and isc(b):
            t = a + b
        elif isc(a) and a == 0:
            return b
        elif isc(b) and b == 0:
            return a
        else:
            t = self.lin(self.lift(a) + self.lift(b))
        ra, rb = self.range(a), self.range(b)
        return self._lin(w, t, ra[0] + rb[0], ra[1] + rb[1], fl, 'addition', a, b)

    def lin(self, t):
        return z3.simplify(t, som=False) if t.num_args() < 20 else t

    def sub(self, w, a, b, fl=()):
        if isc(b) and b == 0:
            return a
        if isc(a) and isc(b):
            t = a - b
        else:
            t = self.lin(self.lift(a) - self.lift(b))
            if z3.is_int_value(t):
                t = t.as_long()
        ra, rb = self.range(a), self.range(b)
        return self._lin(w, t, ra[0] - rb[1], ra[1] - rb[0], fl, 'subtraction', a, b)

    def mul(self, w, a, b, fl=()):
        if isc(a) and isc(b):
            t = a * b
        else:
            t = self.lift(a) * self.lift(b)
        ra, rb = self.range(a), self.range(b)
        c = [x * y for x in ra for y in rb]
        return self._lin(w, t, min(c), max(c), fl, 'multiplication', a, b)

    def _divmod(self, x, c):
        """x >= 0 mathematical, c constant > 0 -> (q, r)"""
        if isc(x):
            return x // c, x % c
        lo, hi = self.range(x)
        if lo >= 0 and hi < c:
            return 0, x
        key = ('dm', x.get_id(), c)
        r = self.cache.get(key)
        if r is None:
            q = z3.Int(self.eng.nm('q'))
            m = z3.Int(self.eng.nm('r'))
            self.eng.fact(z3.And(x == c * q + m, m >= 0, m < c))
            self.setr(q, lo // c if lo > -self.INF else -self.INF, hi // c if hi < self.INF else self.INF)
            lo2, hi2 = self.range(q)
            self.eng.fact(z3.And(q >= lo2, q <= hi2) if hi2 < self.INF and lo2 > -self.INF else z3.BoolVal(True))
            self.setr(m, 0, c - 1)
            self.keep.append(x)
            r = self.cache[key] = (q, m)
        return r

    def _gdivmod(self, x, y):
        key = ('gdm', x.get_id() if not isc(x) else x, y.get_id() if not isc(y) else y)
        r = self.cache.get(key)
        if r is None:
            q = z3.Int(self.eng.nm('q'))
            m = z3.Int(self.eng.nm('r'))
            X, Y = self.lift(x), self.lift(y)
            self.eng.fact(z3.Implies(Y > 0, z3.And(X == Y * q + m, m >= 0, m < Y, q >= 0, q <= X)))
            self.setr(m, 0, max(self.range(y)[1], 0))
            self.setr(q, 0, self.range(x)[1])
            self.keep += [X, Y]
            r = self.cache[key] = (q, m)
        return r

    def udivrem(self, w, a, b):
        x, y = self.u(w, a), self.u(w, b)
        if isc(y):
            if y == 0:
                self.eng.oblige('div', False, 'division by zero')
                return 0, 0
            return self._divmod(x, y)
        self.eng.oblige('div', y > 0, 'division by zero')
        return self._gdivmod(x, y)

    def udiv(self, w, a, b):
        return self.wrap(w, self.udivrem(w, a, b)[0])

    def urem(self, w, a, b):
        return self.wrap(w, self.udivrem(w, a, b)[1])

    def sdivrem(self, w, a, b):
        if isc(a) and isc(b):
            if b == 0:
                self.eng.oblige('div', False, 'division by zero')
                return 0, 0
            q = abs(a) // abs(b)
            q = q if (a >= 0) == (b >= 0) else -q
            return q, a - q * b
        if not isc(b):
            lo, hi = self.range(b)
            if lo > 0 and self.range(a)[0] >= 0:
                return self._gdivmod(a, b)
            raise Unsupported('signed division by a variable')
        if b <= 0:
            raise Unsupported('signed division by non-positive constant')
        lo, hi = self.range(a)
        if lo >= 0:
            return self._divmod(a, b)
        key = ('sdm', a.get_id(), b)
        r = self.cache.get(key)
        if r is None:
            q = z3.Int(self.eng.nm('q'))
            m = z3.Int(self.eng.nm('r'))
            self.eng.fact(z3.And(a == b * q + m, z3.If(a >= 0, z3.And(m >= 0, m < b), z3.And(m <= 0, m > -b))))
            self.setr(q, -((-lo) // b) if lo > -self.INF else -self.INF, hi // b if hi < self.INF else self.INF)
            self.setr(m, max(-(b - 1), min(lo, 0)), min(b - 1, max(hi, 0)))
            self.keep.append(a)
            r = self.cache[key] = (q, m)
        return r

    def sdiv(self, w, a, b):
        return self.sdivrem(w, a, b)[0]

    def srem(self, w, a, b):
        return self.sdivrem(w, a, b)[1]

    def shl(self, w, a, b, fl=()):
        if isc(b):
            if not 0 <= b < w:
                self.eng.oblige('shift', False, 'shift amount out of range')
                return 0
            return self.mul(w, a, 1 << b, fl)
        self.eng.oblige('shift', z3.And(b >= 0, b < w), 'shift amount out of range')
        r = self.lift(0)
        for k in range(w - 1, -1, -1):
            r = z3.If(b == k, self.lift(self.wrap(w, self.mul(w, a, 1 << k))), r)
        return self.setr(r, -(1 << (w - 1)), (1 << (w - 1)) - 1)

    def lshr(self, w, a, b):
        if isc(b) and 0 <= b < w:
            return self.wrap(w, self._divmod(self.u(w, a), 1 << b)[0])
        raise Unsupported('lshr by variable in integer mode')

    def ashr(self, w, a, b):
        if isc(b) and 0 <= b < w:
            if isc(a):
                return a >> b
            lo, hi = self.range(a)
            if lo >= 0:
                return self._divmod(a, 1 << b)[0]
            key = ('ashr', a.get_id(), b)
            if key not in self.cache:
                q = z3.Int(self.eng.nm('q'))
                self.eng.fact(z3.And(a >= (1 << b) * q, a < (1 << b) * q + (1 << b)))
                self.setr(q, lo >> b, hi >> b)
                self.keep.append(a)
                self.cache[key] = q
            return self.cache[key]
        raise Unsupported('ashr by variable in integer mode')

    def _uf(self, op, w, a, b):
        x, y = self.lift(a), self.lift(b)
        f = z3.Function('bit_%s_%d' % (op, w), z3.IntSort(), z3.IntSort(), z3.IntSort())
        return self.fromleaf(w, f(x, y))

    def and_(self, w, a, b):
        if isc(a) and isc(b):
            return csigned(w, a & b)
        if isc(a):
            a, b = b, a
        if isc(b):
            m = b & ((1 << w) - 1)
            if m == 0:
                return 0
            if m & (m + 1) == 0:
                if m == (1 << w) - 1:
                    return a
                return self._divmod(self.u(w, a), m + 1)[1]
            inv = (~m) & ((1 << w) - 1)
            if inv & (inv + 1) == 0:
                x = self.u(w, a)
                r = self._divmod(x, inv + 1)[1]
                return self.wrap(w, self.setr(x - r, 0, (1 << w) - 1))
            # single bit
            if m & (m - 1) == 0:
                k = m.bit_length() - 1
                q = self._divmod(self.u(w, a), m)[0]
                bit = self._divmod(q, 2)[1]
                return self.wrap(w, self.setr(self.lift(bit) * m, 0, m))
            # constant mask: sum of its single bits
            if bin(m).count('1') <= 16:
                r = 0
                for k in range(w):
                    if m >> k & 1:
                        r = r + self.lift(self._divmod(self._divmod(self.u(w, a), 1 << k)[0], 2)[1]) * (1 << k)
                self.setr(r, 0, m)
                return self.wrap(w, r)
        r = self._uf('and', w, a, b)
        self.eng.fact(z3.Implies(z3.And(self.lift(a) >= 0), z3.And(r >= 0, r <= self.lift(a))))
        self.eng.fact(z3.Implies(z3.And(self.lift(b) >= 0), z3.And(r >= 0, r <= self.lift(b))))
        return r

    def or_(self, w, a, b):
        if isc(a) and isc(b):
            return csigned(w, a | b)
        for x, y in ((a, b), (b, a)):
            if isc(x) and x == 0:
                return y
        return self._uf('or', w, a, b)

    def xor(self, w, a, b):
        if isc(a) and isc(b):
            return csigned(w, a ^ b)
        if isc(b) and b == -1:
            return self.sub(w, -1, a)
        return self._uf('xor', w, a, b)

    def icmp(self, p, w, a, b):
        if p in ('ult', 'ule', 'ugt', 'uge'):
            a, b = self.u(w, a), self.u(w, b)
            p = p[1:]
        elif p[0] == 's':
            p = p[1:]
        if isc(a) and isc(b):
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        la, ha = self.range(a)
        lb, hb = self.range(b)
        if p == 'lt':
            if ha < lb: return True
            if la >= hb: return False
        elif p == 'le':
            if ha <= lb: return True
            if la > hb: return False
        elif p == 'gt':
            if la > hb: return True
            if ha <= lb: return False
        elif p == 'ge':
            if la >= hb: return True
            if ha < lb: return False
        elif p == 'eq':
            if ha < lb or la > hb: return False
        elif p == 'ne':
            if ha < lb or la > hb: return True
        if not isc(a) and not isc(b) and a.get_id() == b.get_id():
            return p in ('eq', 'le', 'ge')
        A, Bv = self.lift(a), self.lift(b)
        if p == 'eq': return A == Bv
        if p == 'ne': return z3.Not(A == Bv)
        if p == 'lt': return A < Bv
        if p == 'le': return A <= Bv
        if p == 'gt': return A > Bv
        return A >= Bv

    def trunc(self, w, v, a):
        if isb(a):
            return a
        if v == 1:
            r = self.and_(w, a, 1)
            return (r != 0) if isc(r) else (r != 0)
        return self.wrap(v, a)

    def zext(self, w, v, a):
        return self.u(w, a)

    def sext(self, w, v, a):
        return a

    def eq(self, a, b):
        if isc(a) and isc(b):
            return a == b
        return self.lift(a) == self.lift(b)

    # signed comparison helpers for specifications
    def le(self, a, b, w=64):
        return self.icmp('sle', w, a, b)

    def lt(self, a, b, w=64):
        return self.icmp('slt', w, a, b)

    def bytes_join(self, bs):
        """little-endian i8 list -> value of width 8*len"""
        w = 8 * len(bs)
        t = 0
        for k, b in enumerate(bs):
            ub = self.u(8, b)
            t = t + (self.lift(ub) * (1 << (8 * k)) if not isc(ub) else (ub << (8 * k)))
        if not isc(t):
            self.setr(t, 0, (1 << w) - 1)
        return self.wrap(w, t)

    def byte_at(self, w, v, k):
        x = self.u(w, v)
        return self.wrap(8, self._divmod(self._divmod(x, 1 << (8 * k))[0], 256)[1])


class BVDom:
    name = 'bv'

    def __init__(self, eng):
        self.eng = eng

    def sort(self, w):
        return z3.BitVecSort(w)

    def lift(self, x, w):
        return z3.BitVecVal(x, w) if isc(x) else x

    def fresh(self, w, name='v', lo=None, hi=None):
        v = z3.BitVec(self.eng.nm(name), w)
        if lo is not None:
            self.eng.fact(v >= lo)
        if hi is not None:
            self.eng.fact(v <= hi)
        return v

    def fromleaf(self, w, t):
        return t

    def range(self, t):
        if isc(t):
            return (t, t)
        return (-(1 << 70), 1 << 70)

    def ite(self, c, a, b):
        if isc(a) and isc(b):
            if a == b:
                return a
            raise Unsupported('ite of constants without width')
        if isc(a):
            a = z3.BitVecVal(a, b.size())
        if isc(b):
            b = z3.BitVecVal(b, a.size())
        return z3.If(B(c), a, b)

    def _s(self, t):
        t = z3.simplify(t)
        if z3.is_bv_value(t):
            return t.as_signed_long()
        return t

    def add(self, w, a, b, fl=()):
        if isc(a) and isc(b):
            if 'nsw' in fl and csigned(w, a + b) != a + b:
                self.eng.oblige('nsw', False, 'signed overflow in addition')
            return csigned(w, a + b)
        x, y = self.lift(a, w), self.lift(b, w)
        if 'nsw' in fl and self.eng.wants('nsw'):
            self.eng.oblige('nsw', z3.And(z3.BVAddNoOverflow(x, y, True), z3.BVAddNoUnderflow(x, y)), 'signed overflow in addition')
        return self._s(x + y)

    def sub(self, w, a, b, fl=()):
        if isc(a) and isc(b):
            if 'nsw' in fl and csigned(w, a - b) != a - b:
                self.eng.oblige('nsw', False, 'signed overflow in subtraction')
            return csigned(w, a - b)
        x, y = self.lift(a, w), self.lift(b, w)
        if 'nsw' in fl and self.eng.wants('nsw'):
            self.eng.oblige('nsw', z3.And(z3.BVSubNoOverflow(x, y), z3.BVSubNoUnderflow(x, y, True)), 'signed overflow in subtraction')
        return self._s(x - y)

    def mul(self, w, a, b, fl=()):
        if isc(a) and isc(b):
            if 'nsw' in fl and csigned(w, a * b) != a * b:
                self.eng.oblige('nsw', False, 'signed overflow in multiplication')
            return csigned(w, a * b)
        x, y = self.lift(a, w), self.lift(b, w)
        if 'nsw' in fl and self.eng.wants('nsw'):
            self.eng.oblige('nsw', z3.And(z3.BVMulNoOverflow(x, y, True), z3.BVMulNoUnderflow(x, y)), 'signed overflow in multiplication')
        return self._s(x * y)

    def _nz(self, w, b):
        if isc(b):
            if b == 0:
                self.eng.oblige('div', False, 'division by zero')
        else:
            self.eng.oblige('div', b != 0, 'division by zero')

    def udiv(self, w, a, b):
        self._nz(w, b)
        return self._s(z3.UDiv(self.lift(a, w), self.lift(b, w)))

    def urem(self, w, a, b):
        self._nz(w, b)
        return self._s(z3.URem(self.lift(a, w), self.lift(b, w)))

    def sdiv(self, w, a, b):
        self._nz(w, b)
        return self._s(self.lift(a, w) / self.lift(b, w))

    def srem(self, w, a, b):
        self._nz(w, b)
        return self._s(z3.SRem(self.lift(a, w), self.lift(b, w)))

    def _sh(self, w, b):
        if isc(b):
            if not 0 <= b < w:
                self.eng.oblige('shift', False, 'shift amount out of range')
        else:
            self.eng.oblige('shift', z3.ULT(b, w), 'shift amount out of range')

    def shl(self, w, a, b, fl=()):
        self._sh(w, b)
        return self._s(self.lift(a, w) << self.lift(b, w))

    def lshr(self, w, a, b):
        self._sh(w, b)
        return self._s(z3.LShR(self.lift(a, w), self.lift(b, w)))

    def ashr(self, w, a, b):
        self._sh(w, b)
        return self._s(self.lift(a, w) >> self.lift(b, w))

    def and_(self, w, a, b):
        return self._s(self.lift(a, w) & self.lift(b, w))

    def or_(self, w, a, b):
        return self._s(self.lift(a, w) | self.lift(b, w))

    def xor(self, w, a, b):
        return self._s(self.lift(a, w) ^ self.lift(b, w))

    def icmp(self, p, w, a, b):
        if isc(a) and isc(b):
            if p[0] == 'u':
                a &= (1 << w) - 1
                b &= (1 << w) - 1
                p = p[1:]
            elif p[0] == 's':
                p = p[1:]
            return {'eq': a == b, 'ne': a != b, 'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[p]
        A, Bv = self.lift(a, w), self.lift(b, w)
        r = {'eq': lambda: A == Bv, 'ne': lambda: A != Bv,
             'slt': lambda: A < Bv, 'sle': lambda: A <= Bv, 'sgt': lambda: A > Bv, 'sge': lambda: A >= Bv,
             'ult': lambda: z3.ULT(A, Bv), 'ule': lambda: z3.ULE(A, Bv), 'ugt': lambda: z3.UGT(A, Bv), 'uge': lambda: z3.UGE(A, Bv)}[p]()
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def trunc(self, w, v, a):
        if isb(a):
            return a
        if isc(a):
            return csigned(v, a) if v > 1 else bool(a & 1)
        r = self._s(z3.Extract(v - 1, 0, a))
        if v == 1:
            return (r & 1 == 1) if isc(r) else r == 1
        return r

    def zext(self, w, v, a):
        if isc(a):
            return a & ((1 << w) - 1)
        return self._s(z3.ZeroExt(v - w, a))

    def sext(self, w, v, a):
        if isc(a):
            return a
        return self._s(z3.SignExt(v - w, a))

    def u(self, w, a):
        return a

    def eq(self, a, b):
        if isc(a) and isc(b):
            return a == b
        if isc(a):
            a = z3.BitVecVal(a, b.size())
        elif isc(b):
            b = z3.BitVecVal(b, a.size())
        elif a.size() != b.size():
            n = max(a.size(), b.size())
            a = z3.SignExt(n - a.size(), a)
            b = z3.SignExt(n - b.size(), b)
        return a == b

    def le(self, a, b, w=64):
        return self.icmp('sle', w, a, b)

    def lt(self, a, b, w=64):
        return self.icmp('slt', w, a, b)

    def bytes_join(self, bs):
        if all(isc(b) for b in bs):
            v = 0
            for k, b in enumerate(bs):
                v |= (b & 255) << (8 * k)
            return csigned(8 * len(bs), v)
        return self._s(z3.Concat([self.lift(b, 8) for b in reversed(bs)])) if len(bs) > 1 else bs[0]

    def byte_at(self, w, v, k):
        if isc(v):
            return csigned(8, v >> (8 * k))
        return self._s(z3.Extract(8 * k + 7, 8 * k, v))
