"""IEEE-754 values for the integer domain.

A floating-point value is a term t of an uninterpreted sort with four observations: N(t) it is a NaN, I(t) it is infinite,
S(t) its sign bit, R(t) its value as a real (infinities are placed beyond every finite value).  Each operation is specified by
what IEEE-754 guarantees: exact where the standard says so (fpext, fabs, modf, comparison, conversion of small integers),
otherwise correctly rounded, used in the form |result - exact| <= |exact| * 2^-53 (2^-24 for float).  Operations that are not
specified here give an arbitrary value.  Conversion to an integer carries the obligation that the value fits.
"""
import struct
from fractions import Fraction
import z3
from dom import And, Or, Not, Implies, B, isc

def rv(fr):
    fr = Fraction(fr)
    return z3.RealVal('%d/%d' % (fr.numerator, fr.denominator)) if fr.denominator != 1 else z3.RealVal(str(fr.numerator))


# the ends of the number formats are named constants with their order (their digits only slow the solver down)
INF = z3.Real('flc_infinite')
MAXF = {t: z3.Real('flc_max_' + t) for t in ('double', 'float')}
MINSUB = {t: z3.Real('flc_smallest_' + t) for t in ('double', 'float')}
MINNORM = {t: z3.Real('flc_normal_' + t) for t in ('double', 'float')}
NAMED = {Fraction(1, 2 ** 1022): MINNORM['double'], Fraction(1, 2 ** 126): MINNORM['float'], Fraction((2 ** 53 - 1) * 2 ** 971): MAXF['double'],
         Fraction((2 ** 24 - 1) * 2 ** 104): MAXF['float'], Fraction(1, 2 ** 1074): MINSUB['double'], Fraction(1, 2 ** 149): MINSUB['float']}
ENDS = [z3.And(0 < MINSUB['double'], MINSUB['double'] < MINNORM['double'], MINNORM['double'] < MINSUB['float'], MINSUB['float'] < MINNORM['float'], MINNORM['float'] < rv(Fraction(1, 10 ** 30)),
               MAXF['float'] > rv(10 ** 30), MAXF['double'] > MAXF['float'] * (10 ** 30), INF > MAXF['double'])]
ULP = {'double': Fraction(1, 2 ** 53), 'float': Fraction(1, 2 ** 24)}
PREC = {'double': 53, 'float': 24}


class Flt:
    def __init__(self, eng):
        self.eng = eng
        self.keep = {}
        self.cst = {}
        self.whole = {}     # terms whose value is an integer: the integer
        eng.flt = self
        for f in ENDS:
            eng.fact(f)

    # ---- observations
    def obs(self, t):
        """(N, I, S, R) of a term"""
        i = t.get_id()
        o = self.keep.get(i)
        if o is not None:
            return o[1]
        if z3.is_app_of(t, z3.Z3_OP_ITE):
            c, a, b = t.children()
            x, y = self.obs(a), self.obs(b)
            r = tuple(z3.If(c, p, q) for p, q in zip(x, y))
        else:
            S = t.sort()
            ty = S.name()[2:]
            f = lambda n, so: z3.Function('fl_%s_%s' % (n, ty), S, so)(t)
            r = (f('N', z3.BoolSort()), f('I', z3.BoolSort()), f('S', z3.BoolSort()), f('R', z3.RealSort()))
            N, I, Sg, R = r
            m = MAXF[ty]
            fact = self.eng.fact
            fact(z3.Not(z3.And(N, I)))
            fact(z3.Implies(I, R == z3.If(Sg, -INF, INF)))
            fact(z3.Implies(z3.Not(z3.Or(N, I)), z3.And(R <= m, R >= -m)))
            fact(z3.Implies(z3.And(z3.Not(N), R > 0), z3.And(z3.Not(Sg), R >= MINSUB[ty])))
            fact(z3.Implies(z3.And(z3.Not(N), R < 0), z3.And(Sg, R <= -MINSUB[ty])))
        self.keep[i] = (t, r)
        return r

    def fin(self, t):
        N, I, S, R = self.obs(t)
        return z3.And(z3.Not(N), z3.Not(I))

    def same(self, a, b):
        """a and b are the same value (bit patterns of NaNs aside)"""
        x, y = self.obs(a), self.obs(b)
        return z3.And(x[0] == y[0], z3.Or(x[0], z3.And(x[1] == y[1], x[2] == y[2], x[3] == y[3])))

    def new(self, ty, name='fl'):
        return z3.Const(self.eng.nm(name), self.eng.fsort(ty))

    def exact_const(self, fr, ty, neg=False):
        k = (fr, ty, neg)
        if k not in self.cst:
            t = z3.Const('fpc_%s_%s_%d' % (fr, ty, neg), self.eng.fsort(ty))
            F = z3.BoolVal(False)
            if fr == 'nan':
                o = (z3.BoolVal(True), F, z3.BoolVal(neg), rv(0))
            elif fr == 'inf':
                o = (F, z3.BoolVal(True), z3.BoolVal(neg), -INF if neg else INF)
            else:
                o = (F, F, z3.BoolVal(neg), NAMED[fr] if fr in NAMED else -NAMED[-fr] if -fr in NAMED else rv(fr))
            self.keep[t.get_id()] = (t, o)
            self.cst[k] = t
        return self.cst[k]

    def const(self, v, ty):
        """constant of the IR: decimal text/float, or the hexadecimal bits of the double"""
        if isinstance(v, str):
            if not v.startswith('0x') or not all(c in '0123456789abcdefABCDEF' for c in v[2:]):
                return None
            b = int(v, 16)
            x = struct.unpack('>d', struct.pack('>Q', b))[0]
        else:
            x = float(v)
        neg = struct.pack('>d', x)[0] >= 128
        if x != x:
            return self.exact_const('nan', ty, neg)
        if x in (float('inf'), float('-inf')):
            return self.exact_const('inf', ty, neg)
        return self.exact_const(Fraction(x), ty, neg)

    def val_of(self, t):
        """the rational value of a constant term, or None"""
        for k, c in self.cst.items():
            if c.eq(t) and isinstance(k[0], Fraction):
                return k[0]
        return None

    # ---- operations
    def rounded(self, ty, ok, exact, name):
        """a value that is the correctly rounded `exact` when ok"""
        t = self.new(ty, name)
        N, I, S, R = self.obs(t)
        a = z3.If(exact >= 0, exact, -exact)
        d = R - exact
        half = MAXF[ty] / 2
        fact = self.eng.fact
        fact(z3.Implies(z3.And(ok, a <= half), z3.And(z3.Not(N), z3.Not(I))))
        big = z3.And(ok, a <= half, a >= MINNORM[ty])
        u = rv(ULP[ty])
        fact(z3.Implies(big, z3.And(d <= a * u, -d <= a * u)))
        sm = MINSUB[ty]
        fact(z3.Implies(z3.And(ok, a < MINNORM[ty]), z3.And(d <= sm, -d <= sm)))
        fact(z3.Implies(z3.And(ok, a > 0), S == (exact < 0)))
        return t

    def arith(self, op, x, y, ty):
        a, b = self.obs(x), self.obs(y)
        ok = z3.And(self.fin(x), self.fin(y))
        fact = self.eng.fact
        if op in ('fmul', 'fdiv'):
            cy, cx = self.val_of(y), self.val_of(x)
            if cy is None and cx is not None and op == 'fmul':
                x, y, a, b, cy = y, x, b, a, cx
            if cy is None or cy == 0:
                return self.new(ty, op)
            e = a[3] * rv(cy) if op == 'fmul' else a[3] / rv(cy)
            t = self.rounded(ty, ok, e, op)
            o = self.obs(t)
            fact(z3.Implies(a[0], o[0]))
            fact(z3.Implies(a[1], o[1]))
            fact(z3.Implies(z3.Not(o[0]), o[2] == (z3.Not(a[2]) if cy < 0 else a[2])))
            fact(z3.Implies(z3.And(ok, a[3] == 0), o[3] == 0))
            return t
        if op in ('fadd', 'fsub'):
            e = a[3] + b[3] if op == 'fadd' else a[3] - b[3]
            t = self.rounded(ty, ok, e, op)
            o = self.obs(t)
            fact(z3.Implies(z3.Or(a[0], b[0]), o[0]))
            fact(z3.Implies(z3.And(ok, e == 0), o[3] == 0))
            return t
        return self.new(ty, op)

    def neg(self, x, ty):
        t = self.new(ty, 'fneg')
        o, p = self.obs(t), self.obs(x)
        self.eng.fact(z3.And(o[0] == p[0], o[1] == p[1], o[2] == z3.Not(p[2]), o[3] == -p[3]))
        return t

    def fabs(self, x, ty):
        t = self.new(ty, 'fabs')
        o, p = self.obs(t), self.obs(x)
        self.eng.fact(z3.And(o[0] == p[0], o[1] == p[1], z3.Not(o[2]), o[3] == z3.If(p[3] >= 0, p[3], -p[3])))
        return t

    def cmp(self, pred, x, y):
        a, b = self.obs(x), self.obs(y)
        un = z3.Or(a[0], b[0])
        if pred in ('true', 'false'):
            return pred == 'true'
        if pred == 'ord':
            return z3.Not(un)
        if pred == 'uno':
            return un
        r = {'eq': a[3] == b[3], 'ne': a[3] != b[3], 'lt': a[3] < b[3], 'le': a[3] <= b[3], 'gt': a[3] > b[3], 'ge': a[3] >= b[3]}[pred[1:]]
        return z3.And(z3.Not(un), r) if pred[0] == 'o' else z3.Or(un, r)

    def toint(self, st, x, w, signed):
        N, I, S, R = self.obs(x)
        D = self.eng.D
        lo, hi = (-(1 << (w - 1)), 1 << (w - 1)) if signed else (0, 1 << w)
        ok = z3.And(self.fin(x), R > rv(lo - 1), R < rv(hi))
        self.eng.oblige('nsw', ok, 'floating-point value fits the integer type', st)
        if not signed and self.eng.check(st.hyps(), z3.Implies(ok, R < rv(1 << (w - 1)))) == 'unsat':
            hi = 1 << (w - 1)
        k = self.whole.get(x.get_id())
        if k is not None:
            m = k
            if self.eng.check(st.hyps(), z3.And(k >= lo, k < hi)) == 'unsat':
                m = k + 0
                D.setr(m, lo, hi - 1)
                return D.wrap(w, m)
        m = z3.Int(self.eng.nm('fptoint'))
        D.setr(m, lo, hi - 1)
        if k is not None:
            self.eng.fact(z3.Implies(ok, m == k))
            self.eng.fact(z3.And(m >= lo, m < hi))
            return D.wrap(w, m)
        q = z3.ToReal(m)
        self.eng.fact(z3.And(m >= lo, m < hi))
        self.eng.fact(z3.Implies(z3.And(ok, R >= 0), z3.And(q <= R, R < q + 1)))
        self.eng.fact(z3.Implies(z3.And(ok, R < 0), z3.And(q >= R, R > q - 1)))
        return D.wrap(w, m)

    def fromint(self, v, w, signed, ty):
        D = self.eng.D
        e = v if signed else D.u(w, v)
        e = z3.ToReal(D.lift(e))
        t = self.rounded(ty, z3.BoolVal(True), e, 'itofp')
        o = self.obs(t)
        lim = rv(2 ** PREC[ty])
        self.eng.fact(z3.Implies(z3.And(e <= lim, e >= -lim), o[3] == e))
        self.eng.fact(z3.Implies(e == 0, z3.Not(o[2])))
        return t

    def ext(self, x, ty):
        t = self.new(ty, 'fpext')
        o, p = self.obs(t), self.obs(x)
        self.eng.fact(z3.And(o[0] == p[0], o[1] == p[1], o[2] == p[2], o[3] == p[3]))
        return t

    def trunc_to(self, x, ty):
        p = self.obs(x)
        t = self.rounded(ty, self.fin(x), p[3], 'fptrunc')
        o = self.obs(t)
        self.eng.fact(z3.Implies(p[0], o[0]))
        self.eng.fact(z3.Implies(p[1], o[1]))
        self.eng.fact(z3.Implies(z3.Not(p[0]), o[2] == p[2]))
        return t

    def integral(self, x, ty, how):
        """floor, ceil or trunc: exact"""
        p = self.obs(x)
        t = self.new(ty, how)
        o = self.obs(t)
        k = z3.Int(self.eng.nm('integral'))
        self.whole[t.get_id()] = k
        q = z3.ToReal(k)
        fl, ce = z3.And(q <= p[3], p[3] < q + 1), z3.And(q >= p[3], p[3] > q - 1)
        c = {'floor': fl, 'ceil': ce, 'trunc': z3.If(p[3] >= 0, fl, ce)}[how]
        f = self.eng.fact
        f(z3.And(o[0] == p[0], o[1] == p[1], z3.Implies(z3.Not(p[0]), o[2] == p[2])))
        f(z3.Implies(self.fin(x), z3.And(c, o[3] == q)))
        return t

    def modf(self, x, ty='double'):
        """(integral part, fraction): both exact"""
        p = self.obs(x)
        ip = self.integral(x, ty, 'trunc')
        q = self.obs(ip)
        t = self.new(ty, 'fraction')
        o = self.obs(t)
        f = self.eng.fact
        f(z3.And(o[0] == p[0], z3.Not(o[1]), z3.Implies(z3.Not(p[0]), o[2] == p[2])))
        m = rv(1 - ULP[ty])
        f(z3.Implies(self.fin(x), z3.And(o[3] == p[3] - q[3], o[3] <= m, o[3] >= -m)))
        f(z3.Implies(p[1], o[3] == 0))
        return ip, t

    def bits(self, x, w):
        """reinterpretation as an integer: only the sign is specified"""
        v = self.eng.D.fresh(w, 'fpbits')
        self.eng.fact((v < 0) == self.obs(x)[2])
        return v

    def fpclass(self, x, mask, ty):
        N, I, S, R = self.obs(x)
        if mask & 3 not in (0, 3):
            return z3.Bool(self.eng.nm('isnan'))
        a = z3.If(R >= 0, R, -R)
        mn = MINNORM[ty]
        fin = self.fin(x)
        cl = [(4, I, True), (8, z3.And(fin, a >= mn), True), (16, z3.And(fin, a > 0, a < mn), True), (32, z3.And(fin, R == 0), True),
              (64, z3.And(fin, R == 0), False), (128, z3.And(fin, a > 0, a < mn), False), (256, z3.And(fin, a >= mn), False), (512, I, False)]
        out = [N] if mask & 3 else []
        for b, c, s in cl:
            if mask & b:
                out.append(z3.And(c, S == s))
        return z3.Or(*out) if out else False
