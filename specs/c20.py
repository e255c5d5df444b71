"""C20 floating-point values are rendered within their documented precision"""
from core import *
from c01 import TRUSTED as T01, stream_obj
from lib import havoc_bytes, strlen_model, std_replay
from flt import Flt, rv, MINNORM
from fractions import Fraction
import re

ID = 'C20'
LEVEL = 'proof'
TRUSTED = T01 + ['vc/flt.py: IEEE-754 semantics of the floating-point instructions (round to nearest, |result - exact| <= |exact| * 2^-53)']
ASSUMPTIONS = ['gcvt(x, n, dst) writes the shortest of fixed and exponent notation of x with n significant digits, at most n + 8 bytes with the terminator; snprintf(dst, k, "%.Nf", x) writes x with N decimals, at most k bytes with the terminator (libc)',
               'write_dec_unsafe writes the exact decimal text of its argument (proved in C01)',
               'modf splits exactly into integral part and fraction (libc)']


def dec_contract(eng, st, ins, a, dem):
    """write_dec_unsafe<W>(dst, number): the exact decimal digits (C01)"""
    D = eng.D
    m = re.search(r'write_dec_unsafe<(\d+)', dem)
    if not m:
        raise Unsupported('write_dec_unsafe without a width')
    W = int(m.group(1))
    p, v = a[0], a[1]
    if 'unsigned long long' in dem:
        v = D.u(64, v)
    V = D.lift(v)
    if not isc(v) and eng.check(st.hyps(), V >= 0) != 'unsat':
        raise Unsupported('write_dec_unsafe of a possibly negative number')
    if W <= 9 and (isc(v) or eng.check(st.hyps(), V < 10 ** max(W, 4)) == 'unsat'):
        n0 = max(W, 1)
        out = []
        for n in range(n0, max(W, 4) + 1):
            s = st.fork()
            c = V < 10 ** n if n == n0 else And(V >= 10 ** (n - 1), V < 10 ** n)
            s.pc = s.pc + (('b', B(c)),)
            if not eng.feasible(s):
                continue
            eng.cur = s
            ds = [D.fresh(8, 'digit', 0, 9) for _ in range(n)]
            acc = z3.IntVal(0)
            for d in ds:
                acc = acc * 10 + d
            s.pc = s.pc + (('a', acc == V),)
            q = eng.charptr(p)
            for k, d in enumerate(ds):
                eng.store(s, Ptr(q.obj, q.path[:-1] + (eng.iadd(q.path[-1], k),)), I8, D.setr(d + 48, 48, 57))
            out.append((s, n))
        return out
    n = D.fresh(32, 'declen', max(W, 1), max(W, 20))
    for d in range(1, 20):
        eng.fact(Implies(V < 10 ** d, n <= max(d, W)))
        eng.fact(Implies(V >= 10 ** d, n >= d + 1))
    havoc_bytes(eng, st, p, n)
    event(st, ('dec', eng.charptr(p), n, V))
    return n


def event(st, e):
    st.ghost['text'] = st.ghost.get('text', ()) + (e,)


def cstring(eng, p):
    if not (isinstance(p, Ptr) and p.obj.const is not None):
        raise Unsupported('format is not a literal')
    q, t = eng.decay(p)
    out = ''
    i = q.path[-1]
    n = eng.rt(eng.type_at(q.obj, q.path[:-1]))[1]
    for k in range(i, n):
        v = ld(eng, State(), Ptr(q.obj, q.path[:-1] + (k,)), I8)
        if v == 0:
            return out
        out += chr(v)
    raise Unsupported('unterminated literal')


def gcvt_model(eng, st, ins, a, dem):
    x, nd, p = a[0], a[1], a[2]
    if not isc(nd):
        raise Unsupported('gcvt with a variable precision')
    d = max(1, min(nd, 17))
    havoc_bytes(eng, st, p, d + 8)
    n = eng.D.fresh(32, 'gcvtlen', 1, d + 7)
    event(st, ('gcvt', eng.charptr(p), n, x, d))
    return p


def snprintf_model(eng, st, ins, a, dem):
    p, size, fmt = a[0], a[1], a[2]
    f = cstring(eng, fmt)
    m = re.fullmatch(r'%\.(\d+)l?f', f)
    m2 = re.fullmatch(r'%\.(\d+)l?g', f)
    if not isc(size) or not (m or m2) or len(a) != 4:
        raise Unsupported('snprintf format ' + f)
    havoc_bytes(eng, st, p, size)
    x = a[3]
    N, I, S, R = eng.flt.obs(x)
    if m:
        k = int(m.group(1))
        full = eng.D.fresh(32, 'printed', 1, 400 + k)
        eng.fact(Implies(And(eng.flt.fin(x), R < 1, R > -1), full <= k + 3))
        e = ('fixed', k)
    else:
        k = int(m2.group(1))
        full = eng.D.fresh(32, 'printed', 1, k + 8)
        e = ('gcvt', k)
    n = eng.D.fresh(32, 'textlen', 0, size - 1)
    eng.fact(n == z3.If(full <= size - 1, full, size - 1))
    event(st, (e[0], eng.charptr(p), n, x, e[1], full, size))
    return full


def strlen_event(eng, st, ins, a, dem):
    p = a[0]
    for e in reversed(st.ghost.get('text', ())):
        q = eng.charptr(p)
        if e[0] in ('gcvt', 'fixed') and q is not None and q.obj is e[1].obj and all(isc(i) and isc(j) and i == j or i is j for i, j in zip(q.path, e[1].path)):
            return e[2]
    return strlen_model(eng, st, ins, a, dem)


def modf_model(eng, st, ins, a, dem):
    ip, fr = eng.flt.modf(a[0])
    eng.store(st, a[1], 'double', ip)
    return fr


def floats(eng):
    Flt(eng)
    eng.models['modf'] = modf_model
    eng.models['gcvt'] = gcvt_model
    eng.models['snprintf'] = snprintf_model
    eng.models['strlen'] = strlen_event


def unit_double(ctx, values=True):
    eng = Engine(ctx.module('fmt.cpp'), 'int', 'paths')
    eng.feas_ms = 4000
    D = eng.D
    floats(eng)
    F = eng.flt
    eng.contracts['FNLog::write_dec_unsafe'] = dec_contract
    eng.loop_policy = lambda e, f, h, d: ('unroll', 24)
    st = State()
    dst = eng.new_obj('dst', ('arr', None, I8), 'arg')
    dst.len = 30
    x = z3.Const('x', eng.fsort('double'))
    N, I, S, R = F.obs(x)
    a = z3.If(R >= 0, R, -R)
    fin = F.fin(x)
    normal = And(fin, a >= MINNORM['double'])
    for w in ('zero', 'nan', 'inf'):
        eng.covers.append((w, st.hyps() + [{'zero': And(fin, R == 0), 'nan': N, 'inf': I}[w]]))
    rets = run(eng, 'vp_dbl', [Ptr(dst, (0,)), x], st)
    eps = rv(Fraction(1, 10 ** 4) + Fraction(1, 10 ** 12))
    near = rv(Fraction(1, 10 ** 4) * (1 - Fraction(1, 10 ** 12)))
    tiny = rv(Fraction(1, 10 ** 7) * (1 - Fraction(1, 10 ** 12)))
    shapes = set()
    for s, r in rets:
        by = lambda k: D.lift(at(eng, dst, s, k))
        rl = D.lift(r)

        def spells(t):
            return And(rl == len(t), *[by(k) == ord(c) for k, c in enumerate(t)])
        post(eng, s, And(rl >= 0, rl <= 30), 'at most 30 bytes are written')
        if not values:
            continue
        post(eng, s, Implies(N, spells('nan')), 'not-a-number is spelled nan')
        post(eng, s, Implies(And(I, Not(S)), spells('inf')), 'infinity is spelled inf')
        post(eng, s, Implies(And(I, S), spells('-inf')), 'minus infinity is spelled -inf')
        post(eng, s, Implies(And(fin, Not(normal)), spells('0')), 'zero and subnormal values are spelled 0')
        ev = s.ghost.get('text', ())
        shapes.add(tuple(e[0] for e in ev))
        if not ev:
            post(eng, s, Not(normal), 'a normal value is written as a number')
            continue
        if eng.check(s.hyps() + [B(normal)]) == 'unsat':
            continue
        if len(ev) > 1:
            raise Unsupported('text written in %d parts' % len(ev))
        e = ev[0]
        off = D.lift(e[1].path[-1])
        if e[1].obj is not dst:
            raise Unsupported('text written somewhere else')
        if e[0] in ('gcvt', 'fixed'):
            post(eng, s, And(off == 0, rl == D.lift(e[2])), 'the length returned is that of the text')
            post(eng, s, F.same(e[3], x), 'the number written is the value logged, sign included')
            if e[0] == 'gcvt':
                post(eng, s, e[4] >= 16, 'sixteen significant digits')
            else:
                post(eng, s, e[4] >= 8, 'eight decimals')
                post(eng, s, a >= tiny, 'a value that eight decimals cannot express is not written with eight decimals')
                post(eng, s, D.lift(e[5]) < e[6], 'the text is not cut short')
            continue
        neg = z3.If(S, z3.IntVal(1), z3.IntVal(0))
        n, V = D.lift(e[2]), z3.ToReal(e[3])
        post(eng, s, Implies(S, by(0) == 45), 'a negative value starts with a minus sign')
        post(eng, s, off == neg, 'only a negative value has a sign, and the integral part follows it')
        post(eng, s, a >= near, 'values below 0.0001 are not truncated to four decimals')
        pos = neg + n
        post(eng, s, Or(rl == pos, *[rl == pos + 1 + m for m in range(1, 10)]), 'a point is followed by one to nine decimals')

        def close(v):
            return And(a - v < eps, v - a < eps)
        post(eng, s, Implies(rl == pos, close(V)), 'integral text within 0.0001 of the value')
        post(eng, s, Implies(rl > pos, by(pos) == 46), 'decimals follow a point')
        for m in range(1, 10):
            if eng.check(s.hyps() + [rl == pos + 1 + m]) == 'unsat':
                continue
            d = [by(pos + 1 + j) for j in range(m)]
            post(eng, s, Implies(rl == pos + 1 + m, And(*[And(c >= 48, c <= 57) for c in d])), 'decimals are digits')
            acc = z3.IntVal(0)
            for c in d:
                acc = acc * 10 + (c - 48)
            post(eng, s, Implies(rl == pos + 1 + m, close(V + z3.ToReal(acc) / (10 ** m))), 'text within 0.0001 of the value')
    if not rets:
        raise Unsupported('no path')
    return eng


def dbl_contract(eng, st, ins, a, dem):
    """write_double_unsafe(dst, x): up to 30 bytes that denote x (unit write_double_unsafe)"""
    n = eng.D.fresh(32, 'dbllen', 0, 30)
    havoc_bytes(eng, st, a[0], 30)
    event(st, ('double', eng.charptr(a[0]), n, a[1]))
    return n


def unit_stream(f, ty, percent=False):
    def go(ctx):
        eng = Engine(ctx.module('stream.cpp'), 'int', 'paths')
        D = eng.D
        floats(eng)
        F = eng.flt
        eng.contracts['FNLog::write_double_unsafe'] = dbl_contract
        st = State()
        ls, ldo, cl, size = stream_obj(eng, st)
        x = z3.Const('x', eng.fsort(ty))
        N, I, S, R = F.obs(x)
        cp = content(eng, ldo)
        init = st.fork()
        room = D.lift(cl) + 64 <= size
        small = And(Not(N), R < rv(Fraction(1, 10 ** 6) * (1 - Fraction(1, 10 ** 6))))
        large = Or(N, R > rv(Fraction(1, 10 ** 6) * (1 + Fraction(1, 10 ** 6))))
        eng.covers.append(('entry', st.hyps()))
        rets = run(eng, f, [Ptr(ls), x], st)
        for s, r in rets:
            cl2 = D.lift(ld(eng, s, Ptr(ldo, eng.field('LogData', 'content_len_')), I32))
            c0 = D.lift(cl)
            ev = [e for e in s.ghost.get('text', ()) if e[0] == 'double']
            if len(ev) > 1:
                raise Unsupported('value written in %d parts' % len(ev))
            if not ev:
                if percent:
                    post(eng, s, Implies(room, Not(large)), 'a percentage is written as its value')
                    z = '00.00%'
                    post(eng, s, Implies(room, And(cl2 == c0 + len(z), *[D.lift(at(eng, ldo, s, eng.iadd(cl, k), cp)) == ord(c) for k, c in enumerate(z)])), 'a percentage that is not positive is written 00.00%')
                else:
                    post(eng, s, Not(room), 'the value is written when there is room')
                post(eng, s, Or(room, cl2 == c0, B(percent)), 'nothing is appended without the value')
                continue
            e = ev[0]
            post(eng, s, e[1].obj is ldo and D.lift(e[1].path[-1]) == c0, 'the number is appended at the end of the record')
            if percent:
                post(eng, s, Not(small), 'a percentage that is not positive is written 00.00%')
                n2, i2, s2, r2 = F.obs(e[3])
                d = r2 - R * 100
                post(eng, s, Implies(F.fin(x), And(F.fin(e[3]), d <= R / 10 ** 9, -d <= R / 10 ** 9)), 'the number written is the value times one hundred')
                post(eng, s, Implies(N, n2), 'not-a-number stays not-a-number')
                post(eng, s, Implies(I, And(i2, s2 == S)), 'infinity stays infinity')
                post(eng, s, cl2 == c0 + D.lift(e[2]) + 1, 'number and percent sign are appended')
                post(eng, s, D.lift(at(eng, ldo, s, c0 + D.lift(e[2]), cp)) == ord('%'), 'the percent sign follows the number')
            else:
                post(eng, s, F.same(e[3], x) if ty == 'double' else And(F.obs(e[3])[0] == N, Or(N, And(F.obs(e[3])[1] == I, F.obs(e[3])[2] == S, F.obs(e[3])[3] == R))), 'the number written is the value logged')
                post(eng, s, cl2 == c0 + D.lift(e[2]), 'the record grows by the length of the number')
            k = D.fresh(64, 'k', 0, size - 1)
            post(eng, s, Implies(k < c0, D.lift(at(eng, ldo, s, k, cp)) == D.lift(at(eng, ldo, init, k, cp))), 'text already in the record is kept')
        if not rets:
            raise Unsupported('no path')
        return eng
    return go


def units(ctx):
    ctx.module('fmt.cpp'), ctx.module('stream.cpp')
    return [Unit('write_double_unsafe', unit_double),
            Unit('LogStream << float', unit_stream('vp_float', 'float')),
            Unit('LogStream << double', unit_stream('vp_double', 'double')),
            Unit('LogStream << LogPercent', unit_stream('vp_percent', 'float', True))]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c20.cpp', 300000, 10000000)
