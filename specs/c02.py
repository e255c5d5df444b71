"""C02 hexadecimal, binary and pointer rendering is exact"""
from lib import *
from c01 import stream_obj, TRUSTED

ID = 'C02'
LEVEL = 'proof'
ASSUMPTIONS = ['minimum widths instantiated: 0,2,4,16,20 (quick) and 0,1,2,3,4,8,10,16,20 (thorough); each instance proved for all values', 'x86-64 data layout (LP64)']


def hexch(n, b):
    """byte b is the hexadecimal digit of nibble n (either case)"""
    n8 = z3.ZeroExt(4, n)
    return z3.Or(b == z3.If(z3.ULT(n8, 10), n8 + 48, n8 + 55), b == z3.If(z3.ULT(n8, 10), n8 + 48, n8 + 87))


def post_radix(eng, st, rd, n, v, W, bits, pre=''):
    """rd(k), k < n: the text of v in base 2**bits"""
    if not isc(n):
        raise Unsupported('length not determined on the path')
    nmax = 64 // bits
    # natural width: fits in n digits, and not in n-1 unless n is the minimum width
    if n < 1 or n > max(W, nmax):
        post(eng, st, False, pre + 'length of the text in range')
        return
    if n < nmax:
        post(eng, st, z3.LShR(v, n * bits) == 0, pre + 'every significant digit is produced')
    if n > max(W, 1):
        post(eng, st, z3.LShR(v, (n - 1) * bits) != 0, pre + 'padded to exactly the minimum width')
    post(eng, st, n >= W, pre + 'minimum width honoured')
    for k in range(n):
        pos = (n - 1 - k) * bits
        b = eng.D.lift(rd(k), 8)
        if pos >= 64:
            post(eng, st, b == 48, pre + 'digit %d is zero padding' % k)
        elif bits == 1:
            post(eng, st, b == 48 + z3.ZeroExt(7, z3.Extract(pos, pos, v)), pre + 'digit %d' % k)
        else:
            post(eng, st, hexch(z3.Extract(pos + 3, pos, v), b), pre + 'digit %d' % k)


def new(ctx, tu):
    eng = Engine(ctx.module(tu), 'bv', 'paths')
    st = State()
    return eng, st


def unit_radix(kind, signed, W):
    def go(ctx):
        eng, st = new(ctx, 'fmt.cpp')
        bits = 1 if kind == 'bin' else 4
        dst = eng.new_obj('dst', ('arr', None, I8), 'arg')
        dst.len = max(W, 64 // bits)
        v = z3.BitVec('number', 64)
        eng.watch = {'number': v}
        init = eng.leaf_init((dst.id, ('*',)))
        rets = run(eng, 'vp_%s%s_%d' % (kind, 's' if signed else 'u', W), [Ptr(dst, (0,)), v], st)
        for s, r in rets:
            eng.covers.append(('path', s.hyps())) if len(eng.covers) < 3 else None
            post_radix(eng, s, lambda k: at(eng, dst, s, k), r, v, W, bits)
            k = z3.BitVec(eng.nm('k'), 64)
            post(eng, s, z3.Implies(z3.UGE(k, r if not isc(r) else r), eng.D.lift(at(eng, dst, s, k), 8) == eng.D.lift(eng.read(init, (k,)), 8)), 'no byte outside the produced text is touched')
        if not rets:
            raise Unsupported('no path')
        return eng
    return go


def post_ptr(eng, s, rd, n, p, isnull):
    if not isc(n):
        raise Unsupported('length not determined on the path')
    D = eng.D
    if eng.check(s.hyps() + [B(Not(isnull))]) == 'unsat':
        post(eng, s, n == 4, 'null is spelled with 4 characters')
        for k, c in enumerate(b'null'):
            post(eng, s, D.lift(rd(k), 8) == c, 'null pointer text')
        return
    post(eng, s, Not(isnull), 'the null pointer is rendered as null')
    post(eng, s, n >= 3, 'length of pointer text')
    post(eng, s, D.lift(rd(0), 8) == 48, '0x prefix')
    post(eng, s, D.lift(rd(1), 8) == 120, '0x prefix')
    post_radix(eng, s, lambda k: rd(k + 2), n - 2, eng.pint(p), 0, 4, 'address: ')


def unit_ptr(ctx):
    eng, st = new(ctx, 'fmt.cpp')
    dst = eng.new_obj('dst', ('arr', None, I8), 'arg')
    dst.len = 18
    p = eng.opaque_ptr(z3.Int('ptr'))
    isnull = eng.is_null(p)
    eng.watch = {'pointer': eng.pint(p)}
    init = eng.leaf_init((dst.id, ('*',)))
    for s, r in run(eng, 'vp_ptr', [Ptr(dst, (0,)), p], st):
        eng.covers.append(('path', s.hyps())) if len(eng.covers) < 3 else None
        post_ptr(eng, s, lambda k: at(eng, dst, s, k), r, p, isnull)
        k = z3.BitVec(eng.nm('k'), 64)
        post(eng, s, z3.Implies(z3.UGE(k, r), eng.D.lift(at(eng, dst, s, k), 8) == eng.D.lift(eng.read(init, (k,)), 8)), 'no byte outside the produced text is touched')
    return eng


def unit_stream(f):
    def go(ctx):
        eng, st = new(ctx, 'stream.cpp')
        D = eng.D
        ls, ldo, cl, size = stream_obj(eng, st)
        cpath = content(eng, ldo)
        init = st.fork()
        p = eng.opaque_ptr(z3.Int('ptr')) if f == 'vp_ptr' else NULLP
        isnull = eng.is_null(p)
        room = cl <= size - 30
        for s, r in run(eng, f, [Ptr(ls)] + ([p] if f == 'vp_ptr' else []), st):
            cl2 = ld(eng, s, Ptr(ldo, eng.field('LogData', 'content_len_')), I32)
            n = eng.D._s(cl2 - cl)
            eng.covers.append(('path', s.hyps())) if len(eng.covers) < 3 else None
            if eng.check(s.hyps() + [B(Not(room))]) == 'unsat':
                post_ptr(eng, s, lambda k: at(eng, ldo, s, eng.iadd(cl, k), cpath), n, p, isnull)
            else:
                post(eng, s, Not(room), 'written whenever 30 bytes are left')
                post(eng, s, n == 0, 'nothing is written when fewer than 30 bytes are left')
            k = z3.BitVec(eng.nm('k'), 64)
            c64 = z3.SignExt(32, cl)
            post(eng, s, z3.Implies(z3.And(z3.ULT(k, size), z3.Or(k < c64, k >= c64 + n)), eng.D.lift(at(eng, ldo, s, k, cpath), 8) == eng.D.lift(at(eng, ldo, init, k, cpath), 8)), 'no other content byte is touched')
        return eng
    return go


def units(ctx):
    ctx.module('fmt.cpp'), ctx.module('stream.cpp')
    us = []
    for W in ((0, 2, 4, 16, 20) if ctx.tier == 'quick' else (0, 1, 2, 3, 4, 8, 10, 16, 20)):
        for kind in ('hex', 'bin'):
            us.append(Unit('write_%s_unsafe<%d>' % (kind, W), unit_radix(kind, False, W)))
    for W in (0, 2, 16):
        for kind in ('hex', 'bin'):
            us.append(Unit('write_%s_unsafe<%d> signed' % (kind, W), unit_radix(kind, True, W)))
    us.append(Unit('write_pointer_unsafe', unit_ptr))
    us.append(Unit('LogStream << const void*', unit_stream('vp_ptr')))
    us.append(Unit('LogStream << nullptr', unit_stream('vp_null')))
    return us


def replay(ctx, refuted, incomplete):
    exe, err = build_harness(ctx, 'c02.cpp')
    if not exe:
        return dict(found=False, text='harness does not build: ' + err, evaluations=0)
    vals = sorted({o['model'].get('number') or o['model'].get('pointer') for o in refuted if o.get('model')} - {None})
    n = 20000 if ctx.tier == 'quick' else 1000000
    rc, out = run_harness(ctx, exe, [ctx.seed, n] + vals)
    return dict(found=rc != 0, text=out[-4000:], evaluations=n)
