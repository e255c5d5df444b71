"""C01 integers are rendered as exact decimal text"""
from lib import *

ID = 'C01'
LEVEL = 'proof'
TRUSTED = ['clang-18 front end and the opt passes sroa,instsimplify,loop-simplify,lcssa (IR of the real headers)', 'vc/ll.py, vc/eng.py, vc/dom.py (VC generator)', 'z3, cvc5', 'memcpy/memset semantics']
ASSUMPTIONS = ['minimum widths instantiated: 0,1,2,3,4,6,8,10,12,16,20 (template parameter; each instance proved for all values)', 'x86-64 data layout (LP64)']


def post_dec(eng, st, rd, Lv, value, W, maxn, init, guard=True):
    """rd(k): byte k of the produced text; value: mathematical integer"""
    D = eng.D
    V = D.lift(value)
    neg = V < 0
    l = D.lift(Lv)
    lo, hi = D.range(Lv)
    post(eng, st, Implies(guard, And(l >= 1, l <= maxn)), 'length of the text in range')
    n = maxn if not isc(Lv) else Lv
    by = [D.lift(rd(k)) for k in range(n)]

    def inl(k):
        return k < Lv if isc(Lv) else k < l
    post(eng, st, Implies(guard, Implies(neg, by[0] == 45)), 'a negative value starts with a minus sign')
    off = 0
    for k in range(n):
        isd = And(by[k] >= 48, by[k] <= 57)
        if k == 0:
            isd = Or(isd, neg)
        post(eng, st, Implies(And(guard, inl(k)), isd), 'byte %d is a decimal digit' % k)
    acc = z3.IntVal(0)
    for k in range(n):
        nx = acc * 10 + (by[k] - 48)
        if k == 0:
            nx = z3.If(neg, acc, nx)
        acc = nx if inl(k) is True else z3.If(B(inl(k)), nx, acc)
    post(eng, st, Implies(guard, acc == z3.If(neg, -V, V)), 'the digits denote exactly the value')
    # no redundant leading zero: longer than the minimum width only if the first digit is significant
    first = z3.If(neg, by[1] if n > 1 else z3.IntVal(0), by[0])
    nd = l - z3.If(neg, 1, 0)
    post(eng, st, Implies(guard, Or(l <= W, first != 48, nd == 1)), 'no leading zero beyond the minimum width')
    post(eng, st, Implies(guard, l >= W), 'minimum width honoured')


def unit_dec(W, signed):
    def go(ctx):
        mod = ctx.module('fmt.cpp')
        eng = Engine(mod, 'int', 'paths')
        fn = 'vp_dec%s_%d' % ('s' if signed else 'u', W)
        st = State()
        D = eng.D
        maxn = max(W, 20 if not signed else 20)
        dst = eng.new_obj('dst', ('arr', None, I8), 'arg')
        dst.len = maxn
        v = D.fresh(64, 'number')
        val = v if signed else D.u(64, v)
        eng.watch = {'number': v}
        key = (dst.id, ('*',))
        init = eng.leaf_init(key)
        eng.covers.append(('entry', st.hyps()))
        rets = run(eng, fn, [Ptr(dst, (0,)), v], st)
        for s, r in rets:
            eng.covers.append(('path', s.hyps())) if len(eng.covers) < 4 else None
            post_dec(eng, s, lambda k: at(eng, dst, s, k), r, val, W, maxn, init)
            k = D.fresh(64, 'k')
            post(eng, s, Implies(Or(k < 0, k >= D.lift(r)), D.lift(at(eng, dst, s, k)) == D.lift(eng.read(init, (k,)))), 'no byte outside the produced text is touched')
        if not rets:
            raise Unsupported('no path')
        return eng
    return go


STREAM = [('vp_s16', 16, True, 0), ('vp_u16', 16, False, 0), ('vp_s32', 32, True, 0), ('vp_u32', 32, False, 0), ('vp_sl', 64, True, 0), ('vp_ul', 64, False, 0),
          ('vp_s64', 64, True, 0), ('vp_u64', 64, False, 0), ('vp_u8', 8, False, 0), ('vp_num_s32_w6', 32, True, 6), ('vp_num_u64_w12', 64, False, 12), ('vp_num_u8_w3', 8, False, 3), ('vp_num_s64_w0', 64, True, 0)]


def stream_obj(eng, st, with_data=True):
    """a log stream in a state satisfying the record invariant 0 <= content_len_ <= LOG_SIZE"""
    D = eng.D
    size = eng.mod.const_int('vp_int__LOG_SIZE')
    ls = eng.new_obj('stream', ('st', eng.struct_name('LogStream')), 'arg')
    ldo = eng.new_obj('log', ('st', eng.struct_name('LogData')), 'arg')
    p = Ptr(ls, eng.field('LogStream', 'log_data_'))
    eng.cur = st
    eng.store(st, p, 'ptr', Ptr(ldo))
    cl = D.fresh(32, 'content_len', 0, size)
    eng.store(st, Ptr(ldo, eng.field('LogData', 'content_len_')), I32, cl)
    eng.watch['content_len'] = cl
    return ls, ldo, cl, size


def unit_stream(f, w, signed, W):
    def go(ctx):
        mod = ctx.module('stream.cpp')
        eng = Engine(mod, 'int', 'paths')
        D = eng.D
        st = State()
        ls, ldo, cl, size = stream_obj(eng, st)
        v = D.fresh(w, 'number')
        eng.watch['number'] = v
        val = v if signed else D.u(w, v)
        cpath = eng.field('LogData', 'content_')
        while eng.rt(eng.type_at(ldo, cpath))[0] != 'arr':
            cpath += (0,)
        init = st.fork()
        eng.covers.append(('entry', st.hyps()))
        rets = run(eng, f, [Ptr(ls), v], st)
        for s, r in rets:
            cl2 = ld(eng, s, Ptr(ldo, eng.field('LogData', 'content_len_')), I32)
            room = D.lift(cl) + 30 <= size
            n = eng.isub(cl2, cl)
            post(eng, s, Implies(Not(room), D.lift(n) == 0), 'nothing is written when fewer than 30 bytes are left')
            if s.hyps() and eng.check(s.hyps() + [B(room)]) == 'unsat':
                continue
            post_dec(eng, s, lambda k: at(eng, ldo, s, eng.iadd(cl, k), cpath), n, val, W, max(W, 20), None, guard=room)
            k = D.fresh(64, 'k', 0, size - 1)
            post(eng, s, Implies(Or(k < D.lift(cl), k >= D.lift(cl2)), D.lift(at(eng, ldo, s, k, cpath)) == D.lift(at(eng, ldo, init, k, cpath))), 'no other content byte is touched')
        return eng
    return go


def units(ctx):
    us = []
    ctx.module('fmt.cpp'), ctx.module('stream.cpp')
    for W in ((0, 2, 3, 4, 20) if ctx.tier == "quick" else (0, 1, 2, 3, 4, 8, 10, 16, 20)):
        us.append(Unit('write_dec_unsafe<%d> unsigned' % W, unit_dec(W, False)))
        us.append(Unit('write_dec_unsafe<%d> signed' % W, unit_dec(W, True)))
    for f, w, s, W in STREAM:
        us.append(Unit('LogStream %s' % f, unit_stream(f, w, s, W)))
    return us


def replay(ctx, refuted, incomplete):
    exe, err = build_harness(ctx, 'c01.cpp')
    if not exe:
        return dict(found=False, text='harness does not build: ' + err, evaluations=0)
    vals = sorted({o['model']['number'] for o in refuted if o.get('model') and 'number' in o['model']})
    rc, out = run_harness(ctx, exe, [ctx.seed, 20000 if ctx.tier == 'quick' else 2000000] + vals)
    return dict(found=rc != 0, text=out[-4000:], evaluations=20000)
