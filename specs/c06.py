"""C06 a log is accepted and delivered exactly when the documented filters allow"""
from core import *
from c01 import TRUSTED

ID = 'C06'
LEVEL = 'proof'
ASSUMPTIONS = [
    'filter begins and counts are in [-2^61, 2^61] (begin+count does not overflow)',
    'when a category (identify) mask is set, category (identify) is in 0..63: masks are 64 bits wide',
    'priorities of log calls are in [0, PRIORITY_MAX); configuration fields are read without interference during one decision',
    'device output functions do not change the filter configuration (their own contract, C17)']
SM = 1 << 61


def fields(eng, lg, st, c, d=None):
    g = (lambda n: lg.get(st, lg.p_ch(c, 'config_fields_', K(eng, 'CHANNEL_CFG_' + n)))) if d is None else (lambda n: lg.get(st, lg.p_dev(c, d, 'config_fields_', K(eng, 'DEVICE_CFG_' + n))))
    f = {n: g(n) for n in ('PRIORITY', 'CATEGORY', 'CATEGORY_EXTEND', 'CATEGORY_MASK', 'IDENTIFY', 'IDENTIFY_EXTEND', 'IDENTIFY_MASK')}
    if d is not None:
        f['ABLE'] = g('ABLE')
    return f


def pre_fields(f, cat, ident):
    r = []
    for n in ('CATEGORY', 'IDENTIFY'):
        v = z3.SignExt(32, cat) if n == 'CATEGORY' else ident
        r += [f[n] >= -SM, f[n] <= SM, f[n + '_EXTEND'] >= -SM, f[n + '_EXTEND'] <= SM]
        r.append(z3.Implies(f[n + '_MASK'] != 0, z3.And(v >= 0, v <= 63)))
    return z3.And(r)


def passes(f, prio, cat, ident):
    """the documented filter"""
    r = [z3.SignExt(32, prio) >= f['PRIORITY']]
    for n, v in (('CATEGORY', z3.SignExt(32, cat)), ('IDENTIFY', ident)):
        b, k, m = f[n], f[n + '_EXTEND'], f[n + '_MASK']
        r.append(z3.Implies(k > 0, z3.And(v >= b, v < b + k)))
        r.append(z3.Implies(m != 0, z3.LShR(m, v) & 1 == 1))
    return z3.And(r)


def start(ctx):
    eng = Engine(ctx.module('core.cpp'), 'bv', 'merge')
    libc(eng)
    st = State()
    lg = LG(eng, st)
    eng.loop_policy = lambda e, f, h, d: ('unroll', lg.ND + 5)
    return eng, st, lg


def shape(eng, lg, st, c):
    """layout invariant of the configuration"""
    n = lg.get(st, lg.p_shm('channel_size_'))
    eng.assume(st, z3.And(n >= 0, n <= lg.NC))
    nd = lg.get(st, lg.p_ch(c, 'device_size_'))
    return n, nd


def accept(eng, lg, st, c, prio, cat, ident):
    """documented acceptance; also returns the preconditions"""
    n, nd = shape(eng, lg, st, c)
    run_ = lg.get(st, lg.p_logger('logger_state_')) == K(eng, 'LOGGER_STATE_RUNNING')
    inr = z3.And(c >= 0, c < n)
    ok = [inr, run_, lg.get(st, lg.p_ch(c, 'channel_state_')) == K(eng, 'CHANNEL_STATE_RUNNING')]
    pre = [z3.Implies(inr, z3.And(nd >= 0, nd <= lg.ND)), prio >= 0, prio < K(eng, 'PRIORITY_MAX')]
    fc = fields(eng, lg, st, c)
    pre.append(pre_fields(fc, cat, ident))
    ok.append(passes(fc, prio, cat, ident))
    devs = []
    for d in range(lg.ND):
        fd = fields(eng, lg, st, c, d)
        pre.append(z3.Implies(d < nd, pre_fields(fd, cat, ident)))
        devs.append(z3.And(d < nd, fd['ABLE'] != 0, lg.get(st, lg.p_dev(c, d, 'in_type_')) == K(eng, 'DEVICE_IN_NULL'), passes(fd, prio, cat, ident)))
    return z3.And(ok), devs, z3.And(pre)


def args(eng):
    c, p, cat, i = z3.BitVec('channel_id', 32), z3.BitVec('priority', 32), z3.BitVec('category', 32), z3.BitVec('identify', 64)
    eng.watch.update(channel_id=c, priority=p, category=cat, identify=i)
    return c, p, cat, i


def unit_block(ctx):
    eng, st, lg = start(ctx)
    c, p, cat, i = args(eng)
    ok, devs, pre = accept(eng, lg, st, c, p, cat, i)
    eng.assume(st, pre)
    st0 = st.fork()
    for d, x in enumerate(devs):
        eng.watch['device_%d_passes' % d] = x
    eng.covers += [('accepted possible', st.hyps() + [ok, devs[3]]), ('rejection possible', st.hyps() + [z3.Not(ok)])]
    for s, r in run(eng, 'vp_block', [Ptr(lg.lg), c, p, cat, i], st):
        r = r if isb(r) or isinstance(r, z3.BoolRef) else r != 0
        post(eng, s, Implies(Not(r), ok), 'an accepted record passes the state and channel filters')
        post(eng, s, Implies(Not(r), z3.Or(devs)), 'an accepted record passes some enabled device')
        for d, x in enumerate(devs):
            post(eng, s, Implies(And(ok, x), Not(r)), 'a record that device %d takes is accepted' % d)
        frame(eng, s, st0, (lg.lg, lg.shm), [], 'the decision changes nothing')
    return eng


def unit_block_null(ctx):
    eng = Engine(ctx.module('core.cpp'), 'bv', 'merge')
    libc(eng)
    st = State()
    lg = LG(eng, st, null_shm=True)
    c, p, cat, i = args(eng)
    for s, r in run(eng, 'vp_block', [Ptr(lg.lg), c, p, cat, i], st):
        post(eng, s, r if isb(r) or isinstance(r, z3.BoolRef) else r != 0, 'a logger without storage accepts nothing')
    return eng


def unit_dispatch(ctx):
    eng, st, lg = start(ctx)
    log = eng.new_obj('log', ('st', eng.struct_name('LogData')), 'arg')
    c = z3.BitVec('channel', 32)
    g = lambda f: lg.get(st, lg.scal(log, eng.field('LogData', f)))
    p, cat, i = g('priority_'), g('category_'), g('identify_')
    eng.watch.update(priority=p, category=cat, identify=i)
    ok, devs, pre = accept(eng, lg, st, c, p, cat, i)
    eng.assume(st, z3.And(pre, c >= 0, c < lg.get(st, lg.p_shm('channel_size_'))))
    eng.assume(st, lg.get(st, lg.p_ch(c, 'channel_id_')) == c)
    st.ghost['cnt'] = ABase(lambda idx: z3.BitVecVal(0, 8))
    st.ghost['last'] = z3.BitVecVal(-1, 64)
    kinds = {}
    outs = {'Screen': 'SCREEN', 'File': 'FILE', 'UDP': 'UDP', 'Empty': 'EMPTY'}

    def event(e, s, ins, a, dem):
        kind = [v for k, v in outs.items() if 'Out%sDevice' % k in dem]
        post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), bv(a[1], 32) == c, e.ptr_eq(a[3], Ptr(log))), 'the record is handed to devices of its own channel')
        d = e.ix(a[2])
        if kind:
            post(e, s, lg.get(s, lg.p_dev(c, d, 'out_type_')) == K(e, 'DEVICE_OUT_' + kind[0]), 'the output function of the device kind is used')
        post(e, s, d > s.ghost['last'], 'delivery in device order, once per device')
        s.ghost['last'] = d
        s.ghost['cnt'] = AStore(s.ghost['cnt'], (d,), e.read(s.ghost['cnt'], (d,)) + 1)
        return None
    for k in outs:
        eng.contracts['FNLog::EnterProcOut%sDevice' % k] = event
    eng.covers.append(('deliverable', st.hyps() + [devs[2], devs[7]]))
    st0 = st.fork()
    for s, r in run(eng, 'vp_dispatch', [Ptr(lg.lg), lg.channel(c), Ptr(log)], st):
        for d, x in enumerate(devs):
            ot = lg.get(st0, lg.p_dev(c, d, 'out_type_'))
            real = z3.Or([ot == K(eng, 'DEVICE_OUT_' + k) for k in outs.values()])
            post(eng, s, eng.read(s.ghost['cnt'], (d,)) == z3.If(z3.And(x, real), z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 'device %d gets the record exactly when it is enabled and passes its filters' % d)
        frame(eng, s, st0, (log,), [], 'dispatch does not alter the record')
    return eng


def unit_hold(ctx):
    """HoldChannel asks the filter with the values of the call and takes nothing when it refuses"""
    eng, st, lg = start(ctx)
    eng.loop_policy = lambda e, f, h, d: ('unroll', lg.ND + 5)
    c, p, cat, i = args(eng)
    blocked = z3.Bool('blocked')
    asked = []

    def block(e, s, ins, a, dem):
        asked.append(1)
        post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), bv(a[1], 32) == c, bv(a[2], 32) == p, bv(a[3], 32) == cat, bv(a[4], 64) == i), 'the filter is asked about the record of the call')
        return blocked
    eng.contracts['FNLog::BlockInput'] = block
    eng.assume(st, blocked)
    st0 = st.fork()
    for s, r in run(eng, 'vp_hold', [Ptr(lg.lg), c, p, cat, i], st):
        post(eng, s, bv(r, 32) < 0, 'a refused record gets no slot')
        frame(eng, s, st0, (lg.lg, lg.shm), [], 'a refused record changes nothing')
    if not asked:
        raise Unsupported('BlockInput not called by name')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('BlockInput', unit_block, timeout=60, par=6, weight=6), Unit('BlockInput without storage', unit_block_null), Unit('DispatchLog', unit_dispatch, timeout=60, par=6, weight=6), Unit('HoldChannel refusal', unit_hold)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c06.cpp', 300000, 5000000)
