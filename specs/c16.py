"""C16 setting and statistics accessors stay in range and touch only the target"""
from core import *
from c01 import TRUSTED

ID = 'C16'
LEVEL = 'proof'
ASSUMPTIONS = ['field numbers are non-negative (a negative number is not a value of the field enumerations)',
               'layout invariant of the storage: 0 <= channel_size_ <= MAX_CHANNEL_SIZE, 0 <= device_size_ <= MAX_DEVICE_SIZE (established by parsing and loading, C10/C12)',
               'one accessor at a time per item (plain, unsynchronised settings)']


def start(ctx, null=False):
    eng = Engine(ctx.module('core.cpp'), 'bv', 'merge')
    libc(eng)
    st = State()
    lg = LG(eng, st, null_shm=null)
    eng.loop_policy = lambda e, f, h, d: ('unroll', lg.ND + 5)
    if not null:
        n = lg.get(st, lg.p_shm('channel_size_'))
        eng.assume(st, z3.And(n >= 0, n <= lg.NC))
        for c in range(lg.NC):
            nd = lg.get(st, lg.p_ch(c, 'device_size_'))
            eng.assume(st, z3.And(nd >= 0, nd <= lg.ND))
    return eng, st, lg


def sym(eng, *names):
    r = []
    for n in names:
        v = z3.BitVec(n, 64 if n == 'value' else 32)
        eng.watch[n] = v
        r.append(v)
    return r


def ok(eng, lg, st, c, f, fmax, d=None):
    n = lg.get(st, lg.p_shm('channel_size_'))
    r = [c >= 0, c < n, z3.ULT(f, K(eng, fmax))]
    if d is not None:
        r += [d >= 0, d < lg.get(st, lg.p_ch(c, 'device_size_'))]
    return z3.And(r)


def getter(fn, fld, fmax, dev):
    def go(ctx):
        eng, st, lg = start(ctx)
        c, f, d = sym(eng, 'channel', 'field', 'device')
        eng.assume(st, f >= 0)
        good = ok(eng, lg, st, c, f, fmax, d if dev else None)
        eng.covers += [('in range', st.hyps() + [good]), ('out of range', st.hyps() + [z3.Not(good)])]
        st0 = st.fork()
        fx = z3.ZeroExt(32, f)
        if fld == 'channel_log_fields_':
            pt = lg.p_ch(c, fld, fx)
        elif fld == 'device_log_fields_':
            pt = lg.p_ch(c, fld, d, fx)
        else:
            pt = lg.p_dev(c, d, fld, fx)
        for s, r in run(eng, fn, [Ptr(lg.lg), c] + ([d] if dev else []) + [f], st):
            post(eng, s, bv(r, 64) == z3.If(good, lg.get(st0, pt), z3.BitVecVal(0, 64)), 'the addressed item is returned, 0 outside the ranges')
            frame(eng, s, st0, (lg.lg, lg.shm), [], 'reading changes nothing')
        return eng
    return go


def setter(fn, dev):
    def go(ctx):
        eng, st, lg = start(ctx)
        c, f, d, v = sym(eng, 'channel', 'field', 'device', 'value')
        eng.assume(st, f >= 0)
        good = ok(eng, lg, st, c, f, 'DEVICE_CFG_MAX_ID' if dev else 'CHANNEL_CFG_MAX_ID', d if dev else None)
        eng.covers += [('in range', st.hyps() + [good]), ('out of range', st.hyps() + [z3.Not(good)])]
        st0 = st.fork()
        fx = z3.ZeroExt(32, f)
        pt = lg.p_dev(c, d, 'config_fields_', fx) if dev else lg.p_ch(c, 'config_fields_', fx)
        for s, r in run(eng, fn, [Ptr(lg.lg), c] + ([d] if dev else []) + [f, v], st):
            post(eng, s, Implies(good, lg.get(s, pt) == v), 'the addressed setting gets the value')
            frame(eng, s, st0, (lg.lg, lg.shm), [only(eng, (pt, good))], 'nothing else changes')
        return eng
    return go


def batch(fn, dev):
    def go(ctx):
        eng, st, lg = start(ctx)
        f, v, ot = sym(eng, 'field', 'value', 'out_type')
        eng.assume(st, f >= 0)
        n = lg.get(st, lg.p_shm('channel_size_'))
        fx = z3.ZeroExt(32, f)
        inr = z3.ULT(f, K(eng, 'DEVICE_CFG_MAX_ID' if dev else 'CHANNEL_CFG_MAX_ID'))
        eng.covers += [('in range', st.hyps() + [inr, n == lg.NC])]
        st0 = st.fork()
        exc = []
        goals = []
        for c in range(lg.NC):
            if not dev:
                g = z3.And(inr, c < n)
                pt = lg.p_ch(c, 'config_fields_', fx)
                exc.append((pt, g))
                goals.append((g, pt, 'channel %d' % c))
            else:
                nd = lg.get(st0, lg.p_ch(c, 'device_size_'))
                for d in range(lg.ND):
                    g = z3.And(inr, c < n, d < nd, z3.Or(ot == K(eng, 'DEVICE_OUT_NULL'), ot == lg.get(st0, lg.p_dev(c, d, 'out_type_'))))
                    pt = lg.p_dev(c, d, 'config_fields_', fx)
                    exc.append((pt, g))
                    goals.append((g, pt, 'channel %d device %d' % (c, d)))
        for s, r in run(eng, fn, [Ptr(lg.lg)] + ([ot] if dev else []) + [f, v], st):
            for g, pt, w in goals:
                post(eng, s, Implies(g, lg.get(s, pt) == v), 'the matching item of %s gets the value' % w)
            frame(eng, s, st0, (lg.lg, lg.shm), [only(eng, *exc)], 'nothing else changes')
        return eng
    return go


def nullunit(ctx):
    engs = []
    for fn, nargs, get in (('vp_getchlog', 2, 1), ('vp_setchcfg', 3, 0), ('vp_getdevlog', 3, 1), ('vp_setdevcfg', 4, 0), ('vp_getdevcfg', 3, 1), ('vp_batchch', 2, 0), ('vp_batchdev', 3, 0)):
        eng, st, lg = start(ctx, True)
        c, d, f, v = sym(eng, 'channel', 'device', 'field', 'value')
        a = {'vp_getchlog': [c, f], 'vp_setchcfg': [c, f, v], 'vp_getdevlog': [c, d, f], 'vp_setdevcfg': [c, d, f, v], 'vp_getdevcfg': [c, d, f], 'vp_batchch': [f, v], 'vp_batchdev': [d, f, v]}[fn]
        st0 = st.fork()
        for s, r in run(eng, fn, [Ptr(lg.lg)] + a, st):
            if get:
                post(eng, s, bv(r, 64) == 0, '%s returns 0 on a logger without storage' % fn)
            frame(eng, s, st0, (lg.lg,), [], 'nothing changes')
            post(eng, s, True, '%s returns on a logger without storage' % fn)
        engs.append(eng)
    return engs


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('BatchSetDeviceConfig', batch('vp_batchdev', True), par=4, weight=4), Unit('BatchSetChannelConfig', batch('vp_batchch', False)),
            Unit('GetChannelLog', getter('vp_getchlog', 'channel_log_fields_', 'CHANNEL_LOG_MAX_ID', False)), Unit('GetDeviceLog', getter('vp_getdevlog', 'device_log_fields_', 'DEVICE_LOG_MAX_ID', True)),
            Unit('GetDeviceConfig', getter('vp_getdevcfg', 'config_fields_', 'DEVICE_CFG_MAX_ID', True)),
            Unit('SetChannelConfig', setter('vp_setchcfg', False)), Unit('SetDeviceConfig', setter('vp_setdevcfg', True)), Unit('without storage', nullunit)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c16.cpp', 200000, 3000000)
