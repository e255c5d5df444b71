"""C18 a record transmitted to another channel is a faithful copy"""
from core import *
from c01 import TRUSTED

ID = 'C18'
LEVEL = 'proof'
ASSUMPTIONS = ['the transmitted record satisfies the record invariant 0 <= content_len_ <= LOG_SIZE (C04) and is not a slot of the target queue (its channel number is another one)',
               'HoldChannel returns a negative number, or a slot of the queue of a configured channel that belongs to the caller until PushChannel (C07); the caller is the only writer of that slot',
               'what PushChannel does with the finished record is C05 (newline, terminator, publication)']
COPIED = ('priority_', 'code_line_', 'code_func_len_', 'code_file_len_', 'code_func_', 'code_file_', 'timestamp_', 'precise_', 'thread_', 'prefix_len_', 'content_len_')


def unit(ctx):
    eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
    D = eng.D
    libc(eng)
    st = State()
    lg = LG(eng, st)
    src = eng.new_obj('source', ('st', eng.struct_name('LogData')), 'arg')
    G = lambda s, f, *ix: lg.get(s, lg.scal(src, (lg.arr(src, eng.field('LogData', f)) + ix) if ix else eng.field('LogData', f)))
    c, cat, ident = D.fresh(32, 'channel'), D.fresh(32, 'category'), D.fresh(64, 'identify')
    n = lg.get(st, lg.p_shm('channel_size_'))
    ln = G(st, 'content_len_')
    eng.assume(st, And(n >= 0, n <= lg.NC, ln >= 0, ln <= lg.LS))
    eng.watch.update(channel=c, category=cat, identify=ident, content_len=ln, source_channel=G(st, 'channel_id_'), priority=G(st, 'priority_'))
    h = D.fresh(32, 'slot')
    st.ghost['held'] = z3.IntVal(0)
    st.ghost['pushed'] = z3.IntVal(0)
    st0 = st.fork()
    k = D.fresh(64, 'k', 0, lg.LS - 1)
    log = []
    same = G(st0, 'channel_id_') == c

    def hold(e, s, ins, a, dem):
        log.append('hold')
        post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), D.lift(a[1]) == c, D.lift(a[2]) == G(st0, 'priority_'), D.lift(a[3]) == cat, D.lift(a[4]) == ident), 'the target is asked with the priority of the record and the requested category and identify')
        post(e, s, Not(same), 'a record is not transmitted to its own channel')
        post(e, s, s.ghost['held'] == 0, 'one slot is taken at most')
        s.ghost['held'] = s.ghost['held'] + 1
        r = []
        for ok in (0, 1):
            t = s.fork()
            if ok:
                e.assume(t, And(c >= 0, c < n, h >= 0, h < lg.NB))
                t.ghost['held'] = z3.IntVal(2)
                r.append((t, h))
            else:
                x = D.fresh(32, 'refusal')
                e.assume(t, x < 0)
                r.append((t, x))
        return r

    def push(e, s, ins, a, dem):
        log.append('push')
        post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), D.lift(a[1]) == c, D.lift(a[2]) == h), 'the slot that was taken is published in the target channel')
        post(e, s, And(s.ghost['held'] == 2, s.ghost['pushed'] == 0), 'a taken slot is published once')
        s.ghost['pushed'] = s.ghost['pushed'] + 1
        F = lambda f, *ix: lg.get(s, lg.p_log(c, h, f, *ix))
        post(e, s, F('channel_id_') == c, 'the copy belongs to the target channel')
        post(e, s, F('category_') == cat, 'the copy has the requested category')
        post(e, s, F('identify_') == ident, 'the copy has the requested identify')
        for f in COPIED:
            x, y = F(f), G(st0, f)
            post(e, s, e.ptr_eq(x, y) if isinstance(x, (Ptr, PtrU)) else x == y, 'the copy has the same %s' % f.strip('_'))
        post(e, s, Implies(And(k >= 0, k < ln), F('content_', k) == G(st0, 'content_', k)), 'every byte of the text is copied')
        slot = lg.p_log(c, h, 'data_mark_')
        ks = {}
        for f in COPIED + ('channel_id_', 'category_', 'identify_'):
            ks[key_of(e, lg.p_log(c, h, f))[0]] = 1
        ks[key_of(e, lg.p_log(c, h, 'content_', 0))[0]] = 1

        def skip(key, idx):
            if key in ks:
                return idx is not None and And(idx[0] == c, idx[1] == h)
            return False if idx is not None else None
        frame(e, s, st0, (lg.lg, lg.shm), [skip], 'only the taken slot is written')
        frame(e, s, st0, (src,), [], 'the original is not modified')
        return D.fresh(32, 'push_result')
    eng.contracts['FNLog::HoldChannel'] = hold
    eng.contracts['FNLog::PushChannel'] = push
    eng.covers += [('transmitted', st.hyps() + [Not(same), c >= 0, c < n]), ('same channel', st.hyps() + [same]), ('full record', st.hyps() + [ln == lg.LS])]
    for s, r in run(eng, 'vp_transmit', [Ptr(lg.lg), c, cat, ident, Ptr(src)], st):
        post(eng, s, Iff(same, s.ghost['held'] == 0), 'exactly a record of another channel is offered to the target')
        post(eng, s, Implies(s.ghost['held'] == 2, s.ghost['pushed'] == 1), 'a taken slot is published')
        post(eng, s, Implies(s.ghost['held'] != 2, And(s.ghost['pushed'] == 0, D.lift(r) == 0)), 'nothing is published without a slot, and that is no error')
        frame(eng, s, st0, (src,), [], 'the original is not modified')
        nothing = s.ghost['held'] != 2
        if eng.check(s.hyps() + [nothing], None, 5000) != 'unsat':
            t = s.fork()
            eng.assume(t, nothing)
            frame(eng, t, st0, (lg.lg, lg.shm), [], 'without a slot nothing changes')
    if 'hold' not in log or 'push' not in log:
        raise Unsupported('HoldChannel/PushChannel are not called by name')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('TransmitChannel', unit)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c18.cpp', 20000, 400000, refuted, ('content_len',))
