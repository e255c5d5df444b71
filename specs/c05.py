"""C05 a published record is newline- and NUL-terminated in its buffer"""
from core import *
from c01 import TRUSTED
from houdini import Cut

ID = 'C05'
LEVEL = 'proof'
ASSUMPTIONS = ['the record handed over satisfies the record invariant 0 <= content_len_ <= LOG_SIZE (C04) and has a priority in [0, PRIORITY_MAX)',
               'only the owner of a held slot writes the record (C07)', 'channel_size_ <= MAX_CHANNEL_SIZE; the write cursor is inside the queue (C08)',
               'the synchronous output step (EnterProcChannel) is entered with the finished record; its effect is covered by C08/C17']


def start(ctx, mode='paths'):
    eng = Engine(ctx.module('core.cpp'), 'int', mode)
    libc(eng)
    st = State()
    lg = LG(eng, st)
    n = lg.get(st, lg.p_shm('channel_size_'))
    eng.assume(st, And(n >= 0, n <= lg.NC))
    return eng, st, lg, n


def unit_push(ctx):
    eng, st, lg, n = start(ctx)
    D = eng.D
    c, h = D.fresh(32, 'channel'), D.fresh(32, 'hold_idx')
    eng.watch.update(channel=c, hold_idx=h)
    LS = lg.LS
    inr = And(c >= 0, c < n, h >= 0, h < lg.NB)
    valid = And(inr, lg.get(st, lg.p_ch(c, 'channel_state_')) == K(eng, 'CHANNEL_STATE_RUNNING'))
    F = lambda s, f, *ix: lg.get(s, lg.p_log(c, h, f, *ix))
    eng.kinds, kk = set(), eng.kinds
    L0, pr = F(st, 'content_len_'), F(st, 'priority_')
    eng.watch['content_len'] = L0
    eng.kinds = kk
    eng.assume(st, Implies(inr, And(L0 >= 0, L0 <= LS, pr >= 0, pr < K(eng, 'PRIORITY_MAX'))))
    eng.assume(st, Implies(inr, And(lg.get(st, lg.p_ring(c, 'write_idx_')) >= 0, lg.get(st, lg.p_ring(c, 'write_idx_')) < lg.NB)))
    st0 = st.fork()
    cut = z3.If(L0 <= LS - 2, L0, z3.IntVal(LS - 2))
    eng.covers += [('hand-over', st.hyps() + [valid]), ('cut', st.hyps() + [valid, L0 > LS - 2]), ('refused', st.hyps() + [Not(valid)])]
    k = D.fresh(64, 'k', 0, LS - 1)

    def finished(e, s, when):
        ln = F(s, 'content_len_')
        post(e, s, ln == cut + 1, 'length counts the text and the newline (%s)' % when)
        b = F(s, 'content_', k)
        post(e, s, Implies(k == cut, b == 10), 'a newline ends the text (%s)' % when)
        post(e, s, Implies(k == cut + 1, b == 0), 'a NUL follows inside the buffer (%s)' % when)
        post(e, s, cut + 1 < LS, 'the terminator lies inside the buffer (%s)' % when)
        post(e, s, Implies(k < cut, b == F(st0, 'content_', k)), 'the streamed text is unchanged (%s)' % when)
        post(e, s, Implies(k > cut + 1, b == F(st0, 'content_', k)), 'no other byte is written (%s)' % when)

    def proc(e, s, ins, a, dem):
        finished(e, s, 'at the synchronous output')
        post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), D.lift(a[1]) == c), 'output of the same channel is run')
        return None
    eng.contracts['FNLog::EnterProcChannel'] = proc
    mark = key_of(eng, lg.p_log(c, h, 'data_mark_'))[0]
    published = []

    def on_atomic(e, s, op, p, ty, v, nw):
        if op == 'store':
            key, ix = key_of(e, lg.scal(p.obj, p.path)) if isinstance(p, Ptr) and p.obj is lg.shm else (None, None)
            if key == mark:
                published.append(1)
                finished(e, s, 'when it is marked ready')
        return None
    eng.on_atomic = on_atomic
    W = lambda s: lg.get(s, lg.p_ring(c, 'write_idx_'))
    eng.loop_policy = ring_loops(Cut(inv=lambda e, s, entry: [('write cursor inside the queue', And(W(s) >= 0, W(s) < lg.NB))]))
    rets = run(eng, 'vp_push', [Ptr(lg.lg), c, h], st)
    for s, r in rets:
        post(eng, s, Iff(D.lift(r) == 0, valid), 'accepted exactly for a slot of a running channel')
        if isc(r) and r == 0:
            finished(eng, s, 'after the call')
            rd = [lg.p_ch(c, 'channel_log_fields_', 0)]
            stat = key_of(eng, rd[0])[0]
            wr = key_of(eng, lg.p_ring(c, 'write_idx_'))[0]
            own = only(eng, lg.p_log(c, h, 'content_len_'), lg.p_log(c, h, 'data_mark_'))
            cont = key_of(eng, lg.p_log(c, h, 'content_', 0))[0]

            def skip(key, idx):
                if key in (stat, wr):
                    return True
                if key == cont:
                    return idx is not None and And(idx[0] == c, idx[1] == h)
                return own(key, idx)
            frame(eng, s, st0, (lg.lg, lg.shm), [skip], 'nothing but the record, its mark, the write cursor and statistics changes')
        else:
            post(eng, s, D.lift(r) != 0, 'a refused hand-over reports an error')
            frame(eng, s, st0, (lg.lg, lg.shm), [], 'a refused hand-over changes nothing')
    if not published:
        raise Unsupported('the record is never marked ready')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('PushChannel', unit_push)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c05.cpp', 20000, 1000000, refuted, ('content_len',))
