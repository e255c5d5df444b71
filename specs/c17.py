"""C17 devices output each record completely and count it exactly"""
from devs import *
from c01 import TRUSTED
from houdini import Cut

ID = 'C17'
LEVEL = 'proof'
ASSUMPTIONS = [
    'the record has a text of 1 to LOG_SIZE-2 bytes (as published, C05) and a priority in [0, PRIORITY_MAX)',
    'the C library keeps its contract: fwrite to an open stream outputs all bytes, sendto sends the whole datagram or fails, std::string members, mktime and localtime_r change nothing else',
    'a hook does not change the statistics itself; category and identify filters of a hook as in C06 (values 0..63 when a mask is set)',
    'a file that cannot be opened receives nothing and counts nothing (the reopening rule is C13)']


def counted(dev, s, st0, what='the record', extra=(), lose=None, cond=None):
    """the line count, the byte count and the per-priority byte count advance; nothing else does"""
    eng, n = dev.eng, dev.len64()
    one, zero = z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)
    g = z3.BoolVal(True) if cond is None else cond
    d = lambda name, off=None: dev.stat(s, name, off) - dev.stat(st0, name, off)
    post(eng, s, d('DEVICE_LOG_TOTAL_WRITE_LINE') == z3.If(g, one, zero), 'the line count grows by exactly one per output record')
    post(eng, s, d('DEVICE_LOG_TOTAL_WRITE_BYTE') == z3.If(g, n, zero), 'the byte count grows by the length of the text')
    post(eng, s, d('DEVICE_LOG_PRIORITY', dev.prio) == z3.If(g, n, zero), 'the byte count of the priority grows by the length of the text')
    if lose is not None:
        post(eng, s, d('DEVICE_LOG_TOTAL_LOSE_LINE') == z3.If(lose, one, zero), 'a record that could not be sent is counted as lost, others are not')
    allowed = [dev.p_stat('DEVICE_LOG_TOTAL_WRITE_LINE'), dev.p_stat('DEVICE_LOG_TOTAL_WRITE_BYTE'), dev.p_stat('DEVICE_LOG_PRIORITY', dev.prio)]
    if lose is not None:
        allowed.append(dev.p_stat('DEVICE_LOG_TOTAL_LOSE_LINE'))
    return allowed + list(extra)


def unit_screen(ctx):
    dev = Dev(ctx)
    eng, st, lg = dev.eng, dev.st, dev.lg
    stdout_models(dev)
    st0 = st.fork()
    eng.covers += [('low priority', st.hyps() + [dev.prio == 0]), ('high priority', st.hyps() + [dev.prio == 6])]
    for s, r in run(eng, 'vp_screen', dev.args, st):
        post(eng, s, s.ghost['emitted'] == 1, 'the text is output once')
        al = counted(dev, s, st0)
        frame(eng, s, st0, (lg.shm, dev.log), [only(eng, *al)], 'no other statistic, setting or record changes')
    return eng


def unit_empty(ctx):
    dev = Dev(ctx)
    eng, st, lg = dev.eng, dev.st, dev.lg
    stdout_models(dev)
    st0 = st.fork()
    for s, r in run(eng, 'vp_empty', dev.args, st):
        post(eng, s, s.ghost['emitted'] == 0, 'the empty device outputs nothing')
        al = counted(dev, s, st0)
        frame(eng, s, st0, (lg.lg, lg.shm, dev.log), [only(eng, *al)], 'no other statistic, setting or record changes')
    return eng


def unit_udp(ctx):
    dev = Dev(ctx)
    eng, st, lg = dev.eng, dev.st, dev.lg
    sock = dev.handle('udp_handles_', 'UDPHandler', 'handler_')
    st.ghost['sent'] = z3.BitVecVal(0, 8)
    st.ghost['failed'] = z3.BoolVal(False)
    now = z3.BitVec('now', 64)
    ots = lg.get(st, dev.handle('udp_handles_', 'UDPHandler', 'open_ts_'))
    eng.assume(st, z3.And(now >= 0, now < 1 << 40, ots >= 0, ots < 1 << 40))
    eng.models['time'] = lambda *x: now
    fd = z3.BitVec('new_socket', 32)
    eng.assume(st, fd >= -1)

    def socket(e, s, ins, a, dem):
        return fd
    eng.models['socket'] = socket
    eng.models['fcntl'] = lambda *x: None
    eng.models['close'] = lambda *x: None

    def sendto(e, s, ins, a, dem):
        ok = And(dev.is_text(e, a[1]), bv(a[2], 64) == dev.len64(), bv(a[0], 32) == lg.get(s, sock))
        dev.emitted(e, s, ok, 'exactly the text of the record is sent through the socket of the device')
        r = z3.BitVec(e.nm('sendto'), 64)
        f = z3.Bool(e.nm('send_fails'))
        s.ghost['failed'] = z3.Or(s.ghost['failed'], f)
        s.ghost['sent'] = s.ghost['sent'] + 1
        v = z3.If(f, z3.BitVecVal(-1, 64), bv(a[2], 64))
        return v
    eng.models['sendto'] = sendto
    eng.covers.append(('socket open', st.hyps() + [lg.get(st, sock) >= 0]))
    st0 = st.fork()
    path = lg.arr(lg.lg, eng.field('Logger', 'udp_handles_'))
    for s, r in run(eng, 'vp_udp', dev.args, st):
        op = lg.get(s, sock) != -1
        post(eng, s, Implies(op, s.ghost['emitted'] == 1), 'the text is sent once')
        post(eng, s, Implies(Not(op), s.ghost['emitted'] == 0), 'nothing is sent without a socket')
        post(eng, s, Implies(lg.get(st0, sock) != -1, lg.get(s, sock) == lg.get(st0, sock)), 'an open socket stays in use')
        lose = z3.Or(z3.Not(op), s.ghost['failed'])
        al = counted(dev, s, st0, lose=lose, cond=op)
        frame(eng, s, st0, (lg.shm, dev.log), [only(eng, *al)], 'no other statistic, setting or record changes')
        n = len(path)
        hid = lg.lg.id

        def other(key, idx):
            # leaves inside udp_handles_ of this very device may change
            k = key[1]
            if key[0] == hid and tuple(k[:n]) == tuple(path) and len(k) > n and k[n] == '*':
                return None if idx is None else eng.ix(idx[0]) == eng.ix(z3.SignExt(32, dev.h))
            return False
        frame(eng, s, st0, (lg.lg,), [other], 'no other handle and nothing else of the logger changes')
    return eng


def unit_file(ctx):
    dev = Dev(ctx)
    eng, st, lg = dev.eng, dev.st, dev.lg
    file_models(dev)
    fp = dev.fp
    eng.covers.append(('file open', st.hyps() + [B(Not(eng.is_null(lg.get(st, fp))))]))
    st0 = st.fork()
    for s, r in run(eng, 'vp_file', dev.args, st):
        op = B(Not(eng.is_null(lg.get(s, fp))))
        post(eng, s, Implies(op, s.ghost['emitted'] == 1), 'the text is written once')
        post(eng, s, Implies(Not(op), s.ghost['emitted'] == 0), 'nothing is written without an open file')
        al = counted(dev, s, st0, extra=[dev.p_stat(n) for n in OPENS], cond=op)
        frame(eng, s, st0, (lg.shm, dev.log), [only(eng, *al)], 'no other statistic, setting or record changes')
        frame(eng, s, st0, (lg.lg,), [only(eng, fp)], 'no other handle and nothing else of the logger changes')
    return eng


def unit_virtual(ctx):
    from c06 import pre_fields
    dev = Dev(ctx)
    eng, st, lg = dev.eng, dev.st, dev.lg
    cat, ident = dev.rec(st, 'category_'), dev.rec(st, 'identify_')
    eng.watch.update(category=cat, identify=ident)
    g = lambda n: dev.cfg(st, 'DEVICE_CFG_' + n)
    f = {n: g(n) for n in ('CATEGORY', 'CATEGORY_EXTEND', 'CATEGORY_MASK', 'IDENTIFY', 'IDENTIFY_EXTEND', 'IDENTIFY_MASK')}
    eng.assume(st, pre_fields(f, cat, ident))
    r = []
    for n, v in (('CATEGORY', z3.SignExt(32, cat)), ('IDENTIFY', ident)):
        b, k, m = f[n], f[n + '_EXTEND'], f[n + '_MASK']
        r.append(z3.Implies(k > 0, z3.And(v >= b, v < b + k)))
        r.append(z3.Implies(m != 0, z3.LShR(m, v) & 1 == 1))
    takes = z3.And(r)
    st0 = st.fork()
    hooks = []

    def hook(e, s, ins, p, args):
        dev.emitted(e, s, And(e.ptr_eq(args[0], Ptr(dev.log)), Not(e.is_null(p))), 'the installed hook gets the record')
        for nm, gl in same_mem(e, s, st0, (dev.log,), [only(e, end)]):
            post(e, s, gl, 'the hook sees the record unchanged (%s)' % nm)
        post(e, s, lg.get(s, end) == 0, 'the hook sees a NUL behind the text')
        hooks.append((p, list(s.hyps())))
        return [(s, None)]
    eng.indirect = hook
    end = lg.scal(dev.log, content(eng, dev.log) + (dev.len64(),))
    eng.covers.append(('the hook takes it', st.hyps() + [takes]))
    for s, r_ in run(eng, 'vp_virtual', dev.args, st):
        if not hooks:
            raise Unsupported('hook pointer')
        inst = B(Not(eng.is_null(hooks[0][0])))
        go = z3.And(inst, takes)
        post(eng, s, s.ghost['emitted'] == z3.If(go, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 'the hook is called once, exactly for the records that pass')
        al = counted(dev, s, st0, cond=go)
        frame(eng, s, st0, (lg.lg, lg.shm, dev.log), [only(eng, *(al + [end]))], 'no other statistic, setting or record changes')
    return eng


def unit_kind(ctx):
    """EnterProcDevice uses the output function of the device kind, once, with the record it was given"""
    dev = Dev(ctx)
    eng, st, lg = dev.eng, dev.st, dev.lg
    outs = {'Screen': 'SCREEN', 'File': 'FILE', 'UDP': 'UDP', 'Empty': 'EMPTY'}
    ot = lg.get(st, lg.p_dev(dev.c, dev.d, 'out_type_'))
    kinds = []

    def event(e, s, ins, a, dem):
        k = [v for q, v in outs.items() if 'Out%sDevice' % q in dem]
        ok = And(e.ptr_eq(a[0], Ptr(lg.lg)), bv(a[1], 32) == dev.c, bv(a[2], 32) == dev.d, e.ptr_eq(a[3], Ptr(dev.log)))
        ok = And(ok, ot == K(e, 'DEVICE_OUT_' + k[0])) if k else False
        dev.emitted(e, s, ok, 'the record goes to the output function of the device kind, with its own channel and device')
        return None
    for k in outs:
        eng.contracts['FNLog::EnterProcOut%sDevice' % k] = event
    eng.contracts['FNLog::EnterProcOutVirtualDevice'] = lambda e, s, ins, a, dem: dev.emitted(e, s, z3.BoolVal(False), 'a hook device is served when the record is created, not by the queue')
    st0 = st.fork()
    for s, r in run(eng, 'vp_procdev', dev.args, st):
        known = z3.Or([ot == K(eng, 'DEVICE_OUT_' + k) for k in outs.values()])
        post(eng, s, s.ghost['emitted'] == z3.If(known, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8)), 'every kind with an output outputs the record once')
        frame(eng, s, st0, (lg.lg, lg.shm, dev.log), [], 'nothing else changes')
    return eng


def unit_udpin(ctx):
    """records received over UDP: the queue of the channel is empty, one pass of the output loop"""
    eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
    libc(eng)
    D = eng.D
    st = State()
    lg = LG(eng, st)
    c = D.fresh(32, 'channel')
    nd = lg.get(st, lg.p_ch(c, 'device_size_'))
    eng.assume(st, And(c >= 0, c < lg.NC, nd >= 0, nd <= lg.ND, D.lift(lg.get(st, lg.p_ch(c, 'channel_id_'))) == c))
    w = lg.get(st, lg.p_ring(c, 'write_idx_'))
    eng.assume(st, And(w >= 0, w < lg.NB, *[lg.get(st, lg.p_ring(c, x)) == w for x in ('proc_idx_', 'read_idx_')]))
    eng.assume(st, lg.get(st, lg.p_ch(c, 'channel_type_')) == K(eng, 'CHANNEL_SYNC'))
    ub = lg.ring(c) + eng.field('RingBuffer', 'udp_buffer_')
    P = lambda f, *ix: lg.scal(lg.shm, ub + eng.field('LogData', f)) if not ix else lg.scal(lg.shm, content_at(lg, ub) + ix)

    def content_at(lg, path):
        return lg.arr(lg.shm, path + eng.field('LogData', 'content_'))
    got = []
    eng.ghost_types = {'rx': (I8, 1)}
    st.ghost['rx'] = ABase(lambda idx: z3.IntVal(0))
    st.ghost['rxlen'] = z3.IntVal(0)

    def recv(e, s, ins, a, dem):
        n = D.fresh(64, 'received', -1, None)
        cap = e.D.lift(a[2])
        e.assume(s, And(n >= -1, n <= cap))
        post(e, s, And(e.ptr_eq(a[1], Ptr(lg.shm, content_at(lg, ub) + (0,))), cap <= lg.LS, cap >= 1), 'a datagram is received into the buffer, within its size')
        nb = havoc_bytes(e, s, a[1], z3.If(n > 0, n, z3.IntVal(0)), cap)
        s.ghost['rx'] = nb
        s.ghost['rxlen'] = z3.If(n > 0, n, z3.IntVal(0))
        return n
    eng.models['recvfrom'] = recv
    eng.models['recv'] = recv
    tv = z3.Int('now')
    eng.fact(And(tv >= 0, tv < 1 << 40))
    eng.models['time'] = lambda *x: tv
    for f in ('socket', 'fcntl', 'bind', 'close', 'gettimeofday', 'syscall', 'fflush', 'fileno'):
        eng.models[f] = lambda *x: None
    eng.contracts['FNLog::HotUpdateLogger'] = lambda *x: None
    for f in ('UDPHandler::open', 'UDPHandler::bind', 'UDPHandler::close'):
        eng.contracts[f] = lambda e, s, ins, a, dem: None
    eng.contracts['UDPHandler::is_open'] = lambda e, s, ins, a, dem: None
    k = D.fresh(64, 'k', 0, lg.LS - 1)

    def proc(e, s, ins, a, dem):
        got.append(1)
        n = D.lift(lg.get(s, P('content_len_')))
        rn = s.ghost['rxlen']
        post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), D.lift(a[1]) == c, e.ptr_eq(a[3], Ptr(lg.shm, ub))), 'the received record is output on its own channel')
        post(e, s, And(rn > 0, n == z3.If(rn < lg.LS, rn, z3.IntVal(lg.LS - 1))), 'the length is that of the datagram, cut to leave room for the terminator')
        b = D.lift(lg.get(s, P('content_', k)))
        post(e, s, Implies(k == n, b == 0), 'a NUL follows the received text')
        post(e, s, Implies(And(k < n, rn < lg.LS), b == D.lift(e.read(s.ghost['rx'], (k,)))), 'the text is that of the datagram')
        post(e, s, Implies(And(k < n - 1, rn >= lg.LS), b == D.lift(e.read(s.ghost['rx'], (k,)))), 'a cut text is that of the datagram')
        pr = D.lift(lg.get(s, P('priority_')))
        post(e, s, And(pr >= 0, pr < K(e, 'PRIORITY_MAX')), 'a received record has a valid priority')
        return None
    eng.contracts['FNLog::EnterProcDevice'] = proc

    def policy(e, f, h, d):
        if has_cas(e, f, f.loops[h]):
            return ('unroll', 2)
        nested = any(h in f.loops[o] and o != h and not has_cas(e, f, f.loops[o]) for o in f.loops)
        return ('cut', Cut(auto=not nested))
    eng.loop_policy = policy
    run(eng, 'vp_proc', [Ptr(lg.lg), c], st)
    if not got:
        raise Unsupported('received records are not output through EnterProcDevice')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('screen device', unit_screen), Unit('file device', unit_file), Unit('UDP device', unit_udp), Unit('hook device', unit_virtual), Unit('empty device', unit_empty), Unit('device kinds', unit_kind), Unit('UDP input', unit_udpin)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c17.cpp', 3000, 60000)
