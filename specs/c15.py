"""C15 start and stop follow the lifecycle and leave a clean queue"""
from load import *
from c12 import Hot
from c01 import TRUSTED
from houdini import locals_of

ID = 'C15'
LEVEL = 'proof'
ASSUMPTIONS = [
    'std::thread: the constructor either starts the thread and yields a joinable object or throws std::system_error; join returns after the thread function returned',
    'the output thread keeps the contract proved for EnterProcChannel (C08): it reports RUNNING once if its state was NULL, ends only after the end was requested, with an empty queue, and then reports FINISH',
    'no log call is in progress while StopLogger runs (calls that already took a slot and publish it later are covered)',
    'an uninitialised logger has channel states NULL and no threads (established by InitFromYMAL and re-established by every failed start and every stop: proved here)',
    'mutexes exclude; every access of other threads to the logger state is made under the state lock']


class Life:
    def __init__(self, ctx, cuts):
        mod = ctx.module('core.cpp')
        mod.exc = True
        eng = self.eng = Engine(mod, 'int', 'paths')
        self.D = eng.D
        libc(eng)
        st = self.st = State()
        lg = self.lg = LG(eng, st)
        D = self.D
        self.n = D.lift(lg.get(st, lg.p_shm('channel_size_')))
        self.S = {x: K(eng, 'LOGGER_STATE_' + x) for x in ('UNINIT', 'INITING', 'RUNNING', 'CLOSING')}
        self.C = {x: K(eng, 'CHANNEL_STATE_' + x) for x in ('NULL', 'RUNNING', 'WAITING_FINISH', 'FINISH')}
        self.SYNC, self.ASYNC = K(eng, 'CHANNEL_SYNC'), K(eng, 'CHANNEL_ASYNC')
        eng.watch.update(channel_size=self.n, logger_state=self.state(st))
        self.chans = range(lg.NC)
        for c in self.chans:
            eng.watch['type%d' % c] = self.type(st, c)
            eng.watch['state%d' % c] = self.chst(st, c)
        g = st.ghost
        g['depth'] = z3.IntVal(0)
        g['quiet'] = z3.BoolVal(True)
        g['wentwrong'] = z3.BoolVal(False)
        for c in self.chans:
            g['born%d' % c] = z3.IntVal(0)
        self.k = D.fresh(32, 'slot', 0, lg.NB - 1)
        eng.assume(st, And(self.k >= 0, self.k < lg.NB))
        self.hk = D.fresh(64, 'handle', 0, lg.NC * lg.ND - 1)
        eng.assume(st, And(self.hk >= 0, self.hk < lg.NC * lg.ND))
        self.statekey = key_of(eng, lg.p_logger('logger_state_'))[0]
        self.chkey = key_of(eng, lg.p_ch(0, 'channel_state_'))[0]
        self.lockpath = self.flat(eng.field('Logger', 'state_lock_'))
        eng.on_atomic = self.on_access
        eng.hook_plain = True
        for f, d in (('pthread_mutex_lock', 1), ('pthread_mutex_unlock', -1)):
            eng.models[f] = self.lock(d)
        eng.contracts['std::thread::join'] = self.join
        eng.contracts['std::thread::thread'] = self.born
        eng.contracts['std::terminate'] = lambda e, s, ins, a, dem: [self.dead(s)]
        eng.models['__cxa_begin_catch'] = lambda e, s, ins, a, dem: a[0]
        eng.models['__cxa_end_catch'] = lambda e, s, ins, a, dem: None
        eng.models.update({k: (lambda *x: None) for k in ('fileno', 'fsync', 'posix_fadvise', 'close')})
        eng.models['fclose'] = lambda e, s, ins, a, dem: post(e, s, Not(e.is_null(a[0])), 'only open files are closed')
        self.cuts = cuts
        self.cut = Cut(inv=self.inv, cands=self.cands)
        eng.loop_policy = lambda e, f, h, d: ('cut', self.cut) if (f.name, h) in cuts else ('unroll', lg.NC + 2)
        self.invariant(st)
        self.st0 = st.fork()

    # ---------------------------------------------------------------- state
    def flat(self, path):
        return tuple(path)

    def state(self, s):
        return self.D.lift(self.lg.get(s, self.lg.p_logger('logger_state_')))

    def type(self, s, c):
        return self.D.lift(self.lg.get(s, self.lg.p_ch(c, 'channel_type_')))

    def chst(self, s, c):
        return self.D.lift(self.lg.get(s, self.lg.p_ch(c, 'channel_state_')))

    def p_thread(self, c):
        lg = self.lg
        return lg.scal(lg.lg, lg.arr(lg.lg, self.eng.field('Logger', 'async_threads')) + (c,))

    def tid(self, s, c):
        return self.D.lift(self.lg.get(s, self.p_thread(c)))

    def cur(self, s, c, f):
        return self.D.lift(self.lg.get(s, self.lg.p_ring(c, f)))

    def mark(self, s, c):
        return self.D.lift(self.lg.get(s, self.lg.p_log(c, self.k, 'data_mark_')))

    def p_handle(self, arr, T, f, i):
        lg = self.lg
        return lg.scal(lg.lg, lg.arr(lg.lg, self.eng.field('Logger', arr)) + (i,) + self.eng.field(T, f))

    def file_closed(self, s, i):
        return self.eng.is_null(self.lg.get(s, self.p_handle('file_handles_', 'FileHandler', 'file_', i)))

    def udp_closed(self, s, i):
        return self.D.lift(self.lg.get(s, self.p_handle('udp_handles_', 'UDPHandler', 'handler_', i))) == -1

    def dist(self, a, b):
        return z3.If(b >= a, b - a, b - a + self.lg.NB)

    def clean_ring(self, s, c):
        """cursors inside the queue, every marked slot (of an arbitrary slot k) between the read and the hold cursor"""
        N = self.lg.NB
        cs = [self.cur(s, c, f) for f in ('read_idx_', 'proc_idx_', 'write_idx_', 'hold_idx_')]
        m = self.mark(s, c)
        return And([And(x >= 0, x < N) for x in cs], m >= 0, m <= 2, Implies(m != 0, self.dist(cs[0], self.k) < self.dist(cs[0], cs[3])))

    def live(self, c):
        return c < self.n

    def invariant(self, st):
        eng, C = self.eng, self.C
        s0 = self.state(st)
        eng.assume(st, And(s0 >= 0, s0 <= 3))
        for c in self.chans:
            ty, cs, t = self.type(st, c), self.chst(st, c), self.tid(st, c)
            on = And(c < self.n)
            eng.assume(st, And(cs >= 0, cs <= 3))
            eng.assume(st, Implies(And(on, s0 == self.S['UNINIT']), And(cs == C['NULL'], t == 0)))
            eng.assume(st, Implies(Not(on), t == 0))
            eng.assume(st, Implies(And(on, s0 == self.S['RUNNING']), And(cs == C['RUNNING'], Or(And(ty == self.SYNC, t == 0), And(ty == self.ASYNC, t != 0)))))
            eng.assume(st, self.clean_ring(st, c))

    # ---------------------------------------------------------------- environment
    def index(self, x, what):
        if not isc(x):
            raise Unsupported('symbolic %s' % what)
        return int(x)

    def on_access(self, e, s, op, p, ty, v, nw):
        if isinstance(p, Ptr) and p.obj in (self.lg.lg, self.lg.shm):
            key, idx = key_of(e, self.lg.scal(p.obj, p.path))
        else:
            return None
        g = s.ghost
        if key == self.statekey:
            if op == 'load':
                free = self.eng.check(s.hyps() + [g['depth'] != 0], None, 2000) == 'unsat'
                if not free:
                    return None
                x = self.D.fresh(32, 'unlocked_state', 0, 3)
                g['quiet'] = z3.And(g['quiet'], x == self.state(s))
                return [(s, x)]
            if op == 'store':
                post(e, s, g['depth'] >= 1, 'the logger state changes only under the state lock')
                return None
            raise Unsupported(op)
        if key != self.chkey:
            return None
        C = self.C
        c = self.index(idx[0], 'channel')
        run = self.tid(s, c) != 0
        now = self.chst(s, c)
        if op == 'load':
            x = self.D.fresh(32, 'channel_state', 0, 3)
            e.assume(s, Or(x == now, And(run, now == C['NULL'], x == C['RUNNING']), And(run, now == C['WAITING_FINISH'], x == C['FINISH'])))
            self.lg.put(s, self.lg.p_ch(c, 'channel_state_'), x)
            return [(s, x)]
        if op == 'store':
            v = self.D.lift(v)
            post(e, s, And(c < self.n), 'only configured channels change state')
            post(e, s, Implies(run, And(v == C['WAITING_FINISH'], now == C['RUNNING'])), 'the state of a channel with a thread changes only from running to waiting for its end')
            return None
        raise Unsupported(op)

    def lock(self, d):
        def h(e, s, ins, a, dem):
            p = a[0]
            if isinstance(p, Ptr) and p.obj is self.lg.lg and tuple(p.path[:len(self.lockpath)]) == self.lockpath:
                if d < 0:
                    post(e, s, s.ghost['depth'] >= 1, 'only a held lock is released')
                s.ghost['depth'] = z3.simplify(s.ghost['depth'] + d)
            return 0
        return h

    def thread_of(self, p):
        pt = self.p_thread(0)[0]
        if not (isinstance(p, Ptr) and p.obj is self.lg.lg):
            raise Unsupported('thread object outside the logger')
        q = self.lg.scal(p.obj, p.path)
        key, idx = key_of(self.eng, q)
        if key != key_of(self.eng, self.p_thread(0))[0]:
            raise Unsupported('thread object outside the logger')
        return self.index(idx[0], 'thread')

    def join(self, e, s, ins, a, dem):
        c = self.thread_of(a[0])
        lg = self.lg
        post(e, s, self.tid(s, c) != 0, 'only running threads are joined')
        cs = self.chst(s, c)
        post(e, s, Or(cs == self.C['WAITING_FINISH'], cs == self.C['FINISH']), 'the end of a thread is requested before it is joined')
        lg.put(s, self.p_thread(c), 0)
        lg.put(s, lg.p_ch(c, 'channel_state_'), self.C['FINISH'])
        x = self.D.fresh(32, 'drained', 0, lg.NB - 1)
        h = self.D.fresh(32, 'held', 0, lg.NB - 1)
        for f in ('read_idx_', 'proc_idx_', 'write_idx_'):
            lg.put(s, lg.p_ring(c, f), x)
        lg.put(s, lg.p_ring(c, 'hold_idx_'), h)
        key, _ = key_of(e, lg.p_log(c, 0, 'data_mark_'))
        old = s.mem.get(key)
        if old is None:
            old = e.leaf_init(key)
        new = e.base('marks', e.leaf_type(key), key[1].count('*'))
        s.mem[key] = ABlk(old, lambda idx: e.idx_eq(idx[:1], (c,)), lambda idx: e.read(new, idx))
        e.assume(s, And(x >= 0, x < lg.NB, h >= 0, h < lg.NB))
        e.assume(s, self.clean_ring(s, c))
        return None

    def born(self, e, s, ins, a, dem):
        if len(a) < 2 or not (isinstance(a[1], Ptr) and a[1].obj.kind == 'func'):
            return NotImplemented
        if basename(e.mod.dem.get(a[1].obj.fname, a[1].obj.fname)) != 'FNLog::EnterProcChannel' or len(a) < 4:
            raise Unsupported('thread function')
        self.created = True
        v = ld(e, s, a[3], I32)
        c = self.index(v, 'channel')
        lgp = a[2] if isinstance(a[2], Ptr) and a[2].obj is self.lg.lg else ld(e, s, a[2], 'ptr')
        post(e, s, e.ptr_eq(lgp, Ptr(self.lg.lg)), 'the thread works for this logger')
        post(e, s, And(c >= 0, c < self.n, self.type(s, c) == self.ASYNC, self.chst(s, c) == self.C['NULL'], s.ghost['born%d' % c] == 0), 'one thread is started for each asynchronous channel')
        t = s.fork()
        s.ghost['born%d' % c] = z3.IntVal(1)
        x = self.D.fresh(64, 'thread_id')
        e.assume(s, x > 0)
        e.cur = s
        k, e.kinds = e.kinds, set()
        e.store(s, *self.lg.scal(a[0].obj, a[0].path), x)
        e.kinds = k
        t.ghost['wentwrong'] = z3.BoolVal(True)
        return [(s, None), (t, THROW)]

    def dead(self, s):
        post(self.eng, s, z3.BoolVal(False), 'the process is not terminated')
        return (s, None)

    # ---------------------------------------------------------------- loops
    def inv(self, e, s, entry):
        C = self.C
        out = []
        for c in self.chans:
            a, b = self.chst(s, c), self.chst(entry, c)
            if not (a is b or (z3.is_expr(a) and a.eq(b))):
                out.append(('state of channel %d only advances' % c, Or(a == b, And(self.tid(entry, c) != 0, Or(And(b == C['NULL'], a == C['RUNNING']), And(b == C['WAITING_FINISH'], a == C['FINISH']))))))
            out.append(('queue %d' % c, self.clean_ring(s, c)))
        return out

    def cands(self, e, s, entry):
        out = []
        for p in sorted(s.env, key=str):
            v = s.env[p]
            i = None
            if isinstance(v, Ptr) and v.obj is self.lg.lg:
                fp = self.lg.arr(self.lg.lg, e.field('Logger', 'file_handles_'))
                up = self.lg.arr(self.lg.lg, e.field('Logger', 'udp_handles_'))
                for base, f, nm in ((fp, self.file_closed, 'files'), (up, self.udp_closed, 'sockets')):
                    path = v.path + (0,) * (len(base) + 1 - len(v.path))
                    if path[:len(base)] == base:
                        i = self.D.lift(path[len(base)])
                        out.append(('%s before %%%s are closed' % (nm, p), Implies(self.hk < i, f(s, self.hk))))
                        out.append(('%%%s in range' % p, And(i >= 0, i <= self.lg.NC * self.lg.ND)))
            elif not isc(v) and z3.is_int(v) and not p.startswith('#'):
                out.append(('files before %%%s are closed' % p, Implies(self.hk < v, self.file_closed(s, self.hk))))
                out.append(('sockets before %%%s are closed' % p, Implies(self.hk < v, self.udp_closed(s, self.hk))))
        for c in self.chans:
            for f in ('read_idx_', 'proc_idx_', 'write_idx_', 'hold_idx_'):
                out.append(('%s of channel %d as before the loop' % (f, c), self.cur(s, c, f) == self.cur(entry, c, f)))
            out.append(('marks of channel %d as before the loop' % c, self.mark(s, c) == self.mark(entry, c)))
        vals = dict(locals_of(e, s))
        for nm, v in locals_of(e, entry):
            out += [('%s is the state of a channel' % nm, self.D.lift(vals[nm]) == self.chst(s, c)) for c in self.chans if nm in vals and z3.is_expr(v) and v.eq(self.chst(entry, c))]
        out.append(('files stay closed', Implies(self.file_closed(entry, self.hk), self.file_closed(s, self.hk))))
        out.append(('sockets stay closed', Implies(self.udp_closed(entry, self.hk), self.udp_closed(s, self.hk))))
        return out


def attempts(fn):
    """loops that do not end within the number of channels are cut with the invariants instead of unrolled"""
    def go(ctx):
        cuts = set()
        for _ in range(12):
            try:
                return fn(ctx, cuts)
            except Incomplete as x:
                if not getattr(x, 'loop', None) or x.loop in cuts:
                    raise
                cuts.add(x.loop)
        raise Unsupported('too many loops')
    return go


def allowed(w, s, what):
    """nothing but the listed kinds of state changed"""
    eng, lg = w.eng, w.lg
    keys = set()
    if 'state' in what:
        keys |= {w.statekey, w.chkey, key_of(eng, w.p_thread(0))[0]}
    if 'queue' in what:
        keys |= {key_of(eng, lg.p_ring(0, f))[0] for f in ('read_idx_', 'proc_idx_', 'write_idx_', 'hold_idx_')} | {key_of(eng, lg.p_log(0, 0, 'data_mark_'))[0]}
        keys |= {key_of(eng, w.p_handle('file_handles_', 'FileHandler', 'file_', 0))[0], key_of(eng, w.p_handle('udp_handles_', 'UDPHandler', 'handler_', 0))[0]}
    return [lambda key, idx: True if key in keys else (False if idx is not None else None)]


def unit_start(ctx, cuts):
    w = Life(ctx, cuts)
    eng, st, lg, S, C = w.eng, w.st, w.lg, w.S, w.C
    s0 = w.state(st)
    eng.covers.append(('entry', st.hyps()))
    ok_n = And(w.n > 0, w.n <= lg.NC)
    good = And([Implies(c < w.n, Or(w.type(st, c) == w.SYNC, w.type(st, c) == w.ASYNC)) for c in w.chans])
    seen = set()
    for s, v in run(eng, 'vp_start', [Ptr(lg.lg)], st):
        v = w.D.lift(v)
        g = s.ghost
        try_ = And(s0 == S['UNINIT'], ok_n)
        post(eng, s, g['depth'] == 0, 'the state lock is released')
        post(eng, s, Implies(v == 0, And(try_, good)), 'only a valid logger is started')
        post(eng, s, Implies(v == 0, w.state(s) == S['RUNNING']), 'a started logger runs')
        for c in w.chans:
            on = And(c < w.n)
            a = w.type(st, c) == w.ASYNC
            post(eng, s, Implies(And(v == 0, on), And(w.chst(s, c) == C['RUNNING'], Iff(w.tid(s, c) != 0, a))), 'every channel of a started logger runs, with a thread exactly when it is asynchronous (channel %d)' % c)
            post(eng, s, Implies(And(v != 0, s0 == S['UNINIT'], on), And(w.chst(s, c) == C['NULL'], w.tid(s, c) == 0)), 'a failed start leaves no channel running and no thread (channel %d)' % c)
            post(eng, s, Implies(Not(try_), And(w.chst(s, c) == w.chst(st, c), w.tid(s, c) == w.tid(st, c))), 'a rejected start changes nothing (channel %d)' % c)
        post(eng, s, Implies(And(v != 0, s0 == S['UNINIT']), w.state(s) == S['UNINIT']), 'a failed start leaves the logger uninitialised')
        post(eng, s, Implies(Not(try_), And(v != 0, w.state(s) == s0)), 'a rejected start reports an error and changes nothing')
        post(eng, s, Implies(And(try_, good, g['quiet'], Not(g['wentwrong']), [Implies(And(c < w.n, w.type(st, c) == w.ASYNC), w.chst(s, c) != C['NULL']) for c in w.chans]), v == 0), 'a valid start succeeds')
        frame(eng, s, w.st0, (lg.lg, lg.shm), allowed(w, s, 'state queue'), 'starting changes only logger, channel, thread and queue state and the handles')
        for r in (0, 1):
            if eng.check(s.hyps() + [(v == 0) if r == 0 else v != 0, try_], None, 3000) == 'sat':
                seen.add(r)
    if seen != {0, 1}:
        raise Unsupported('start never succeeds or never fails')
    return eng


def unit_stop(ctx, cuts):
    w = Life(ctx, cuts)
    eng, st, lg, S, C = w.eng, w.st, w.lg, w.S, w.C
    s0 = w.state(st)
    eng.covers.append(('entry', st.hyps() + [s0 == S['RUNNING']]))
    ok_n = And(w.n > 0, w.n <= lg.NC)
    done = 0
    for s, v in run(eng, 'vp_stop', [Ptr(lg.lg)], st):
        v = w.D.lift(v)
        g = s.ghost
        try_ = And(s0 == S['RUNNING'], ok_n)
        post(eng, s, g['depth'] == 0, 'the state lock is released')
        post(eng, s, Implies(v == 0, try_), 'only a running logger is stopped')
        post(eng, s, Implies(And(try_, g['quiet']), v == 0), 'a running logger can be stopped')
        post(eng, s, Implies(v == 0, w.state(s) == S['UNINIT']), 'a stopped logger is uninitialised')
        post(eng, s, Implies(v != 0, w.state(s) == s0), 'a rejected stop does not change the logger state')
        for c in w.chans:
            on = And(c < w.n)
            post(eng, s, Implies(And(v == 0, on), And(w.chst(s, c) == C['NULL'], w.tid(s, c) == 0)), 'no channel runs and no thread is left (channel %d)' % c)
            post(eng, s, Implies(And(v == 0, on), And([w.cur(s, c, f) == 0 for f in ('read_idx_', 'proc_idx_', 'write_idx_', 'hold_idx_')])), 'the queue is empty (channel %d)' % c)
            post(eng, s, Implies(And(v == 0, on), w.mark(s, c) == 0), 'every slot is free (channel %d)' % c)
            post(eng, s, Implies(v != 0, And(w.chst(s, c) == w.chst(st, c), w.tid(s, c) == w.tid(st, c), w.mark(s, c) == w.mark(st, c), [w.cur(s, c, f) == w.cur(st, c, f) for f in ('read_idx_', 'proc_idx_', 'write_idx_', 'hold_idx_')])), 'a rejected stop changes nothing (channel %d)' % c)
        post(eng, s, Implies(v == 0, w.file_closed(s, w.hk)), 'every file is closed')
        post(eng, s, Implies(v == 0, w.udp_closed(s, w.hk)), 'every socket is closed')
        post(eng, s, Implies(And(v != 0, Not(w.file_closed(st, w.hk))), Not(w.file_closed(s, w.hk))), 'a rejected stop closes no file')
        post(eng, s, Implies(And(v != 0, Not(w.udp_closed(st, w.hk))), Not(w.udp_closed(s, w.hk))), 'a rejected stop closes no socket')
        frame(eng, s, w.st0, (lg.lg, lg.shm), allowed(w, s, 'state queue'), 'stopping changes only logger, channel, thread and queue state and the handles')
        if eng.check(s.hyps() + [v == 0], None, 3000) == 'sat':
            done += 1
    if not done:
        raise Unsupported('stop never succeeds')
    return eng


# ------------------------------------------------------------------ configuration and start
class Begin(Load):
    """loading a configuration and starting with it, the other threads changing the state while the lock is free"""

    def __init__(self, ctx):
        Load.__init__(self, ctx)
        eng, st, lg, D = self.eng, self.st, self.lg, self.D
        self.S = {x: K(eng, 'LOGGER_STATE_' + x) for x in ('UNINIT', 'INITING', 'RUNNING', 'CLOSING')}
        for k in ('inits', 'starts'):
            st.ghost[k] = z3.IntVal(0)
        st.ghost['initok'] = st.ghost['startok'] = z3.BoolVal(False)
        st.ghost['locked_state'] = self.state(st)
        eng.assume(st, And(self.state(st) >= 0, self.state(st) <= 3))
        for f in ('FNLog::InitFromYMAL', 'FNLog::InitFromYMALFile'):
            eng.contracts[f] = self.init_contract
        eng.contracts['FNLog::StartLogger'] = self.start_contract
        eng.watch['logger_state'] = self.state(st)

    def state(self, s):
        return self.D.lift(self.lg.get(s, self.lg.p_logger('logger_state_')))

    def on_lock(self, e, s):
        free = self.eng.check(s.hyps() + [s.ghost['owned'] != 0], None, 2000) == 'unsat'
        if free:
            x = self.D.fresh(32, 'state_at_lock', 0, 3)
            e.assume(s, And(x >= 0, x <= 3))
            self.lg.put(s, self.lg.p_logger('logger_state_'), x)
            s.ghost['locked_state'] = x

    def init_contract(self, e, s, ins, a, dem):
        g = s.ghost
        post(e, s, g['owned'] >= 1, 'the configuration is loaded under the state lock')
        r = self.D.fresh(32, 'init_result')
        g['inits'] = g['inits'] + z3.If(self.state(s) == self.S['UNINIT'], 1, 0)
        e.assume(s, Implies(self.state(s) != self.S['UNINIT'], r != 0))
        g['initok'] = And(r == 0)
        return r

    def start_contract(self, e, s, ins, a, dem):
        g = s.ghost
        post(e, s, g['owned'] >= 1, 'the logger is started under the state lock its configuration was loaded under')
        post(e, s, g['initok'], 'only a loaded configuration is started')
        r = self.D.fresh(32, 'start_result')
        g['starts'] = g['starts'] + 1
        e.assume(s, Implies(self.state(s) != self.S['UNINIT'], r != 0))
        g['startok'] = And(r == 0)
        self.lg.put(s, self.lg.p_logger('logger_state_'), z3.If(r == 0, self.S['RUNNING'], self.state(s)))
        return r


def unit_begin(entry):
    def unit(ctx):
        w = Begin(ctx)
        eng, st, lg = w.eng, w.st, w.lg
        text = Ptr(eng.new_obj('text', ('st', eng.struct_name('string')) if False else w.string_type(), 'arg'))
        st0 = st.fork()
        seen = set()
        for s, v in run(eng, entry, [Ptr(lg.lg), text], st):
            v = w.D.lift(v)
            g = s.ghost
            post(eng, s, g['owned'] == 0, 'the state lock is released')
            post(eng, s, Implies(v == 0, And(g['initok'], g['startok'], g['starts'] == 1, g['inits'] == 1)), 'success means that the configuration was loaded and the logger started, once')
            post(eng, s, Implies(v == 0, w.state(s) == w.S['RUNNING']), 'a started logger runs')
            post(eng, s, Implies(v != 0, And(Not(g['startok']), w.state(s) != w.S['RUNNING']) if False else Not(g['startok'])), 'a failure is reported only when the logger was not started')
            post(eng, s, Implies(g['locked_state'] != w.S['UNINIT'], And(v != 0, g['inits'] == 0, w.state(s) == g['locked_state'])), 'a logger in use is neither loaded nor started')
            frame(eng, s, st0, (lg.lg, lg.shm), [only(eng, lg.p_logger('logger_state_'))], 'nothing but the state changes outside the loading and starting')
            for r in (0, 1):
                if eng.check(s.hyps() + [(v == 0) if r == 0 else v != 0], None, 3000) == 'sat':
                    seen.add(r)
        if seen != {0, 1}:
            raise Unsupported('never succeeds or never fails')
        return eng
    return unit


class Waits(Hot):
    def on_lock(self, e, s):
        post(e, s, s.ghost['owned'] >= 1, 'the thread that StopLogger joins under the state lock never waits for that lock')


def unit_hot(ctx):
    w = Waits(ctx)
    n = 0
    for s, v in run(w.eng, 'vp_hot', [Ptr(w.lg.lg), w.c], w.st):
        post(w.eng, s, s.ghost['owned'] == 0, 'the state lock is released')
        n += 1
    if n < 3:
        raise Unsupported('hot update')
    return w.eng


def unit_init(ctx, first=True):
    """InitFromYMAL: an uninitialised logger gets exactly the parsed channels, none of them running; any other is left alone"""
    w = Load(ctx)
    eng, lg, D = w.eng, w.lg, w.D
    S = {x: K(eng, 'LOGGER_STATE_' + x) for x in ('UNINIT', 'RUNNING')}
    st = w.st
    if first:
        lg.put(st, lg.p_logger('shm_'), NULLP)
    st.ghost['loaded'] = z3.IntVal(0)
    state = lambda s: D.lift(lg.get(s, lg.p_logger('logger_state_')))
    eng.assume(st, And(state(st) >= 0, state(st) <= 3))

    def load(e, s, ins, a, dem):
        g = s.ghost
        post(e, s, And(g['owned'] >= 1), 'the storage is attached under the state lock')
        g['loaded'] = g['loaded'] + 1
        t = s.fork()
        lg.put(s, lg.p_logger('shm_'), Ptr(lg.shm))
        r = D.fresh(32, 'load_error')
        e.assume(t, r != 0)
        return [(s, 0), (t, r)]
    eng.contracts['FNLog::LoadSharedMemory'] = load
    for T in ('std::basic_ostream', 'std::operator<<'):
        pass
    c, J = D.fresh(32, 'channel', 0, lg.NC - 1), D.fresh(64, 'device', 0, lg.ND - 1)
    F, G, C, P = (D.fresh(64, x, 0, K(eng, y) - 1) for x, y in (('devfield', 'DEVICE_CFG_MAX_ID'), ('chfield', 'CHANNEL_CFG_MAX_ID'), ('stat', 'CHANNEL_LOG_MAX_ID'), ('devstat', 'DEVICE_LOG_MAX_ID')))
    eng.fact(z3.And([z3.And(x >= 0, x < n) for x, n in ((c, lg.NC), (J, lg.ND), (F, K(eng, 'DEVICE_CFG_MAX_ID')), (G, K(eng, 'CHANNEL_CFG_MAX_ID')), (C, K(eng, 'CHANNEL_LOG_MAX_ID')), (P, K(eng, 'DEVICE_LOG_MAX_ID')))]))
    chstat = lambda s, a: D.lift(lg.get(s, a.p_ch(c, 'channel_log_fields_', C)))
    dvstat = lambda s, a: D.lift(lg.get(s, a.p_ch(c, 'device_log_fields_', J, P)))
    st0 = st.fork()

    def cands(e, s, entry):
        if w.ls is None:
            return []
        src = w.ls
        out = [('%%%s is inside the text' % p, And(D.lift(v) >= 0, D.lift(v) <= w.textn)) for p, v in sorted(s.env.items(), key=str) if not isb(v) and (isc(v) or z3.is_int(v)) and not p.startswith('#')]
        for nm, x in (('channel statistics', chstat), ('device statistics', dvstat)):
            out.append((nm + ' of the storage stay', x(s, lg) == x(entry, lg)))
            for p in sorted(s.env, key=str):
                v = s.env[p]
                if isb(v) or not (isc(v) or z3.is_int(v)) or p.startswith('#'):
                    continue
                out.append(('%s of channels before %%%s are taken' % (nm, p), Implies(c < D.lift(v), x(s, src) == x(entry, lg))))
                out.append(('%%%s is a channel' % p, And(D.lift(v) >= 0, D.lift(v) <= lg.NC)))
        return out
    eng.loop_policy = lambda e, f, h, d: ('cut', Cut(cands=cands))
    text, path = (Ptr(eng.new_obj(n, w.string_type(), 'arg')) for n in ('text', 'path'))
    seen = set()
    for s, v in run(eng, 'vp_inityaml', [Ptr(lg.lg), text, path], st):
        v = D.lift(v)
        g = s.ghost
        post(eng, s, g['owned'] == 0, 'the state lock is released')
        post(eng, s, state(s) == state(st0), 'loading a configuration does not change the state')
        t = s.fork()
        eng.assume(t, And(state(st0) != S['UNINIT']))
        if eng.feasible(t):
            post(eng, t, v != 0, 'a logger in use refuses a configuration')
            frame(eng, t, st0, (lg.lg, lg.shm), [], 'a logger in use is left alone')
        t = s.fork()
        eng.assume(t, v == 0)
        if eng.feasible(t):
            seen.add('ok')
            src = w.ls
            if src is None:
                post(eng, t, False, 'a configuration is accepted only after it was parsed')
                continue
            n = D.lift(lg.get(t, lg.p_shm('channel_size_')))
            post(eng, t, And(g['parseok'], g['parsed'] == 1, g['loaded'] == (1 if first else 0)), 'a configuration is accepted only after it was parsed and the storage attached')
            post(eng, t, And(n > 0, n <= lg.NC), 'an accepted configuration has a valid number of channels')
            post(eng, t, D.lift(lg.get(t, lg.p_ch(c, 'channel_state_'))) == K(eng, 'CHANNEL_STATE_NULL'), 'no channel runs')
            for f in ('channel_id_', 'channel_type_', 'device_size_'):
                post(eng, t, D.lift(lg.get(t, lg.p_ch(c, f))) == D.lift(lg.get(t, src.p_ch(c, f))), 'the channels are the parsed ones (%s)' % f)
            post(eng, t, D.lift(lg.get(t, lg.p_ch(c, 'config_fields_', G))) == D.lift(lg.get(t, src.p_ch(c, 'config_fields_', G))), 'the channel settings are the parsed ones')
            post(eng, t, D.lift(lg.get(t, lg.p_dev(c, J, 'config_fields_', F))) == D.lift(lg.get(t, src.p_dev(c, J, 'config_fields_', F))), 'the device settings are the parsed ones')
            post(eng, t, Implies(c < n, And(chstat(t, lg) == chstat(st0, lg), dvstat(t, lg) == dvstat(st0, lg))), 'the statistics of the attached storage stay')
        t = s.fork()
        eng.assume(t, v != 0)
        if eng.feasible(t):
            seen.add('error')
    if seen != {'ok', 'error'}:
        raise Unsupported('a configuration is never accepted or never refused')
    return eng

def units(ctx):
    ctx.module('core.cpp')
    return [Unit('StartLogger', attempts(unit_start)), Unit('StopLogger', attempts(unit_stop)), Unit('ParseAndStartLogger', unit_begin('vp_parsestart')), Unit('LoadAndStartLogger', unit_begin('vp_loadstart')),
            Unit('InitFromYMAL', unit_init), Unit('InitFromYMAL (storage already attached)', lambda ctx: unit_init(ctx, False)), Unit('HotUpdateLogger (locking)', unit_hot)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c15.cpp', 400, 20000)
