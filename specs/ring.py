"""The queue protocol as a rely-guarantee specification over ghost positions.

Every cursor of a queue is an ever growing position, its stored value is that position modulo the number of slots:
    read R <= process P <= write W <= hold H <= R + N - 1,      (at most N-1 records are in the queue)
and the mark of the slot that holds position q is
    q in [R,P): READY (its consumer has not finished) or INVALID (finished)      q in [P,W): READY
    q in [W,H): INVALID (claimed), HOLD or READY                                 free slots [H,R+N): INVALID.
Before every access to a cursor or mark the other threads may take any number of steps that keep this invariant, never move a cursor back, never
touch the mark of a position this thread owns, and change marks only in protocol order (the rely). Every step of this thread must keep the
invariant and belong to the protocol (the guarantee); each is an obligation at the access."""
from core import *
from houdini import Cut, continues, locals_of

CUR = ('R', 'P', 'W', 'H')
FIELD = {'R': 'read_idx_', 'P': 'proc_idx_', 'W': 'write_idx_', 'H': 'hold_idx_'}
WORD = {'R': 'read', 'P': 'process', 'W': 'publish', 'H': 'hold'}
ASSUMED = ['sequentially consistent interleaving of the atomic accesses; in addition every hand-over store/compare-exchange is required to be at least release and every hand-over load at least acquire',
           'no cursor advances by a whole queue length (BUFFER_LEN slots) between a thread reading it and the same thread replacing it by compare-exchange (ABA; recorded as a known finding of the design)',
           'start state: cursors inside the queue, R <= P <= W <= H in ring order, marks as in the invariant (StartLogger/LoadSharedMemory/StopLogger: C09, C15)',
           'the code of other threads follows the same contracts (all functions that touch cursors or marks are verified against them: HoldChannel, PushChannel, EnterProcChannel; CleanChannels, InitSHM and LoadSharedMemory run while no other thread uses the queue)']


class Ring:
    def __init__(self, ctx, solo=False, live=True, progress=None):
        eng = self.eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
        self.D = eng.D
        libc(eng)
        st = self.st = State()
        lg = self.lg = LG(eng, st)
        self.N = lg.NB
        self.c = self.D.fresh(32, 'channel')
        self.n = lg.get(st, lg.p_shm('channel_size_'))
        eng.assume(st, And(self.n >= 0, self.n <= lg.NC))
        eng.watch['channel'] = self.c
        self.solo = solo                  # this thread is the only consumer
        self.live = live                  # also what must be done, not only what must not (C08)
        self.INV, self.HOLD, self.READY = (K(eng, 'MARK_' + x) for x in ('INVALID', 'HOLD', 'READY'))
        self.RUN = K(eng, 'CHANNEL_STATE_RUNNING')
        z = z3.IntVal(0)
        g = st.ghost
        self.fresh(st, first=True)
        g['hs'], g['hk'], g['hx'] = z, z, z
        g['cs'], g['ck'], g['cx'] = z, z, z
        for X in CUR:
            g['s' + X] = self.pos(st, X)
            g['sk' + X], g['sx' + X] = g[X + 'k'], g[X + 'x']
        for X in 'WPR':
            g['f' + X] = z3.BoolVal(False)       # cursor read since the duty arose
            g['ok' + X] = z3.BoolVal(True)       # duty done
        g['lq'], g['lv'], g['lp'] = z, z3.IntVal(-1), z3.BoolVal(False)
        g['stop'] = z3.BoolVal(False)
        g['notrun'] = z3.BoolVal(False)
        g['drained'] = z3.BoolVal(False)
        self.touched = set()
        self.keys = {}
        for X in CUR:
            self.keys[key_of(eng, lg.p_ring(0, FIELD[X]))[0]] = ('cur', X)
        self.keys[key_of(eng, lg.p_log(0, 0, 'data_mark_'))[0]] = ('mark', None)
        self.keys[key_of(eng, lg.p_ch(0, 'channel_state_'))[0]] = ('state', None)
        self.statkey = key_of(eng, lg.p_ch(0, 'channel_log_fields_', 0))[0]
        self.slotprefix = key_of(eng, (Ptr(lg.shm, lg.slot(0, 0)),))[0][1]
        eng.on_atomic = self.on_atomic
        eng.hook_plain = True
        eng.feas_ms = 40
        eng.cand_ms = 600
        self.cut = Cut(inv=self.loop_inv, havoc=self.loop_havoc, cands=self.loop_cands)
        eng.loop_policy = lambda e, f, h, d: ('cut', self.cut)
        self.progress = progress             # what justifies a round of a waiting loop (C21), else loops are not asked to end
        if progress:
            self.variant = {}
            if hasattr(progress, 'sleep'):
                for f in ('sleep_for', 'sleep_until'):
                    eng.contracts['std::this_thread::' + f] = lambda e, s, ins, a, dem: progress.sleep(self, s)
            eng.loop_policy = lambda e, f, h, d: ('cut', self.progress_cut(f, h))
        self.on_ready = None
        self.st0 = st.fork()

    # ---------------------------------------------------------------- ghost state
    def pos(self, s, X):
        return self.N * s.ghost[X + 'k'] + s.ghost[X + 'x']

    def hpos(self, s):
        return self.N * s.ghost['hk'] + s.ghost['hx']

    def cpos(self, s):
        return self.N * s.ghost['ck'] + s.ghost['cx']

    def mkpos(self, s, name):
        k = z3.Int(self.eng.nm(name + 'k'))
        x = self.D.fresh(32, name + 'x', 0, self.N - 1)
        self.eng.assume(s, And(k >= 0, x >= 0, x < self.N))
        return k, x

    def order(self, s):
        R, P, W, H = (self.pos(s, X) for X in CUR)
        return And(R >= 0, R <= P, P <= W, W <= H, H <= R + self.N - 1)

    def own(self, s):
        g = s.ghost
        return And(Implies(And(g['hs'] >= 1, g['hs'] <= 2), And(self.pos(s, 'W') <= self.hpos(s), self.hpos(s) < self.pos(s, 'H'))),
                   Implies(g['cs'] >= 1, And(self.pos(s, 'R') <= self.cpos(s), self.cpos(s) < self.pos(s, 'P'))))

    def fresh(self, s, first=False):
        old = None if first else {X: self.pos(s, X) for X in CUR}
        for X in CUR:
            if not first and self.solo and X in 'RP':
                continue
            s.ghost[X + 'k'], s.ghost[X + 'x'] = self.mkpos(s, X)
        self.eng.assume(s, self.order(s))
        if old:
            self.eng.assume(s, And([self.pos(s, X) >= old[X] for X in CUR]))
            self.eng.assume(s, self.own(s))

    rely = fresh

    # ---------------------------------------------------------------- loops
    def loop_inv(self, e, s, entry):
        g, h = s.ghost, entry.ghost
        out = [('queue order', And(self.order(s), [And(g[X + 'x'] >= 0, g[X + 'x'] < self.N, g[X + 'k'] >= 0) for X in CUR])), ('ownership', self.own(s)),
               ('own slot', And(g['hs'] == h['hs'], g['hk'] == h['hk'], g['hx'] == h['hx'])), ('taken record', And(g['cs'] == h['cs'], Implies(g['cs'] != 0, And(g['ck'] == h['ck'], g['cx'] == h['cx'])))),
               ('cursors seen', And([And(g['s' + X] <= self.pos(s, X), self.N * g['sk' + X] + g['sx' + X] == g['s' + X], g['sx' + X] >= 0, g['sx' + X] < self.N) for X in CUR])), ('cursors advance', And([self.pos(s, X) >= self.pos(entry, X) for X in CUR]))]
        return [(a, b) for a, b in out if b is not True]

    def loop_cands(self, e, s, entry):
        g = s.ghost
        out = [('duty ' + X, Implies(entry.ghost['ok' + X], g['ok' + X])) for X in 'WPR']
        out += [('%s cursor looked at since' % WORD[X], Implies(entry.ghost['f' + X], g['f' + X])) for X in 'WPR']
        vals = dict(locals_of(e, s))
        for nm, v in locals_of(e, entry):        # a variable that holds a cursor as last seen when the loop begins
            out += [('%s is the %s cursor as last seen' % (nm, WORD[X]), self.D.lift(vals[nm]) == g['sx' + X]) for X in CUR if nm in vals and z3.is_expr(v) and v.eq(entry.ghost['sx' + X])]
        return out

    def loop_havoc(self, e, s, entry):
        s.ghost['lv'] = z3.IntVal(-1)

    # ---------------------------------------------------------------- every loop ends or waits for a stated reason
    def flags(self, s, kind):
        return [k for k in s.ghost if isinstance(k, str) and k.startswith(kind + ':')]

    def flag(self, s, kind, cond):
        for k in self.flags(s, kind):
            s.ghost[k] = z3.Or(s.ghost[k], B(cond))

    def moved(self, s, nm):
        """the queue made progress since the head of the loop: some thread moved a cursor"""
        return Or(*[m for X in CUR for m in self.moves(s, X, nm)])

    def moves(self, s, X, nm):
        """the cursor, or what this thread knows of it, is further on than at the head of the loop (neither ever goes back)"""
        g = s.ghost
        return self.pos(s, X) > g['at%s:%s' % (X, nm)], g['s' + X] > g['seen%s:%s' % (X, nm)]

    def justified(self, s, nm):
        g = s.ghost
        return Or(self.moved(s, nm), g['full:' + nm])

    def progress_cut(self, f, h):
        nm = '%s/%s' % (basename(self.eng.mod.dem.get(f.name, f.name)), h)
        ints = [i.res for i in f.blocks[h] if i.op == 'phi' and isinstance(i.a['t'], tuple) and i.a['t'][0] == 'i' and i.a['t'][1] > 1]

        def havoc(e, s, entry):
            self.loop_havoc(e, s, entry)
            g = s.ghost
            for X in CUR:
                g['at%s:%s' % (X, nm)] = self.pos(s, X)
                g['seen%s:%s' % (X, nm)] = g['s' + X]
            for k in ('full', 'run', 'left', 'halt'):
                g['%s:%s' % (k, nm)] = z3.BoolVal(False)
            for p in ints:
                g['v%s:%s' % (p, nm)] = z3.IntVal(s.env[p]) if isc(s.env[p]) else s.env[p]

        def cands(e, s, entry):
            out = self.loop_cands(e, s, entry)
            for k in ('full', 'run', 'left', 'halt'):
                for n in self.flags(entry, k):
                    if not n.endswith(':' + nm):
                        out.append((n + ' stays', Implies(entry.ghost[n], s.ghost[n])))
            for n in self.flags(entry, 'full'):
                o = n[5:]
                if o == nm:
                    continue
                for p in ints:
                    v, v0 = self.D.lift(s.env[p]), self.D.lift(entry.env[p])
                    out.append(('%s: a round justifies %s' % (p, o), Implies(v != v0, self.justified(s, o))))
            return out

        def end(e, s):
            if not e.suspend:
                for t in continues(e, f, h, s):
                    round_(e, t)

        def round_(e, s):
            g = s.ghost
            name = nm.split('/')[0]

            def way(p, up):
                a, b = self.D.lift(g['v%s:%s' % (p, nm)]), self.D.lift(s.env[p])
                return And(b > a, b <= 1 << 20) if up else And(b < a, b >= 0)       # bounded: the loop ends
            hyps = s.hyps()
            for m in [m for X in CUR for m in self.moves(s, X, nm)]:     # the queue moved on; or the counter of the loop; or a stated reason to wait
                if e.check(hyps, m, 3000) == 'unsat':
                    post(e, s, m, 'a round of a loop of %s moves the queue on' % name)
                    return
            if nm not in self.variant:
                for p in ints:
                    for up in (True, False):
                        if nm not in self.variant and e.check(hyps, B(way(p, up)), 3000) == 'unsat':
                            self.variant[nm] = (p, up)
            if nm in self.variant and e.check(hyps, B(way(*self.variant[nm])), 3000) == 'unsat':
                post(e, s, way(*self.variant[nm]), 'every round of a counting loop of %s counts on' % name)
                return
            for goal, what in self.progress(s, nm):
                post(e, s, goal, what)
        return Cut(inv=self.loop_inv, havoc=havoc, cands=cands, end=end)

    # ---------------------------------------------------------------- accesses
    def locate(self, e, s, p):
        if not isinstance(p, Ptr):
            for _, q in alts(p):
                if q.obj is self.lg.shm:
                    raise Unsupported('queue access through an alternative pointer')
            return None
        if p.obj is not self.lg.shm:
            return None
        key, idx = key_of(e, self.lg.scal(p.obj, p.path))
        if key in self.keys:
            return self.keys[key] + (idx,)
        if key == self.statkey:
            return ('stat', None, idx)
        if key[1][:len(self.slotprefix)] == self.slotprefix:
            return ('slot', None, idx)
        return None

    def must(self, s, goal, what):
        if self.live:
            post(self.eng, s, goal, what)

    def chan(self, s, idx):
        post(self.eng, s, self.D.lift(idx[0]) == self.c, 'the queue of the channel itself is used')

    def at_least(self, s, kind):
        o = self.eng.order
        good = {'acquire': ('acquire', 'acq_rel', 'seq_cst'), 'release': ('release', 'acq_rel', 'seq_cst'), 'both': ('acq_rel', 'seq_cst')}[kind]
        if o not in good:
            pc = s.pc
            post(self.eng, s, z3.BoolVal(False), 'hand-over access with at least %s order' % kind)
            s.pc = pc               # the rest is judged as if it were ordered

    def position_of(self, s, x):
        """the position in [R, R+N) that slot x holds"""
        k = z3.Int(self.eng.nm('q'))
        q = self.N * k + x
        self.eng.assume(s, And(q >= self.pos(s, 'R'), q < self.pos(s, 'R') + self.N))
        return k, q

    def mark(self, s, x):
        """the mark of slot x as the protocol allows it now"""
        e, g = self.eng, s.ghost
        k, q = self.position_of(s, x)
        v = self.D.fresh(32, 'mark', 0, 2)
        P, W, H, R = (self.pos(s, X) for X in 'PWHR')
        I, Y = self.INV, self.READY
        e.assume(s, And(v >= 0, v <= 2,
                        Implies(And(q >= P, q < W), v == Y), Implies(q < P, Or(v == Y, v == I)), Implies(q >= H, v == I),
                        Implies(And(g['hs'] == 1, q == self.hpos(s)), v == I), Implies(And(g['hs'] == 2, q == self.hpos(s)), v == self.HOLD),
                        Implies(And(g['hs'] == 3, q == self.hpos(s), q >= P), v == Y),
                        Implies(And(g['cs'] >= 1, q == self.cpos(s)), v == Y),
                        Implies(And(g['lv'] == Y, q == g['lq'], q >= P), v == Y), Implies(And(g['lv'] == I, g['lp'], q == g['lq']), v == I)))
        return q, v

    def see(self, s, X):
        """this thread learns the value of a cursor"""
        g = s.ghost
        g['s' + X] = self.pos(s, X)
        g['sk' + X], g['sx' + X] = g[X + 'k'], g[X + 'x']
        if X in 'WPR':
            g['f' + X] = z3.BoolVal(True)
        if X == 'H':
            self.done(s, 'W', self.pos(s, 'H') == self.pos(s, 'W'))
        if X == 'W':
            self.done(s, 'P', self.pos(s, 'W') == self.pos(s, 'P'))
        if X == 'P':
            self.done(s, 'R', self.pos(s, 'P') == self.pos(s, 'R'))
        g['drained'] = z3.Or(g['drained'], z3.And(g['notrun'], self.pos(s, 'W') == self.pos(s, 'R')))
        if self.progress:
            self.flag(s, 'full', self.pos(s, 'H') == self.pos(s, 'R') + self.N - 1)
            self.flag(s, 'left', g['sW'] > self.pos(s, 'R') if X == 'R' else z3.BoolVal(False))

    def done(self, s, X, cond):
        g = s.ghost
        g['ok' + X] = z3.Or(g['ok' + X], z3.And(g['f' + X], B(Or(cond, self.pos(s, X) > g['s' + X]))))

    def duty(self, s, X):
        s.ghost['ok' + X] = z3.BoolVal(False)
        s.ghost['f' + X] = z3.BoolVal(False)

    def advance(self, s, X, new):
        """this thread moves cursor X to the value new"""
        e, g = self.eng, s.ghost
        self.touched.add(X)
        x, N = g[X + 'x'], self.N
        new = self.D.lift(new)
        what = 'the %s cursor ' % WORD[X]
        q = self.pos(s, X)
        post(e, s, Or(And(x + 1 < N, new == x + 1), And(x + 1 == N, new == 0)), what + 'moves to the next slot')
        R, P, W, H = (self.pos(s, Y) for Y in CUR)
        if X == 'H':
            post(e, s, H + 1 - R <= N - 1, 'a slot is taken only when the queue is not full')
            post(e, s, g['hs'] == 0, 'one slot is taken at a time')
        elif X == 'W':
            post(e, s, W + 1 <= H, 'only taken slots are published')
            _, v = self.mark(s, x)
            post(e, s, v == self.READY, 'only completed records are published')
        elif X == 'P':
            post(e, s, P + 1 <= W, 'only published records are taken for output')
            post(e, s, g['cs'] == 0, 'the previous record was dispatched and its slot marked free')
        else:
            post(e, s, R + 1 <= P, 'only slots of records taken for output are released')
            _, v = self.mark(s, x)
            post(e, s, v == self.INV, 'only slots whose record was completely written out are released')
        k2, x2 = self.mkpos(s, X + 'next')
        k0, x0 = g[X + 'k'], x
        e.assume(s, And(N * k2 + x2 == q + 1, Implies(x + 1 < N, And(x2 == x + 1, k2 == k0)), Implies(x + 1 == N, And(x2 == 0, k2 == k0 + 1))))
        g[X + 'k'], g[X + 'x'] = k2, x2
        if X == 'H':
            g['hs'], g['hk'], g['hx'] = z3.IntVal(1), k0, x0
        elif X == 'W':
            self.duty(s, 'W')
            self.duty(s, 'P')
        elif X == 'P':
            g['cs'], g['ck'], g['cx'] = z3.IntVal(1), k0, x0
            self.duty(s, 'P')
            g['drained'] = z3.BoolVal(False)
        else:
            self.duty(s, 'R')

    def on_atomic(self, e, s, op, p, ty, v, nw):
        loc = self.locate(e, s, p)
        if loc is None:
            return None
        kind, X, idx = loc
        D, g = self.D, s.ghost
        if kind == 'stat':
            return [(s, D.fresh(64, 'statistic', -(1 << 62), 1 << 62))] if op == 'load' else None
        if kind == 'slot':
            if op == 'store':
                self.chan(s, idx)
                post(e, s, And(Or(g['hs'] == 1, g['hs'] == 2), D.lift(idx[1]) == g['hx']), 'only the owner of a slot writes its record')
            return None
        if kind == 'state':
            if op == 'load':
                x = D.fresh(32, 'channel_state', 0, 3)
                g['notrun'] = B(x != self.RUN)
                g['stop'] = z3.Or(g['stop'], B(x != self.RUN))
                if self.progress:
                    self.flag(s, 'run', x == self.RUN)
                    self.flag(s, 'halt', x != self.RUN)
                return [(s, x)]
            if op == 'store' and isc(v) and v == K(e, 'CHANNEL_STATE_FINISH'):
                self.must(s, g['drained'], 'the output thread ends only after a stop request and with an empty queue')
            return [(s, None)]
        self.chan(s, idx)
        self.rely(s)
        if kind == 'cur':
            now = g[X + 'x']
            if op == 'load':
                self.at_least(s, 'acquire')
                self.see(s, X)
                return [(s, now)]
            if op == 'store':
                self.at_least(s, 'release')
                self.advance(s, X, v)
                return [(s, None)]
            if op == 'cmpxchg':
                self.at_least(s, 'release')
                out = []
                t = s.fork()
                ex = D.lift(v)
                e.assume(t, And(ex == now, self.pos(t, X) - g['s' + X] < self.N))
                t.pc = t.pc
                if e.feasible(t):
                    self.advance(t, X, nw)
                    out.append((t, (now, True)))
                f = s.fork()
                if not e.weak:
                    e.assume(f, ex != now)
                    if self.progress:        # valid for all integers: the same position is the same slot
                        sk, sx = g['sk' + X], g['sx' + X]
                        e.assume(f, Implies(And(sx >= 0, sx < self.N, now >= 0, now < self.N, self.N * sk + sx == self.pos(f, X)), sx == now))
                if e.feasible(f):
                    if X in 'WPR':
                        self.done(f, X, False)       # another thread moved it on
                    self.see(f, X)
                    out.append((f, (now, False)))
                return out
            raise Unsupported('%s on a cursor' % op)
        x = D.lift(idx[1])
        q, m = self.mark(s, x)
        if op == 'load':
            self.at_least(s, 'acquire')
            g['lq'], g['lv'], g['lp'] = q, m, B(q < self.pos(s, 'P'))
            self.done(s, 'W', And(q == self.pos(s, 'W'), m != self.READY))
            self.done(s, 'R', And(q == self.pos(s, 'R'), m != self.INV))
            return [(s, m)]
        if op != 'store' or not isc(v):
            raise Unsupported('%s on a mark' % op)
        mine = And(Or(g['hs'] == 1, g['hs'] == 2), x == g['hx'])
        if v == self.READY:
            post(e, s, mine, 'only the owner of a slot completes its record')
            self.at_least(s, 'release')
            if self.on_ready:
                self.on_ready(s)
            g['hs'] = z3.IntVal(3)
            self.duty(s, 'W')
        elif v == self.HOLD:
            post(e, s, mine, 'only the owner of a slot marks it held')
            g['hs'] = z3.IntVal(2)
        elif v == self.INV:
            post(e, s, And(g['cs'] == 2, x == g['cx']), 'a slot is marked free by the thread that took its record, after the record was dispatched')
            self.at_least(s, 'release')
            g['cs'] = z3.IntVal(0)
            self.duty(s, 'R')
        else:
            post(e, s, z3.BoolVal(False), 'marks are invalid, hold or ready')
        return [(s, None)]

    # ---------------------------------------------------------------- contracts of the callees
    def block(self):
        def h(e, s, ins, a, dem):
            r = []
            for b in (1, 0):
                t = s.fork()
                if not b:
                    e.assume(t, And(self.c >= 0, self.c < self.n))
                    post(e, t, And(e.ptr_eq(a[0], Ptr(self.lg.lg)), self.D.lift(a[1]) == self.c), 'the filter of the channel itself is asked')
                r.append((t, bool(b)))
            return r
        self.eng.contracts['FNLog::BlockInput'] = h

    def slot_ptr(self, k):
        return Ptr(self.lg.shm, self.lg.slot(self.c, k))


def unit_hold(ctx, progress=None):
    r = Ring(ctx, progress=progress)
    eng, lg, D = r.eng, r.lg, r.D
    eng.kinds.discard('nsw')       # the counter of waiting rounds (10 ms each) is taken not to overflow
    r.block()
    pr, cat, ident = D.fresh(32, 'priority'), D.fresh(32, 'category'), D.fresh(64, 'identify')
    st = r.st
    eng.covers.append(('entry', st.hyps() + [r.c >= 0, r.c < r.n]))
    taken = 0
    for s, v in run(eng, 'vp_hold', [Ptr(lg.lg), r.c, pr, cat, ident], st):
        g = s.ghost
        v = D.lift(v)
        post(eng, s, Implies(v < 0, g['hs'] == 0), 'a refused call owns no slot')
        post(eng, s, Implies(v >= 0, And(Or(g['hs'] == 1, g['hs'] == 2), v == g['hx'])), 'an accepted call owns the slot it returns')
        if 'H' in r.touched and eng.check(s.hyps() + [v >= 0], None, 3000) == 'sat':
            taken += 1
            eng.covers.append(('slot taken %d' % taken, s.hyps() + [v >= 0, r.pos(s, 'H') == r.pos(s, 'R') + r.N - 1]))
        nostat(r, s, 'taking a slot writes no record')
    if not taken:
        raise Unsupported('no path takes a slot')
    if progress:
        return eng
    if r.touched - {'H'}:
        post(eng, s, z3.BoolVal(False), 'taking a slot moves the hold cursor only')
    return eng


def nostat(r, s, what):
    """nothing but statistics was written through plain memory"""
    frame(r.eng, s, r.st0, (r.lg.lg, r.lg.shm), [lambda key, idx: True if key == r.statkey else (False if idx is not None else None)], what)


def unit_push(ctx, live=True, progress=None):
    r = Ring(ctx, live=live, progress=progress)
    eng, lg, D, st = r.eng, r.lg, r.D, r.st
    h = D.fresh(32, 'hold_idx')
    eng.watch['hold_idx'] = h
    g = st.ghost
    k, x = r.mkpos(st, 'own')
    g['hs'], g['hk'], g['hx'] = z3.IntVal(2), k, x
    inr = And(r.c >= 0, r.c < r.n, h >= 0, h < r.N)
    eng.assume(st, And(r.own(st), Implies(inr, h == x)))
    kk, eng.kinds = eng.kinds, set()
    L0, pr = (lg.get(st, lg.p_log(r.c, h, f)) for f in ('content_len_', 'priority_'))
    eng.kinds = kk
    eng.assume(st, Implies(inr, And(L0 >= 0, L0 <= lg.LS, pr >= 0, pr < K(eng, 'PRIORITY_MAX'))))
    eng.covers.append(('entry', st.hyps() + [inr]))
    g['out'] = z3.BoolVal(True)
    st0 = st.fork()
    sync = lg.get(st, lg.p_ch(r.c, 'channel_type_')) if False else None

    def proc(e, s, ins, a, dem):
        post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), D.lift(a[1]) == r.c), 'output of the same channel is run')
        r.rely(s)
        s.ghost['okP'] = z3.BoolVal(True)
        return None
    eng.contracts['FNLog::EnterProcChannel'] = proc
    finished = []

    def on_ready(s):
        finished.append(1)
        s.ghost['snap'] = z3.IntVal(len(snaps))
        snaps.append(s.fork())
    snaps = []
    r.on_ready = on_ready
    done = 0
    for s, v in run(eng, 'vp_push', [Ptr(lg.lg), r.c, h], st):
        g = s.ghost
        v = D.lift(v)
        post(eng, s, Implies(v != 0, g['hs'] == 2), 'a refused record is not published')
        post(eng, s, Implies(v == 0, And(inr, g['hs'] == 3)), 'an accepted record is completed')
        r.must(s, Implies(v == 0, Or(g['okW'], g['stop'])), 'the caller leaves only when no completed record is left unpublished by it')
        kk, eng.kinds = eng.kinds, set()
        ty = lg.get(s, lg.p_ch(r.c, 'channel_type_'))
        eng.kinds = kk
        r.must(s, Implies(And(v == 0, D.lift(ty) == K(eng, 'CHANNEL_SYNC')), Or(g['okP'], g['stop'])), 'what was published on a synchronous channel is output before the call returns')
        if eng.check(s.hyps() + [v == 0], None, 3000) == 'sat':
            done += 1
        mk = r.keys
        own = {key_of(eng, lg.p_log(r.c, h, f))[0] for f in ('content_len_',)} | {key_of(eng, lg.p_log(r.c, h, 'content_', 0))[0]}
        frame(eng, s, r.st0, (lg.lg, lg.shm), [lambda key, idx: True if key == r.statkey else ((idx is not None and And(idx[0] == r.c, idx[1] == h)) if key in own else (False if idx is not None else None))], 'completing a record writes only that record')
    if not done or not finished:
        raise Unsupported('no path publishes')
    if r.touched - {'W'}:
        post(eng, s, z3.BoolVal(False), 'completing a record moves the publish cursor only')
    return eng


def unit_proc(solo, live=True, progress=None):
    def go(ctx):
        r = Ring(ctx, solo, live, progress)
        eng, lg, D, st = r.eng, r.lg, r.D, r.st
        eng.assume(st, And(r.c >= 0, r.c < r.n))
        ty = D.lift(lg.get(st, lg.p_ch(r.c, 'channel_type_')))
        eng.assume(st, ty == K(eng, 'CHANNEL_ASYNC' if solo else 'CHANNEL_SYNC'))
        nd = lg.get(st, lg.p_ch(r.c, 'device_size_'))
        eng.assume(st, And(nd >= 0, nd <= lg.ND, lg.get(st, lg.p_ch(r.c, 'channel_id_')) == r.c))
        i = z3.Int('dev')
        g = st.ghost
        if solo:
            # the only consumer starts where the last one ended
            eng.assume(st, And(r.pos(st, 'P') == r.pos(st, 'R')))
        eng.join_skip = lambda k: k == r.statkey or eng.objs.get(k[0]) is not None and eng.objs[k[0]].kind == 'local'
        eng.covers.append(('entry', st.hyps()))
        g['okP'] = z3.BoolVal(False)
        calls = []

        def dispatch(e, s, ins, a, dem):
            calls.append('dispatch')
            g = s.ghost
            post(e, s, g['cs'] == 1, 'a record is dispatched once, by the thread that took it')
            post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), e.ptr_eq(a[1], lg.channel(r.c))), 'a record is dispatched in its own channel')
            p = a[2]
            if not (isinstance(p, Ptr) and p.obj is lg.shm):
                raise Unsupported('record pointer')
            post(e, s, e.ptr_eq(p, r.slot_ptr(g['cx'])), 'the dispatched record is the one that was taken')
            g['cs'] = z3.IntVal(2)
            return None
        eng.contracts['FNLog::DispatchLog'] = dispatch

        def procdev(e, s, ins, a, dem):
            post(e, s, e.ptr_eq(a[3], Ptr(lg.shm, lg.ring(r.c) + e.field('RingBuffer', 'udp_buffer_'))), 'only a received datagram is output beside the queue')
            return None
        eng.contracts['FNLog::EnterProcDevice'] = procdev
        nothing = lambda e, s, ins, a, dem: None
        for f in ('FNLog::FileHandler::flush', 'UDPHandler::is_open', 'UDPHandler::open', 'UDPHandler::close', 'UDPHandler::bind', 'FNLog::InitLogData'):
            eng.contracts[f] = nothing

        def read(e, s, ins, a, dem):
            v = D.fresh(32, 'received')
            e.assume(s, And(v >= 0, v <= D.lift(a[2])))
            return v
        eng.contracts['UDPHandler::read'] = read

        def hot(e, s, ins, a, dem):
            e.assume(s, True)
            return None
        eng.contracts['FNLog::HotUpdateLogger'] = hot
        eng.models['time'] = lambda e, s, ins, a, dem: D.fresh(64, 'now', 0, 1 << 40)
        ends = 0
        for s, _ in run(eng, 'vp_proc', [Ptr(lg.lg), r.c], st):
            g = s.ghost
            post(eng, s, g['cs'] == 0, 'every record that was taken is dispatched and its slot marked free')
            r.must(s, g['okR'], 'every finished slot at the read cursor is released')
            if solo:
                r.must(s, g['drained'], 'the output thread ends only after a stop request and with an empty queue')
            else:
                r.must(s, g['okP'], 'no published record is left behind')
            ends += 1
            eng.covers.append(('end', s.hyps()))
        if 'dispatch' not in calls or not ends:
            raise Unsupported('DispatchLog is not called by name')
        if r.touched - {'P', 'R'}:
            post(eng, s, z3.BoolVal(False), 'output moves the process and read cursors only')
        return eng
    return go


# -------------------------------------------------------------------- the owner of a slot between taking and publishing it
class Owner:
    def __init__(self, ctx):
        eng = self.eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
        D = self.D = eng.D
        libc(eng)
        st = self.st = State()
        lg = self.lg = LG(eng, st)
        n = lg.get(st, lg.p_shm('channel_size_'))
        self.c, self.h = D.fresh(32, 'channel'), D.fresh(32, 'slot')
        eng.watch.update(channel=self.c, slot=self.h)
        eng.assume(st, And(n >= 0, n <= lg.NC, self.c >= 0, self.c < n, self.h >= 0, self.h < lg.NB))
        eng.assume(st, D.lift(lg.get(st, lg.p_log(self.c, self.h, 'channel_id_'))) == self.c)
        eng.assume(st, And(D.lift(lg.get(st, lg.p_log(self.c, self.h, 'priority_'))) >= 0, D.lift(lg.get(st, lg.p_log(self.c, self.h, 'priority_'))) < K(eng, 'PRIORITY_MAX')))
        vd = D.lift(lg.get(st, lg.p_ch(self.c, 'virtual_device_id_')))
        eng.assume(st, And(vd >= -1, vd < lg.ND))
        st.ghost['pushed'] = z3.IntVal(0)
        self.pushes = []

        def push(e, s, ins, a, dem):
            self.pushes.append(1)
            post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), D.lift(a[1]) == self.c, D.lift(a[2]) == self.h), 'the owner publishes the slot it took in the channel it was taken from')
            post(e, s, s.ghost['pushed'] == 0, 'a slot is published once')
            s.ghost['pushed'] = s.ghost['pushed'] + 1
            return D.fresh(32, 'result')
        eng.contracts['FNLog::PushChannel'] = push
        eng.contracts['FNLog::EnterProcOutVirtualDevice'] = lambda e, s, ins, a, dem: None

        hook = eng.new_obj('hook', ('arr', 1, 'ptr'), 'arg')
        eng.contracts['FNLog::RefVirtualDevice'] = lambda e, s, ins, a, dem: Ptr(hook, (0,))
        eng.store(st, Ptr(hook, (0,)), 'ptr', eng.opaque_ptr(z3.Int('hook')))
        eng.loop_policy = lambda e, f, h_, d: ('unroll', 8)

    def stream(self, name):
        eng, lg, st = self.eng, self.lg, self.st
        o = eng.new_obj(name, ('st', eng.struct_name('LogStream')), 'arg')
        eng.cur = st
        return o

    def fill(self, o, empty):
        eng, lg, st = self.eng, self.lg, self.st
        eng.cur = st
        F = lambda f: Ptr(o, eng.field('LogStream', f))
        eng.store(st, F('log_data_'), 'ptr', NULLP if empty else Ptr(lg.shm, lg.slot(self.c, self.h)))
        eng.store(st, F('logger_'), 'ptr', NULLP if empty else Ptr(lg.lg))
        eng.store(st, F('hold_idx_'), I32, self.h)

    def get(self, s, o, f, ty):
        return ld(self.eng, s, Ptr(o, self.eng.field('LogStream', f)), ty)


def unit_owner(ctx):
    out = []
    for empty in (False, True):
        w = Owner(ctx)
        eng = w.eng
        o = w.stream('stream')
        w.fill(o, empty)
        for s, _ in run(eng, 'vp_streamend', [Ptr(o)], w.st):
            post(eng, s, s.ghost['pushed'] == (0 if empty else 1), 'the end of a log call publishes its slot exactly when it owns one')
            post(eng, s, eng.ptr_eq(w.get(s, o, 'log_data_', 'ptr'), NULLP), 'the slot is given up')
        eng.covers.append(('entry', w.st.hyps()))
        if not empty and not w.pushes:
            raise Unsupported('PushChannel is not called by name')
        out.append(eng)
        w = Owner(ctx)
        eng = w.eng
        o, t = w.stream('stream'), w.stream('target')
        w.fill(o, empty)
        for s, _ in run(eng, 'vp_streammove', [Ptr(t), Ptr(o)], w.st):
            post(eng, s, s.ghost['pushed'] == 0, 'moving a log call publishes nothing')
            post(eng, s, eng.ptr_eq(w.get(s, o, 'log_data_', 'ptr'), NULLP), 'a moved log call gives its slot up')
            if empty:
                post(eng, s, eng.ptr_eq(w.get(s, t, 'log_data_', 'ptr'), NULLP), 'no slot appears from nowhere')
            else:
                post(eng, s, And(eng.ptr_eq(w.get(s, t, 'log_data_', 'ptr'), Ptr(w.lg.shm, w.lg.slot(w.c, w.h))), eng.ptr_eq(w.get(s, t, 'logger_', 'ptr'), Ptr(w.lg.lg)), w.D.lift(w.get(s, t, 'hold_idx_', I32)) == w.h), 'the slot is handed over')
        out.append(eng)
    return out


def unit_begin(ctx):
    """the constructor owns exactly the slot HoldChannel gave it"""
    w = Owner(ctx)
    eng, D, lg = w.eng, w.D, w.lg
    c = D.fresh(32, 'requested')
    st = w.st
    st.ghost['held'] = z3.IntVal(0)
    n = lg.get(st, lg.p_shm('channel_size_'))

    def hold(e, s, ins, a, dem):
        post(e, s, And(D.lift(a[1]) == c, s.ghost['held'] == 0), 'one slot of the channel is requested')
        r = []
        for ok in (1, 0):
            t = s.fork()
            t.ghost['held'] = z3.IntVal(1 + ok)
            x = D.fresh(32, 'refusal')
            e.assume(t, And(c == w.c) if ok else x < 0)
            r.append((t, w.h if ok else x))
        return r
    eng.contracts['FNLog::HoldChannel'] = hold
    eng.models['gettimeofday'] = lambda e, s, ins, a, dem: 0
    eng.models['syscall'] = lambda e, s, ins, a, dem: None
    o = w.stream('stream')
    args = [Ptr(o), Ptr(lg.lg), c, D.fresh(32, 'priority'), D.fresh(32, 'category'), D.fresh(64, 'identify'), eng.opaque_ptr(z3.Int('file')), D.fresh(32, 'fl'), D.fresh(32, 'line'), eng.opaque_ptr(z3.Int('func')), D.fresh(32, 'fnl'), 0]
    seen = set()
    for s, _ in run(eng, 'vp_stream', args, st):
        for g in (1, 2):
            if eng.check(s.hyps() + [s.ghost['held'] == g], None, 3000) != 'unsat':
                seen.add(g)
        post(eng, s, s.ghost['held'] >= 1, 'a slot is requested')
        p = w.get(s, o, 'log_data_', 'ptr')
        post(eng, s, Implies(s.ghost['held'] == 1, eng.ptr_eq(p, NULLP)), 'a refused call owns no slot')
        post(eng, s, Implies(s.ghost['held'] == 2, And(eng.ptr_eq(p, Ptr(lg.shm, lg.slot(w.c, w.h))), eng.ptr_eq(w.get(s, o, 'logger_', 'ptr'), Ptr(lg.lg)), D.lift(w.get(s, o, 'hold_idx_', I32)) == w.h)), 'an accepted call owns the slot it got')
        post(eng, s, Implies(s.ghost['held'] == 2, D.lift(lg.get(s, lg.p_log(w.c, w.h, 'channel_id_'))) == w.c), 'the record names its channel')
        post(eng, s, s.ghost['pushed'] == 0, 'nothing is published at the start of a log call')
    if seen != {1, 2}:
        raise Unsupported('HoldChannel is not called by name')
    return eng


def queue_units(live):
    return [Unit('HoldChannel', unit_hold), Unit('PushChannel', lambda ctx: unit_push(ctx, live)), Unit('EnterProcChannel, synchronous', unit_proc(False, live), limit=400), Unit('EnterProcChannel, output thread', unit_proc(True, live), limit=400),
            Unit('LogStream begins', unit_begin), Unit('LogStream ends and moves', unit_owner)]
