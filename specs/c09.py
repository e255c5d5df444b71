"""C09 a shared-memory queue is recovered after a crash at any point"""
from load import *
from c01 import TRUSTED

ID = 'C09'
LEVEL = 'proof'
TEXT = b'!!!core recover!!!'
ASSUMPTIONS = [
    'a segment whose header carries the size of SHMLogger and its own identity was created by this library and has that size (smaller segments have another header); shmget/shmat/shmdt/shmctl keep their contracts, a new segment is zero-filled',
    'one process attaches at a time and the process that died has no running thread left',
    'records count as published in ring order from the read cursor to the publish cursor, with the hold cursor not behind the publish cursor (what C07 proves of every reachable state); all other contents are arbitrary',
    'operator new does not fail']


def literal_strings(eng):
    """strings made from a literal keep their text (any other operation forgets it)"""
    S = 'std::__cxx11::basic_string'

    def model(e, s, ins, a, dem):
        m = dem[len(S):].split('>::', 1)[-1]
        nme = m.split('(')[0].split('[abi')[0].split('<')[0]
        if not (a and isinstance(a[0], Ptr)):
            return NotImplemented
        k = 'lit:%d' % a[0].obj.id
        if nme == 'basic_string' and len(a) > 1 and isinstance(a[1], Ptr) and a[1].obj.const is not None:
            s.ghost[k] = a[1]
            return None
        lit = s.ghost.get(k)
        if lit is None:
            return NotImplemented
        if nme in ('c_str', 'data'):
            return lit
        if nme in ('length', 'size'):
            return strlen_model(e, s, ins, [lit], dem)
        if not nme.startswith('~'):
            s.ghost[k] = None
        return NotImplemented
    eng.prefix_models.insert(0, (S, model))


class Shm(Load):
    def __init__(self, ctx):
        Load.__init__(self, ctx)
        eng, st, lg, D = self.eng, self.st, self.lg, self.D
        literal_strings(eng)
        eng.models['strlen'] = strlen_model
        lg.put(st, lg.p_logger('shm_'), NULLP)
        self.N, self.NC, self.LS = lg.NB, lg.NC, lg.LS
        g = st.ghost
        for k in ('probed', 'created', 'attached', 'detached', 'removed', 'newheap', 'freed'):
            g[k] = z3.IntVal(0)
        g['sid'] = z3.IntVal(-1)
        g['fresh'] = z3.BoolVal(False)
        g['heap'] = z3.BoolVal(False)
        g['rmid'] = z3.IntVal(-1)
        self.errno = eng.new_obj('errno', I32, 'arg')
        eng.models['__errno_location'] = lambda *x: Ptr(self.errno)
        eng.models['shmget'] = self.shmget
        eng.models['shmat'] = self.shmat
        eng.models['shmdt'] = self.shmdt
        eng.models['shmctl'] = self.shmctl
        for f in ('_ZdlPv', '_ZdlPvm'):
            eng.models[f] = self.delete
        # what a new segment (or value-initialised heap object) looks like
        self.zero = eng.new_obj('newshm', ('st', eng.struct_name('SHMLogger')), 'arg', init=self.zeros)
        self.c = D.fresh(32, 'channel', 0, self.NC - 1)
        self.k = D.fresh(64, 'slot', 0, self.N - 1)
        self.b = D.fresh(64, 'byte', 0, self.LS - 1)
        eng.fact(z3.And(self.c >= 0, self.c < self.NC, self.k >= 0, self.k < self.N, self.b >= 0, self.b < self.LS))
        self.key = D.lift(lg.get(st, lg.p_logger('shm_key_')))
        eng.loop_policy = self.policy
        eng.hook_plain = True
        eng.on_atomic = self.access
        self.size, self.sid = K(eng, 'SHM_BYTES'), None
        self.head = {key_of(eng, lg.p_shm(f))[0] for f in ('shm_size_', 'shm_id_')}
        self.st0 = st.fork()

    def zeros(self, path, ty, nd):
        if ty == 'ptr' or not (isinstance(ty, tuple) and ty[0] == 'i'):
            return None
        if nd == 0:
            return False if ty[1] == 1 else 0
        return ABlk(self.eng.base('zero', ty, nd), lambda idx: True, lambda idx: z3.IntVal(0))

    def zlg(self):
        z = object.__new__(LG)
        z.__dict__.update(self.lg.__dict__)
        z.shm = self.zero
        return z

    # ------------------------------------------------ system calls
    def seterr(self, e, s):
        x = self.D.fresh(32, 'errno')
        e.assume(s, x > 0)
        k, e.kinds = e.kinds, set()
        h, e.hook_plain = e.hook_plain, False
        e.cur = s
        e.store(s, Ptr(self.errno), I32, x)
        e.kinds, e.hook_plain = k, h
        s.ghost['errno'] = x
        return x

    def shmget(self, e, s, ins, a, dem):
        D = self.D
        key, size, flg = (D.lift(x) for x in a)
        post(e, s, key == self.key, 'the segment of the configured key is used') if False else None
        CREAT, EXCL = 0o1000, 0o2000
        if not isc(a[2]):
            raise Unsupported('shmget flags')
        create = bool(a[2] & CREAT)
        t = s.fork()
        out = []
        x = self.seterr(e, t)
        if create:
            post(e, s, z3.BoolVal(bool(a[2] & EXCL)), 'an existing segment is never opened as a new one')
            post(e, s, size == self.size, 'a new segment has the size of the queue')
        g = s.ghost
        g['sid'] = D.fresh(32, 'segment')
        e.assume(s, g['sid'] >= 0)
        if create:
            g['fresh'] = z3.BoolVal(True)
            g['created'] = g['created'] + 1
        else:
            g['probed'] = g['probed'] + 1
            t.ghost['absent'] = x == K(e, 'ERR_NOENT')
        return [(s, g['sid']), (t, -1)]

    def shmat(self, e, s, ins, a, dem):
        g = s.ghost
        post(e, s, self.D.lift(a[0]) == g['sid'], 'the segment that was found is attached')
        t = s.fork()
        self.seterr(e, t)
        g['attached'] = g['attached'] + 1
        bad = e.opaque_ptr(z3.IntVal(-1)) if False else None
        fresh = z3.is_true(g['fresh'])
        r = Ptr(self.zero) if fresh else Ptr(self.lg.shm)
        return [(s, r), (t, self.minus1(e))]

    def minus1(self, e):
        return e.opaque_ptr(z3.IntVal(-1))

    def shmdt(self, e, s, ins, a, dem):
        p = a[0]
        s.ghost['detached'] = s.ghost['detached'] + 1
        post(e, s, Not(s.ghost['heap']), 'only an attached segment is detached')
        return 0

    def shmctl(self, e, s, ins, a, dem):
        post(e, s, Not(s.ghost['heap']), 'a segment is removed only when one is attached')
        s.ghost['removed'] = s.ghost['removed'] + 1
        s.ghost['rmid'] = self.D.lift(a[0])
        return 0

    def delete(self, e, s, ins, a, dem):
        p = a[0]
        if isinstance(p, Ptr) and p.obj in (self.lg.shm, self.zero):
            post(e, s, s.ghost['heap'], 'only storage from the heap is given back to the heap')
            s.ghost['freed'] = s.ghost['freed'] + 1
        return None

    def new(self, e, s, ins, a, dem):
        if isc(a[0]) and a[0] == K(e, 'SHM_BYTES'):
            s.ghost['newheap'] = s.ghost['newheap'] + 1
            s.ghost['heap'] = z3.BoolVal(True)
            return Ptr(self.zero)
        return Load.new(self, e, s, ins, a, dem)

    def access(self, e, s, op, p, ty, v, nw):
        """nothing behind the header of a found segment is touched before the header was recognised"""
        if not (isinstance(p, Ptr) and p.obj is self.lg.shm) or e.suspend or not e.kinds:
            return None
        if key_of(e, self.lg.scal(p.obj, p.path))[0] in self.head:
            return None
        post(e, s, self.recognised(s), 'a segment of another size or identity is not touched')
        return None

    def recognised(self, s):
        lg = self.lg
        return And(self.D.lift(lg.get(self.st0, lg.p_shm('shm_size_'))) == self.size, self.D.lift(lg.get(self.st0, lg.p_shm('shm_id_'))) == s.ghost['sid'])

    # ------------------------------------------------ the queues
    def cur(self, s, f, c, lg=None):
        lg = lg or self.lg
        return self.D.lift(lg.get(s, lg.p_ring(c, f)))

    def log(self, s, f, c, k, *ix):
        return self.D.lift(self.lg.get(s, self.lg.p_log(c, k, f, *ix)))

    def between(self, a, k, b):
        """slot k lies in ring order in [a, b)"""
        return z3.If(a <= b, And(a <= k, k < b), Or(k >= a, k < b))

    def dist(self, a, b):
        return z3.If(a <= b, b - a, b - a + self.N)

    def closed(self, s, s0, c, k):
        """slot k holds its old text (cut to the room) followed by the recovery mark"""
        n0 = self.log(s0, 'content_len_', c, k)
        room = self.LS - len(TEXT) - 2
        n = z3.If(n0 < 0, 0, z3.If(n0 > room, room, n0))
        b = self.b
        x, x0 = self.log(s, 'content_', c, k, b), self.log(s0, 'content_', c, k, b)
        exp = x0
        exp = z3.If(b == n + len(TEXT) + 1, 0, exp)
        exp = z3.If(b == n + len(TEXT), 10, exp)
        for i, ch in enumerate(TEXT):
            exp = z3.If(b == n + i, ch, exp)
        return [('its text is kept, cut to the room, and followed by the recovery mark, a newline and a NUL', x == exp),
                ('its length counts the text, the mark and the newline', self.log(s, 'content_len_', c, k) == n + len(TEXT) + 1),
                ('it is published', self.log(s, 'data_mark_', c, k) == K(self.eng, 'MARK_READY')),
                ('it is reported as fatal', self.log(s, 'priority_', c, k) == K(self.eng, 'PRIORITY_FATAL'))]

    def untouched(self, s, s0, c, k):
        return And([self.log(s, f, c, k) == self.log(s0, f, c, k) for f in ('data_mark_', 'content_len_', 'priority_')] + [self.log(s, 'content_', c, k, self.b) == self.log(s0, 'content_', c, k, self.b)])

    def policy(self, e, f, h, d):
        if const_trip(f, h):
            return ('unroll', 40)
        for b in f.loops[h]:
            for i in f.blocks[b]:
                if i.op in ('call', 'invoke') and any(x in str(i.a['callee']) for x in ('memcpy', 'basic_string')):
                    inner = [g for g in f.loops if g != h and g in f.loops[h]]
                    if not inner:
                        return ('cut', Cut(cands=self.cands, havoc=self.mark, end=self.variant))
        return ('unroll', 8)

    def mark(self, e, s, entry):
        s.ghost['measures'] = Measures(self.measures(s))

    def measures(self, s):
        out = {}
        for c in range(self.NC):
            for x, y in (('write_idx_', 'hold_idx_'),):
                out['distance from %s to %s of channel %d' % (x, y, c)] = self.modn(self.cur(s, y, c) - self.cur(s, x, c))
        for p in sorted(s.env, key=str):
            v = s.env[p]
            if isinstance(p, str) and z3.is_expr(v) and z3.is_int(v):
                out['counter %s' % p] = v
                for y in ('hold_idx_',):
                    out['distance %s' % p] = self.modn(self.cur(s, y, self.c) - v) if False else v
        return out

    def modn(self, x):
        return x % self.N

    def variant(self, e, b):
        if e.suspend:
            return
        m0 = b.ghost['measures'].m
        m1 = self.measures(b)
        for nm in m0:
            if nm in m1 and e.check(b.hyps(), And(m1[nm] < m0[nm], m0[nm] >= 0, m1[nm] >= 0), 3000) == 'unsat':
                post(e, b, And(m1[nm] < m0[nm], m1[nm] >= 0), 'closing half-built records comes to an end')
                return
        nm = sorted(m0)[0]
        post(e, b, m1[nm] < m0[nm], 'closing half-built records comes to an end')

    def cands(self, e, s, entry):
        s0 = self.st0
        out = []
        lg = self.lg
        for c in range(self.NC):
            w0, h0, w = self.cur(s0, 'write_idx_', c), self.cur(s0, 'hold_idx_', c), self.cur(s, 'write_idx_', c)
            for f in ('hold_idx_', 'read_idx_', 'proc_idx_', 'write_idx_'):
                out.append(('%s of %d stays' % (f, c), self.cur(s, f, c) == self.cur(s0, f, c)))
            out.append(('%d publish cursor in the queue' % c, And(w >= 0, w < self.N)))
            out.append(('%d publish cursor between' % c, Implies(And(h0 >= 0, h0 < self.N), self.dist(w0, w) + self.dist(w, h0) == self.dist(w0, h0))))
            ins = self.between(w0, self.k, w)
            out.append(('%d slots outside stay' % c, Implies(Not(ins), self.untouched(s, s0, c, self.k))))
            for nm, fm in self.closed(s, s0, c, self.k):
                out.append(('%d closed: %s' % (c, nm), Implies(ins, fm)))
            out.append(('%d slots stay' % c, self.untouched(s, s0, c, self.k)))
            out.append(('%d done' % c, w == h0))
        return out


class Measures:
    def __init__(self, m):
        self.m = m


def attach(ctx):
    w = Shm(ctx)
    eng, st, lg, D, c, k = w.eng, w.st, w.lg, w.D, w.c, w.k
    st0 = w.st0
    z = w.zlg()
    n0 = D.lift(lg.get(st0, lg.p_shm('channel_size_')))
    w0, h0, r0 = (w.cur(st0, f, c) for f in ('write_idx_', 'hold_idx_', 'read_idx_'))
    eng.watch.update(channel=c, channel_size=n0, write=w0, hold=h0, read=r0, key=w.key, slot=k, content_len=w.log(st0, 'content_len_', c, k), byte=w.b)
    eng.covers.append(('entry', st.hyps()))
    seen = set()
    inq = lambda x: And(x >= 0, x < w.N)
    valid = And(w.key > 0)
    allin = And([Implies(i < n0, And([inq(w.cur(st0, f, i)) for f in ('write_idx_', 'hold_idx_', 'read_idx_')])) for i in range(w.NC)])
    for s, v in run(eng, 'vp_loadshm', [Ptr(lg.lg)], st):
        eng.hook_plain = False
        v = D.lift(v)
        g = s.ghost
        p = lg.get(s, lg.p_logger('shm_'))
        isnull = eng.is_null(p)
        found = And(g['attached'] == 1, Not(g['fresh']))
        post(eng, s, Implies(v != 0, isnull), 'a refused segment is not used')
        post(eng, s, Implies(v == 0, Not(isnull)), 'success leaves a queue to work with')
        for nme, f in same_mem(eng, s, st0, (lg.lg,), [only(eng, lg.p_logger('shm_'))]):
            post(eng, s, f, 'nothing else of the logger changes (%s)' % nme)
        post(eng, s, Iff(w.key <= 0, g['newheap'] > 0), 'private storage is used exactly when no key is configured')
        post(eng, s, Implies(w.key <= 0, And(g['probed'] == 0, g['created'] == 0, v == 0)), 'without a key no segment is touched')
        post(eng, s, Implies(g['created'] > 0, g.get('absent', z3.BoolVal(False))), 'a segment is created only when there is none')
        if not z3.is_true(z3.simplify(isnull if z3.is_expr(isnull) else z3.BoolVal(bool(isnull)))):
            if isinstance(p, Ptr) and p.obj is w.zero:
                seen.add('new heap' if z3.is_true(z3.simplify(z3.BoolVal(True) if g['heap'] is True else g['heap'])) else 'new segment')
                post(eng, s, D.lift(z.get(s, z.p_shm('channel_size_'))) == 0, 'new storage has no channel')
                for f in ('write_idx_', 'hold_idx_', 'read_idx_', 'proc_idx_'):
                    post(eng, s, w.cur(s, f, c, z) == 0, 'new queues are empty (%s)' % f)
                post(eng, s, D.lift(z.get(s, z.p_log(c, k, 'data_mark_'))) == K(eng, 'MARK_INVALID'), 'all slots of a new queue are free')
                if z3.is_true(g['fresh']):
                    post(eng, s, And(D.lift(z.get(s, z.p_shm('shm_size_'))) == w.size, D.lift(z.get(s, z.p_shm('shm_id_'))) == g['sid']), 'a new segment is labelled with its size and identity')
                continue
        ok = s.fork()
        eng.assume(ok, And(v == 0))
        if eng.feasible(ok):
            seen.add('attached')
            post(eng, ok, isinstance(p, Ptr) and p.obj is lg.shm, 'the segment that was found is used')
            post(eng, ok, w.recognised(ok), 'a segment of another size or identity is refused')
            post(eng, ok, And(n0 <= w.NC), 'a segment with more channels than the limit is refused')
            post(eng, ok, Implies(c < n0, And(inq(w0), inq(h0), inq(r0))), 'cursors outside the queue are refused')
            t = ok.fork()
            eng.assume(t, c < n0)
            eng.assume(t, And(inq(w0), inq(h0), inq(r0)))
            cw, ch, cr, cp = (w.cur(t, f, c) for f in ('write_idx_', 'hold_idx_', 'read_idx_', 'proc_idx_'))
            post(eng, t, And(cw == h0, ch == h0), 'nothing remains half-held: publish and hold cursor meet at the old hold cursor')
            post(eng, t, And(cr == r0, cp == r0), 'processing restarts at the first unprocessed record')
            half = w.between(w0, k, h0)
            for nm, fm in w.closed(t, st0, c, k):
                post(eng, t, Implies(half, fm), 'a half-built record is closed: ' + nm)
            post(eng, t, Implies(Not(half), w.untouched(t, st0, c, k)), 'every other record stays as it was')
            post(eng, t, Implies(And(w.dist(r0, w0) <= w.dist(r0, h0), w.between(r0, k, w0)), And(w.untouched(t, st0, c, k), w.between(cr, k, cw))), 'no published record is lost or altered')
            recs = {key_of(eng, lg.p_log(0, 0, f))[0] for f in ('data_mark_', 'content_len_', 'priority_')} | {key_of(eng, lg.p_log(0, 0, 'content_', 0))[0]}
            cursors = {key_of(eng, lg.p_ring(0, f))[0] for f in ('write_idx_', 'hold_idx_', 'proc_idx_')}
            frame(eng, ok, st0, (lg.shm,), [lambda key, idx: True if key in recs | cursors else (None if idx is None else False)], 'nothing else of the segment changes')
            for i in range(w.NC):
                post(eng, ok, Implies(i >= n0, And([w.cur(ok, f, i) == w.cur(st0, f, i) for f in ('write_idx_', 'hold_idx_', 'proc_idx_')] + [w.untouched(ok, st0, i, k)])), 'queues behind the last channel stay (%d)' % i)
        bad = s.fork()
        eng.assume(bad, And(v != 0))
        if eng.feasible(bad):
            seen.add('refused')
            frame(eng, bad, st0, (lg.shm,), [], 'a refused segment is not changed')
            post(eng, bad, Implies(And(g['attached'] == 1, Not(g['fresh']), n0 >= 0), Not(And(w.recognised(bad), n0 <= w.NC, allin))), 'a sound segment is accepted')
    if seen != {'new heap', 'new segment', 'attached', 'refused'}:
        raise Unsupported('outcomes reached: %s' % sorted(seen))
    return eng


def unload(ctx, heap):
    w = Shm(ctx)
    eng, st, lg, D = w.eng, w.st, w.lg, w.D
    lg.put(st, lg.p_logger('shm_'), Ptr(lg.shm))
    st.ghost['heap'] = z3.BoolVal(heap)
    size, sid = D.lift(lg.get(st, lg.p_shm('shm_size_'))), D.lift(lg.get(st, lg.p_shm('shm_id_')))
    # as LoadSharedMemory leaves it (unit LoadSharedMemory); the key may have changed since
    eng.assume(st, (size == 0) if heap else (size == w.size))
    eng.hook_plain = False
    st0 = st.fork()
    eng.covers.append(('entry', st.hyps()))
    for s, v in run(eng, 'vp_unloadshm', [Ptr(lg.lg)], st):
        g = s.ghost
        post(eng, s, eng.is_null(lg.get(s, lg.p_logger('shm_'))), 'the logger no longer refers to the storage')
        if heap:
            post(eng, s, And(g['freed'] == 1, g['detached'] == 0, g['removed'] == 0), 'private storage is freed once and no segment is touched')
        else:
            post(eng, s, And(g['freed'] == 0, g['detached'] == 1, g['removed'] == 1, g['rmid'] == sid), 'the segment is detached and removed by its own identity')
        frame(eng, s, st0, (lg.lg,), [only(eng, lg.p_logger('shm_'))], 'nothing else of the logger changes')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('LoadSharedMemory', attach, par=6, weight=6, timeout=60),
            Unit('UnloadSharedMemory, private storage', lambda ctx: unload(ctx, True)),
            Unit('UnloadSharedMemory, shared segment', lambda ctx: unload(ctx, False))]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c09.cpp', 400, 6000)
