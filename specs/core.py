"""specification vocabulary for the logger state"""
from lib import *


def K(eng, name):
    return eng.mod.const_int('vp_int__' + name)


class LG:
    """an arbitrary logger attached to an arbitrary SHMLogger segment"""

    def __init__(self, eng, st, null_shm=False):
        self.eng = eng
        self.lg = eng.new_obj('logger', ('st', eng.struct_name('Logger')), 'arg')
        self.shm = eng.new_obj('shm', ('st', eng.struct_name('SHMLogger')), 'arg')
        eng.cur = st
        eng.store(st, Ptr(self.lg, eng.field('Logger', 'shm_')), 'ptr', NULLP if null_shm else Ptr(self.shm))
        self.NC, self.ND, self.NB, self.LS = K(eng, 'MAX_CHANNEL_SIZE'), K(eng, 'MAX_DEVICE_SIZE'), K(eng, 'BUFFER_LEN'), K(eng, 'LOG_SIZE')

    def arr(self, obj, path):
        """first array dimension at path (through std::array wrappers)"""
        while self.eng.rt(self.eng.type_at(obj, path))[0] != 'arr':
            path += (0,)
        return path

    def scal(self, obj, path):
        t = self.eng.rt(self.eng.type_at(obj, path))
        while isinstance(t, tuple) and t[0] in ('lst', 'arr'):
            path += (0,)
            t = self.eng.rt(self.eng.type_at(obj, path))
        return Ptr(obj, path), t

    def p_logger(self, f):
        return self.scal(self.lg, self.eng.field('Logger', f))

    def p_shm(self, f):
        return self.scal(self.shm, self.eng.field('SHMLogger', f))

    def p_ch(self, c, f, *ix):
        path = self.arr(self.shm, self.eng.field('SHMLogger', 'channels_')) + (c,) + self.eng.field('Channel', f)
        for i in ix:
            path = self.arr(self.shm, path) + (i,)
        return self.scal(self.shm, path)

    def p_dev(self, c, d, f, *ix):
        path = self.arr(self.shm, self.eng.field('SHMLogger', 'channels_')) + (c,)
        path = self.arr(self.shm, path + self.eng.field('Channel', 'devices_')) + (d,) + self.eng.field('Device', f)
        for i in ix:
            path = self.arr(self.shm, path) + (i,)
        return self.scal(self.shm, path)

    def channel(self, c):
        return Ptr(self.shm, self.arr(self.shm, self.eng.field('SHMLogger', 'channels_')) + (c,))

    def ring(self, c):
        return self.arr(self.shm, self.eng.field('SHMLogger', 'ring_buffers_')) + (c,)

    def p_ring(self, c, f):
        return self.scal(self.shm, self.ring(c) + self.eng.field('RingBuffer', f))

    def slot(self, c, i):
        return self.arr(self.shm, self.ring(c) + self.eng.field('RingBuffer', 'buffer_')) + (i,)

    def p_log(self, c, i, f, *ix):
        path = self.slot(c, i) + self.eng.field('LogData', f)
        for k in ix:
            path = self.arr(self.shm, path) + (k,)
        return self.scal(self.shm, path)

    def get(self, st, pt):
        return ld(self.eng, st, pt[0], pt[1])

    def put(self, st, pt, v):
        k, self.eng.kinds = self.eng.kinds, set()
        self.eng.cur = st
        self.eng.store(st, pt[0], pt[1], v)
        self.eng.kinds = k


def bv(x, w):
    return z3.BitVecVal(x, w) if isc(x) else x


def libc(eng):
    """models of the C library calls that have no effect on the state the properties speak about"""
    zero = lambda e, st, ins, args, dem: 0
    for f in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock', '__gthread_active_p'):
        eng.models[f] = zero
    eng.models['__gthread_active_p'] = lambda e, st, ins, args, dem: 1

    def anyint(e, st, ins, args, dem):
        return None
    for f in ('printf', 'puts', 'fprintf', 'nanosleep', 'usleep', '__errno_location', 'std::this_thread::sleep_for'):
        eng.models[f] = anyint


def same_mem(eng, st, st0, objs, skip=()):
    """list of (leaf description, formula) that objects are unchanged except the listed leaf keys.
    skip: list of (obj, keyprefix tuple with None = any) or predicates (key, idx) -> condition under which it may differ"""
    out = []
    for key, v in list(st.mem.items()):
        o = eng.objs.get(key[0])
        if o not in objs:
            continue
        v0 = st0.mem.get(key)
        if v0 is None:
            v0 = eng.leaf_init(key)
        if v is v0:
            continue
        if any(callable(s) and s(key, None) is True for s in skip):
            continue
        nd = key[1].count('*')
        ty = eng.leaf_type(key)
        if nd == 0:
            cond = Or([s(key, ()) for s in skip if callable(s)])
            out.append((leafname(eng, key), Or(cond, veq(eng, v, v0, ty))))
        else:
            idx = []
            t = o.type
            rngs = []
            for s in key[1]:
                t = eng.rt(t)
                if t[0] == 'arr':
                    n = t[1] if t[1] is not None else o.len
                    k = eng.D.fresh(64, 'frame_idx')
                    if n is not None:
                        rngs.append(k >= 0 if eng.D.name == 'int' else z3.ULT(k, bv(n, 64)))
                        if eng.D.name == 'int':
                            rngs.append(k < eng.D.lift(n))
                            if isc(n):
                                eng.D.setr(k, 0, n - 1)
                                eng.fact(z3.And(k >= 0, k < n))
                    idx.append(k)
                    t = t[2]
                else:
                    t = t[1][s]
            idx = tuple(idx)
            cond = Or([s(key, idx) for s in skip if callable(s)])
            a = eng.read(v, idx) if isinstance(v, Arr) else v
            b = eng.read(v0, idx) if isinstance(v0, Arr) else v0
            out.append((leafname(eng, key), Implies(And(rngs), Or(cond, veq(eng, a, b, ty)))))
    return out


def veq(eng, a, b, ty):
    if a is b:
        return True
    if isinstance(a, (Ptr, PtrU)) or isinstance(b, (Ptr, PtrU)):
        try:
            return eng.ptr_eq(a, b)
        except Unsupported:
            return False
    if ty == ('i', 1) or isb(a) or isb(b):
        return Iff(a, b)
    if isinstance(ty, tuple) and ty[0] == 'i':
        return eng.D.icmp('eq', ty[1], a, b)
    return a == b


def leafname(eng, key):
    return '%s%s' % (eng.objs[key[0]].name, ''.join('.%s' % s for s in key[1]))


def key_of(eng, pt):
    """leaf key (obj id, path with '*') of a typed pointer"""
    p = pt[0]
    key = []
    idx = []
    t = p.obj.type
    for s in p.path:
        t = eng.rt(t)
        if t[0] == 'arr':
            key.append('*')
            idx.append(s)
            t = t[2]
        else:
            key.append(s)
            t = t[1][s]
    return (p.obj.id, tuple(key)), tuple(idx)


def only(eng, *pts):
    """frame exception: exactly these locations (pt, [guard]) may change"""
    ks = []
    for x in pts:
        pt, g = (x, True) if len(x) == 2 and isinstance(x[0], Ptr) else (x[0], x[1])
        ks.append(key_of(eng, pt) + (g,))

    def f(key, idx):
        r = []
        for k, i, g in ks:
            if k == key:
                if idx is None:
                    return None
                r.append(And(g, [eng.D.eq(a, b) if eng.D.name == 'int' else eng.ix(a) == eng.ix(b) for a, b in zip(idx, i)]))
        return Or(r) if idx is not None else False
    return f


def frame(eng, st, st0, objs, skip, what):
    for nme, g in same_mem(eng, st, st0, objs, skip):
        if g is False:
            g = z3.BoolVal(False)
        post(eng, st, g, '%s (%s)' % (what, nme))


def has_cas(eng, f, blocks, depth=4, seen=None):
    """do these blocks (or what they call) contain a compare-exchange"""
    seen = set() if seen is None else seen
    for b in blocks:
        for i in f.blocks[b]:
            if i.op == 'cmpxchg':
                return True
            if i.op in ('call', 'invoke') and depth and i.a['callee'][0] == 'glob':
                n = i.a['callee'][1]
                g = eng.mod.funcs.get(n)
                if g is not None and n not in seen:
                    seen.add(n)
                    if basename(eng.mod.dem.get(n, n)) in eng.contracts:
                        continue
                    g.parse()
                    if has_cas(eng, g, g.blocks, depth - 1, seen):
                        return True
    return False


def ring_loops(spec, limit=80):
    """cut the loops that work on the queue cursors, unroll the others"""
    return lambda e, f, h, d: ('cut', spec) if has_cas(e, f, f.loops[h]) else ('unroll', limit)
