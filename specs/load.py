"""the environment of the functions that load, apply and re-read configurations"""
from devs import *
from houdini import Cut


def const_trip(f, h):
    """does the loop compare a counter with a constant"""
    for b in f.loops[h]:
        for i in f.blocks[b]:
            if i.op == 'icmp' and any(x[0] == 'int' for x in (i.a['x'], i.a['y'])):
                return True
    return False


class Load:
    def __init__(self, ctx):
        eng = self.eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
        self.D = eng.D
        libc(eng)
        for f in ('pthread_mutex_lock', 'pthread_mutex_unlock', 'pthread_mutex_trylock'):
            eng.models.pop(f, None)
        st = self.st = State()
        lg = self.lg = LG(eng, st)
        string_models(eng)
        for p in ('std::basic_ostream', 'std::basic_ios', 'std::__cxx11::basic_stringstream', 'std::__cxx11::basic_ostringstream', 'std::operator<<', 'std::ios_base'):
            eng.prefix_models.append((p, lambda e, s, ins, a, dem: a[0] if ins is not None and ins.a['t'] == 'ptr' and a else None))
        g = st.ghost
        for k in ('fopened', 'fclosed', 'parsed', 'owned'):
            g[k] = z3.IntVal(0)
        for k in ('openok', 'parseok', 'trystate'):
            g[k] = z3.BoolVal(False)
        g['mtime'] = z3.IntVal(0)
        self.lockpath = tuple(eng.field('Logger', 'state_lock_'))
        self.ls = None
        eng.models.update({'fileno': lambda *x: None, 'fsync': lambda *x: None, 'posix_fadvise': lambda *x: None, 'fflush': lambda *x: 0})
        eng.models['fopen'] = self.fopen
        eng.models['fclose'] = self.fclose
        eng.models['fstat'] = self.fstat
        eng.models['fread'] = self.fread
        eng.models['time'] = self.time
        for f in ('FNLog::FileHandler::read_content', 'FNLog::DebugErrno'):
            contract_matching(eng, f, eng.fresh_string)
        eng.contracts['FNLog::ParseLogger'] = self.parse
        eng.models['_Znwm'] = self.new
        for f in ('_ZdlPv', '_ZdlPvm', '_ZdaPv'):
            eng.models[f] = lambda *x: None
        eng.models['pthread_mutex_lock'] = lambda e, s, ins, a, dem: self.lock(e, s, a, 'lock')
        eng.models['pthread_mutex_trylock'] = lambda e, s, ins, a, dem: self.lock(e, s, a, 'try')
        eng.models['pthread_mutex_unlock'] = lambda e, s, ins, a, dem: self.lock(e, s, a, 'unlock')

    # ------------------------------------------------ files and time
    def fopen(self, e, s, ins, a, dem):
        tok = z3.Int(e.nm('FILE'))
        e.assume(s, tok >= 0)
        s.ghost['fopened'] = s.ghost['fopened'] + z3.If(tok != 0, 1, 0)
        s.ghost['openok'] = tok != 0
        return e.opaque_ptr(tok)

    def fclose(self, e, s, ins, a, dem):
        post(e, s, Not(e.is_null(a[0])), 'only open files are closed')
        s.ghost['fclosed'] = s.ghost['fclosed'] + 1
        return None

    def fread(self, e, s, ins, a, dem):
        raise Unsupported('fread outside read_content')

    def fstat(self, e, s, ins, a, dem):
        ok = z3.Bool(e.nm('fstat_ok'))
        p = a[1]
        if not (isinstance(p, Ptr) and p.obj.kind != 'opaque'):
            raise Unsupported('struct stat')
        path = p.path
        st_t = ('st', e.struct_name('stat'))
        while path and e.type_at(p.obj, path) != st_t:
            path = path[:-1]
        sz, mt = self.D.fresh(64, 'st_size'), self.D.fresh(64, 'st_mtime')
        e.assume(s, sz >= 0)
        k, e.kinds = e.kinds, set()
        e.cur = s
        e.store(s, Ptr(p.obj, path + e.field_path(st_t[1], K(e, 'OFF_ST_SIZE'))), I64, sz)
        e.store(s, Ptr(p.obj, path + e.field_path(st_t[1], K(e, 'OFF_ST_MTIME'))), I64, mt)
        e.kinds = k
        s.ghost['openok'] = z3.And(s.ghost['openok'], ok)
        s.ghost['mtime'] = mt
        return z3.If(ok, 0, -1)

    def time(self, e, s, ins, a, dem):
        t = self.D.fresh(64, 'now')
        e.assume(s, And(t >= 0, t < 1 << 40))
        s.ghost['now'] = t
        return t

    # ------------------------------------------------ lock
    def is_state_lock(self, p):
        return isinstance(p, Ptr) and p.obj is self.lg.lg and tuple(p.path[:len(self.lockpath)]) == self.lockpath

    def lock(self, e, s, a, what):
        if not self.is_state_lock(a[0]):
            return 0
        g = s.ghost
        if what == 'unlock':
            post(e, s, g['owned'] >= 1, 'only a held lock is released')
            g['owned'] = z3.simplify(g['owned'] - 1)
            return 0
        if what == 'lock':
            self.on_lock(e, s)
            g['owned'] = z3.simplify(g['owned'] + 1)
            return 0
        t = s.fork()
        g['owned'] = z3.simplify(g['owned'] + 1)
        t.ghost['busy'] = z3.BoolVal(True)
        return [(s, 0), (t, 16)]

    def on_lock(self, e, s):
        pass

    # ------------------------------------------------ objects
    def new(self, e, s, ins, a, dem):
        if not isc(a[0]):
            raise Unsupported('operator new of a variable size')
        for T, K_ in (('LexState', 'LEX_BYTES'), ('SHMLogger', 'SHM_BYTES')):
            if a[0] == K(e, K_):
                o = e.new_obj('new_' + T, ('st', e.struct_name(T)), 'arg')
                return Ptr(o)
        raise Unsupported('operator new of %s bytes' % a[0])

    def string_type(self):
        for n in self.eng.mod.types:
            if n.startswith('class.std::__cxx11::basic_string') and '::' not in n[len('class.std::__cxx11::basic_string'):]:
                return ('st', n)
        raise Unsupported('std::string')

    def lexobj(self, e, p):
        t = ('st', e.struct_name('LexState'))
        if isinstance(p, Ptr) and not p.path and p.obj.type == t:
            return p.obj
        if isinstance(p, Ptr) and e.type_at(p.obj, p.path) == t and not p.path:
            return p.obj
        raise Unsupported('parse result object')

    def src(self, o):
        """addressing of a parse result like the channels of a segment"""
        return Src(self, o)

    def parse(self, e, s, ins, a, dem):
        """ParseLogger: 0 with a well-formed result (C10), or an error with an arbitrary one"""
        o = self.lexobj(e, a[0])
        for k in [k for k in s.mem if k[0] == o.id]:
            del s.mem[k]
        if not hasattr(self, 'texto'):
            n = self.D.fresh(64, 'textlen')
            e.fact(z3.And(n >= 0, n < (1 << 31) - 1))
            self.D.setr(n, 0, (1 << 31) - 2)
            self.textn = n
            self.texto = e.new_obj('text', ('arr', n + 1, I8), 'arg')
        s.ghost['parsed'] = s.ghost['parsed'] + 1
        src = self.src(o)
        self.ls = src
        lg = self.lg
        c1, c2 = (self.D.fresh(64, x, 0, 1 << 40) for x in ('current', 'first'))
        e.assume(s, And(c1 >= 0, c1 <= self.textn))
        lg.put(s, src.f('current_'), Ptr(self.texto, (c1,)))
        lg.put(s, src.f('end_'), Ptr(self.texto, (self.textn,)))
        bad = s.fork()
        r = self.D.fresh(32, 'parse_error')
        e.assume(bad, r != 0)
        bad.ghost['parseok'] = z3.BoolVal(False)
        s.ghost['parseok'] = z3.BoolVal(True)
        src.wellformed(s)
        return [(s, 0), (bad, r)]


class Src:
    """the channels of a LexState, with the addressing of LG"""

    def __init__(self, w, o):
        self.w, self.o, self.eng, self.lg = w, o, w.eng, w.lg

    def f(self, name):
        return self.lg.scal(self.o, self.eng.field('LexState', name))

    def p_ch(self, c, f, *ix):
        lg, eng = self.lg, self.eng
        path = lg.arr(self.o, eng.field('LexState', 'channels_')) + (c,) + eng.field('Channel', f)
        for i in ix:
            path = lg.arr(self.o, path) + (i,)
        return lg.scal(self.o, path)

    def p_dev(self, c, d, f, *ix):
        lg, eng = self.lg, self.eng
        path = lg.arr(self.o, eng.field('LexState', 'channels_')) + (c,)
        path = lg.arr(self.o, path + eng.field('Channel', 'devices_')) + (d,) + eng.field('Device', f)
        for i in ix:
            path = lg.arr(self.o, path) + (i,)
        return lg.scal(self.o, path)

    def wellformed(self, s):
        w, e, lg, D = self.w, self.eng, self.lg, self.w.D
        n = D.lift(lg.get(s, self.f('channel_size_')))
        e.assume(s, And(n >= 0, n <= lg.NC))
        numbered(w, s, self, n)
        setk(s, e, self.p_ch(0, 'channel_state_'), lambda i: True, lambda i: z3.IntVal(K(e, 'CHANNEL_STATE_NULL')))
        for f, m in (('name_len_', K(e, 'LOGGER_NAME_LEN')), ('desc_len_', K(e, 'LOGGER_DESC_LEN'))):
            x = D.lift(lg.get(s, self.f(f)))
            e.assume(s, And(x >= 0, x < m))


def setk(s, e, pt, cond, val):
    key, _ = key_of(e, pt)
    old = s.mem.get(key)
    if old is None:
        old = e.leaf_init(key)
    s.mem[key] = ABlk(old, cond, val)


def numbered(w, s, src, n):
    """channels and devices carry their positions as identities; entries behind the last are zero"""
    e, lg, D = w.eng, w.lg, w.D

    sz = {}
    for c in range(lg.NC):
        sz[c] = D.lift(lg.get(s, src.p_ch(c, 'device_size_')))
        e.assume(s, And(sz[c] >= 0, sz[c] <= lg.ND, Implies(n <= c, sz[c] == 0)))
    sel = lambda c: sz[c] if isc(c) else _pick(sz, c)
    setk(s, e, src.p_ch(0, 'channel_id_'), lambda i: True, lambda i: i[0] if isc(i[0]) and False else z3.If(D.lift(i[0]) < n, D.lift(i[0]), z3.IntVal(0)))
    setk(s, e, src.p_dev(0, 0, 'device_id_'), lambda i: And(D.lift(i[1]) < sel(i[0])), lambda i: D.lift(i[1]))


def _pick(sz, c):
    r = sz[max(sz)]
    for k in sz:
        r = z3.If(c == k, sz[k], r)
    return r
