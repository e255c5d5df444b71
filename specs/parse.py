"""the configuration parser: the text under analysis and the parse result"""
from core import *
from houdini import Cut

PTRS = ('key_begin_', 'key_end_', 'val_begin_', 'val_end_')
RK = ['RK_NULL', 'RK_SHM_KEY', 'RK_CHANNEL', 'RK_DEFINE', 'RK_VARIABLE', 'RK_DEVICE', 'RK_SYNC', 'RK_DISABLE', 'RK_HOT_UPDATE', 'RK_LOGGER_NAME', 'PK_LOGGER_DESC', 'RK_PRIORITY',
      'RK_CATEGORY', 'RK_CATEGORY_EXTEND', 'RK_CATEGORY_WLIST', 'RK_CATEGORY_BLIST', 'RK_CATEGORY_WMASK', 'RK_CATEGORY_BMASK', 'RK_IDENTIFY', 'RK_IDENTIFY_EXTEND', 'RK_IDENTIFY_WLIST',
      'RK_IDENTIFY_BLIST', 'RK_IDENTIFY_WMASK', 'RK_IDENTIFY_BMASK', 'RK_IN_TYPE', 'RK_OUT_TYPE', 'RK_FILE', 'RK_PATH', 'RK_LIMIT_SIZE', 'RK_ROLLBACK', 'RK_ROLLDAILY', 'RK_ROLLHOURLY', 'RK_FILE_STUFF_UP', 'RK_UDP_ADDR']
MAXT = (1 << 31) - 8


class Parse:
    """an arbitrary text (NUL terminated, no other NUL) and an arbitrary parse result"""

    def __init__(self, ctx, tail=False):
        eng = self.eng = Engine(ctx.module('parse.cpp'), 'int', 'paths')
        D = self.D = eng.D
        libc(eng)
        st = self.st = State()
        n = self.n = D.fresh(64, 'text_length', 0, MAXT)
        eng.fact(z3.And(n >= 0, n <= MAXT))
        eng.watch['text_length'] = n
        self.len = n
        if tail:    # a std::string may go on behind its first NUL
            self.len = D.fresh(64, 'string_length', 0, MAXT)
            eng.fact(z3.And(n <= self.len, self.len <= MAXT))
            eng.watch['string_length'] = self.len
        self.text = eng.new_obj('text', ('arr', self.len + 1, I8), 'arg', init=self.bytes)
        self.ls = eng.new_obj('lex', ('st', eng.struct_name('LexState')), 'arg')
        self.NC, self.ND = K(eng, 'MAX_CHANNEL_SIZE'), K(eng, 'MAX_DEVICE_SIZE')
        self.names = {}

    def bytes(self, path, ty, nd):
        D, n = self.D, self.n

        def on_read(idx, v):
            i = idx[-1]
            self.eng.fact(z3.And(z3.Implies(z3.And(D.lift(i) >= 0, D.lift(i) < n), v != 0), z3.Implies(z3.Or(D.lift(i) == n, D.lift(i) == self.len), v == 0)))
        return self.eng.base('text', ty, nd, on_read)

    # ------------------------------------------------ addressing
    def arr(self, obj, path):
        while self.eng.rt(self.eng.type_at(obj, path))[0] != 'arr':
            path += (0,)
        return path

    def scal(self, obj, path):
        t = self.eng.rt(self.eng.type_at(obj, path))
        while isinstance(t, tuple) and t[0] in ('lst', 'arr', 'st') and not t[0] == 'st':
            path += (0,)
            t = self.eng.rt(self.eng.type_at(obj, path))
        return Ptr(obj, path), t

    def f(self, name, *ix):
        path = self.eng.field('LexState', name)
        for i in ix:
            path = self.arr(self.ls, path) + (i,)
        return self.scal(self.ls, path)

    def l(self, name):
        return self.scal(self.ls, self.eng.field('LexState', 'line_') + self.eng.field('Line', name))

    def get(self, s, pt):
        return ld(self.eng, s, pt[0], pt[1])

    def put(self, s, pt, v):
        k, self.eng.kinds = self.eng.kinds, set()
        self.eng.cur = s
        self.eng.store(s, pt[0], pt[1], v)
        self.eng.kinds = k

    def at(self, i):
        return Ptr(self.text, (i,))

    def off(self, p):
        """None for the null pointer, the offset of a pointer into the text"""
        if self.eng.is_null(p) is True:
            return None
        if isinstance(p, Ptr) and p.obj is self.text:
            return self.D.lift(p.path[-1]) if p.path else z3.IntVal(0)
        if isinstance(p, Ptr) and p.obj is NULL:
            return None
        raise Unsupported('pointer %s' % (p,))

    def offs(self, s):
        return {f: self.off(self.get(s, self.l(f))) for f in PTRS}

    def i(self, s, pt):
        return self.D.lift(self.get(s, pt))

    def cur(self, s):
        r = self.off(self.get(s, self.f('current_')))
        if r is None:
            raise Unsupported('no current position')
        return r

    def start(self, s, c):
        """current_ = text + c, end_ = the end of the text, first_ somewhere before"""
        fi = self.D.fresh(64, 'first', 0, 3)
        self.eng.assume(s, And(fi >= 0, fi <= self.n, fi <= c, c <= self.n))
        self.put(s, self.f('first_'), self.at(fi))
        self.put(s, self.f('current_'), self.at(c))
        self.put(s, self.f('end_'), self.at(self.n))

    # ------------------------------------------------ what a value text denotes
    def byte(self, s, i):
        return self.D.lift(at(self.eng, self.text, s, i))

    def first_in(self, s, vb, chars):
        x = self.byte(s, vb)
        return Or(*[x == ord(c) for c in chars])

    def vbool(self, s, vb, ve):
        return And(ve > vb, Not(self.first_in(s, vb, '0fF')))

    def pick(self, s, vb, ve, table, default):
        r = z3.IntVal(K(self.eng, default))
        for chars, name in table:
            r = z3.If(And(ve > vb, self.first_in(s, vb, chars)), z3.IntVal(K(self.eng, name)), r)
        return r

    def vprio(self, s, vb, ve):
        return self.pick(s, vb, ve, [('dD', 'PRIORITY_DEBUG'), ('iI', 'PRIORITY_INFO'), ('wW', 'PRIORITY_WARN'), ('eE', 'PRIORITY_ERROR'), ('aA', 'PRIORITY_ALARM'), ('fF', 'PRIORITY_FATAL')], 'PRIORITY_TRACE')

    def vin(self, s, vb, ve):
        return self.pick(s, vb, ve, [('uU', 'DEVICE_IN_UDP')], 'DEVICE_IN_NULL')

    def vout(self, s, vb, ve):
        return self.pick(s, vb, ve, [('eE', 'DEVICE_OUT_EMPTY'), ('fF', 'DEVICE_OUT_FILE'), ('uU', 'DEVICE_OUT_UDP'), ('sS', 'DEVICE_OUT_SCREEN'), ('vV', 'DEVICE_OUT_VIRTUAL')], 'DEVICE_OUT_NULL')

    def vch(self, s, vb, ve):
        return self.pick(s, vb, ve, [('s', 'CHANNEL_SYNC')], 'CHANNEL_ASYNC')

    # ------------------------------------------------ contracts
    def span(self, e, s, a, b):
        """a text range given to a callee"""
        x, y = self.off(a), self.off(b)
        if x is None or y is None:
            post(e, s, z3.BoolVal(False), 'a value is given to its converter')
            raise Unsupported('null range')
        post(e, s, And(0 <= x, x <= self.n, 0 <= y, y <= self.n), 'the converted range is inside the text')
        return x, y

    def scalars(self):
        """contracts of the converters (proved in their own units)"""
        e0, D = self.eng, self.D

        def conv(fn):
            def h(e, s, ins, a, dem):
                vb, ve = self.span(e, s, a[0], a[1])
                v = fn(s, vb, ve)
                if z3.is_int(v):
                    D.setr(v, 0, 255)
                return v
            return h
        e0.contracts['FNLog::ParseBool'] = conv(self.vbool)
        for f, fn in (('ParsePriority', self.vprio), ('ParseInType', self.vin), ('ParseOutType', self.vout), ('ParseChannelType', self.vch)):
            e0.contracts['FNLog::' + f] = conv(fn)

        def uf(name, lo, hi):
            def h(e, s, ins, a, dem):
                vb, ve = self.span(e, s, a[0], a[1])
                v = NUM[name](self.version(s), vb, ve)
                e.fact(And(lo <= v, v <= hi))
                D.setr(v, lo, hi)
                return v
            return h
        e0.contracts['FNLog::ParseBitArray'] = uf('bits', -(1 << 63), (1 << 63) - 1)
        e0.contracts['FNLog::ParseNumber'] = uf('number', -(1 << 63), (1 << 63) - 1)

        def addr(e, s, ins, a, dem):
            vb, ve = self.span(e, s, a[0], a[1])
            able = a[2] if isb(a[2]) or z3.is_bool(a[2]) else D.lift(a[2]) != 0
            for p, nm in ((a[3], 'ip'), (a[4], 'port')):
                v = ADDR[nm](self.version(s), vb, ve, z3.BoolVal(able) if isinstance(able, bool) else able)
                e.fact(And(0 <= v, v < (1 << 32)))
                D.setr(v, 0, (1 << 32) - 1)
                e.cur = s
                e.store(s, p, I64, v)
            return None
        e0.contracts['FNLog::ParseAddres'] = addr
        self.clib()

    def version(self, s):
        return s.ghost.get('text', z3.IntVal(0))

    def clib(self):
        e0, D = self.eng, self.D

        def num(name, bits):
            def h(e, s, ins, a, dem):
                x = self.off(a[0])
                if x is None:
                    post(e, s, z3.BoolVal(False), 'a number is read from the text')
                    return None
                post(e, s, And(0 <= x, x <= self.n), 'a number is read from inside the text')
                v = LIB[name](self.version(s), x)
                e.fact(And(-(1 << (bits - 1)) <= v, v < 1 << (bits - 1)))
                D.setr(v, -(1 << (bits - 1)), (1 << (bits - 1)) - 1)
                return v
            return h
        e0.models['atoi'] = num('atoi', 32)
        e0.models['atol'] = e0.models['atoll'] = num('atoll', 64)
        e0.models['strlen'] = self.strlen

    def strlen(self, e, s, ins, a, dem):
        if isinstance(a[0], Ptr) and a[0].obj is self.text:
            x = self.off(a[0])
            post(e, s, And(0 <= x, x <= self.n), 'the length of a text is asked')
            r = z3.simplify(self.n - x)
            self.D.setr(r, 0, MAXT)
            return r
        return strlen_model(e, s, ins, a, dem)

    def position(self, e, s, what):
        """precondition of everything that reads lines"""
        c, no, n = self.cur(s), self.i(s, self.f('line_no_')), self.n
        post(e, s, And(0 <= c, c <= n), '%s starts inside the text' % what)
        post(e, s, e.ptr_eq(self.get(s, self.f('end_')), self.at(n)), 'the end of the text is known')
        post(e, s, And(no >= 1, no <= c + 1), 'lines are counted')
        return c, no

    def lexed(self, e, s, ins, a, dem):
        """Lex (proved in its own unit)"""
        D, n = self.D, self.n
        if not (isinstance(a[0], Ptr) and a[0].obj is self.ls):
            raise Unsupported('Lex of another state')
        c, no = self.position(e, s, 'a line')
        out = []
        for f in ('chars_', 'block_type_'):
            self.put(s, self.l(f), D.fresh(32, f))
        self.put(s, self.l('block_stack_'), D.fresh(8, 'stack'))
        s.ghost['line0'] = c
        bad, end, blank = s.fork(), s.fork(), s.fork()
        for t in (s, blank):
            x = D.fresh(64, 'next', 0, MAXT)
            e.assume(t, And(c < n, c < x, x <= n))
            self.put(t, self.f('current_'), self.at(x))
            q = z3.simplify(no + 1)
            D.setr(q, 0, MAXT + 2)
            self.put(t, self.f('line_no_'), q)
        e.assume(end, c == n)
        x = D.fresh(64, 'next', 0, MAXT)
        e.assume(bad, And(c < n, c < x, x <= n + 1))
        self.put(bad, self.f('current_'), self.at(x))
        r = D.fresh(32, 'lex_error')
        e.assume(bad, r != 0)
        for t in (bad,):
            for f in PTRS:
                self.put(t, self.l(f), NULLP)
            self.put(t, self.l('key_'), D.fresh(32, 'key'))
        for t in (end, blank):
            for f in PTRS:
                self.put(t, self.l(f), NULLP)
            self.put(t, self.l('key_'), 0)
            t.ghost['line'] = Line(None)
            b = D.fresh(32, 'blank', 0, MAXT)
            self.put(t, self.l('blank_'), b)
        b, key = D.fresh(32, 'blank', 0, MAXT), D.fresh(32, 'key', 1, len(RK) - 1)
        e.assume(s, And(b >= 0, b <= n, key >= 1, key < len(RK)))
        self.put(s, self.l('blank_'), b)
        self.put(s, self.l('key_'), key)
        q = [D.fresh(64, f, 0, MAXT) for f in PTRS]
        e.assume(s, And(c <= q[0], q[0] < q[1], q[1] <= q[2], q[2] <= q[3], q[3] <= self.cur(s), q[3] <= n))
        for f, x in zip(PTRS, q):
            self.put(s, self.l(f), self.at(x))
        s.ghost['line'] = Line(key, b, q[2], q[3])
        out = [(s, 0), (blank, 0), (end, 0), (bad, r)]
        return [(t, v) for t, v in out if e.feasible(t)]


class Snap:
    """the state at the head of a loop"""

    def __init__(self, s):
        self.s = s

    def fresh(self, eng, name):
        return None


class Line:
    """the line Lex delivered last"""

    def __init__(self, key, blank=None, vb=None, ve=None):
        self.key, self.blank, self.vb, self.ve = key, blank, vb, ve

    def fresh(self, eng, name):
        return None     # no line is known at a loop head


ZI = z3.IntSort()
NUM = {k: z3.Function('value_' + k, ZI, ZI, ZI, ZI) for k in ('bits', 'number')}
ADDR = {k: z3.Function('address_' + k, ZI, ZI, ZI, z3.BoolSort(), ZI) for k in ('ip', 'port')}
LIB = {k: z3.Function('c_' + k, ZI, ZI, ZI) for k in ('atoi', 'atoll')}


def havoc_region(eng, st, p, keep=()):
    """every leaf below the pointer gets an arbitrary value, except the given leaf keys"""
    k, i, t = eng.pathkey(p.obj, p.path)
    for lp, lt in eng.leaves(t):
        key = (p.obj.id, k + lp)
        if key in keep:
            continue
        nd = key[1].count('*')
        new = eng.base('new', lt, nd)
        old = st.mem.get(key)
        if old is None:
            old = eng.leaf_init(key)
        if not nd:
            st.mem[key] = new if not isinstance(new, ABase) else new
        elif not i:
            st.mem[key] = new
        else:
            st.mem[key] = ABlk(old, lambda idx: eng.idx_eq(idx[:len(i)], i), lambda idx, new=new: eng.read(new, idx))


def under(eng, p):
    """frame exception: everything below the pointer may change"""
    k, i, t = eng.pathkey(p.obj, p.path)

    def f(key, idx):
        if key[0] != p.obj.id or key[1][:len(k)] != k:
            return False if idx is not None else None
        if idx is None:
            return True if not i else None
        return And([eng.D.eq(a, b) for a, b in zip(idx, i)])
    return f


class Lines(Parse):
    """a function that reads one settings line after the other"""
    OBJ = None      # the object that receives the settings

    def begin(self, decode):
        eng, st, D = self.eng, self.st, self.D
        self.decode = decode
        self.scalars()
        eng.contracts['FNLog::Lex'] = self.lexed
        self.c = D.fresh(64, 'start', 0, MAXT)
        self.indent = D.fresh(32, 'indent', 0, MAXT)
        eng.fact(z3.And(0 <= self.c, self.c <= self.n, 0 <= self.indent, self.indent <= self.n))
        eng.loop_policy = self.policy

    def positioned(self):
        st = self.st
        self.start(st, self.c)
        self.no = self.i(st, self.f('line_no_'))
        self.eng.assume(st, And(self.no >= 1, self.no <= self.c + 1))

    def extra(self, e, s):
        return []

    def heads(self, e, s):
        pass

    def policy(self, e, f, h, d):
        def havoc(e, s, entry):
            D = self.D
            x, no = D.fresh(64, 'cur', 0, MAXT), D.fresh(32, 'line_no', 0, MAXT)
            e.assume(s, And(self.c <= x, x <= self.n, 1 <= no, no <= x + 1))
            for nm in ('first_', 'end_'):
                self.put(s, self.f(nm), self.get(entry, self.f(nm)))
            self.put(s, self.f('current_'), self.at(x))
            self.put(s, self.f('line_no_'), no)
            for nm in PTRS:
                self.put(s, self.l(nm), e.base('was_' + nm, 'ptr', 0))
            self.heads(e, s)
            s.ghost['line'] = None
            s.ghost['cur0'] = x
            s.ghost['head'] = Snap(s.fork())

        def inv(e, s, entry):
            cur, no = self.cur(s), self.i(s, self.f('line_no_'))
            same = [e.ptr_eq(self.get(s, self.f(nm)), self.get(entry, self.f(nm))) for nm in ('first_', 'end_')]
            return [('the position stays inside the text', And(self.c <= cur, cur <= self.n)), ('lines are counted', And(1 <= no, no <= cur + 1)), ('the text stays the same', And(same))] + self.extra(e, s)

        def end(e, s):
            post(e, s, self.cur(s) > s.ghost['cur0'], 'every line consumes a part of the text')
            self.check(e, s)
        return ('cut', Cut(inv=inv, havoc=havoc, end=end, auto=False))

    def given(self, e, s, f):
        t = s.fork()
        e.assume(t, f)
        return t

    def lexkeys(self):
        """what reading lines writes"""
        return [key_of(self.eng, self.l(f))[0] for f in PTRS + ('blank_', 'chars_', 'block_type_', 'block_stack_', 'key_')] + [key_of(self.eng, self.f(f))[0] for f in ('current_', 'line_no_')]

    # ------------------------------------------------ decoding
    def masks(self, s, vb, ve, prefix, cfg, num):
        """the table of the filter settings: key -> (place, value)"""
        K_ = lambda n: K(self.eng, n)
        T = {}
        ll, no = LIB['atoll'](self.version(s), vb), LIB[num](self.version(s), vb)
        bits = NUM['bits'](self.version(s), vb, ve)
        for x in ('CATEGORY', 'IDENTIFY'):
            for k, f, v in (('', '', no), ('_EXTEND', '_EXTEND', no), ('_WLIST', '_MASK', bits), ('_BLIST', '_MASK', -1 - bits), ('_WMASK', '_MASK', ll), ('_BMASK', '_MASK', -1 - ll)):
                T['RK_' + x + k] = (cfg(K_(prefix + x + f)), v)
        T['RK_PRIORITY'] = (cfg(K_(prefix + 'PRIORITY')), self.vprio(s, vb, ve))
        return T

    def check(self, e, s):
        """what the line that was just handled did, against the state before it"""
        if not self.decode:
            return
        ln, h = s.ghost.get('line'), s.ghost.get('head')
        if ln is None or h is None:
            raise Unsupported('a turn without a line')
        h = h.s
        objs = self.targets()
        if ln.key is None:
            frame(e, s, h, objs, self.bookkeeping(), 'an empty line changes nothing')
            return
        if self.OUTER:
            if e.check(s.hyps(), ln.blank > self.indent, 2000) == 'unsat':
                pass
            else:
                t = self.given(e, s, ln.blank <= self.indent)
                post(e, t, self.cur(t) == t.ghost['line0'], 'a line of the outer block is left to the caller')
                frame(e, t, h, objs, self.bookkeeping(), 'a line of the outer block changes nothing')
                s = self.given(e, s, ln.blank > self.indent)
                if not e.feasible(s):
                    return
        hit = []
        for k, (pt, v) in self.table(e, s, h, ln).items():
            t = self.given(e, s, ln.key == K(e, k))
            hit.append(ln.key == K(e, k))
            if not e.feasible(t):
                continue
            got = self.get(t, pt)
            if z3.is_bool(v) and not (isb(got) or z3.is_bool(got)):
                got = self.D.lift(got) != 0
            post(e, t, Iff(got, v) if z3.is_bool(v) else self.D.lift(got) == v, '%s has the value its text denotes' % k[3:].lower())
            frame(e, t, h, objs, [only(e, pt)] + self.bookkeeping(), '%s affects only its own setting' % k[3:].lower())
        for k, fn in self.special().items():
            t = self.given(e, s, ln.key == K(e, k))
            hit.append(ln.key == K(e, k))
            if e.feasible(t):
                fn(e, t, h, ln, objs)
        post(e, s, Or(*hit), 'an unknown setting is refused')

    OUTER = True

    def bookkeeping(self):
        return []


class DeviceParse(Lines):
    """ParseDevice"""

    def __init__(self, ctx, decode):
        Lines.__init__(self, ctx)
        self.begin(decode)
        self.positioned()
        eng, st, D = self.eng, self.st, self.D
        self.dev = eng.new_obj('device', ('st', eng.struct_name('Device')), 'arg')
        self.lens = {'out_path_': K(eng, 'MAX_PATH_LEN'), 'out_file_': K(eng, 'MAX_LOGGER_NAME_LEN')}
        for f, m in self.lens.items():
            eng.assume(st, self.d(st, f, 0) == 0)
        for f in self.lens:
            st.ghost['at:' + f] = z3.IntVal(0)

    def targets(self):
        return (self.dev,)

    def p_d(self, f, *ix):
        path = self.eng.field('Device', f)
        for i in ix:
            path = self.arr(self.dev, path) + (i,)
        return self.scal(self.dev, path)

    def d(self, s, f, *ix):
        return self.D.lift(self.get(s, self.p_d(f, *ix)))

    def cfg(self, s, name):
        return self.d(s, 'config_fields_', K(self.eng, name) if isinstance(name, str) else name)

    def terminated(self, s):
        """names and paths end inside their fields"""
        r = []
        ln = s.ghost.get('line')
        for f, m in self.lens.items():
            c = [s.ghost['at:' + f], z3.IntVal(0)]
            if ln is not None and ln.key is not None:
                c.append(ln.ve - ln.vb)
            r.append(('%s ends inside its field' % f, Or(*[And(0 <= x, x < m, self.d(s, f, x) == 0) for x in c])))
        return r

    def extra(self, e, s):
        return self.terminated(s)

    def heads(self, e, s):
        for g, m in self.lens.items():
            w = self.D.fresh(64, 'end_of_' + g, 0, m - 1)
            s.ghost['at:' + g] = w
            e.assume(s, And(0 <= w, w < m, self.d(s, g, w) == 0))

    def table(self, e, s, h, ln):
        vb, ve = ln.vb, ln.ve
        K_ = lambda n: K(e, n)
        cfg = lambda i: self.p_d('config_fields_', i)
        T = self.masks(s, vb, ve, 'DEVICE_CFG_', cfg, 'atoll')
        for k, f in (('DISABLE', 'ABLE'), ('ROLLDAILY', 'FILE_ROLLDAILY'), ('ROLLHOURLY', 'FILE_ROLLHOURLY'), ('FILE_STUFF_UP', 'FILE_STUFF_UP')):
            v = self.vbool(s, vb, ve)
            T['RK_' + k] = (cfg(K_('DEVICE_CFG_' + f)), z3.If(v, 0 if k == 'DISABLE' else 1, 1 if k == 'DISABLE' else 0))
        ll = LIB['atoll'](self.version(s), vb)
        T['RK_ROLLBACK'] = (cfg(K_('DEVICE_CFG_FILE_ROLLBACK')), ll)
        lim = ((1 << 63) - 1) // 1000000
        T['RK_LIMIT_SIZE'] = (cfg(K_('DEVICE_CFG_FILE_LIMIT_SIZE')), z3.If(ll < 0, 0, z3.If(ll > lim, lim, ll)) * 1000000)
        T['RK_IN_TYPE'] = (self.p_d('in_type_'), self.vin(s, vb, ve))
        T['RK_OUT_TYPE'] = (self.p_d('out_type_'), self.vout(s, vb, ve))
        post(e, s, Implies(ln.key == K_('RK_OUT_TYPE'), self.d(s, 'out_type_') != K_('DEVICE_OUT_NULL')), 'an unknown output kind is refused')
        return T

    def special(self):
        def text(f, k):
            def h_(e, t, h, ln, objs):
                vb, ve = ln.vb, ln.ve
                n, m = ve - vb, self.lens[f]
                fits = And(n >= 1, n < m - 1)
                i = z3.Int('i_' + f)
                post(e, t, Implies(And(fits, 0 <= i, i < n), self.d(t, f, i) == self.byte(t, vb + i)), '%s is the text of its value' % k)
                post(e, t, Implies(fits, self.d(t, f, n) == 0), '%s ends where its value ends' % k)
                key = key_of(e, self.p_d(f, 0))[0]
                frame(e, t, h, objs, [lambda k2, idx: And(fits) if k2 == key and idx is not None else (None if idx is None else False)], '%s affects only its own setting (kept when it does not fit)' % k)
            return h_

        def addr(e, t, h, ln, objs):
            vb, ve = ln.vb, ln.ve
            able = self.cfg(h, 'DEVICE_CFG_ABLE') != 0
            for f, nm in (('UDP_IP', 'ip'), ('UDP_PORT', 'port')):
                post(e, t, self.cfg(t, 'DEVICE_CFG_' + f) == ADDR[nm](self.version(t), vb, ve, able), 'udp_addr has the %s its text denotes' % nm)
            post(e, t, Implies(able, And(self.cfg(t, 'DEVICE_CFG_UDP_PORT') != 0, Or(self.d(t, 'in_type_') != K(e, 'DEVICE_IN_NULL'), self.cfg(t, 'DEVICE_CFG_UDP_IP') != 0))), 'an enabled device without an address is refused')
            frame(e, t, h, objs, [only(e, self.p_d('config_fields_', K(e, 'DEVICE_CFG_UDP_IP')), self.p_d('config_fields_', K(e, 'DEVICE_CFG_UDP_PORT')))], 'udp_addr affects only its own settings')
        return {'RK_PATH': text('out_path_', 'path'), 'RK_FILE': text('out_file_', 'file'), 'RK_UDP_ADDR': addr}


def device(decode):
    def go(ctx):
        w = DeviceParse(ctx, decode)
        eng, st, D, n, c = w.eng, w.st, w.D, w.n, w.c
        st0 = st.fork()
        eng.covers.append(('entry', st.hyps()))
        okay = False
        for s, r in run(eng, 'FNLog::ParseDevice', [Ptr(w.ls), Ptr(w.dev), w.indent], st):
            cur, no = w.cur(s), w.i(s, w.f('line_no_'))
            good = s.fork()
            eng.assume(good, D.lift(r) == 0)
            if not decode:
                post(eng, s, And(0 <= cur, cur <= n, no >= 1), 'the position stays inside the text')
                for nm, fm in w.terminated(s):
                    post(eng, s, fm, nm)
                objs = w.lexkeys()
                frame(eng, s, st0, (w.ls, w.text), [lambda k, idx: True if k in objs else (None if idx is None else False)], 'neither the text nor the rest of the parse result is written')
                idk = key_of(eng, w.p_d('device_id_'))[0]
                frame(eng, s, st0, (w.dev,), [lambda k, idx: k != idk], 'the identity of the device is kept')
            if eng.feasible(good):
                okay = True
                if not decode:
                    post(eng, good, And(c <= cur, cur <= n, no <= cur + 1), 'the rest of the text is left to the caller')
                w.check(eng, good)
        if not okay:
            raise Unsupported('no successful path')
        if decode:
            eng.obls = [o for o in eng.obls if o.kind == 'user']
        return eng
    return go


class ChannelParse(Lines):
    """ParseChannel, against the contract of ParseDevice"""

    def __init__(self, ctx, decode):
        Lines.__init__(self, ctx)
        self.begin(decode)
        self.positioned()
        eng, st, D = self.eng, self.st, self.D
        self.ch = eng.new_obj('channel', ('st', eng.struct_name('Channel')), 'arg')
        self.lens = {'out_path_': K(eng, 'MAX_PATH_LEN'), 'out_file_': K(eng, 'MAX_LOGGER_NAME_LEN')}
        eng.contracts['FNLog::ParseDevice'] = self.dparsed
        self.ds = D.fresh(64, 'any_device', 0, self.ND - 1)
        eng.fact(z3.And(0 <= self.ds, self.ds < self.ND))
        eng.watch['any_device'] = self.ds
        for f in self.lens:
            st.ghost['at:' + f] = z3.IntVal(0)
        eng.assume(st, self.size(st) == 0)
        self.st0 = st.fork()

    def targets(self):
        return (self.ch,)

    def p_c(self, f, *ix):
        path = self.eng.field('Channel', f)
        for i in ix:
            path = self.arr(self.ch, path) + (i,)
        return self.scal(self.ch, path)

    def devp(self, d):
        return Ptr(self.ch, self.arr(self.ch, self.eng.field('Channel', 'devices_')) + (d,))

    def p_d(self, d, f, *ix):
        path = self.devp(d).path + self.eng.field('Device', f)
        for i in ix:
            path = self.arr(self.ch, path) + (i,)
        return self.scal(self.ch, path)

    def v(self, s, pt):
        return self.D.lift(self.get(s, pt))

    def size(self, s):
        return self.v(s, self.p_c('device_size_'))

    def devleaves(self, s):
        """the leaves of an arbitrary device behind the last, for the frame"""
        e = self.eng
        k, i, t = e.pathkey(self.ch, self.devp(self.ds).path)
        for lp, lt in e.leaves(t):
            key = (self.ch.id, k + lp)
            idx = list(i)
            tt = t
            for x in lp:
                r = e.rt(tt)
                if x == '*':
                    z = z3.Int('j%d' % len(idx))
                    idx.append(z)
                    tt = r[2]
                else:
                    tt = r[1][x]
            yield key, tuple(idx), lt

    def extra(self, e, s):
        n, ds = self.size(s), self.ds
        r = [('the number of devices stays in range', And(0 <= n, n <= self.ND)),
             ('devices carry their position', Implies(ds < n, self.v(s, self.p_d(ds, 'device_id_')) == ds))]
        for f, m in self.lens.items():
            c = [s.ghost['at:' + f]]
            if s.ghost.get('wit:' + f) is not None:
                c.append(s.ghost['wit:' + f])
            r.append(('%s ends inside its field' % f, Implies(ds < n, Or(*[And(0 <= x, x < m, self.v(s, self.p_d(ds, f, x)) == 0) for x in c]))))
        if not self.decode:
            for key, idx, lt in self.devleaves(s):
                a, b = (x.mem.get(key) if x.mem.get(key) is not None else e.leaf_init(key) for x in (s, self.st0))
                if a is not b:
                    r.append(('devices behind the last stay as they were', Implies(ds >= n, veq(e, e.read(a, idx), e.read(b, idx), lt))))
        return r

    def heads(self, e, s):
        for g, m in self.lens.items():
            w = self.D.fresh(64, 'end_of_' + g, 0, m - 1)
            s.ghost['at:' + g] = w
            e.assume(s, And(0 <= w, w < m))
            s.ghost['wit:' + g] = None
        s.ghost['device'] = None

    def dparsed(self, e, s, ins, a, dem):
        """ParseDevice (proved in its own unit)"""
        D, n = self.D, self.n
        if not (isinstance(a[0], Ptr) and a[0].obj is self.ls):
            raise Unsupported('ParseDevice of another state')
        p = a[1]
        want = self.devp(0).path
        if not (isinstance(p, Ptr) and p.obj is self.ch and len(p.path) >= len(want) and e.type_at(p.obj, p.path[:len(want)]) == ('st', e.struct_name('Device'))):
            raise Unsupported('device of ParseDevice')
        p = Ptr(p.obj, p.path[:len(want)])
        d = D.lift(p.path[-1])
        c, no = self.position(e, s, 'a device')
        post(e, s, And(0 <= D.lift(a[2]), D.lift(a[2]) <= n), 'the indentation of the block is given')
        post(e, s, D.lift(a[2]) == s.ghost['line'].blank, 'the block of a device is what is indented deeper than its line')
        for f in self.lens:
            post(e, s, self.v(s, self.p_d(d, f, 0)) == 0, 'a new device has no %s' % f)
        if self.decode:
            j = z3.Int('any_setting')
            for f, ix in (('config_fields_', (j,)), ('in_type_', ()), ('out_type_', ())):
                post(e, s, Implies(And(0 <= j, j < K(e, 'DEVICE_CFG_MAX_ID')), self.v(s, self.p_d(d, f, *ix)) == 0), 'a new device has the default settings')
        havoc_region(e, s, p, keep=[key_of(e, self.p_d(d, 'device_id_'))[0]])
        for f, m in self.lens.items():
            w = D.fresh(64, 'end_of_new_' + f, 0, m - 1)
            e.assume(s, And(0 <= w, w < m, self.v(s, self.p_d(d, f, w)) == 0))
            s.ghost['wit:' + f] = w
        s.ghost['device'] = d
        return self.moved(e, s, c, no)

    def moved(self, e, s, c, no):
        """the position after a block was read; success and failure"""
        D, n = self.D, self.n
        for f in ('chars_', 'block_type_', 'blank_', 'key_'):
            self.put(s, self.l(f), D.fresh(32, f))
        self.put(s, self.l('block_stack_'), D.fresh(8, 'stack'))
        for f in PTRS:
            self.put(s, self.l(f), e.base('was_' + f, 'ptr', 0))
        x, l = D.fresh(64, 'next', 0, MAXT), D.fresh(32, 'line_no', 0, MAXT + 2)
        e.assume(s, And(0 <= x, x <= n, l >= 1))
        self.put(s, self.f('current_'), self.at(x))
        self.put(s, self.f('line_no_'), l)
        bad = s.fork()
        e.assume(s, And(c <= x, l <= x + 1))
        r = D.fresh(32, 'block_error')
        e.assume(bad, r != 0)
        return [(s, 0), (bad, r)]

    def table(self, e, s, h, ln):
        cfg = lambda i: self.p_c('config_fields_', i)
        T = self.masks(s, ln.vb, ln.ve, 'CHANNEL_CFG_', cfg, 'atoi')
        T['RK_SYNC'] = (self.p_c('channel_type_'), self.vch(s, ln.vb, ln.ve))
        return T

    def special(self):
        def device(e, t, h, ln, objs):
            n0 = self.size(h)
            d = t.ghost.get('device')
            post(e, t, And(n0 < self.ND, self.size(t) == n0 + 1), 'a device is appended')
            post(e, t, LIB['atoi'](self.version(t), ln.vb) == n0, 'devices out of order are refused')
            if d is None:
                post(e, t, z3.BoolVal(False), 'the block of a device is read')
                return
            post(e, t, d == n0, 'the block of a device fills the device behind the last')
            post(e, t, self.v(t, self.p_d(n0, 'device_id_')) == n0, 'a device carries its position')
            old, new = self.v(h, self.p_c('virtual_device_id_')), self.v(t, self.p_c('virtual_device_id_'))
            post(e, t, new == z3.If(self.v(t, self.p_d(n0, 'out_type_')) == K(e, 'DEVICE_OUT_VIRTUAL'), n0, old), 'the last virtual device is known')
            frame(e, t, h, objs, [under(e, self.devp(n0)), only(e, self.p_c('device_size_')), only(e, self.p_c('virtual_device_id_'))], 'a device affects no other setting')
        return {'RK_DEVICE': device}


def channel(decode):
    def go(ctx):
        w = ChannelParse(ctx, decode)
        eng, st, D, n, c = w.eng, w.st, w.D, w.n, w.c
        st0 = st.fork()
        eng.covers.append(('entry', st.hyps()))
        okay = False
        for s, r in run(eng, 'FNLog::ParseChannel', [Ptr(w.ls), Ptr(w.ch), w.indent], st):
            cur, no = w.cur(s), w.i(s, w.f('line_no_'))
            good = s.fork()
            eng.assume(good, D.lift(r) == 0)
            if not decode:
                post(eng, s, And(0 <= cur, cur <= n, no >= 1), 'the position stays inside the text')
                for nm, fm in w.extra(eng, s):
                    post(eng, s, fm, nm)
                objs = w.lexkeys()
                frame(eng, s, st0, (w.ls, w.text), [lambda k, idx: True if k in objs else (None if idx is None else False)], 'neither the text nor the rest of the parse result is written')
                own = [key_of(eng, w.p_c(f, *ix))[0] for f, ix in (('config_fields_', (0,)), ('channel_type_', ()), ('virtual_device_id_', ()), ('device_size_', ()))]
                devs = eng.pathkey(w.ch, w.devp(0).path)[0]
                frame(eng, s, st0, (w.ch,), [lambda k, idx: k in own or k[1][:len(devs)] == devs], 'identity, state, file times and statistics of the channel are kept')
            if eng.feasible(good):
                okay = True
                if not decode:
                    post(eng, good, And(c <= cur, cur <= n, no <= cur + 1), 'the rest of the text is left to the caller')
                w.check(eng, good)
        if not okay:
            raise Unsupported('no successful path')
        if decode:
            eng.obls = [o for o in eng.obls if o.kind == 'user']
        return eng
    return go


class LoggerParse(Lines):
    """ParseLogger, against the contract of ParseChannel"""
    OUTER = False

    def __init__(self, ctx, decode):
        Lines.__init__(self, ctx, True)
        self.begin(decode)
        eng, st, D = self.eng, self.st, self.D
        self.c = z3.IntVal(0)
        st.ghost['text'] = z3.IntVal(0)
        self.string()
        eng.contracts['FNLog::ParseChannel'] = self.cparsed
        for f in ('PredefinedMacro', 'PredefinedVar'):
            eng.contracts['FNLog::' + f] = self.replaced
        eng.contracts['FNLog::ParseString'] = self.pstring
        self.lens = {'out_path_': K(eng, 'MAX_PATH_LEN'), 'out_file_': K(eng, 'MAX_LOGGER_NAME_LEN')}
        self.texts = {'name_': K(eng, 'LOGGER_NAME_LEN'), 'desc_': K(eng, 'LOGGER_DESC_LEN')}
        self.cs, self.ds, self.js = D.fresh(64, 'any_channel', 0, self.NC - 1), D.fresh(64, 'any_device', 0, self.ND - 1), D.fresh(64, 'any_byte', 0, MAXT)
        eng.fact(z3.And(0 <= self.cs, self.cs < self.NC, 0 <= self.ds, self.ds < self.ND, 0 <= self.js))
        for k in ('cs', 'ds'):
            eng.watch['any_' + k] = getattr(self, k)
        for f in self.lens:
            st.ghost['at:' + f] = z3.IntVal(0)

    def string(self):
        eng = self.eng
        S = 'std::__cxx11::basic_string'
        t = [n for n in eng.mod.types if n.startswith('class.std::__cxx11::basic_string') and '::' not in n[len('class.std::__cxx11::basic_string'):]]
        if not t:
            raise Unsupported('std::string')
        self.str = eng.new_obj('string', ('st', t[0]), 'arg')

        def model(e, s, ins, a, dem):
            m = dem[len(S):].split('>::', 1)[-1]
            nme = m.split('(')[0].split('[abi')[0].split('<')[0]
            if not (a and isinstance(a[0], Ptr) and a[0].obj is self.str):
                return NotImplemented
            if nme in ('size', 'length'):
                return self.len
            if nme in ('c_str', 'data', 'begin'):
                return self.at(0)
            if nme == 'empty':
                return self.len == 0
            if nme.startswith('operator[]') or nme == 'at':
                i = self.D.lift(a[1])
                post(e, s, And(0 <= i, i <= self.len), 'the text is indexed inside its length')
                return self.at(a[1])
            raise Unsupported('text is used by ' + nme)
        eng.prefix_models.insert(0, (S, model))

    def targets(self):
        return (self.ls,)

    def bookkeeping(self):
        ks = self.lexkeys()
        return [lambda k, idx: True if k in ks else (None if idx is None else False)]

    # ------------------------------------------------ addressing
    def chp(self, c):
        return Ptr(self.ls, self.arr(self.ls, self.eng.field('LexState', 'channels_')) + (c,))

    def sub(self, base, f, ix, T):
        path = base.path + self.eng.field(T, f)
        for i in ix:
            path = self.arr(self.ls, path) + (i,)
        return self.scal(self.ls, path)

    def p_ch(self, c, f, *ix):
        return self.sub(self.chp(c), f, ix, 'Channel')

    def devp(self, c, d):
        b = self.chp(c)
        return Ptr(self.ls, self.arr(self.ls, b.path + self.eng.field('Channel', 'devices_')) + (d,))

    def p_dv(self, c, d, f, *ix):
        return self.sub(self.devp(c, d), f, ix, 'Device')

    def v(self, s, pt):
        return self.D.lift(self.get(s, pt))

    def size(self, s):
        return self.v(s, self.f('channel_size_'))

    def dsize(self, s, c):
        return self.v(s, self.p_ch(c, 'device_size_'))

    def leaves(self, p):
        """every leaf below the pointer, with arbitrary further indices"""
        e = self.eng
        k, i, t = e.pathkey(p.obj, p.path)
        for lp, lt in e.leaves(t):
            key, idx, tt = (p.obj.id, k + lp), list(i), t
            for x in lp:
                r = e.rt(tt)
                if x == '*':
                    idx.append(z3.Int('j%d' % len(idx)))
                    tt = r[2]
                else:
                    tt = r[1][x]
            yield key, tuple(idx), lt

    def leaf(self, s, key, idx):
        e = self.eng
        a = s.mem.get(key)
        if a is None:
            a = e.leaf_init(key)
        return e.read(a, idx) if idx else a

    # ------------------------------------------------ invariant
    def extra(self, e, s):
        n, cs, ds, D = self.size(s), self.cs, self.ds, self.D
        m = self.dsize(s, cs)
        r = [('the number of channels stays in range', And(0 <= n, n <= self.NC)),
             ('channels carry their position', self.v(s, self.p_ch(cs, 'channel_id_')) == z3.If(cs < n, cs, 0)),
             ('no channel has started', self.v(s, self.p_ch(cs, 'channel_state_')) == K(e, 'CHANNEL_STATE_NULL')),
             ('the number of devices stays in range', And(0 <= m, m <= self.ND)),
             ('devices carry their position', Implies(ds < m, self.v(s, self.p_dv(cs, ds, 'device_id_')) == ds))]
        for f, x in self.lens.items():
            c = [s.ghost['at:' + f]]
            if s.ghost.get('wit:' + f) is not None:
                c.append(s.ghost['wit:' + f])
            r.append(('%s ends inside its field' % f, Implies(ds < m, Or(*[And(0 <= y, y < x, self.v(s, self.p_dv(cs, ds, f, y)) == 0) for y in c]))))
        for f, x in self.texts.items():
            ln = self.v(s, self.f(f + 'len_'))
            r.append(('%s fits its field' % f, And(0 <= ln, ln < x)))
            r.append(('%s is terminated' % f, Implies(ln > 0, self.v(s, self.f(f, ln)) == 0)))
        tx = s.mem.get((self.text.id, ('*',)))
        if tx is not None:
            b, j = D.lift(e.read(tx, (self.js,))), self.js
            r.append(('the text keeps its end', And(Implies(j < self.n, b != 0), Implies(Or(j == self.n, j == self.len), b == 0))))
        if not self.decode:
            keep = [self.eng.pathkey(self.ls, self.p_ch(0, f, *ix)[0].path)[0] for f, ix in (('config_fields_', (0,)), ('channel_type_', ()), ('virtual_device_id_', ()), ('device_size_', ()), ('channel_id_', ()))]
            devs = self.eng.pathkey(self.ls, self.devp(0, 0).path)[0]
            for key, idx, lt in self.leaves(self.chp(cs)):
                z = self.leaf(s, key, idx)
                zero = e.is_null(z) if lt == 'ptr' else veq(e, z, 0, lt)
                own = key[1] in keep or key[1][:len(devs)] == devs
                r.append(('channels behind the last are empty' if own else 'state, file times and statistics of a channel are empty', Implies(cs >= n, zero) if own else zero))
        return r

    def heads(self, e, s):
        for g, m in self.lens.items():
            w = self.D.fresh(64, 'end_of_' + g, 0, m - 1)
            s.ghost['at:' + g] = w
            e.assume(s, And(0 <= w, w < m))
            s.ghost['wit:' + g] = None
        s.ghost['channel'] = None
        key = (self.text.id, ('*',))
        if key in s.mem:
            s.mem[key] = self.bytes(('*',), I8, 1)

    # ------------------------------------------------ contracts
    def replaced(self, e, s, ins, a, dem):
        """PredefinedMacro, PredefinedVar (proved in their own units): bytes behind the line are replaced, none becomes or stops being NUL"""
        if not (isinstance(a[0], Ptr) and a[0].obj is self.ls and isinstance(a[1], Ptr) and a[1].obj is self.str):
            raise Unsupported('replacement in another text')
        ln = s.ghost.get('line')
        q = {f: self.off(self.get(s, self.l(f))) for f in ('val_begin_', 'val_end_')}
        if None in q.values() or ln is None:
            post(e, s, z3.BoolVal(False), 'a definition has a value')
            return None
        post(e, s, And(0 <= q['val_begin_'], q['val_begin_'] <= q['val_end_'], q['val_end_'] <= self.n), 'a definition is inside the text')
        old = s.mem.get((self.text.id, ('*',)))
        if old is None:
            old = e.leaf_init((self.text.id, ('*',)))
        new = self.bytes(('*',), I8, 1)
        ve = q['val_end_']
        s.mem[(self.text.id, ('*',))] = ABlk(old, lambda idx: And(self.D.lift(idx[-1]) >= ve, self.D.lift(idx[-1]) < self.len), lambda idx: e.read(new, idx))
        s.ghost['text'] = z3.Int(e.nm('text_version'))
        bad = s.fork()
        r = self.D.fresh(32, 'define_error')
        e.assume(bad, r != 0)
        return [(s, 0), (bad, r)]

    def pstring(self, e, s, ins, a, dem):
        """ParseString (proved in its own unit)"""
        D = self.D
        vb, ve = self.span(e, s, a[0], a[1])
        room = a[3]
        e.cur = s
        none, some = s.fork(), s.fork()
        e.assume(none, ve <= vb)
        e.assume(some, ve > vb)
        out = []
        if e.feasible(none):
            e.cur = none
            e.store(none, a[4], I32, 0)
            out.append((none, False))
        if e.feasible(some):
            e.cur = some
            post(e, some, D.lift(room) >= 1, 'there is room for a terminator')
            w = z3.If(ve - vb < D.lift(room) - 1, ve - vb, D.lift(room) - 1)
            D.setr(w, 0, MAXT)
            cd = e.charptr(a[2])
            if cd is None:
                raise Unsupported('destination of a string')
            e.span_ok(cd, w + 1, some)
            key, didx, _ = e._ck(cd)
            old = some.mem.get(key)
            if old is None:
                old = e.leaf_init(key)
            snap = some.fork()
            some.mem[key] = ABlk(old, lambda idx: And(e.idx_eq(idx[:-1], didx[:-1]), e.in_range(idx[-1], didx[-1], w + 1)),
                                 lambda idx: z3.If(D.lift(idx[-1]) - D.lift(didx[-1]) == w, z3.IntVal(0), self.byte(snap, vb + D.lift(idx[-1]) - D.lift(didx[-1]))))
            e.store(some, a[4], I32, w)
            out.append((some, True))
        return out

    def cparsed(self, e, s, ins, a, dem):
        """ParseChannel (proved in its own unit)"""
        D, n = self.D, self.n
        if not (isinstance(a[0], Ptr) and a[0].obj is self.ls):
            raise Unsupported('ParseChannel of another state')
        p = a[1]
        want = self.chp(0).path
        if not (isinstance(p, Ptr) and p.obj is self.ls and len(p.path) >= len(want) and e.type_at(p.obj, p.path[:len(want)]) == ('st', e.struct_name('Channel')) and p.path[:len(want) - 1] == want[:-1]):
            raise Unsupported('channel of ParseChannel')
        p = Ptr(p.obj, p.path[:len(want)])
        k = D.lift(p.path[-1])
        c, no = self.position(e, s, 'a channel')
        post(e, s, And(0 <= D.lift(a[2]), D.lift(a[2]) <= n), 'the indentation of the block is given')
        post(e, s, D.lift(a[2]) == s.ghost['line'].blank, 'the block of a channel is what is indented deeper than its line')
        post(e, s, self.dsize(s, k) == 0, 'a new channel has no device')
        if self.decode:
            j = z3.Int('any_setting')
            for f, ix in (('config_fields_', (j,)), ('channel_type_', ()), ('virtual_device_id_', ())):
                post(e, s, Implies(And(0 <= j, j < K(e, 'CHANNEL_CFG_MAX_ID')), self.v(s, self.p_ch(k, f, *ix)) == 0), 'a new channel has the default settings')
        s0 = s.fork()
        own = [e.pathkey(self.ls, self.p_ch(0, f, *ix)[0].path)[0] for f, ix in (('config_fields_', (0,)), ('channel_type_', ()), ('virtual_device_id_', ()), ('device_size_', ()))]
        devs = e.pathkey(self.ls, self.devp(0, 0).path)[0]
        havoc_region(e, s, p, keep=[key for key, idx, lt in self.leaves(p) if not (key[1] in own or key[1][:len(devs)] == devs)])
        m, ds = self.dsize(s, k), self.ds
        e.assume(s, And(0 <= m, m <= self.ND, Implies(ds < m, self.v(s, self.p_dv(k, ds, 'device_id_')) == ds)))
        for f, x in self.lens.items():
            w = D.fresh(64, 'end_of_new_' + f, 0, x - 1)
            e.assume(s, And(0 <= w, w < x, Implies(ds < m, self.v(s, self.p_dv(k, ds, f, w)) == 0)))
            s.ghost['wit:' + f] = w
        if not self.decode:
            for key, idx, lt in self.leaves(self.devp(k, ds)):
                e.assume(s, Implies(ds >= m, veq(e, self.leaf(s, key, idx), self.leaf(s0, key, idx), lt)))
        s.ghost['channel'] = k
        return self.moved(e, s, c, no)

    moved = ChannelParse.moved

    # ------------------------------------------------ decoding
    def table(self, e, s, h, ln):
        return {'RK_HOT_UPDATE': (self.f('hot_update_'), self.vbool(s, ln.vb, ln.ve)),
                'RK_SHM_KEY': (self.f('shm_key_'), NUM['number'](self.version(s), ln.vb, ln.ve))}

    def special(self):
        def text(f):
            def h_(e, t, h, ln, objs):
                n, m = ln.ve - ln.vb, self.texts[f]
                w = z3.If(n < m - 1, n, m - 1)
                i = z3.Int('i_' + f)
                post(e, t, self.v(t, self.f(f + 'len_')) == z3.If(n > 0, w, 0), 'the length of %s is that of its value, cut to its field' % f)
                post(e, t, Implies(And(n > 0, 0 <= i, i < w), self.v(t, self.f(f, i)) == self.byte(t, ln.vb + i)), '%s is the text of its value' % f)
                post(e, t, Implies(n > 0, self.v(t, self.f(f, w)) == 0), '%s ends where its value ends' % f)
                frame(e, t, h, objs, [under(e, Ptr(self.ls, self.eng.field('LexState', f))), only(e, self.f(f + 'len_'))] + self.bookkeeping(), '%s affects only its own setting' % f)
            return h_

        def define(e, t, h, ln, objs):
            frame(e, t, h, objs, self.bookkeeping(), 'a definition changes no setting')
            frame(e, t, h, (self.text,), [lambda k, idx: None if idx is None else self.D.lift(idx[-1]) >= ln.ve], 'a definition changes only the text behind it')

        def channel(e, t, h, ln, objs):
            n0 = self.size(h)
            k = t.ghost.get('channel')
            post(e, t, And(n0 < self.NC, self.size(t) == n0 + 1), 'a channel is appended')
            post(e, t, LIB['atoi'](h.ghost['text'], ln.vb) == n0, 'channels out of order are refused')
            if k is None:
                post(e, t, z3.BoolVal(False), 'the block of a channel is read')
                return
            post(e, t, k == n0, 'the block of a channel fills the channel behind the last')
            post(e, t, self.v(t, self.p_ch(n0, 'channel_id_')) == n0, 'a channel carries its position')
            frame(e, t, h, objs, [under(e, self.chp(n0)), only(e, self.f('channel_size_'))] + self.bookkeeping(), 'a channel affects no other setting')
        return {'RK_LOGGER_NAME': text('name_'), 'PK_LOGGER_DESC': text('desc_'), 'RK_DEFINE': define, 'RK_VARIABLE': define, 'RK_CHANNEL': channel}


def logger(decode):
    def go(ctx):
        w = LoggerParse(ctx, decode)
        eng, st, D, n = w.eng, w.st, w.D, w.n
        eng.covers.append(('entry', st.hyps()))
        okay = False
        for s, r in run(eng, 'FNLog::ParseLogger', [Ptr(w.ls), Ptr(w.str)], st):
            cur, no = w.cur(s), w.i(s, w.f('line_no_'))
            good = s.fork()
            eng.assume(good, D.lift(r) == 0)
            if not decode:
                post(eng, s, And(0 <= cur, cur <= n, no >= 1), 'the position stays inside the text')
                for nm, fm in w.extra(eng, s):
                    post(eng, s, fm, nm)
            if eng.feasible(good):
                okay = True
                if not decode:
                    post(eng, good, eng.ptr_eq(w.get(good, w.f('end_')), w.at(n)), 'the end of the text is known')
                w.check(eng, good)
        if not okay:
            raise Unsupported('no successful path')
        if decode:
            eng.obls = [o for o in eng.obls if o.kind == 'user']
        return eng
    return go


# ------------------------------------------------------------------ converters
def converter(name, value):
    """ParseBool, ParsePriority, ...: the value of an arbitrary range of the text"""
    def go(ctx):
        w = Parse(ctx)
        eng, st, D, n = w.eng, w.st, w.D, w.n
        vb, ve = D.fresh(64, 'begin', 0, MAXT), D.fresh(64, 'end', 0, MAXT)
        eng.fact(z3.And(0 <= vb, vb <= n, 0 <= ve, ve <= n))
        eng.watch['begin'], eng.watch['end'] = vb, ve
        st0 = st.fork()
        for s, r in run(eng, 'FNLog::' + name, [w.at(vb), w.at(ve)], st):
            v = value(w)(s, vb, ve)
            if z3.is_bool(v):
                post(eng, s, Iff(r if isb(r) or z3.is_bool(r) else D.lift(r) != 0, v), 'the value is what the text denotes')
            else:
                post(eng, s, D.lift(r) == v, 'the value is what the text denotes')
            frame(eng, s, st0, (w.text,), [], 'the text is only read')
        return eng
    return go


CONVERTERS = [('ParseBool', lambda w: w.vbool), ('ParsePriority', lambda w: w.vprio), ('ParseInType', lambda w: w.vin), ('ParseOutType', lambda w: w.vout), ('ParseChannelType', lambda w: w.vch)]


def number(ctx):
    """ParseNumber: what strtoll makes of exactly the characters of the value"""
    w = Parse(ctx)
    eng, st, D, n = w.eng, w.st, w.D, w.n
    vb, ve, j = D.fresh(64, 'begin', 0, MAXT), D.fresh(64, 'end', 0, MAXT), D.fresh(64, 'any_char', 0, MAXT)
    eng.fact(z3.And(0 <= vb, vb <= n, 0 <= ve, ve <= n, 0 <= j, j <= MAXT))
    eng.watch['begin'], eng.watch['end'] = vb, ve
    st.ghost['calls'] = z3.IntVal(0)
    st.ghost['result'] = z3.IntVal(0)

    def strtoll(e, s, ins, a, dem):
        m = ve - vb
        cd = e.charptr(a[0])
        if cd is None or not isc(cd.path[-1]):
            raise Unsupported('buffer of strtoll')
        b = lambda i: D.lift(ld(e, s, Ptr(cd.obj, cd.path[:-1] + (cd.path[-1] + i,)), I8))
        post(e, s, And(m >= 1), 'an empty value is no number')
        ln = e.rt(e.type_at(cd.obj, cd.path[:-1]))[1]
        if isc(ln):
            post(e, s, m < ln, 'the characters of the value fit the buffer')
        post(e, s, Implies(j < m, b(j) == w.byte(s, vb + j)), 'the characters of the value are converted')
        post(e, s, b(m) == 0, 'the converted text ends where the value ends')
        post(e, s, e.is_null(a[1]), 'nothing is stored beside')
        post(e, s, D.lift(a[2]) == 0, 'the base follows from the prefix of the text')
        r = D.fresh(64, 'strtoll')
        s.ghost['calls'] = z3.simplify(s.ghost['calls'] + 1)
        s.ghost['result'] = r
        return r
    for f in ('strtoll', '__isoc23_strtoll'):
        eng.models[f] = strtoll
    for s, r in run(eng, 'FNLog::ParseNumber', [w.at(vb), w.at(ve)], st):
        m = ve - vb
        post(eng, s, Iff(And(m >= 1, m <= 40), s.ghost['calls'] == 1), 'a value of up to 40 characters is converted')
        post(eng, s, D.lift(r) == s.ghost['result'], 'the value is what the text denotes')
    return eng


def string(ctx):
    """ParseString: the value, cut to the room"""
    w = Parse(ctx)
    eng, st, D, n = w.eng, w.st, w.D, w.n
    vb, ve, room, j = (D.fresh(64, x, 0, MAXT) for x in ('begin', 'end', 'room', 'any_char'))
    room = D.fresh(32, 'room', 1, 1 << 20)
    eng.fact(z3.And(0 <= vb, vb <= n, 0 <= ve, ve <= n, 0 <= j, j <= MAXT, 1 <= room, room <= 1 << 20))
    for k, x in (('begin', vb), ('end', ve), ('room', room)):
        eng.watch[k] = x
    buf = eng.new_obj('buffer', ('arr', room, I8), 'arg')
    out = eng.new_obj('length', I32, 'arg')
    st0 = st.fork()
    for s, r in run(eng, 'FNLog::ParseString', [w.at(vb), w.at(ve), Ptr(buf, (0,)), room, Ptr(out)], st):
        m = ve - vb
        k = z3.If(m < room - 1, m, room - 1)
        ln = D.lift(ld(eng, s, Ptr(out), I32))
        okay = r if isb(r) or z3.is_bool(r) else D.lift(r) != 0
        post(eng, s, Iff(okay, m >= 1), 'an empty value is refused')
        post(eng, s, ln == z3.If(m >= 1, k, 0), 'the length is that of the value, cut to the room')
        post(eng, s, Implies(And(m >= 1, j < k), D.lift(at(eng, buf, s, j)) == w.byte(s, vb + j)), 'the characters are those of the value')
        post(eng, s, Implies(m >= 1, D.lift(at(eng, buf, s, k)) == 0), 'the text is terminated')
        frame(eng, s, st0, (buf,), [lambda kk, idx: None if idx is None else And(m >= 1, D.lift(idx[-1]) <= k)], 'nothing behind the text is written')
        frame(eng, s, st0, (w.text,), [], 'the text is only read')
    return eng


# ------------------------------------------------------------------ definitions: texts replaced inside the text
SL = MAXT + 1000
NPOS = (1 << 64) - 1


class Strings(Parse):
    """std::string values as lengths of texts without NUL; the text under analysis is a std::string itself"""
    S = 'std::__cxx11::basic_string'

    def __init__(self, ctx):
        Parse.__init__(self, ctx, True)
        eng, D = self.eng, self.D
        t = [n for n in eng.mod.types if n.startswith('class.std::__cxx11::basic_string') and '::' not in n[len('class.std::__cxx11::basic_string'):]]
        if not t:
            raise Unsupported('std::string')
        self.strtype = ('st', t[0])
        self.str = eng.new_obj('string', self.strtype, 'arg')
        eng.prefix_models.insert(0, (self.S, self.member))
        eng.prefix_models.insert(0, ('std::operator+', self.plus))
        eng.prefix_models.append(('std::allocator', lambda *x: None))
        self.js = D.fresh(64, 'any_byte', 0, MAXT)
        eng.fact(0 <= self.js)
        self.clib()
        self.st.ghost['found'] = z3.IntVal(-1)
        self.origin = {}

    def key(self, p):
        if not (isinstance(p, Ptr) and p.obj.kind != 'opaque' and p.obj.const is None):
            raise Unsupported('string object')
        return 'sl:%d' % p.obj.id

    def ln(self, s, p):
        if isinstance(p, Ptr) and p.obj is self.str:
            return self.len
        v = s.ghost.get(self.key(p))
        if v is None:
            raise Unsupported('a string that was not made')
        if not isc(v):
            self.D.setr(v, 0, SL)
        return v

    def setln(self, e, s, p, v):
        if isinstance(p, Ptr) and p.obj is self.str:
            raise Unsupported('the text is assigned')
        v = z3.simplify(self.D.lift(v))
        if not z3.is_int_value(v):
            self.D.setr(v, 0, SL)
        s.ghost[self.key(p)] = v

    def given_string(self, st, name, lo=0):
        o = self.eng.new_obj(name, self.strtype, 'arg')
        v = self.D.fresh(64, name + '_length', lo, MAXT)
        self.eng.fact(z3.And(lo <= v, v <= MAXT))
        self.eng.watch[name + '_length'] = v
        st.ghost['sl:%d' % o.id] = v
        return o, v

    def letters(self, n, path, ty, nd):
        D = self.D

        def on_read(idx, v):
            i = D.lift(idx[-1])
            self.eng.fact(z3.And(z3.Implies(z3.And(i >= 0, i < n), v != 0), z3.Implies(i == n, v == 0)))
        return self.eng.base('letters', ty, nd, on_read)

    def member(self, e, s, ins, a, dem):
        D = self.D
        m = dem[len(self.S):]
        depth = 0
        for i, ch in enumerate(m):
            depth += {'<': 1, '>': -1}.get(ch, 0)
            if depth == 0:
                m = m[i + 1:]
                break
        sig = m.split('(', 1)[1] if '(' in m else ''
        nme = m[2:].split('(')[0].split('[abi')[0].split('<')[0].strip()
        if m.startswith('::operator+='):
            nme = 'operator+='
        elif m.startswith('::operator='):
            nme = 'operator='
        elif m.startswith('::operator[]'):
            nme = 'operator[]'
        mine = isinstance(a[0], Ptr) and a[0].obj is self.str
        if nme == 'basic_string':
            if len(a) == 1:
                self.setln(e, s, a[0], 0)
            elif 'initializer_list' in sig:
                raise Unsupported('string constructor')
            elif len(a) > 2 and not ('allocator' in sig.split(',')[1] if ',' in sig else False):
                # (text, count, allocator)
                x = self.off(a[1])
                c = D.lift(a[2])
                if x is None:
                    raise Unsupported('string constructor')
                post(e, s, And(0 <= x, 0 <= c, x + c <= self.n), 'a string is made of a part of the text')
                self.setln(e, s, a[0], c)
                s.ghost['so:%d' % a[0].obj.id] = Snap((x, c))
            else:
                self.setln(e, s, a[0], self.length(e, s, a[1]))
            return None
        if nme.startswith('~'):
            return None
        if nme == 'substr':
            n, i, c = D.lift(self.ln(s, a[1])), D.lift(a[2]), a[3]
            post(e, s, And(0 <= i, i <= n), 'a part of a string starts inside it')
            if isc(c) and c in (-1, NPOS):
                self.setln(e, s, a[0], n - i)
            else:
                c = D.lift(c)
                self.setln(e, s, a[0], z3.If(Or(c > n - i, c < 0), n - i, c))
            return None
        n = self.ln(s, a[0])
        N = D.lift(n)
        if nme in ('length', 'size'):
            return n
        if nme == 'empty':
            return N == 0
        if nme == 'c_str' or nme == 'data':
            if mine:
                return self.at(0)
            o = e.new_obj('chars', ('arr', N + 1, I8), 'arg', init=lambda path, ty, nd: self.letters(N, path, ty, nd))
            src = s.ghost.get('so:%d' % a[0].obj.id)
            if src is not None:
                self.origin[o.id] = src.s
            return Ptr(o, (0,))
        if nme in ('operator[]', 'at'):
            i = D.lift(a[1])
            post(e, s, And(0 <= i, (i < N) if nme == 'at' else (i <= N)), 'a string is indexed inside its length')
            if mine:
                return self.at(a[1])
            o = e.new_obj('chars', ('arr', N + 1, I8), 'arg', init=lambda path, ty, nd: self.letters(N, path, ty, nd))
            return Ptr(o, (a[1],))
        if nme == 'back':
            post(e, s, N > 0, 'only a string with characters has a last one')
            o = e.new_obj('char', I8, 'arg')
            return Ptr(o)
        if nme == 'pop_back':
            post(e, s, N > 0, 'only a string with characters has a last one')
            self.setln(e, s, a[0], N - 1)
            return None
        if nme == 'push_back':
            post(e, s, N + 1 <= SL, 'strings stay bounded')
            self.setln(e, s, a[0], N + 1)
            return None
        if nme == 'find':
            if mine:
                return self.search(e, s, a)
            t = s.fork()
            r = D.fresh(64, 'position', 0, SL)
            off = D.lift(a[2])
            e.assume(s, And(off <= r, r < N))
            return [x for x in ((s, r), (t, -1 if not e.D.name == 'bv' else NPOS)) if e.feasible(x[0])]
        if nme == 'operator=':
            self.setln(e, s, a[0], self.length(e, s, a[1]))
            return a[0]
        if nme in ('operator+=', 'append') and len(a) == 2 and 'char const*' in sig or nme == 'operator+=' and 'basic_string' in sig:
            v = D.lift(n) + D.lift(self.length(e, s, a[1]))
            post(e, s, v <= SL, 'strings stay bounded')
            self.setln(e, s, a[0], v)
            return a[0]
        raise Unsupported('string member ' + nme)

    def length(self, e, s, p):
        if isinstance(p, Ptr) and p.obj.const is not None:
            return strlen_model(e, s, None, [p], '')
        return self.ln(s, p)

    def plus(self, e, s, ins, a, dem):
        v = self.D.lift(self.length(e, s, a[1])) + self.D.lift(self.length(e, s, a[2]))
        post(e, s, v <= SL, 'strings stay bounded')
        self.setln(e, s, a[0], v)
        return None

    def search(self, e, s, a):
        """text.find(key, offset)"""
        D = self.D
        kl, off = D.lift(self.ln(s, a[1])), D.lift(a[2])
        post(e, s, off > s.ghost['found'], 'the search goes on behind the last place')
        post(e, s, kl >= 1, 'an empty name is not searched for')
        t = s.fork()
        p = D.fresh(64, 'place', 0, MAXT)
        e.assume(s, And(off <= p, p + kl <= self.len))
        # the name has no NUL, so neither has the place
        e.assume(s, Not(And(p <= self.n, self.n < p + kl)))
        s.ghost['found'] = p
        return [x for x in ((s, p), (t, -1)) if e.feasible(x[0])]

    def tbytes(self, s):
        tx = s.mem.get((self.text.id, ('*',)))
        return tx if tx is not None else self.eng.leaf_init((self.text.id, ('*',)))

    def textok(self, s, st0, lo):
        """only bytes from lo on change, none becomes or stops being NUL"""
        D, j = self.D, self.js
        b, b0 = D.lift(self.eng.read(self.tbytes(s), (j,))), D.lift(self.eng.read(self.tbytes(st0), (j,)))
        return [('the text keeps its end', And(Implies(j < self.n, b != 0), Implies(Or(j == self.n, j == self.len), b == 0))),
                ('the text before stays', Implies(j < lo, b == b0)), ('nothing behind the text changes', Implies(j >= self.len, b == b0))]

    def measures(self, f, h, s):
        D = self.D
        r = {i.res: D.lift(s.env[i.res]) for i in f.blocks[h] if i.op == 'phi' and i.a['t'] == I64 and i.res in s.env and (isc(s.env[i.res]) or z3.is_int(s.env[i.res]))}
        r.update({g: D.lift(v) for g, v in s.ghost.items() if g.startswith('sl:') and v is not None})
        return r

    def policy(self, st0, lo):
        left = {}

        def pol(e, f, h, d):
            def havoc(e, s, entry):
                key = (self.text.id, ('*',))
                if key in s.mem:
                    s.mem[key] = self.bytes(('*',), I8, 1)
                for g, v in s.ghost.items():
                    if g.startswith('sl:') and z3.is_expr(v):
                        e.assume(s, And(0 <= v, v <= SL))
                if z3.is_expr(s.ghost['found']):
                    e.assume(s, s.ghost['found'] >= -1)
                s.ghost['measures:%s' % h] = Snap(self.measures(f, h, s))
                left[(f.name, h)] = None

            def end(e, s):
                """one measure moves in the same direction on every way around the loop"""
                m0, m1 = s.ghost['measures:%s' % h].s, self.measures(f, h, s)
                ok = set()
                for k in m0:
                    if k in m1:
                        for nm, fm in ((k + ' grows', m1[k] > m0[k]), (k + ' shrinks', m1[k] < m0[k])):
                            if e.check(s.hyps(), B(fm), 2000) == 'unsat':
                                ok.add(nm)
                old = left.get((f.name, h))
                left[(f.name, h)] = ok if old is None else ok & old
                post(e, s, z3.BoolVal(bool(left[(f.name, h)])), 'the loop comes to an end')

            def inv(e, s, entry):
                return self.textok(s, st0, lo) + [('strings stay bounded', And([And(0 <= self.D.lift(v), self.D.lift(v) <= SL) for g, v in s.ghost.items() if g.startswith('sl:') and v is not None]))]

            def cands(e, s, entry):
                D = self.D
                ph = [(i.res, D.lift(s.env[i.res])) for i in f.blocks[h] if i.op == 'phi' and i.a['t'] == I64 and i.res in s.env and (isc(s.env[i.res]) or z3.is_int(s.env[i.res]))]
                r = [('%s moves on' % n, v > s.ghost['found']) for n, v in ph]
                sl = sorted((g, D.lift(v)) for g, v in s.ghost.items() if g.startswith('sl:') and v is not None)
                for n, v in ph:
                    r += [('%s <= %s' % (n, g), And(0 <= v, v <= x)) for g, x in sl] + [('%s <= length' % n, And(lo <= v, v <= self.len))]
                    r += [('%s <= %s + 1' % (n, g), And(0 <= v, v <= x + 1)) for g, x in sl]
                for g, x in sl:
                    r += [('%s <= %s' % (g, g2), x <= y) for g2, y in sl if g != g2]
                    if entry.ghost.get(g) is not None:
                        r += [('%s <= before' % g, x <= D.lift(entry.ghost[g])), ('%s >= 1' % g, x >= 1)]
                return r
            return ('cut', Cut(inv=inv, cands=cands, havoc=havoc, end=end))
        return pol


def inplace(ctx):
    """PredefinedInplace"""
    w = Strings(ctx)
    eng, st, D = w.eng, w.st, w.D
    key, kl = w.given_string(st, 'name', 1)
    val, vl = w.given_string(st, 'value')
    off = D.fresh(64, 'offset', 0, MAXT)
    eng.fact(z3.And(0 <= off, off <= w.len))
    eng.watch['offset'] = off
    st0 = st.fork()
    b1, b2 = z3.Bool('pre_bound'), z3.Bool('suffix_bound')
    eng.loop_policy = w.policy(st0, off)
    for s, r in run(eng, 'FNLog::PredefinedInplace', [Ptr(w.str), off, Ptr(key), Ptr(val), b1, b2], st):
        for nm, fm in w.textok(s, st0, off):
            post(eng, s, fm, nm)
        post(eng, s, Implies(vl > kl, D.lift(r) != 0), 'a value that is longer than its name is refused')
        post(eng, s, Implies(vl <= kl, D.lift(r) == 0), 'a value that fits is used')
    return eng


class Define(Strings):
    """PredefinedMacro, PredefinedVar, against the contract of PredefinedInplace"""

    def __init__(self, ctx):
        Strings.__init__(self, ctx)
        eng, st, D = self.eng, self.st, self.D
        self.vb, self.ve = D.fresh(64, 'val_begin', 0, MAXT), D.fresh(64, 'val_end', 0, MAXT)
        eng.fact(z3.And(0 <= self.vb, self.vb <= self.ve, self.ve <= self.n))
        self.put(st, self.l('val_begin_'), self.at(self.vb))
        self.put(st, self.l('val_end_'), self.at(self.ve))
        eng.contracts['FNLog::PredefinedInplace'] = self.inplaced

    def inplaced(self, e, s, ins, a, dem):
        D = self.D
        if not (isinstance(a[0], Ptr) and a[0].obj is self.str):
            raise Unsupported('replacement in another text')
        off = D.lift(a[1])
        post(e, s, And(0 <= off, off <= self.len), 'replacing starts inside the text')
        post(e, s, off >= self.ve, 'a definition changes only the text behind it')
        post(e, s, D.lift(self.ln(s, a[2])) >= 1, 'an empty name is not replaced')
        self.ln(s, a[3])
        old, new = self.tbytes(s), self.bytes(('*',), I8, 1)
        s.mem[(self.text.id, ('*',))] = ABlk(old, lambda idx: And(D.lift(idx[-1]) >= off, D.lift(idx[-1]) < self.len), lambda idx: e.read(new, idx))
        bad = s.fork()
        r = D.fresh(32, 'replace_error')
        e.assume(bad, r != 0)
        return [(s, 0), (bad, r)]


def define(name):
    def go(ctx):
        w = Define(ctx)
        eng, st, D = w.eng, w.st, w.D
        st0 = st.fork()
        eng.loop_policy = w.policy(st0, w.ve)
        for s, r in run(eng, 'FNLog::' + name, [Ptr(w.ls), Ptr(w.str)], st):
            for nm, fm in w.textok(s, st0, w.ve):
                post(eng, s, fm, nm)
            frame(eng, s, st0, (w.ls,), [], 'no setting changes')
        return eng
    return go


# ------------------------------------------------------------------ addresses
INET = z3.Function('inet_addr', ZI, ZI, ZI)
PORT = z3.Function('port_number', ZI, ZI, ZI)
HTONS = z3.Function('htons', ZI, ZI)


class Address(Strings):
    """ParseAddres (with ParseAddresIP inlined).  dotted: the value has no other characters than digits, dots, blanks and colons"""

    def __init__(self, ctx, dotted):
        self.dotted = dotted
        Strings.__init__(self, ctx)
        eng, st, D = self.eng, self.st, self.D
        self.vb, self.ve = D.fresh(64, 'val_begin', 0, MAXT), D.fresh(64, 'val_end', 0, MAXT)
        eng.fact(z3.And(0 <= self.vb, self.vb <= self.n, 0 <= self.ve, self.ve <= self.n))
        eng.watch['val_begin'], eng.watch['val_end'] = self.vb, self.ve
        for k in ('ip', 'port'):
            st.ghost[k] = Snap(None)
        self.memcpy0 = eng.memcpy
        eng.memcpy = self.memcpy
        eng.models['inet_addr'] = self.inet
        eng.models['htons'] = lambda e, s, ins, a, dem: self.ranged(HTONS(D.lift(a[0])), 16)
        eng.models['atoi'] = self.atoi
        eng.models['gethostbyname'] = self.host
        eng.models['inet_ntoa'] = lambda e, s, ins, a, dem: Ptr(e.new_obj('dotted', ('arr', 16, I8), 'arg'), (0,))
        eng.loop_policy = self.pol

    def ranged(self, v, w):
        self.eng.fact(And(-(1 << (w - 1)) <= v, v < 1 << (w - 1)))
        self.D.setr(v, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return v

    def cls(self, x, chars):
        return Or(*[x == ord(c) for c in chars])

    def bytes(self, path, ty, nd):
        if not self.dotted or not hasattr(self, 'vb'):
            return Parse.bytes(self, path, ty, nd)
        D = self.D

        def on_read(idx, v):
            i = D.lift(idx[-1])
            self.eng.fact(z3.And(z3.Implies(z3.And(i >= 0, i < self.n), v != 0), z3.Implies(z3.Or(i == self.n, i == self.len), v == 0)))
            self.eng.fact(z3.Implies(z3.And(i >= self.vb, i < self.ve), z3.Or(self.cls(v, '. :\t'), z3.And(v >= 48, v <= 57))))
        return self.eng.base('text', ty, nd, on_read)

    def inet(self, e, s, ins, a, dem):
        src = self.origin.get(a[0].obj.id) if isinstance(a[0], Ptr) else None
        if src is None:
            return None
        x, c = src
        s.ghost['ip'] = Snap((x, x + c))
        return self.ranged(INET(x, x + c), 32)

    def atoi(self, e, s, ins, a, dem):
        cd = e.charptr(a[0])
        if cd is None or not isc(cd.path[-1]):
            raise Unsupported('buffer of atoi')
        D = self.D
        b = lambda i: D.lift(ld(e, s, Ptr(cd.obj, cd.path[:-1] + (cd.path[-1] + i,)), I8))
        src = s.ghost.get('cp:%d' % cd.obj.id)
        if src is None or src.s is None:
            raise Unsupported('text of the port')
        x, m = src.s
        post(e, s, And(x + m == self.ve), 'the port reaches to the end of the value')
        post(e, s, b(m) == 0, 'the text of the port is terminated')
        post(e, s, Implies(And(0 <= self.js, self.js < m), b(self.js) == self.byte(s, x + self.js)), 'the text of the port is converted')
        s.ghost['port'] = Snap(x)
        return self.ranged(PORT(x, self.ve), 32)

    def memcpy(self, st, d, s, n):
        x = self.off(s) if isinstance(s, Ptr) and s.obj is self.text else None
        self.memcpy0(st, d, s, n)
        if isinstance(d, Ptr) and d.obj is not self.text and d.obj.kind != 'opaque':
            st.ghost['cp:%d' % d.obj.id] = Snap(None if x is None else (x, self.D.lift(n)))

    def host(self, e, s, ins, a, dem):
        o = e.new_obj('hostent', ('st', e.struct_name('hostent')), 'arg')
        lst, ad = e.new_obj('addresses', ('arr', 2, 'ptr'), 'arg'), e.new_obj('address', ('arr', 4, I8), 'arg')
        D = self.D
        none, empty = s.fork(), s.fork()
        for t in (s, empty):
            e.cur = t
            e.store(t, Ptr(o, e.field('hostent', 'h_addrtype')), I32, D.fresh(32, 'h_addrtype'))
            e.store(t, Ptr(o, e.field('hostent', 'h_addr_list')), 'ptr', Ptr(lst, (0,)))
            e.store(t, Ptr(lst, (0,)), 'ptr', Ptr(ad, (0,)) if t is s else NULLP)
            e.store(t, Ptr(lst, (1,)), 'ptr', NULLP)
        return [(s, Ptr(o)), (empty, Ptr(o)), (none, NULLP)]

    def pol(self, e, f, h, d):
        D = self.D
        ptrs = [i.res for i in f.blocks[h] if i.op == 'phi' and i.a['t'] == 'ptr']

        def offs(s):
            r = {}
            for p in ptrs:
                v = s.env.get(p)
                if isinstance(v, Ptr) and v.obj is self.text:
                    r[p] = self.off(v)
            for k, v in s.mem.items():
                if isinstance(v, Ptr) and v.obj is self.text and '*' not in k[1] and k[0] in e.objs and k[0] != self.ls.id:
                    r['%s%s' % (e.objs[k[0]].name, k[0])] = self.off(v)
            return r

        def cands(e, s, entry):
            o, o0, j = offs(s), offs(entry), self.js
            r = []
            for p in o:
                if p not in o0:
                    continue
                a, b = o0[p], o[p]
                r += [('%s stays inside' % p, And(a <= b, b <= self.ve)), ('%s inside the text' % p, And(0 <= b, b <= self.n))]
                x = self.byte(s, j)
                dig = And(x >= 48, x <= 57)
                blank = self.cls(x, ' \t\v\f')
                for nm, q in (('blank', blank), ('no blank or colon', And(Not(blank), x != ord(':'))), ('no port digit', Not(And(x >= 49, x <= 57)))):
                    r.append(('%s: %s' % (p, nm), Implies(And(a <= j, j < b), q)))
            for i in f.blocks[h]:
                if i.op == 'phi' and i.a['t'] in (('i', 1), I8) and i.res in s.env and i.res in entry.env:
                    a, b = s.env[i.res], entry.env[i.res]
                    r.append(('%s unchanged' % i.res, Iff(a, b) if i.a['t'] == ('i', 1) else D.lift(a) == D.lift(b)))
            return r

        def havoc(e, s, entry):
            s.ghost['measures:%s' % h] = Snap(offs(s))

        def end(e, s):
            m0, m1 = s.ghost['measures:%s' % h].s, offs(s)
            post(e, s, Or(*[m1[p] > m0[p] for p in m0 if p in m1]), 'the loop comes to an end')
        return ('cut', Cut(cands=cands, havoc=havoc, end=end))


def address(dotted):
    def go(ctx):
        w = Address(ctx, dotted)
        eng, st, D, vb, ve, j = w.eng, w.st, w.D, w.vb, w.ve, w.js
        ip, port = eng.new_obj('ip', I64, 'arg'), eng.new_obj('port', I64, 'arg')
        able = z3.Bool('resolve_names')
        st0 = st.fork()
        seen = 0
        eng.covers += [('an address', st.hyps() + [ve - vb >= 9]), ('a character of the value', st.hyps() + [vb < j, j < ve, w.byte(st, j) == ord(':')])]
        for s, r in run(eng, 'FNLog::ParseAddres', [w.at(vb), w.at(ve), able, Ptr(ip), Ptr(port)], st):
            frame(eng, s, st0, (w.text,), [], 'the text is only read')
            vi, vp = (D.lift(ld(eng, s, Ptr(o), I64)) for o in (ip, port))
            post(eng, s, And(0 <= vi, vi < 1 << 32, 0 <= vp, vp < 1 << 16), 'address and port are in range')
            if not dotted:
                continue
            x = w.byte(s, j)
            blank = w.cls(x, ' \t\v\f')
            qi, qp = s.ghost['ip'].s, s.ghost['port'].s
            if qp is None:
                post(eng, s, And(vi == 0, vp == 0), 'without a port there is no address')
                if qi is not None:
                    post(eng, s, Or(ve - qi[1] >= 40, Implies(And(qi[1] <= j, j < ve), Not(And(x >= 49, x <= 57)))), 'only a port that is missing is not used')
                continue
            seen += 1
            a, b = qi if qi is not None else (None, None)
            un = lambda v, k: z3.If(v < 0, v + (1 << k), v)
            if qi is None:
                post(eng, s, vi == 0, 'no address but a port')
            else:
                post(eng, s, vi == un(INET(a, b), 32), 'the address is what its text denotes')
                post(eng, s, And(vb <= a, a <= b, b <= ve), 'the address is part of the value')
                post(eng, s, Implies(And(vb <= j, j < a), blank), 'the address starts behind the leading blanks')
                post(eng, s, Implies(And(a <= j, j < b), And(Not(blank), x != ord(':'))), 'the address has no blank and no colon')
                post(eng, s, Implies(And(b < ve, j == b), Or(blank, x == ord(':'))), 'the address ends at a blank or a colon')
                post(eng, s, b > a, 'an address is not empty')
                lo = b
                post(eng, s, And(lo <= qp, qp < ve), 'the port is behind the address')
                post(eng, s, Implies(And(lo <= j, j < qp), Not(And(x >= 49, x <= 57))), 'the port starts at the first digit behind the address')
            post(eng, s, Implies(j == qp, And(x >= 49, x <= 57)), 'the port starts with a digit')
            post(eng, s, vp == un(HTONS(un16(PORT(qp, ve))), 16), 'the port is what its text denotes, in network order')
        if dotted and not seen:
            raise Unsupported('no address')
        return eng
    return go


def un16(v):
    m = v % 65536
    return z3.If(m >= 32768, m - 65536, m)


# ------------------------------------------------------------------ bit lists
class Bits:
    """ParseBitArray over an arbitrary range of an arbitrary text; one round of its outer loop is related to the numbers it read.
    Words are looked at through one arbitrary bit k of theirs."""

    def __init__(self, ctx):
        eng = self.eng = Engine(ctx.module('parse.cpp'), 'int', 'paths')
        D = self.D = eng.D
        self.st = State()
        self.n, self.vb, self.ve, self.j = (D.fresh(64, x, 0, MAXT) for x in ('text_length', 'val_begin', 'val_end', 'any_byte'))
        self.k = D.fresh(64, 'any_bit', 0, 63)
        eng.fact(z3.And(0 <= self.n, self.n <= MAXT, 0 <= self.vb, self.vb <= self.n, 0 <= self.ve, self.ve <= self.n, 0 <= self.j, self.j <= MAXT, 0 <= self.k, self.k < 64))
        for k, v in (('val_begin', self.vb), ('val_end', self.ve)):
            eng.watch[k] = v
        self.text = eng.new_obj('text', ('arr', self.n + 1, I8), 'arg', init=self.bytes)
        self.V = z3.Function('number_at', ZI, ZI)
        self.HAS = z3.Function('bit_k_of', ZI, z3.BoolSort())
        self.st.ghost['numbers'] = Snap(())
        self.st.ghost['round'] = Snap(None)
        for f in ('atoll', 'atoi', 'atol'):
            eng.models[f] = self.number
        for op, h in (('or_', Or), ('and_', And), ('xor', lambda x, y: x != y)):
            setattr(D, op, self.bitop(op, getattr(D, op), h))
        self.shl0, self.lshr0 = D.shl, D.lshr
        D.shl, D.lshr = self.shl, self.lshr
        eng.loop_policy = self.policy

    def has(self, w):
        """bit k of a word"""
        if isc(w):
            w &= (1 << 64) - 1
            if w == (1 << 64) - 1:
                return z3.BoolVal(True)
            return Or(*([z3.BoolVal(False)] + [self.k == i for i in range(64) if w >> i & 1]))
        w = z3.simplify(w)
        if z3.is_int_value(w):
            return self.has(w.as_long())
        if z3.is_app(w) and w.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(w.arg(0), self.has(w.arg(1)), self.has(w.arg(2)))
        return self.HAS(w)

    def bitop(self, op, old, h):
        U = z3.Function('word_' + op, ZI, ZI, ZI)

        def go(w, a, b):
            if w != 64 or isc(a) and isc(b) or op == 'or_' and (isc(a) and a == 0 or isc(b) and b == 0):
                return old(w, a, b)
            r = U(self.D.lift(a), self.D.lift(b))
            self.eng.fact(self.HAS(r) == h(self.has(a), self.has(b)))
            return self.D.setr(r, -(1 << 63), (1 << 63) - 1)
        return go

    def shl(self, w, a, b, fl=()):
        if w != 64 or isc(b):
            return self.shl0(w, a, b, fl)
        if not (isc(a) and a in (1, -1)):
            raise Unsupported('shift of a word')
        self.eng.oblige('shift', z3.And(b >= 0, b < w), 'shift amount out of range')
        r = z3.Function('word_shl_%d' % (a & 1 if a > 0 else 2), ZI, ZI)(b)
        self.eng.fact(z3.Implies(z3.And(b >= 0, b < 64), self.HAS(r) == ((self.k == b) if a == 1 else (self.k >= b))))
        return self.D.setr(r, -(1 << 63), (1 << 63) - 1)

    def lshr(self, w, a, b):
        if w != 64 or isc(b):
            return self.lshr0(w, a, b)
        if not (isc(a) and a == -1):
            raise Unsupported('shift of a word')
        self.eng.oblige('shift', z3.And(b >= 0, b < w), 'shift amount out of range')
        r = z3.Function('word_lshr', ZI, ZI)(b)
        self.eng.fact(z3.Implies(z3.And(b >= 0, b < 64), self.HAS(r) == (self.k < 64 - b)))
        return self.D.setr(r, -(1 << 63), (1 << 63) - 1)

    def bytes(self, path, ty, nd):
        def on_read(idx, v):
            i = self.D.lift(idx[-1])
            self.eng.fact(z3.And(z3.Implies(z3.And(i >= 0, i < self.n), v != 0), z3.Implies(i == self.n, v == 0)))
        return self.eng.base('text', ty, nd, on_read)

    def byte(self, s, i):
        return self.D.lift(at(self.eng, self.text, s, i))

    def digit(self, x):
        return And(x >= 48, x <= 57)

    def blank(self, x):
        return Or(*[x == c for c in (9, 11, 12, 32)])

    def value(self, p):
        v = self.V(p)
        self.eng.fact(z3.And(v >= 0, v < 1 << 63))
        return self.D.setr(v, 0, (1 << 63) - 1)

    def number(self, e, s, ins, a, dem):
        if not (isinstance(a[0], Ptr) and a[0].obj is self.text):
            raise Unsupported('the text of a number')
        p = self.D.lift(a[0].path[-1])
        post(e, s, And(self.vb <= p, p < self.ve, self.digit(self.byte(s, p))), 'a number is read where digits start')
        s.ghost['numbers'] = Snap(s.ghost['numbers'].s + (p,))
        v = self.value(p)
        w = {'atoi': 32}.get(ins.a['callee'][1] if ins is not None else '', 64)
        return v if w == 64 else self.D.trunc(32, v, 64)

    def ptrs(self, e, f, h, s, mem=True):
        r = {}
        for i in f.blocks[h]:
            if i.op == 'phi' and i.a['t'] == 'ptr':
                v = s.env.get(i.res)
                if isinstance(v, Ptr) and v.obj is self.text:
                    r[i.res] = self.D.lift(v.path[-1])
        if not mem:
            return r
        for k, v in s.mem.items():
            if isinstance(v, Ptr) and v.obj is self.text and '*' not in k[1] and k[0] in e.objs:
                r['%s%s' % (e.objs[k[0]].name, k[0])] = self.D.lift(v.path[-1])
        return r

    def words(self, e, f, h, s, mem=True):
        """64 bit variables at a loop head"""
        r = {}
        for i in f.blocks[h]:
            if i.op == 'phi' and i.a['t'] == I64 and i.res in s.env:
                r[i.res] = self.D.lift(s.env[i.res])
        if not mem:
            return r
        for k, v in s.mem.items():
            if '*' not in k[1] and k[0] in e.objs and e.objs[k[0]].kind == 'local' and e.leaf_type(k) == I64 and v is not None and not isinstance(v, Ptr):
                r['%s%s' % (e.objs[k[0]].name, k[0])] = self.D.lift(v)
        return r

    def policy(self, e, f, h, d):
        D = self.D
        outer = any(h2 != h and h2 in f.loops[h] for h2 in f.loops)

        def cands(e, s, entry):
            o, o0, w, w0, j = self.ptrs(e, f, h, s), self.ptrs(e, f, h, entry), self.words(e, f, h, s), self.words(e, f, h, entry), self.j
            r = []
            for p in o:
                if p in o0:
                    a, b = o0[p], o[p]
                    r += [('%s stays inside' % p, And(a <= b, b <= self.ve)), ('%s inside the text' % p, And(self.vb <= b, b <= self.n))]
                    for j in (() if outer else (self.j, self.j + 1)):
                        x = self.byte(s, j)
                        for nm, q in (('no digit', Not(self.digit(x))), ('digit or blank', Or(self.digit(x), self.blank(x))), ('digits', self.digit(x)), ('no digit, no comma', And(Not(self.digit(x)), x != ord(','))), ('no digit, no comma, not the first', Implies(j > a, And(Not(self.digit(x)), x != ord(','))))):
                            r.append(('%s: %s at %s' % (p, nm, 'j' if j is self.j else 'j + 1'), Implies(And(a <= j, j < b), q)))
            if not outer and len(s.ghost['numbers'].s) == 2:
                u, v = (self.value(p) for p in s.ghost['numbers'].s)
                lo, hi = z3.If(u <= v, u, v), z3.If(u <= v, v, u)
                for p in w:
                    if p not in w0:
                        continue
                    r += [('%s >= low' % p, w[p] >= lo), ('%s <= high + 1' % p, Or(w[p] == w0[p], And(w[p] <= 64, w[p] - 1 <= hi)))]
                    for q in w:
                        if q != p and q in w0:
                            r.append(('%s has the bits below %s' % (q, p), self.has(w[q]) == Or(self.has(w0[q]), And(w0[p] <= self.k, self.k < w[p]))))
            return r

        def havoc(e, s, entry):
            if outer:
                s.ghost['numbers'] = Snap(())
                s.ghost['round'] = Snap((self.ptrs(e, f, h, s, False), self.words(e, f, h, s, False)))
            s.ghost['measures:%s' % h] = Snap((self.ptrs(e, f, h, s), self.words(e, f, h, s)))

        def end(e, s):
            (p0, w0), p1, w1 = s.ghost['measures:%s' % h].s, self.ptrs(e, f, h, s), self.words(e, f, h, s)
            up = [p1[p] > p0[p] for p in p0 if p in p1]
            if not outer:
                up += [And(w1[p] > w0[p], w1[p] <= 64) for p in w0 if p in w1]
            post(e, s, Or(*up), 'the loop comes to an end')
            if outer:
                self.round(e, s, self.ptrs(e, f, h, s, False), self.words(e, f, h, s, False), False)
        return ('cut', Cut(cands=cands, havoc=havoc, end=end))

    def between(self, u, v):
        return Or(And(u <= self.k, self.k <= v), And(v <= self.k, self.k <= u))

    def round(self, e, s, p1, w1, over):
        """what one round of the outer loop read is what it added"""
        j, ve = self.j, self.ve
        p0, w0 = s.ghost['round'].s
        nums = s.ghost['numbers'].s
        x = lambda i: self.byte(s, i)
        if over is False:
            ps, ws = [p for p in p0 if p in p1], [p for p in w0 if p in w1]
            if len(ps) != 1 or len(ws) != 1:
                raise Unsupported('variables of the bit list loop')
            o, o1, b, b1 = p0[ps[0]], p1[ps[0]], w0[ws[0]], w1[ws[0]]
        else:
            if len(p0) != 1 or len(w0) != 1:
                raise Unsupported('variables of the bit list loop')
            o, o1, b, b1 = list(p0.values())[0], ve, list(w0.values())[0], over
        within = lambda a, c: And(a <= j, j < c)
        nodigit = lambda a, c, what: post(e, s, Implies(within(a, c), Not(self.digit(x(j)))), what)
        if not nums:
            nodigit(o, o1, 'no number is skipped')
            post(e, s, b1 == b, 'no bit without a number')
            return
        p = nums[0]
        post(e, s, And(o <= p, p < o1), 'numbers are read in order')
        nodigit(o, p, 'no number is skipped')
        if len(nums) == 1:
            u = self.value(p)
            post(e, s, self.has(b1) == Or(self.has(b), self.k == u), 'a single number is its bit')
            post(e, s, Implies(o1 < ve, Not(self.digit(x(o1)))), 'a number is read whole')
            # nothing but digits and blanks, or a dash no number follows before the next comma
            post(e, s, Implies(And(p <= j, j + 1 < ve, o1 > j + 1), Not(And(x(j) == ord('-'), self.digit(x(j + 1))))), 'a range is not taken for a single number')
            post(e, s, Implies(And(p <= j, j + 1 < o1, self.digit(x(j + 1))), Or(self.digit(x(j)), self.blank(x(j)))), 'only a number is read')
            post(e, s, Implies(And(o1 < ve, o1 > p), x(o1) != ord('-')), 'a dash behind a number is read with it')
            return
        q = nums[1]
        post(e, s, z3.BoolVal(len(nums) == 2), 'a range has two numbers')
        post(e, s, self.has(b1) == Or(self.has(b), self.between(self.value(p), self.value(q))), 'a range is the bits from one number to the other')
        post(e, s, And(p < q, q <= o1), 'numbers are read in order')
        post(e, s, Implies(within(p, q), x(j) != ord(',')), 'a range is no list')
        post(e, s, Implies(And(p <= j, j + 1 < q, self.digit(x(j + 1))), Or(self.digit(x(j)), self.blank(x(j)))), 'a range has two numbers')
        post(e, s, Implies(within(q, o1), self.digit(x(j))), 'the rest is read on')


def bitlist(ctx):
    w = Bits(ctx)
    eng, st, D = w.eng, w.st, w.D
    st0 = st.fork()
    eng.covers += [('a list', st.hyps() + [w.ve - w.vb > 3, w.byte(st, w.vb) == 49])]
    for s, r in run(eng, 'FNLog::ParseBitArray', [Ptr(w.text, (w.vb,)), Ptr(w.text, (w.ve,))], st):
        frame(eng, s, st0, (w.text,), [], 'the text is only read')
        r = D.lift(r)
        if s.ghost['round'].s is None:
            post(eng, s, r == 0, 'no bits without numbers')
            post(eng, s, Implies(And(w.vb <= w.j, w.j < w.ve), Not(w.digit(w.byte(s, w.j)))), 'no number is skipped')
        else:
            w.round(eng, s, None, None, r)
    return eng


# ------------------------------------------------------------------ key words
WORDS = dict(shm_key='RK_SHM_KEY', channel='RK_CHANNEL', define='RK_DEFINE', var='RK_VARIABLE', device='RK_DEVICE', sync='RK_SYNC', disable='RK_DISABLE', hot_update='RK_HOT_UPDATE', logger_name='RK_LOGGER_NAME', logger_desc='PK_LOGGER_DESC',
             priority='RK_PRIORITY', in_type='RK_IN_TYPE', out_type='RK_OUT_TYPE', file='RK_FILE', path='RK_PATH', limit_size='RK_LIMIT_SIZE', rollback='RK_ROLLBACK', rolldaily='RK_ROLLDAILY', rollhourly='RK_ROLLHOURLY', stuff_up='RK_FILE_STUFF_UP', udp_addr='RK_UDP_ADDR')
for _x in ('category', 'identify'):
    for _y in ('', '_extend', '_wlist', '_blist', '_wmask', '_bmask'):
        WORDS[_x + _y] = ('RK_' + _x + _y).upper()


def words(ctx):
    """every documented key word, anywhere in a text, is the key it names"""
    w = Parse(ctx)
    eng, st0, D, n = w.eng, w.st, w.D, w.n
    vb = D.fresh(64, 'begin', 0, MAXT)
    eng.watch['begin'] = vb
    rows = sorted(WORDS.items())
    for word, key in rows:
        st = st0.fork()
        eng.assume(st, And(0 <= vb, vb + len(word) <= n))
        for i, ch in enumerate(word):
            eng.assume(st, w.byte(st, vb + i) == ord(ch))
        s1 = st.fork()
        for s, r in run(eng, 'FNLog::ParseReserve', [w.at(vb), w.at(vb + len(word))], st):
            post(eng, s, D.lift(r) == K(eng, key), 'the word %s is its key' % word)
            frame(eng, s, s1, (w.text,), [], 'the text is only read')
    # a first letter no key has
    st = st0.fork()
    ve, c = D.fresh(64, 'end', 0, MAXT), w.byte(st, vb)
    eng.assume(st, And(0 <= vb, vb <= ve, ve <= n, Implies(vb < ve, Not(Or(*[c == ord(x) for x in sorted({a[0] for a in WORDS})])))))
    for s, r in run(eng, 'FNLog::ParseReserve', [w.at(vb), w.at(ve)], st):
        post(eng, s, D.lift(r) == K(eng, 'RK_NULL'), 'a word no key starts like is no key')
    return eng


# ------------------------------------------------------------------ Lex
class LexUnit(Parse):
    def __init__(self, ctx):
        Parse.__init__(self, ctx)
        eng, st, D = self.eng, self.st, self.D
        self.c = D.fresh(64, 'start', 0, MAXT)
        self.start(st, self.c)
        self.no = self.i(st, self.f('line_no_'))
        eng.assume(st, And(self.no >= 1, self.no <= self.c + 1))
        eng.loop_policy = self.policy
        self.trims = {}

    def bt(self, s):
        v = self.get(s, self.l('block_type_'))
        if not isc(v):
            raise Unsupported('state of the line scanner')
        return v

    def havoc(self, e, s, entry, case):
        D, n, c = self.D, self.n, self.c
        cur = D.fresh(64, 'cur', 0, MAXT)
        e.assume(s, And(c <= cur, cur <= n))
        self.put(s, self.f('current_'), self.at(cur))
        chars, blank, key = D.fresh(32, 'chars', 0, MAXT), D.fresh(32, 'blank', 0, MAXT), D.fresh(32, 'key', 1, len(RK))
        e.assume(s, And(chars == cur - c, blank >= 0, blank <= chars, key >= 1, key < len(RK)))
        self.put(s, self.l('chars_'), chars)
        self.put(s, self.l('blank_'), blank)
        bt = int(case[0])
        self.put(s, self.l('block_type_'), bt)
        if bt < 4:
            self.put(s, self.l('block_stack_'), 0)
        if bt < 2 or case == '5a':
            self.put(s, self.l('key_'), 0)
        else:
            self.put(s, self.l('key_'), key)
        have = {0: (), 1: PTRS[:1], 2: PTRS[:2], 3: PTRS[:2], 4: PTRS[:3]}.get(bt, () if case == '5a' else PTRS)
        last = c
        for f in PTRS:
            if f in have:
                x = D.fresh(64, f, 0, MAXT)
                self.put(s, self.l(f), self.at(x))
                e.assume(s, And(last <= x, x <= cur))
                if f == 'key_end_':
                    e.assume(s, last < x)
                if f == 'key_begin_' and bt == 1:
                    e.assume(s, x < cur)
                last = x
            else:
                self.put(s, self.l(f), NULLP)

    def shape(self, e, s, cur):
        """the pointers of the line are consistent with its state"""
        o = self.offs(s)
        bt = self.bt(s)
        have = tuple(f for f in PTRS if o[f] is not None)
        want = {0: [()], 1: [PTRS[:1]], 2: [PTRS[:2]], 3: [PTRS[:2]], 4: [PTRS[:3]], 5: [(), PTRS]}.get(bt)
        if want is None or have not in want:
            return [('the pointers of the line fit its state (%d: %s)' % (bt, ','.join(have)), z3.BoolVal(False))]
        r, last = [], self.c
        for f in have:
            r.append(('%s stays inside the line (%d)' % (f, bt), And(last <= o[f], o[f] <= cur)))
            if f == 'key_end_':
                r.append(('a key is not empty (%d)' % bt, last < o[f]))
            if f == 'key_begin_' and bt == 1:
                r.append(('a key has a first character', o[f] < cur))
            last = o[f]
        return r

    def inv(self, e, s, entry):
        cur = self.cur(s)
        bt = self.bt(s)
        r = [('the position stays inside the text', And(self.c <= cur, cur <= self.n)),
             ('characters are counted', self.i(s, self.l('chars_')) == cur - self.c),
             ('leading blanks are counted', And(self.i(s, self.l('blank_')) >= 0, self.i(s, self.l('blank_')) <= self.i(s, self.l('chars_'))))]
        if bt < 4:
            r.append(('no bracket outside of a value', self.i(s, self.l('block_stack_')) == 0))
        key = self.i(s, self.l('key_'))
        r.append(('the key is known behind its name', (key == 0) if bt < 2 or self.off(self.get(s, self.l('key_begin_'))) is None else And(key >= 1, key < len(RK))))
        return r + self.shape(e, s, cur)

    def trimmed(self, s, o, o0):
        return []

    def policy(self, e, f, h, d):
        own = any(h2 != h and h2 in f.loops[h] for h2 in f.loops)
        if own:
            last = []

            def havoc(e, s, entry, case):
                self.havoc(e, s, entry, case)
                s.ghost['head'] = self.cur(s)

            def end(e, s):
                post(e, s, self.cur(s) > s.ghost['head'], 'every step consumes a character')
            return ('cut', Cut(inv=self.inv, havoc=havoc, end=end, auto=False, split=['0', '1', '2', '3', '4', '5a', '5b']))

        def tri(e, s, entry):
            if self.offs(entry)['val_end_'] is None:
                return []
            o0, o = self.offs(entry), self.offs(s)
            return [('trimming keeps the value inside the line', And(o['val_begin_'] <= o['val_end_'], o['val_end_'] <= o0['val_end_']))] + self.trimmed(s, o, o0)

        def trih(e, s, entry):
            if self.offs(entry)['val_end_'] is None:
                self.put(s, self.l('val_end_'), NULLP)
                return
            x = self.D.fresh(64, 'val_end', 0, MAXT)
            self.put(s, self.l('val_end_'), self.at(x))
            s.ghost['trim'] = x

        def tend(e, s):
            if self.offs(s)['val_end_'] is None:
                post(e, s, z3.BoolVal(False), 'only a value is trimmed')
                return
            post(e, s, And(self.offs(s)['val_end_'] < s.ghost['trim']), 'trimming ends')
        return ('cut', Cut(inv=tri, havoc=trih, end=tend, auto=False))


class LexDecode(LexUnit):
    """what Lex makes of a line: key and value are the parts of the line the language says"""

    def __init__(self, ctx):
        LexUnit.__init__(self, ctx)
        self.j = self.D.fresh(64, 'any_byte', 0, MAXT)
        self.eng.fact(z3.And(0 <= self.j, self.j <= MAXT))
        self.RES = z3.Function('key_named', ZI, ZI, ZI)
        self.eng.contracts['FNLog::ParseReserve'] = self.reserve

    def reserve(self, e, s, ins, a, dem):
        x, y = self.off(a[0]), self.off(a[1])
        if x is None or y is None:
            raise Unsupported('key word')
        return self.key(x, y)

    def key(self, x, y):
        r = self.RES(x, y)
        self.eng.fact(And(r >= 0, r < len(RK)))
        return self.D.setr(r, 0, len(RK) - 1)

    def chars(self, x, cs):
        return Or(*[x == (ord(c) if isinstance(c, str) else c) for c in cs])

    def blank(self, x):
        return self.chars(x, ' \t\v\f')

    def bound(self, x):
        return self.chars(x, '\0\r\n')

    def soft(self, x):
        return self.chars(x, '\0\r\n#')

    def keych(self, x):
        return Or(And(x >= 97, x <= 122), x == 95, And(x >= 48, x <= 57))

    def havoc(self, e, s, entry, case):
        LexUnit.havoc(self, e, s, entry, case)
        bt, D, g = int(case[0]), self.D, s.ghost
        cur = self.cur(s)
        full = case != '5a' and bt >= 3
        g['head'], g['hbt'] = cur, Snap(case)
        for k, have in (('hsep', full), ('hopen', full and bt >= 4), ('hraw', bt == 5)):
            g[k] = None
            if have:
                g[k] = D.fresh(64, k, 0, MAXT)
                e.assume(s, And(self.c <= g[k], g[k] < cur))
        if bt >= 4:
            self.put(s, self.l('block_stack_'), D.fresh(8, 'bracket', 0, 127))

    def wit(self, s):
        """places of the separator, the opening bracket and the end of the value"""
        g = s.ghost
        head, hbt = g['head'], int(g['hbt'].s[0])
        bt = self.bt(s)
        keyed = self.off(self.get(s, self.l('key_begin_'))) is not None
        sep = (g['hsep'] if hbt >= 3 else head) if keyed and bt >= 3 else None
        opn = (g['hopen'] if hbt >= 4 else head) if keyed and bt >= 4 else None
        raw = (g['hraw'] if hbt == 5 else head) if bt == 5 else None
        return sep, opn, raw

    def trimmed(self, s, o, o0):
        return [('only blanks are trimmed', Implies(And(o['val_end_'] <= self.j, self.j < o0['val_end_']), self.blank(self.byte(s, self.j))))]

    def rules(self, s, bt, o, sep, opn, raw, cur, done=False):
        """the line from its start to cur"""
        c, j = self.c, self.j
        x, B_ = self.byte(s, j), lambda i: self.byte(s, i)
        r = []
        every = lambda what, a, b, q: r.append((what, Implies(And(a <= j, j < b), q)))
        blank_ = self.i(s, self.l('blank_'))
        kb, ke, vb, ve = (o[f] for f in PTRS)
        last = cur if bt == 0 else (kb if kb is not None else raw)
        every('before a key are blanks and dashes', c, last, Or(self.blank(x), x == ord('-')))
        every('the indentation is blank', c, c + blank_, self.blank(x))
        r.append(('all leading blanks are the indentation', And(c + blank_ <= last, Implies(c + blank_ < last, Not(self.blank(B_(c + blank_)))))))
        if bt == 5:
            every('the rest is no line end', c, cur, Not(self.bound(x)))
        if kb is None:
            if bt == 5:
                r.append(('only a comment has no key', B_(raw) == ord('#') if not done else self.soft(B_(raw))))
            return r
        r.append(('a key starts with a letter', And(B_(kb) >= 97, B_(kb) <= 122)))
        every('a key has letters, digits and underlines', kb, ke if ke is not None else cur, self.keych(x))
        if ke is None:
            return r
        r.append(('a key ends at another character', Not(self.keych(B_(ke)))))
        r.append(('the key is the one that is named', self.i(s, self.l('key_')) == self.key(kb, ke)))
        every('blanks between key and separator', ke, sep if sep is not None else cur, self.chars(x, ' \t'))
        if sep is None:
            return r
        r.append(('the separator', And(ke <= sep, B_(sep) == ord(':'))))
        if bt == 3:
            every('blanks behind the separator', sep + 1, cur, self.blank(x))
            return r
        st = self.i(s, self.l('block_stack_'))
        r.append(('kinds of values', self.chars(st, [0, '"', ']', '}'])))
        end = cur if bt == 4 else raw
        every('blanks before a value', sep + 1, z3.If(st == 0, vb, opn), self.blank(x))
        every('blanks behind a bracket', z3.If(st == 0, vb, opn + 1), vb, self.blank(x))
        r.append(('a bracket', Implies(st != 0, And(sep < opn, opn < vb, B_(opn) == z3.If(st == 34, 34, z3.If(st == 93, 91, 123))))))
        r.append(('a value starts behind the separator', And(sep < vb, vb <= end)))
        r.append(('a value does not start blank', Implies(vb < end, Not(self.blank(B_(vb))))))
        r.append(('a plain value starts with no bracket', Implies(And(st == 0, vb < end), Not(self.chars(B_(vb), '"[{')))))
        every('a value does not go beyond the line', vb, end, Not(self.soft(x)))
        every('a value does not go beyond its bracket', vb, end, Or(st == 0, x != st))
        if bt == 4:
            r.append(('a plain value is not empty', Implies(st == 0, vb < cur)))
            return r
        r.append(('a value ends at the end of the line or at its bracket', And(raw < cur if not done else raw <= cur, z3.If(st == 0, self.soft(B_(raw)), B_(raw) == st))))
        r.append(('a value is trimmed', And(vb <= ve, ve <= raw, Implies(And(ve <= j, j < raw), self.blank(x)))))
        tr = Or(ve == vb, Not(self.blank(B_(ve - 1))))
        r.append(('a value does not end blank', tr if done else Or(ve == raw, tr)))
        return r

    def inv(self, e, s, entry):
        r = LexUnit.inv(self, e, s, entry)
        bt = self.bt(s)
        if s.ghost.get('head') is None:
            return r
        sep, opn, raw = self.wit(s)
        return r + self.rules(s, bt, self.offs(s), sep, opn, raw, self.cur(s))


def lex_decode(ctx):
    w = LexDecode(ctx)
    eng, st, D, n, c, j = w.eng, w.st, w.D, w.n, w.c, w.j
    eng.covers += [('a line', st.hyps() + [c < n])]
    st.ghost['head'] = None
    st.ghost['hbt'] = Snap(None)
    st.ghost['hsep'] = st.ghost['hopen'] = st.ghost['hraw'] = None
    seen = 0
    for s, r in run(eng, 'FNLog::Lex', [Ptr(w.ls)], st):
        if not isc(r):
            raise Unsupported('result of Lex')
        if r != 0 or s.ghost['hbt'].s is None:
            continue
        seen += 1
        cur, o, head = w.cur(s), w.offs(s), s.ghost['head']
        x, B_ = w.byte(s, j), lambda i: w.byte(s, i)
        # the line ends at the character that was read last
        post(eng, s, w.bound(B_(head)), 'a line ends at its end')
        post(eng, s, Implies(And(c <= j, j < head), Not(w.bound(x))), 'a line does not go beyond its end')
        two = Or(And(B_(head) == 13, B_(head + 1) == 10), And(B_(head) == 10, B_(head + 1) == 13))
        post(eng, s, cur == z3.If(B_(head) == 0, head, z3.If(And(head < n, two), head + 2, head + 1)), 'the next line starts behind the line end')
        hbt = int(s.ghost['hbt'].s[0])
        keyed = o['key_begin_'] is not None
        sep, opn, raw = (s.ghost['hsep'] if keyed else None), (s.ghost['hopen'] if hbt >= 4 else head) if keyed else None, s.ghost['hraw'] if hbt == 5 else head
        if keyed and s.ghost['hsep'] is None:
            post(eng, s, z3.BoolVal(False), 'a line with a key has a separator')
            continue
        for nm, fm in w.rules(s, 5, o, sep, opn, raw, head, True):
            post(eng, s, fm, nm)
    if not seen:
        raise Unsupported('no successful line')
    eng.obls = [o for o in eng.obls if o.kind in ('user', 'inv')]
    return eng
