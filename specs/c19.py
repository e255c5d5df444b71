"""C19 the record prefix contains exactly the requested parts, in order"""
from core import *
from c01 import TRUSTED
from houdini import Cut
import re

ID = 'C19'
LEVEL = 'proof'
PARTS = ('TIMESTAMP', 'PRIORITY', 'THREAD', 'NAME', 'DESC', 'FILE', 'FUNCTION')
NAMES = (b'[TRACE]', b'[DEBUG]', b'[INFO ]', b'[WARN ]', b'[ERROR]', b'[ALARM]', b'[FATAL]')
ASSUMPTIONS = ['the lengths given for names, paths and functions are those of valid texts and fit the record: all parts together are at least 64 bytes shorter than LOG_SIZE (name and description lengths within their arrays); line >= 0; priority in [0, PRIORITY_MAX); prefix is LOG_PREFIX_NULL or selects some of the seven parts',
               'write_date_unsafe appends 23 bytes, the time stamp of the instant it is given (C03); write_dec_unsafe appends the decimal text (C01)',
               'HoldChannel returns a negative number, or a slot of the queue of a configured channel that belongs to the caller (C07)',
               'gettimeofday returns the instant at which the record is created']


def put_text(e, st, p, n, room, byte):
    """n bytes at p become byte(0), byte(1), ...; `room` bytes must be available"""
    cd = e.charptr(p)
    if cd is None:
        raise Unsupported('bytes expected')
    e.span_ok(cd, room, st)
    key, didx, _ = e._ck(cd)
    old = st.mem.get(key)
    if old is None:
        old = e.leaf_init(key)
    st.mem[key] = ABlk(old, lambda idx: And(e.idx_eq(idx[:-1], didx[:-1]), e.in_range(idx[-1], didx[-1], n)), lambda idx: byte(e.isub(idx[-1], didx[-1])))


def const_byte(text, i):
    r = z3.IntVal(text[-1])
    for k in range(len(text) - 2, -1, -1):
        r = z3.If(i == k, z3.IntVal(text[k]), r)
    return r


def prio_byte(p, i):
    r = const_byte(NAMES[-1], i)
    for k in range(len(NAMES) - 2, -1, -1):
        r = z3.If(p == k, const_byte(NAMES[k], i), r)
    return r


DLEN = z3.Function('decimal_length', z3.IntSort(), z3.IntSort())
DBYTE = z3.Function('decimal_byte', z3.IntSort(), z3.IntSort(), z3.IntSort())
TBYTE = z3.Function('time_stamp_byte', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())


def texts(eng):
    """contracts of the renderers"""
    D = eng.D

    def dec(e, st, ins, a, dem):
        m = re.search(r'write_dec_unsafe<(\d+)', dem)
        if not m or int(m.group(1)):
            raise Unsupported('decimal text of a minimum width')
        v = D.lift(a[1]) if 'unsigned' in dem else D.lift(a[1])
        n = DLEN(v)
        e.fact(z3.And(n >= 1, n <= 20))
        D.setr(n, 1, 20)
        put_text(e, st, a[0], n, 20, lambda i: DBYTE(v, i))
        return n
    eng.contracts['FNLog::write_dec_unsafe'] = dec

    def prio(e, st, ins, a, dem):
        post(e, st, And(D.lift(a[1]) >= 0, D.lift(a[1]) < len(NAMES)), 'a priority with a name')
        p = D.lift(a[1])
        put_text(e, st, a[0], 7, 7, lambda i: prio_byte(p, i))
        return 7
    eng.contracts['FNLog::write_log_priority_unsafe'] = prio

    def date(e, st, ins, a, dem):
        t, ms = D.lift(a[1]), D.lift(a[2])
        put_text(e, st, a[0], 23, 40, lambda i: TBYTE(t, ms, i))
        return 23
    eng.contracts['FNLog::write_date_unsafe'] = date


def unit(bits, nulls):
    """bits: fixed values of the first selection bits (splits the paths)"""
    def go(ctx):
        eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
        D = eng.D
        libc(eng)
        st = State()
        lg = LG(eng, st)
        ls = eng.new_obj('stream', ('st', eng.struct_name('LogStream')), 'arg')
        c, prio, cat, ident, line, pre = D.fresh(32, 'channel'), D.fresh(32, 'priority'), D.fresh(32, 'category'), D.fresh(64, 'identify'), D.fresh(32, 'line', 0, (1 << 31) - 1), D.fresh(32, 'prefix', 0, 255)
        fl, fnl = D.fresh(32, 'file_len', -(1 << 31), lg.LS), D.fresh(32, 'func_len', -(1 << 31), lg.LS)
        eng.watch.update(priority=prio, line=line, prefix=pre, file_len=fl, func_len=fnl)
        n = lg.get(st, lg.p_shm('channel_size_'))
        nl, dl = lg.get(st, lg.p_logger('name_len_')), lg.get(st, lg.p_logger('desc_len_'))
        pos = lambda x: z3.If(x > 0, x, z3.IntVal(0))
        eng.assume(st, And(n >= 0, n <= lg.NC, nl >= 0, nl < K(eng, 'LOGGER_NAME_LEN'), dl >= 0, dl < K(eng, 'LOGGER_DESC_LEN')))
        eng.assume(st, And(prio >= 0, prio < K(eng, 'PRIORITY_MAX'), pos(fl) + pos(fnl) + nl + dl + 23 + 7 + 22 + 2 + 2 + 23 + 2 + 1 + 64 <= lg.LS))
        sel = {}
        for p in PARTS:
            sel[p] = D.bits(pre, K(eng, 'LOG_PREFIX_' + p)) if hasattr(D, 'bits') else (pre / K(eng, 'LOG_PREFIX_' + p)) % 2 == 1
        eng.assume(st, Or(pre == 0, pre % 128 != 0))
        for p, b in bits.items():
            eng.assume(st, sel[p] if b else Not(sel[p]))
        def text(name, ln):
            o = eng.new_obj(name, ('arr', None, I8), 'arg')
            o.len = pos(ln)
            D.setr(o.len, 0, lg.LS)
            return o
        fo, fno = text('file', fl), text('func', fnl)
        pf, pfn = (NULLP, NULLP) if nulls else (Ptr(fo, (0,)), Ptr(fno, (0,)))
        jump = D.fresh(32, 'jump')
        sec, usec = D.fresh(64, 'sec', 0, 1 << 40), D.fresh(64, 'usec', 0, 999999)
        tid = {}

        def tod(e, s, ins, a, dem):
            e.cur = s
            base = a[0]
            o = base.obj
            e.store(s, Ptr(o, base.path + (0,)), I64, sec)
            e.store(s, Ptr(o, base.path + (1,)), I64, usec)
            return 0
        eng.models['gettimeofday'] = tod
        eng.models['syscall'] = lambda e, s, ins, a, dem: None
        eng.contracts['FNLog::InitLogData'] = lambda *a: NotImplemented
        texts(eng)

        def sp(e, s, ins, a, dem):
            post(e, s, And(e.ptr_eq(a[0], pf), D.lift(a[1]) == fl), 'the path of the call is shortened')
            e.assume(s, And(jump >= 0, jump <= fl))
            return jump
        eng.contracts['FNLog::short_path'] = sp
        h = D.fresh(32, 'slot')
        st.ghost['held'] = z3.IntVal(0)

        def hold(e, s, ins, a, dem):
            post(e, s, And(e.ptr_eq(a[0], Ptr(lg.lg)), D.lift(a[1]) == c, D.lift(a[2]) == prio, D.lift(a[3]) == cat, D.lift(a[4]) == ident), 'a slot is requested with the attributes of the call')
            post(e, s, s.ghost['held'] == 0, 'one slot is requested')
            r = []
            for ok in (1, 0):
                t = s.fork()
                if ok:
                    e.assume(t, And(c >= 0, c < n, h >= 0, h < lg.NB))
                    t.ghost['held'] = z3.IntVal(2)
                    r.append((t, h))
                else:
                    x = D.fresh(32, 'refusal')
                    e.assume(t, x < 0)
                    t.ghost['held'] = z3.IntVal(1)
                    r.append((t, x))
            return r
        eng.contracts['FNLog::HoldChannel'] = hold
        eng.loop_policy = lambda e, f, h_, d: ('unroll', 8)
        st0 = st.fork()
        eng.covers.append(('entry', st.hyps() + [c >= 0, c < n]))
        args = [Ptr(ls), Ptr(lg.lg), c, prio, cat, ident, pf, fl, line, pfn, fnl, pre]
        k = D.fresh(64, 'k', 0, lg.LS - 1)
        F = lambda s, f, *ix: lg.get(s, lg.p_log(c, h, f, *ix))
        name_b = lambda i: D.lift(ld(eng, st0, Ptr(lg.lg, lg.arr(lg.lg, eng.field('Logger', 'name_')) + (i,)), I8))
        desc_b = lambda i: D.lift(ld(eng, st0, Ptr(lg.lg, lg.arr(lg.lg, eng.field('Logger', 'desc_')) + (i,)), I8))
        text_b = lambda o: (lambda i: D.lift(ld(eng, st0, Ptr(o, (i,)), I8)))
        lit = lambda t: (len(t), lambda i: const_byte(t, i))
        LSf = lambda s, f, ty: ld(eng, s, Ptr(ls, eng.field('LogStream', f)), ty)

        def expected(thread, S):
            """[(guard, length, byte function)] in order"""
            out = [(S['TIMESTAMP'], 23, lambda i: TBYTE(sec, usec / 1000, i)),
                   (S['PRIORITY'], 7, lambda i: prio_byte(prio, i)),
                   (S['THREAD'],) + lit(b'['), (S['THREAD'], DLEN(thread), lambda i: DBYTE(thread, i)), (S['THREAD'],) + lit(b']'),
                   (S['NAME'],) + lit(b'['), (S['NAME'], nl, name_b), (S['NAME'],) + lit(b']'),
                   (S['DESC'],) + lit(b'['), (S['DESC'], dl, desc_b), (S['DESC'],) + lit(b']'),
                   (S['FILE'],) + lit(b'['), (S['file'], fl - jump, lambda i: text_b(fo)(i + jump)), (S['FILE'] and not S['file'],) + lit(b'nofile'),
                   (S['FILE'],) + lit(b':'), (S['FILE'], DLEN(D.lift(line)), lambda i: DBYTE(D.lift(line), i)), (S['FILE'],) + lit(b']'),
                   (S['FUNCTION'],) + lit(b'('), (S['func'], fnl, text_b(fno)), (S['FUNCTION'] and not S['func'],) + lit(b'null'), (S['FUNCTION'],) + lit(b')'),
                   (S[''],) + lit(b' ')]
            return out
        hyp0 = None
        for s, r in run(eng, 'vp_stream', args, st):
            held = s.ghost['held']
            if eng.check(s.hyps() + [held == 2], None, 5000) == 'unsat':
                post(eng, s, held == 1, 'a slot is requested')
                post(eng, s, eng.ptr_eq(LSf(s, 'log_data_', 'ptr'), NULLP), 'a refused call has no record')
                frame(eng, s, st0, (lg.lg, lg.shm), [], 'a refused call changes nothing')
                continue
            post(eng, s, held == 2, 'a slot is taken')
            post(eng, s, And(eng.ptr_eq(LSf(s, 'log_data_', 'ptr'), Ptr(lg.shm, lg.slot(c, h))), eng.ptr_eq(LSf(s, 'logger_', 'ptr'), Ptr(lg.lg)), D.lift(LSf(s, 'hold_idx_', I32)) == h), 'the stream writes the slot it took')
            attrs = [D.lift(F(s, f)) == D.lift(v) for f, v in (('channel_id_', c), ('priority_', prio), ('category_', cat), ('identify_', ident), ('code_line_', line), ('code_func_len_', fnl), ('code_file_len_', fl), ('timestamp_', sec), ('precise_', usec / 1000))]
            post(eng, s, And(attrs), 'the record has the attributes of the call and the time')
            post(eng, s, And(eng.ptr_eq(F(s, 'code_file_'), pf), eng.ptr_eq(F(s, 'code_func_'), pfn)), 'the record names the source location of the call')
            thread = D.u(32, F(s, 'thread_'))
            # the text, part by part along this path
            off = z3.IntVal(0)
            cl = D.lift(F(s, 'content_len_'))
            b = D.lift(F(s, 'content_', k))
            goals = []

            def decided(g):
                if isb(g):
                    return g
                if eng.check(s.hyps(), B(g), 3000) == 'unsat':
                    return True
                if eng.check(s.hyps(), Not(g), 3000) != 'unsat':
                    raise Unsupported('selection not decided on a path')
                return False
            on = {p: bool(bits[p]) if p in bits else decided(sel[p]) for p in PARTS}
            on['file'] = on['FILE'] and not nulls and decided(fl > 0)
            on['func'] = on['FUNCTION'] and not nulls and decided(fnl > 0)
            on[''] = any(on[p] for p in PARTS)
            for g, ln, byte in expected(thread, on):
                if g:
                    goals.append((off, ln, byte))
                    off = off + ln
            post(eng, s, cl == off, 'the prefix has the length of the requested parts')
            post(eng, s, cl <= lg.LS, 'the prefix fits the record')
            post(eng, s, And([Implies(And(k >= o_, k < o_ + ln), eng.D.eq(b, byte(k - o_))) for o_, ln, byte in goals]), 'the requested parts appear in order')
            post(eng, s, D.lift(F(s, 'prefix_len_')) == cl, 'the prefix length is recorded')
            ks = {key_of(eng, lg.p_log(c, h, f))[0] for f in ('channel_id_', 'priority_', 'category_', 'identify_', 'code_line_', 'code_func_len_', 'code_file_len_', 'code_func_', 'code_file_', 'timestamp_', 'precise_', 'thread_', 'prefix_len_', 'content_len_')}
            ks.add(key_of(eng, lg.p_log(c, h, 'content_', 0))[0])
            fr = same_mem(eng, s, st0, (lg.lg, lg.shm), [lambda key, idx: (idx is not None and And(idx[0] == c, idx[1] == h)) if key in ks else (False if idx is not None else None)])
            post(eng, s, And([B(g) for _, g in fr]), 'only the record is written')
        return eng
    return go


def unit_priotext(ctx):
    out = []
    for p in range(len(NAMES)):
        eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
        libc(eng)
        st = State()
        buf = eng.new_obj('dst', ('arr', 40, I8), 'arg')
        st0 = st.fork()
        k = eng.D.fresh(64, 'k', 0, 39)
        for s, r in run(eng, 'vp_priotext', [Ptr(buf, (0,)), p], st):
            post(eng, s, eng.D.lift(r) == 7, 'seven bytes')
            b = eng.D.lift(at(eng, buf, s, k))
            post(eng, s, Implies(k < 7, eng.D.eq(b, const_byte(NAMES[p], k))), 'the name of the priority')
            post(eng, s, Implies(k >= 7, b == eng.D.lift(at(eng, buf, st0, k))), 'no other byte')
        out.append(eng)
    return out


def unit_short(ctx):
    """short_path: everything behind the third separator from the end"""
    eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
    D = eng.D
    libc(eng)
    st = State()
    n = D.fresh(32, 'len', -(1 << 31), (1 << 31) - 2)
    o = eng.new_obj('path', ('arr', None, I8), 'arg')
    o.len = z3.If(n > 0, n, z3.IntVal(0))
    D.setr(o.len, 0, (1 << 31) - 2)
    byte = lambda s, i: D.lift(ld(eng, s, Ptr(o, (i,)), I8))
    st0 = st.fork()
    sep = lambda i: z3.Or(byte(st0, i) == 47, byte(st0, i) == 92)
    cnt = z3.Function('separators_from', z3.IntSort(), z3.IntSort())
    unfold = lambda i: z3.Implies(z3.And(i >= 0, i < n), cnt(i) == cnt(i + 1) + z3.If(sep(i), 1, 0))
    eng.assume(st, cnt(D.lift(n)) == 0)

    def position(s, f=None):
        """the scan position of the loop: the pointer into the path that moves"""
        v = [x for x in s.env.values() if isinstance(x, Ptr) and x.obj is o and x.path and not isc(x.path[-1])]
        return v

    def inv(e, s, entry):
        out = []
        for i in e_phis[0]:
            v, e0 = s.env.get(i.res), entry.env.get(i.res)
            if i.a['t'] == 'ptr' and isinstance(v, Ptr) and v.obj is o:
                p = D.lift(v.path[-1])
                for d in (-1, -2):
                    e.fact(z3.Implies(z3.And(n > 0), unfold(p + d)))
                out.append(('scan position', z3.And(p >= 0, p <= n)))
                ints = [j for j in e_phis[0] if isinstance(j.a['t'], tuple) and j.a['t'][1] == 32]
                if len(ints) == 1:
                    left = D.lift(s.env[ints[0].res])
                    start = D.lift(entry.env[ints[0].res])
                    out.append(('separators passed', z3.And(left == start - cnt(p), left >= 1, cnt(p) >= 0)))
        return out
    e_phis = [None]

    def policy(e, f, h, d):
        e_phis[0] = [i for i in f.blocks[h] if i.op == 'phi']
        return ('cut', Cut(inv=inv))
    eng.loop_policy = policy
    eng.covers.append(('entry', st.hyps() + [n > 5]))
    w = D.fresh(64, 'w', 0, (1 << 31))
    for s, r in run(eng, 'vp_shortpath', [Ptr(o, (0,)), n], st):
        j = D.lift(r)
        eng.fact(unfold(j - 1))
        post(eng, s, And(j >= 0, j <= z3.If(n > 0, n, z3.IntVal(0))), 'the tail lies inside the path')
        post(eng, s, Implies(And(n > 0, j > 0), And(sep(j - 1), cnt(j) == 2)), 'a shortened path starts behind the third separator from its end')
        post(eng, s, Implies(And(n > 0, j == 0), cnt(z3.IntVal(0)) < 3), 'a path with fewer separators is not shortened')
        frame(eng, s, st0, (o,), [], 'the path is only read')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    us = [Unit('short_path', unit_short), Unit('write_log_priority_unsafe', unit_priotext)]
    for b in range(8):
        bits = {'TIMESTAMP': b & 1, 'PRIORITY': b & 2, 'THREAD': b & 4}
        us.append(Unit('LogStream, parts %d' % b, unit(bits, False), timeout=20, limit=600))
        us.append(Unit('LogStream, parts %d, no source location' % b, unit(bits, True), timeout=20, limit=600))
    return us


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c19.cpp', 60000, 1000000)
