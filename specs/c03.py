"""C03 timestamps are rendered as the local wall-clock time"""
from core import *
from c01 import TRUSTED, stream_obj
import c19, re

ID = 'C03'
LEVEL = 'proof'
ASSUMPTIONS = [
    'localtime_r is a function of the instant alone (the time zone is not changed while the program runs) and either fails, leaving its result untouched, or yields seconds 0..60, minutes 0..59, hours 0..23, days 1..31 and months 0..11',
    'write_dec_unsafe writes the decimal text of the given minimum width (C01)',
    'gettimeofday returns the instant at which the record is created; HoldChannel returns a slot of the caller (C07)']
TM = ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year')
RANGE = dict(tm_sec=(0, 60), tm_min=(0, 59), tm_hour=(0, 23), tm_mday=(1, 31), tm_mon=(0, 11), tm_year=(-(1 << 31), (1 << 31) - 1))
I = z3.IntSort()
LT = {f: z3.Function('local_' + f[3:], I, I) for f in TM}
OK = z3.Function('has_local_time', I, z3.BoolSort())


def field(f, t):
    """what a zeroed struct tm holds after localtime_r(t)"""
    return z3.If(OK(t), LT[f](t), z3.IntVal(0))


def tm_at(e, p):
    t = ('st', e.struct_name('tm'))
    if isinstance(p, Ptr) and p.obj.kind != 'opaque':
        path = p.path
        while path and e.type_at(p.obj, path) != t:
            path = path[:-1]
        if e.type_at(p.obj, path) == t:
            return p.obj, path
    raise Unsupported('struct tm')


def localtime_r(e, s, ins, a, dem):
    D = e.D
    t = D.lift(ld(e, s, a[0], I64))
    o, b = tm_at(e, a[1])
    for f in TM:
        lo, hi = RANGE[f]
        e.fact(z3.Implies(OK(t), z3.And(LT[f](t) >= lo, LT[f](t) <= hi)))
        p = Ptr(o, b + e.field('tm', f))
        v = D.fresh(32, f)
        e.fact(z3.Implies(OK(t), v == LT[f](t)))
        old = D.lift(ld(e, s, p, I32))
        k, e.kinds = e.kinds, set()
        e.cur = s
        x = D.fresh(32, f + '_out')
        e.assume(s, x == z3.If(OK(t), v, old))
        e.store(s, p, I32, x)
        e.kinds = k
    return a[1]


def mktime(e, s, ins, a, dem):
    """some function of the broken-down time"""
    o, b = tm_at(e, a[0])
    g = [e.D.lift(ld(e, s, Ptr(o, b + e.field('tm', f)), I32)) for f in TM]
    r = e.D.fresh(64, 'mktime')
    e.assume(s, r == z3.Function('mktime_of', *([I] * 7))(*g))
    e.assume(s, And(r > -(1 << 60), r < 1 << 60))
    return r


def dec(e, st, ins, a, dem):
    """decimal text of minimum width W (C01): exactly W digits when the number has no more"""
    D = e.D
    m = re.search(r'write_dec_unsafe<(\d+)', dem)
    W = int(m.group(1))
    v = D.lift(a[1])
    if W == 0:
        return text_contract(1, 20)(e, st, ins, a, dem)
    n = D.fresh(32, 'declen', W, max(20, W))
    fits = And(v >= 0, v < 10 ** W)
    e.fact(z3.And(n >= W, n <= max(20, W)))
    e.assume(st, Implies(fits, n == W))
    cd = e.charptr(a[0])
    if cd is None:
        raise Unsupported('bytes expected')
    e.span_ok(cd, n, st)
    key, didx, _ = e._ck(cd)
    old = st.mem.get(key)
    if old is None:
        old = e.leaf_init(key)
    nb = e.base('digits', I8, 1)

    def byte(i):
        r = e.read(nb, (i,))
        for k in range(W):
            r = z3.If(And(fits, i == k), 48 + (v / (10 ** (W - 1 - k))) % 10, r)
        return r
    st.mem[key] = ABlk(old, lambda idx: And(e.idx_eq(idx[:-1], didx[:-1]), e.in_range(idx[-1], didx[-1], n)), lambda idx: byte(e.isub(idx[-1], didx[-1])))
    return n


def unit_date(ctx):
    eng = Engine(ctx.module('fmt.cpp'), 'int', 'paths')
    D = eng.D
    libc(eng)
    eng.models['localtime_r'] = localtime_r
    eng.models['mktime'] = mktime
    eng.contracts['FNLog::write_dec_unsafe'] = dec
    eng.loop_policy = lambda e, f, h, d: ('unroll', 30)
    st = State()
    dst = eng.new_obj('dst', ('arr', 40, I8), 'arg')
    ts, ms = D.fresh(64, 'timestamp', -(1 << 50), 1 << 50), D.fresh(32, 'milliseconds', 0, (1 << 32) - 1)
    ts = D.fresh(64, 'timestamp')
    eng.fact(z3.And(ts > -(1 << 55), ts < 1 << 55))
    D.setr(ts, -(1 << 55), 1 << 55)
    eng.fact(z3.And(ms >= 0, ms < 1 << 32))
    eng.watch.update(timestamp=ts, milliseconds=ms)
    go = lambda s: run(eng, 'vp_date', [Ptr(dst, (0,)), ts, ms], s)

    def dry(s):
        n = len(eng.obls)
        eng.suspend += 1
        try:
            return go(s)
        finally:
            eng.suspend -= 1
            del eng.obls[n:]
    # the state kept between calls: every variable with static or thread storage the function writes
    keys = {}
    for s, r in dry(st.fork()):
        for k in s.mem:
            o = eng.objs.get(k[0])
            if o is not None and o.kind == 'global' and not getattr(o, 'isconst', False):
                keys[k] = eng.leaf_type(k)
    ints = [k for k in sorted(keys, key=str) if isinstance(keys[k], tuple) and keys[k][0] == 'i' and '*' not in k[1]]
    if any('*' in k[1] for k in keys):
        raise Unsupported('an array is kept between calls')

    def val(s, k):
        v = s.mem.get(k)
        v = eng.leaf_init(k) if v is None else v
        return v if isb(v) or z3.is_bool(v) else D.lift(v)
    init = {}
    for k in ints:
        o = eng.objs[k[0]]
        t, c, _ = eng.mod.gdef(o.gname)
        tmp = Obj('init', t, 'obj')
        tmp.const = c
        x = eng.const_leaf(tmp, k[1], keys[k], 0) if c is not None else 0
        init[k] = D.lift(x)
    tmt = ('st', eng.struct_name('tm'))
    stamps = [k for k in ints if keys[k] == I64]

    def cands(s):
        fresh = And([val(s, k) == init[k] for k in ints])
        out = [('nothing is cached', fresh)]
        for k in ints:
            o = eng.objs[k[0]]
            if eng.rt(o.type) != eng.rt(tmt):
                continue
            for f in TM:
                if k[1] == tuple(eng.field('tm', f)):
                    lo, hi = RANGE[f]
                    out.append(('%s in range' % f, Or(fresh, And(val(s, k) >= min(lo, 0), val(s, k) <= hi))))
                    for g in stamps:
                        if g[0] != k[0]:
                            out.append(('%s of %s is the local time of %s' % (f, o.name, eng.objs[g[0]].name), Or(fresh, val(s, k) == field(f, val(s, g)))))
        return out
    live = {nm for nm, _ in cands(st)} if True else set()
    for rnd in range(10):
        s0 = st.fork()
        for nm, fm in cands(s0):
            if nm in live:
                eng.assume(s0, fm)
        drop = set()
        for s, r in dry(s0):
            for nm, fm in cands(s):
                if nm in live and nm not in drop and eng.check(s.hyps(), B(fm), 4000) != 'unsat':
                    drop.add(nm)
        if not drop:
            break
        live -= drop
    # the fresh state is one of those described
    eng.loop_info.append(('write_date_unsafe', 'history', 'invariants of the cached state: ' + ', '.join(sorted(live))))
    for nm, fm in cands(st):
        if nm in live:
            s = st.fork()
            eng.assume(s, And([val(s, k) == init[k] for k in ints]))
            ob(eng, s, 'inv', fm, 'a new thread starts in the described state: ' + nm)
            eng.assume(st, fm)
    st0 = st.fork()
    eng.covers.append(('entry', st.hyps() + [OK(ts), LT['tm_year'](ts) == 124]))
    year = LT['tm_year'](ts) + 1900
    k = D.fresh(64, 'k', 0, 39)
    for f in TM:
        lo, hi = RANGE[f]
        eng.fact(z3.Implies(OK(ts), z3.And(LT[f](ts) >= lo, LT[f](ts) <= hi)))
    for s, r in go(st):
        for nm, fm in cands(s):
            if nm in live:
                ob(eng, s, 'inv', fm, 'the cached state stays as described: ' + nm)
        r = D.lift(r)
        post(eng, s, Or(r == 0, r == 23), 'a time stamp of 23 characters or none')
        t = s.fork()
        eng.assume(t, And(OK(ts), year >= 0, year <= 9999))
        if not eng.feasible(t):
            continue
        post(eng, t, r == 23, 'a year of four digits gives 23 characters')
        d = lambda v, n, j: 48 + (v / (10 ** (n - 1 - j))) % 10
        msx = z3.If(ms >= 1000, z3.IntVal(999), ms)
        exp = [ord('[')] + [d(year, 4, j) for j in range(4)] + [d(LT['tm_mon'](ts) + 1, 2, j) for j in range(2)] + [d(LT['tm_mday'](ts), 2, j) for j in range(2)] + [ord(' ')]
        for i, f in enumerate(('tm_hour', 'tm_min', 'tm_sec')):
            exp += [d(LT[f](ts), 2, j) for j in range(2)] + [ord(':' if i < 2 else '.')]
        exp += [d(msx, 3, j) for j in range(3)] + [ord(']')]
        names = '[ year year year year month month day day blank hour hour : minute minute : second second . millisecond millisecond millisecond ]'.split()
        for i in range(23):
            post(eng, t, D.lift(at(eng, dst, t, i)) == exp[i], 'character %d (%s) is that of the instant' % (i, names[i]))
    return eng


def unit_init(ctx):
    eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
    D = eng.D
    libc(eng)
    st = State()
    lg = LG(eng, st)
    ldo = eng.new_obj('log', ('st', eng.struct_name('LogData')), 'arg')
    sec, usec = D.fresh(64, 'sec', 0, 1 << 40), D.fresh(64, 'usec', 0, 999999)
    eng.fact(z3.And(sec >= 0, sec < 1 << 40, usec >= 0, usec <= 999999))
    st.ghost['asked'] = z3.IntVal(0)

    def tod(e, s, ins, a, dem):
        e.cur = s
        s.ghost['asked'] = s.ghost['asked'] + 1
        e.store(s, Ptr(a[0].obj, a[0].path + (0,)), I64, sec)
        e.store(s, Ptr(a[0].obj, a[0].path + (1,)), I64, usec)
        return 0
    eng.models['gettimeofday'] = tod
    eng.models['syscall'] = lambda *x: None
    eng.watch.update(sec=sec, usec=usec)
    eng.covers.append(('entry', st.hyps()))
    F = lambda s, f, t: D.lift(ld(eng, s, Ptr(ldo, eng.field('LogData', f)), t))
    args = [Ptr(lg.lg), Ptr(ldo)] + [D.fresh(32, x) for x in ('channel', 'priority', 'category')] + [D.fresh(64, 'identify'), D.fresh(32, 'prefix')]
    for s, r in run(eng, 'vp_initlog', args, st):
        post(eng, s, s.ghost['asked'] >= 1, 'the clock is read for every record')
        post(eng, s, F(s, 'timestamp_', I64) == sec, 'the record carries the second of its creation')
        post(eng, s, F(s, 'precise_', I32) == usec / 1000, 'the record carries the millisecond of its creation')
    return eng


def unit_streamed(ctx):
    """LogTimestamp values streamed into a record"""
    eng = Engine(ctx.module('stream.cpp'), 'int', 'paths')
    D = eng.D
    st = State()
    ls, ldo, cl, size = stream_obj(eng, st)
    ts, ms = D.fresh(64, 'ts'), D.fresh(32, 'ms')
    st.ghost['n'] = z3.IntVal(0)

    def date(e, s, ins, a, dem):
        post(e, s, And(D.lift(a[1]) == ts, (D.lift(a[2]) - ms) % (1 << 32) == 0), 'the streamed instant is rendered')
        post(e, s, e.ptr_eq(a[0], Ptr(ldo, content(e, ldo) + (cl,))), 'the text is appended to the record')
        s.ghost['n'] = s.ghost['n'] + 1
        havoc_bytes(e, s, a[0], 23, 40)
        return 23
    eng.contracts['FNLog::write_date_unsafe'] = date
    eng.covers.append(('entry', st.hyps()))
    for s, r in run(eng, 'vp_time', [Ptr(ls), ts, ms], st):
        c1 = D.lift(ld(eng, s, Ptr(ldo, eng.field('LogData', 'content_len_')), I32))
        post(eng, s, c1 == cl + 23 * s.ghost['n'], 'the record grows by the text')
        post(eng, s, Implies(cl + 40 < size, s.ghost['n'] == 1), 'an instant that fits is rendered')
        post(eng, s, s.ghost['n'] <= 1, 'it is rendered once')
    return eng


def units(ctx):
    ctx.module('core.cpp'), ctx.module('fmt.cpp'), ctx.module('stream.cpp')
    bits = {p: int(p == 'TIMESTAMP') for p in c19.PARTS}
    return [Unit('write_date_unsafe', unit_date, weight=4, par=4, timeout=30), Unit('InitLogData', unit_init), Unit('LogStream << LogTimestamp', unit_streamed),
            Unit('LogStream with a time stamp', c19.unit(bits, False), timeout=20, limit=600)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c03.cpp', 3000, 60000, refuted, ('timestamp', 'milliseconds'))
