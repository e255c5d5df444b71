"""shared specification vocabulary"""
import z3
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'vc'))
from eng import *
from dom import And, Or, Not, Implies, Iff, B, isc, isb
from run import Unit, build_harness, run_harness
from ll import Unsupported, basename

I8, I16, I32, I64 = ('i', 8), ('i', 16), ('i', 32), ('i', 64)


def run(eng, name, args, st, pred=None):
    """runs the function (mangled or qualified name)"""
    fn = eng.mod.funcs.get(name)
    if fn is None:
        c = eng.mod.find(name, pred)
        if len(c) != 1:
            raise Unsupported('function %s: %d candidates' % (name, len(c)))
        fn = eng.mod.funcs[c[0]]
    eng.where.append('')
    r = eng.run_function(fn, args, st)
    eng.where.pop()
    return r


def ob(eng, st, kind, goal, what):
    eng.cur = st
    eng.where.append('post')
    eng.oblige(kind, goal, what, st)
    eng.where.pop()


def post(eng, st, goal, what):
    """postcondition: recorded, and available to the following ones"""
    ob(eng, st, 'user', goal, what)


def ld(eng, st, p, ty):
    """specification read (no obligations)"""
    k = eng.kinds
    eng.kinds = set()
    try:
        s = st.fork()
        eng.cur = s
        return eng.load(s, p, ty)
    finally:
        eng.kinds = k
        eng.cur = st


def at(eng, obj, st, i, field=()):
    return ld(eng, st, Ptr(obj, tuple(field) + (i,)), I8)


def L(eng, x, w=64):
    return eng.D.lift(x, w) if eng.D.name == 'bv' else eng.D.lift(x)


def content(eng, obj, field='content_', T='LogData'):
    """path of the first dimension of a char array field"""
    p = eng.field(T, field)
    while eng.rt(eng.type_at(obj, p))[0] != 'arr':
        p += (0,)
    return p


def std_replay(ctx, src, quick, thorough, refuted=(), names=(), timeout=300):
    """run the concrete harness on the real code, counterexample values first"""
    exe, err = build_harness(ctx, src)
    if not exe:
        return dict(found=False, text='harness does not build: ' + err, evaluations=0)
    n = quick if ctx.tier == 'quick' else thorough
    vals = []
    for o in refuted:
        if o.get('model') and all(k in o['model'] for k in names):
            vals += [o['model'][k] for k in names]
    rc, out = run_harness(ctx, exe, [ctx.seed, n] + vals[:200], timeout)
    return dict(found=rc not in (0, 124), text=out[-4000:], evaluations=n)


def havoc_bytes(eng, st, p, n, room=None):
    """the n bytes at p get arbitrary values; `room` bytes must be available"""
    D = eng.D
    cd = eng.charptr(p)
    if cd is None:
        raise Unsupported('bytes expected')
    eng.span_ok(cd, room if room is not None else n, st)
    key, didx, _ = eng._ck(cd)
    old = st.mem.get(key)
    if old is None:
        old = eng.leaf_init(key)
    nb = eng.base('bytes', I8, 1)
    st.mem[key] = ABlk(old, lambda idx: And(eng.idx_eq(idx[:-1], didx[:-1]), eng.in_range(idx[-1], didx[-1], n)), lambda idx: eng.read(nb, (idx[-1],)))
    return nb


def text_contract(lo, hi, room=None):
    """a function (dst, ...) that writes between lo and hi bytes at dst and returns their number"""
    def h(eng, st, ins, args, dem):
        n = eng.D.fresh(32, 'textlen', lo, hi)
        havoc_bytes(eng, st, args[0], n if room is None else room, hi if room is None else room)
        return n
    return h


def contract_matching(eng, prefix, handler):
    for m, d in eng.mod.dem.items():
        b = basename(d)
        if b.startswith(prefix):
            eng.contracts[b] = handler


def strlen_model(e, st, ins, a, dem):
    """strlen: exact for string literals, otherwise any length with no NUL before it"""
    p = a[0]
    if isinstance(p, Ptr) and p.obj.const is not None:
        q, t = e.decay(p)
        base = q.path[-1]
        n = e.rt(e.type_at(q.obj, q.path[:-1]))[1]
        for i in range(n):
            v = ld(e, st, Ptr(q.obj, q.path[:-1] + (e.iadd(base, i),)), I8)
            if not isc(v):
                raise Unsupported('strlen of a symbolic constant')
            if v == 0:
                return i
    raise Unsupported('strlen of a text that is not a literal')


def bounded_run(ctx, src, args, function, reason, n, timeout=300):
    """bounded stand-in run on every check: the real function in an instrumented harness"""
    exe, err = build_harness(ctx, src)
    if not exe:
        return dict(function=function, reason=reason, bound='not run', found=False, text='harness does not build: ' + err, evaluations=0)
    rc, out = run_harness(ctx, exe, [ctx.seed, n] + list(args), timeout)
    return dict(function=function, reason=reason, bound='%d pseudo-random inputs, seed %d' % (n, ctx.seed), found=rc not in (0, 124), text=out[-1500:], evaluations=n)
