"""C14 rollback keeps the newest backups and loses only the oldest"""
from devs import *
from c01 import TRUSTED
import c13

ID = 'C14'
LEVEL = 'proof'
ASSUMPTIONS = [
    'the C library keeps its contract: access(F_OK) tells whether the name exists; rename and remove do what they report, or fail and change nothing; std::string members and std::to_string',
    'a log file name ends in .log (what MakeFileName appends); names are compared as texts (no links between the backups)',
    'fewer than 2^31-2 backups exist; nobody else renames the backups during a rollback']
S = 'std::__cxx11::basic_string'
STEM, LOG = ('stem',), tuple('.log')
MAXI = (1 << 31) - 2


class Names:
    """std::string values as sequences of segments: the unknown stem of the log name, single characters, decimal numbers"""

    def __init__(self, eng):
        self.eng, self.D = eng, eng.D
        self.lens = {STEM: self.D.fresh(64, 'stem_length', 0, 1 << 30)}
        self.keep = []
        eng.prefix_models.append((S, self.member))
        eng.prefix_models.append(('std::operator+', self.plus))
        eng.prefix_models.append(('std::operator', self.compare))
        eng.prefix_models.append(('std::allocator', lambda *x: None))
        for f in ('std::to_string', 'std::__cxx11::to_string'):
            eng.contracts[f] = self.to_string
        self.tokens = {}

    def key(self, p):
        if not (isinstance(p, Ptr) and p.obj.kind != 'opaque' and p.obj.const is None):
            raise Unsupported('string object')
        return 'val:%d:%s' % (p.obj.id, ''.join(str(x) for x in p.path))

    def val(self, s, p):
        v = s.ghost.get(self.key(p))
        if v is None:
            raise Unsupported('text of a string is not known')
        return v.v

    def put(self, s, p, segs):
        s.ghost[self.key(p)] = Segs(tuple(segs))

    def text(self, e, s, p):
        """segments of a const char* or std::string"""
        if isinstance(p, Ptr) and p.obj.kind == 'opaque':
            for tok, v in self.tokens.values():
                if tok.eq(p.obj.token):
                    return v
            raise Unsupported('text')
        t = const_text(e, s, p)
        if t is not None:
            return tuple(chr(c) for c in t)
        return self.val(s, p)

    def char(self, c):
        if not isc(c):
            raise Unsupported('character')
        return chr(c & 255)

    def seglen(self, g):
        if isinstance(g, str):
            return z3.IntVal(1)
        k = g if g == STEM else ('dec', g[1].sexpr())
        if k not in self.lens:
            self.lens[k] = self.D.fresh(64, 'digits', 1, 20)
        return self.lens[k]

    def pos(self, v, i):
        """length of the first i segments"""
        r = z3.simplify(z3.Sum([self.seglen(g) for g in v[:i]] + [z3.IntVal(0)]))
        self.keep.append(r)
        if not z3.is_int_value(r):
            self.D.setr(r, 0, 1 << 40)
        return r if not z3.is_int_value(r) else r.as_long()

    def index(self, v, q):
        q = self.D.lift(q)
        for i in range(len(v) + 1):
            d = z3.simplify(q - self.D.lift(self.pos(v, i)))
            if z3.is_int_value(d) and d.as_long() == 0:
                return i
        raise Unsupported('position inside a text')

    def last(self, v, stop):
        for i in range(len(v) - 1, -1, -1):
            g = v[i]
            if g == STEM:
                raise Unsupported('position inside the log name')
            if stop(g):
                return self.pos(v, i)
        return -1

    def member(self, e, s, ins, a, dem):
        m = dem[len(S):]
        depth = 0
        for i, ch in enumerate(m):
            depth += {'<': 1, '>': -1}.get(ch, 0)
            if depth == 0:
                m = m[i + 1:]
                break
        nme = m[2:].split('(')[0].split('[abi')[0].split('<')[0].strip()
        if nme == 'basic_string':
            if len(a) == 1:
                self.put(s, a[0], ())
            elif isinstance(a[1], Ptr):
                self.put(s, a[0], self.text(e, s, a[1]))
                if '(&&)' in m or 'basic_string&&' in m:
                    s.ghost[self.key(a[1])] = None
                if len(a) > 2 and 'allocator' not in m.split('(')[1]:
                    raise Unsupported('string constructor')
            else:
                raise Unsupported('string constructor')
            return None
        if nme.startswith('~'):
            return None
        if nme == 'substr':
            v = self.val(s, a[1])
            i = self.index(v, a[2])
            n = a[3]
            if isc(n) and n in (-1, (1 << 64) - 1):
                j = len(v)
            else:
                j = self.index(v, self.D.lift(a[2]) + self.D.lift(n)) if not (isc(a[2]) and a[2] == 0) else self.index(v, n)
            self.put(s, a[0], v[i:j])
            return None
        v = self.val(s, a[0])
        if nme in ('c_str', 'data'):
            tok = z3.Int(e.nm('cstr'))
            e.fact(tok != 0)
            self.tokens[tok.get_id()] = (tok, v)
            return e.opaque_ptr(tok)
        if nme in ('length', 'size'):
            return self.pos(v, len(v))
        if nme == 'empty':
            return self.D.lift(self.pos(v, len(v))) == 0
        if nme in ('find_last_not_of', 'find_last_of', 'rfind'):
            if not (isc(a[2]) and a[2] in (-1, (1 << 64) - 1)):
                raise Unsupported('search from a position')
            cs = self.text(e, s, a[1]) if isinstance(a[1], Ptr) else (self.char(a[1]),)
            if any(not isinstance(c, str) for c in cs) or nme == 'rfind' and len(cs) != 1:
                raise Unsupported('search')
            dig = set('0123456789')

            def stop(g):
                if isinstance(g, str):
                    return (g in cs) == (nme != 'find_last_not_of')
                if nme == 'find_last_not_of' and dig <= set(cs) or nme != 'find_last_not_of' and not dig & set(cs):
                    return False
                raise Unsupported('position inside a number')
            return self.last(v, stop)
        if nme in ('at', 'back') or nme.startswith('operator[]'):
            i = self.index(v, a[1]) if nme != 'back' else len(v) - 1
            if i >= len(v) or not isinstance(v[i], str):
                raise Unsupported('character of a text')
            o = e.new_obj('char', I8, 'arg')
            k, e.kinds = e.kinds, set()
            e.cur = s
            e.store(s, Ptr(o), I8, ord(v[i]))
            e.kinds = k
            return Ptr(o)
        if nme in ('operator+=', 'append'):
            if len(a) > 2:
                raise Unsupported('append of a part')
            self.put(s, a[0], v + (self.text(e, s, a[1]) if isinstance(a[1], Ptr) else (self.char(a[1]),)))
            return a[0]
        if nme == 'push_back':
            self.put(s, a[0], v + (self.char(a[1]),))
            return None
        if nme in ('operator=', 'assign') and len(a) == 2 and isinstance(a[1], Ptr):
            self.put(s, a[0], self.text(e, s, a[1]))
            return a[0]
        if nme in ('resize', 'erase') and len(a) == (2 if nme == 'resize' else 3):
            if nme == 'erase' and not (isc(a[2]) and a[2] in (-1, (1 << 64) - 1)):
                raise Unsupported('erase')
            self.put(s, a[0], v[:self.index(v, a[1])])
            return a[0]
        if nme == 'pop_back' and v and isinstance(v[-1], str):
            self.put(s, a[0], v[:-1])
            return None
        raise Unsupported('string operation ' + nme)

    def plus(self, e, s, ins, a, dem):
        one = lambda x: self.text(e, s, x) if isinstance(x, Ptr) else (self.char(x),)
        self.put(s, a[0], one(a[1]) + one(a[2]))
        return None

    def compare(self, e, s, ins, a, dem):
        raise Unsupported('string comparison')

    def to_string(self, e, s, ins, a, dem):
        if '(int)' not in dem and '(long)' not in dem and '(long long)' not in dem:
            if 'unsigned' not in dem:
                raise Unsupported('to_string')
        n = self.D.lift(a[1])
        post(e, s, n >= 0, 'backup numbers are not negative')
        if isc(a[1]):
            self.put(s, a[0], tuple(str(a[1])))
        else:
            self.put(s, a[0], ((('dec'), n),))
        return None

    def position(self, v):
        """which file of the chain has this name (None: another file)"""
        if v == (STEM,) + LOG:
            return z3.IntVal(0)
        if v[:6] == (STEM,) + LOG + ('.',) and len(v) > 6:
            r = v[6:]
            if len(r) == 1 and isinstance(r[0], tuple):
                return r[0][1]
            if all(isinstance(c, str) and c.isdigit() for c in r) and (r[0] != '0'):
                return z3.IntVal(int(''.join(r)))
        return None


class Segs:
    """immutable value for the ghost state"""

    def __init__(self, v):
        self.v = v


FILES = z3.ArraySort(z3.IntSort(), z3.IntSort())


class Dirs:
    """files[k]: 0 when backup k (0: the current file) does not exist, otherwise the identity of its content"""

    def __init__(self, eng, nm, st):
        self.eng, self.nm = eng, nm
        self.f0 = z3.Const('files', FILES)
        st.ghost['files'] = self.f0
        k = z3.Int('k_any')
        eng.fact(z3.ForAll([k], z3.Select(self.f0, k) >= 0)) if False else None
        eng.models['access'] = self.access
        eng.models['rename'] = self.rename
        eng.models['remove'] = eng.models['unlink'] = self.remove
        eng.models['__errno_location'] = lambda *x: Ptr(eng.new_obj('errno', I32, 'arg'))

    def where(self, e, s, p):
        n = self.nm.position(self.nm.text(e, s, p))
        if n is None:
            post(e, s, z3.BoolVal(False), 'only the current file and its backups are touched')
            raise Unsupported('file name')
        return n

    def access(self, e, s, ins, a, dem):
        n = self.where(e, s, a[0])
        t = s.fork()
        e.assume(s, s.ghost['files'][n] != 0)
        e.assume(t, t.ghost['files'][n] == 0)
        return [(s, 0), (t, -1)]

    def rename(self, e, s, ins, a, dem):
        x, y = self.where(e, s, a[0]), self.where(e, s, a[1])
        f = s.ghost['files']
        post(e, s, f[x] != 0, 'only existing files are moved')
        post(e, s, f[y] == 0, 'no file is overwritten')
        t = s.fork()
        s.ghost['files'] = z3.Store(z3.Store(f, y, f[x]), x, 0)
        return [(s, 0), (t, -1)]

    def remove(self, e, s, ins, a, dem):
        x = self.where(e, s, a[0])
        f = s.ghost['files']
        post(e, s, f[x] != 0, 'only existing files are removed')
        post(e, s, x == s.ghost['max'], 'only the backup that exceeds the depth is removed')
        t = s.fork()
        s.ghost['files'] = z3.Store(f, x, 0)
        return [(s, 0), (t, -1)]


def chain(f, p, e, mx):
    """the files from p on without a gap end before e; nothing behind max takes part"""
    j = z3.Int('chain_j')
    return z3.And(p <= e, e <= mx + 1, z3.Or(e == mx + 1, f[e] == 0), z3.ForAll([j], z3.Implies(z3.And(p <= j, j < e), f[j] != 0)))


def shifted(f, g, p, e, mx, j):
    """g is f with the files p..e-1 moved up by one, the one at max dropped (at index j)"""
    t = z3.If(e < mx, e, mx)
    return g[j] == z3.If(z3.And(p < j, j <= t), f[j - 1], z3.If(j == p, 0, f[j]))


def stopped(f, g, m, e, mx, j):
    """a step failed: files up to m stayed, those behind moved up (at index j)"""
    t = z3.If(e < mx, e, mx)
    return z3.And(z3.Implies(z3.Or(j <= m, j > t), g[j] == f[j]), z3.Implies(z3.And(m + 1 < j, j <= t), g[j] == f[j - 1]), z3.Implies(z3.And(j == m + 1, j <= t), g[j] == 0))


def body(first):
    def go(ctx):
        eng = Engine(ctx.module('core.cpp'), 'int', 'paths')
        D = eng.D
        libc(eng)
        nm = Names(eng)
        st = State()
        d = Dirs(eng, nm, st)
        mx = D.fresh(32, 'max_depth', 1, (1 << 31) - 1)
        p = 0 if first else D.fresh(32, 'position', 1, MAXI)
        depth = 1 if first else p + 1
        P = D.lift(p)
        if not first:
            D.setr(depth, 2, MAXI + 1)
        e = z3.Int('chain_end')
        eng.watch.update(max_depth=mx, position=P, chain_end=e)
        f0 = d.f0
        st.ghost['max'] = mx
        eng.assume(st, And(mx >= 1, mx <= (1 << 31) - 1, P >= 0, P <= mx, e <= MAXI, chain(f0, P, e, mx)))
        path = eng.new_obj('path', ('st', 'class.std::__cxx11::basic_string'), 'arg')
        nm.put(st, Ptr(path), (STEM,) + LOG + (() if first else ('.', ('dec', P))))

        def rollback(en, s, ins, a, dem):
            q = d.where(en, s, a[0])
            dep, m2 = D.lift(a[1]), D.lift(a[2])
            f = s.ghost['files']
            post(en, s, m2 == mx, 'the depth limit is passed on')
            post(en, s, dep == q + 1, 'the number passed on is that of the next backup')
            post(en, s, And(q <= mx, q > P), 'the next backup is the one that has to make room')
            post(en, s, chain(f, q, e, mx), 'the remaining files have no gap up to the end of the chain')
            g = z3.Const(en.nm('files'), FILES)
            j = z3.Int('r_j')
            t = s.fork()
            s.ghost['files'] = t.ghost['files'] = g
            en.assume(s, z3.ForAll([j], shifted(f, g, q, e, mx, j)))
            m = D.fresh(32, 'stopped_at', 0, MAXI)
            en.assume(t, And(q <= m, m <= mx, m < e, z3.ForAll([j], stopped(f, g, m, e, mx, j))))
            t.ghost['stop'] = m
            return [(s, True), (t, False)]
        eng.contracts['FNLog::FileHandler::rollback'] = rollback
        eng.covers += [('nothing to do', st.hyps() + [f0[P] == 0]), ('gap', st.hyps() + [e > P + 1, e < mx]), ('full', st.hyps() + [e == mx + 1])]
        eng.loop_policy = lambda en, f, h, dd: ('unroll', 40)
        res = run(eng, 'FNLog::FileHandler::rollback', [Ptr(path), depth, mx], st)
        outs = set()
        for s, r in res:
            g = s.ghost['files']
            ok, bad = s.fork(), s.fork()
            eng.assume(ok, B(r) if isb(r) else D.lift(r) != 0)
            eng.assume(bad, Not(B(r) if isb(r) else D.lift(r) != 0))
            j = z3.Int('j')
            if eng.feasible(ok):
                outs.add(True)
                post(eng, ok, shifted(f0, g, P, e, mx, j), 'every file of the chain is now one further, the name is free and nothing else changed')
                post(eng, ok, Implies(And(f0[P] != 0, P < mx), g[P + 1] == f0[P]), 'the file is the next backup')
            if eng.feasible(bad):
                outs.add(False)
                cands = [P, mx] + ([s.ghost['stop']] if 'stop' in s.ghost else [])
                post(eng, bad, Or(*[And(P <= m, m <= mx, m < e, stopped(f0, g, m, e, mx, z3.Int('j%d' % i))) for i, m in enumerate(cands)]), 'after a failed step no content is lost but the one beyond the depth')
        if True not in outs:
            raise Unsupported('no successful path')
        return eng
    return go


def caller(ctx):
    """the file device asks for the configured depth (C13 decides when it does)"""
    eng = c13.unit(ctx)
    eng.obls = [o for o in eng.obls if any(t in o.name for t in ('rollback starts', 'rollback keeps', 'backups are shifted', 'was rolled over', 'opened for appending'))]
    if not any('rollback keeps' in o.name for o in eng.obls):
        raise Unsupported('the file device does not roll over')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('rollback, current file', body(True), par=2, timeout=60), Unit('rollback, a backup', body(False), par=2, timeout=60), Unit('EnterProcOutFileDevice', caller, par=4, timeout=40)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c14.cpp', 300, 3000)
