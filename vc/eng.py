"""Symbolic execution / verification-condition generation over LLVM IR of the real code.

 * acyclic code: executed in topological order, states merged at joins ('merge') or kept apart ('paths')
 * loops: unrolled completely (and the exit proved complete) or cut with invariants (Houdini over candidates)
 * calls: contract if the specification supplies one, else model of an external, else the body is inlined
 * memory: objects with typed structural paths; arrays are lazy terms, reads produce quantifier-free terms
"""
import itertools, re, time, sys
import z3
from ll import Unsupported, basename, tstr
import dom as D_
from dom import isc, isb, And, Or, Not, Implies, Iff, B, csigned

sys.setrecursionlimit(100000)


class Incomplete(Unsupported):
    """loop bound or budget exceeded"""


# ------------------------------------------------------------------ pointers
class Obj:
    _n = itertools.count(1)

    def __init__(self, name, type, kind='obj', **kw):
        self.id = next(Obj._n)
        self.name, self.type, self.kind = name, type, kind
        self.len = None          # extent for ('arr', None, T) objects (term or int)
        self.const = None        # constant initialiser
        self.init = None         # callable (leafpath, leaftype) -> value / Arr
        self.shared = False
        self.token = None
        self.__dict__.update(kw)

    def __repr__(self):
        return '<%s>' % self.name


NULL = Obj('null', None, 'null')


class Ptr:
    __slots__ = ('obj', 'path')

    def __init__(self, obj, path=()):
        self.obj, self.path = obj, path

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.obj.name, self.path)


NULLP = Ptr(NULL)


class PtrU:
    """guarded union of pointers (guards exclusive and exhaustive)"""
    __slots__ = ('alts',)

    def __init__(self, alts):
        self.alts = alts


class PInt:
    """ptrtoint of a pointer"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


def alts(p):
    return p.alts if isinstance(p, PtrU) else [(True, p)]


# ------------------------------------------------------------------ arrays
class Arr:
    pass


class ABase(Arr):
    def __init__(self, fn):
        self.fn = fn


class AStore(Arr):
    def __init__(self, prev, idx, val):
        self.prev, self.idx, self.val = prev, idx, val


class ABlk(Arr):
    def __init__(self, prev, cond, val):
        self.prev, self.cond, self.val = prev, cond, val


class AIte(Arr):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class State:
    __slots__ = ('env', 'mem', 'pc', 'ghost')

    def __init__(self):
        self.env = {}
        self.mem = {}
        self.pc = ()       # tuple of ('b'|'a', z3 bool)
        self.ghost = {}

    def fork(self):
        s = State()
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.pc = self.pc
        s.ghost = dict(self.ghost)
        return s

    def hyps(self):
        return [c for _, c in self.pc]


class Obl:
    __slots__ = ('name', 'kind', 'hyps', 'goal', 'where', 'extra', 'status', 'model', 'time', 'backend', 'watch')

    def __init__(self, name, kind, hyps, goal, where, extra=None):
        self.name, self.kind, self.hyps, self.goal, self.where, self.extra = name, kind, hyps, goal, where, extra
        self.status = None
        self.model = None
        self.time = 0
        self.backend = None
        self.watch = None


class Throw:
    pass


THROW = Throw()         # result of a call that ends with an exception (std::exception or derived)


class Engine:
    def __init__(self, mod, domain='int', mode='merge', kinds=('bounds', 'null', 'nsw', 'shift', 'div', 'user', 'pre', 'clz', 'inv')):
        self.mod = mod
        self._n = itertools.count()
        self.facts = []            # (z3 bool, frozenset(symbol ids))
        self.D = D_.IntDom(self) if domain == 'int' else D_.BVDom(self)
        self.mode = mode
        self.kinds = set(kinds)
        self.obls = []
        self.contracts = {}        # qualified base name -> handler(eng, st, inst, args, mangled)
        self.models = {}           # same, library models
        self.flt = None            # floating-point specification (flt.Flt), otherwise uninterpreted
        self._known = (None, set())
        self.prefix_models = []    # (prefix of the qualified name, handler)
        self.loop_policy = lambda eng, f, h, depth: ('unroll', 80)
        self.cur = None            # current state (for oblige)
        self.where = []
        self.globobj = {}
        self.funobj = {}
        self.calls_inlined = {}
        self.contract_used = {}
        self.assumed = set()
        self.functions = {}
        self.rmemo = {}
        self.on_atomic = None
        self.hook_plain = False
        self.feas_ms = None
        self.cand_ms = 3000
        self.typeids = {}
        self.thrown = ('_ZTISt12system_error', '_ZTISt13runtime_error', '_ZTISt9exception')      # types an exception of a contract is caught as
        self.join_skip = None
        self.order, self.weak = None, False
        self.indirect = None
        self.suspend = 0
        self.deadline = None
        self._fid = {}
        self.stack_depth = 0
        self.nsolve = 0
        self.tsolve = 0
        self.loop_info = []
        self.watch = {}
        self.thread_local_zero = False
        self.covers = []
        self.pure_inline = True
        self._fv = {}
        self._fidx, self._fidx_n, self._fclosed = {}, 0, []

    # ------------------------------------------------ misc
    def nm(self, base):
        return '%s!%d' % (base, next(self._n))

    def wants(self, kind):
        return kind in self.kinds

    def fact(self, f):
        if isinstance(f, bool):
            if f:
                return
            f = z3.BoolVal(False)
        if z3.is_true(f):
            return
        self.facts.append((f, self.fv(f)))

    def fv(self, t):
        """free symbols (ids of uninterpreted decls; applications of UFs are keyed by the whole term)"""
        r = self._fv.get(t.get_id())
        if r is not None:
            return r[0]
        out = set()
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            i = x.get_id()
            if i in seen:
                continue
            seen.add(i)
            c = self._fv.get(i)
            if c is not None:
                out |= c[0]
                continue
            if z3.is_app(x):
                if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(i)
                    self._fvkeep = getattr(self, '_fvkeep', [])
                    self._fvkeep.append(x)
                st.extend(x.children())
            elif z3.is_quantifier(x):
                st.append(x.body())
        r = frozenset(out)
        self._fv[t.get_id()] = (r, t)
        return r

    def relevant(self, fs):
        """facts transitively connected to the formulas"""
        syms = set()
        for f in fs:
            syms |= self.fv(f)
        idx = self._fidx
        for k in range(self._fidx_n, len(self.facts)):
            for x in self.facts[k][1]:
                idx.setdefault(x, []).append(k)
            if not self.facts[k][1]:
                self._fclosed.append(k)
        self._fidx_n = len(self.facts)
        chosen = set()
        work = list(syms)
        while work:
            x = work.pop()
            for k in idx.get(x, ()):
                if k not in chosen:
                    chosen.add(k)
                    for y in self.facts[k][1]:
                        if y not in syms:
                            syms.add(y)
                            work.append(y)
        chosen.update(self._fclosed)
        return [self.facts[k][0] for k in sorted(chosen)]

    def oblige(self, kind, goal, what, st=None):
        st = st or self.cur
        if kind not in self.kinds:
            return
        if goal is True or (not isinstance(goal, bool) and z3.is_true(goal)):
            if kind == 'user' and not self.suspend:
                o = Obl('%s: %s' % (self.where[-1] if self.where else '?', what), kind, [], B(True), list(self.where))
                o.status, o.backend = 'proved', 'rewriting'
                self.obls.append(o)
            return
        if not isinstance(goal, bool) and self.known(st, goal):
            if not self.suspend:
                o = Obl('%s: %s' % (self.where[-1] if self.where else '?', what), kind, [], goal, list(self.where))
                o.status, o.backend = 'proved', 'rewriting'
                self.obls.append(o)
            return
        if not self.suspend:
            self.obls.append(Obl('%s: %s' % (self.where[-1] if self.where else '?', what), kind, st.hyps(), B(goal), list(self.where)))
        st.pc = st.pc + (('a', B(goal)),)

    def known(self, st, goal):
        """is every conjunct of the goal literally one of the hypotheses of the state"""
        gs = goal.children() if z3.is_and(goal) else [goal]
        pc = st.pc
        memo = self._known
        if memo[0] is not pc:
            ids = set()
            if memo[0] and len(pc) > len(memo[0]) and pc[len(memo[0]) - 1] is memo[0][-1] and pc[:len(memo[0])] == memo[0]:
                ids, new = memo[1], pc[len(memo[0]):]
            else:
                new = pc
            for _, f in new:
                if z3.is_expr(f):
                    ids.add(f.get_id())
                    if z3.is_and(f):
                        ids.update(c.get_id() for c in f.children())
            self._known = memo = (pc, ids)
        return all(g.get_id() in memo[1] for g in gs)

    def assume(self, st, f):
        if f is True:
            return
        st.pc = st.pc + (('a', B(f)),)

    def solver(self, timeout):
        s = z3.Solver()
        s.set('timeout', timeout)
        return s

    def check(self, hyps, goal=None, timeout=3000):
        """'unsat' / 'sat' / 'unknown' of hyps /\\ not goal"""
        fs = [B(h) for h in hyps]
        if goal is not None:
            if goal is True:
                return 'unsat'
            fs.append(z3.Not(B(goal)))
        s = self.solver(timeout)
        cr, so = s.ctx.ref(), s.solver
        for f in fs:
            z3.Z3_solver_assert(cr, so, f.ast)
        for f in self.relevant(fs):
            z3.Z3_solver_assert(cr, so, f.ast)
        t = time.time()
        r = str(s.check())
        self.nsolve += 1
        self.tsolve += time.time() - t
        return r

    def feasible(self, st, timeout=2000):
        if self.feas_ms:
            timeout = self.feas_ms
        return self.check(st.hyps(), None, timeout) != 'unsat'

    def tick(self):
        if self.deadline and time.time() > self.deadline:
            raise Incomplete('time budget of the generator exceeded')

    # ------------------------------------------------ types / paths
    def rt(self, t):
        return self.mod.resolve(t)

    def type_at(self, obj, path):
        t = obj.type
        for s in path:
            t = self.rt(t)
            if t[0] == 'arr':
                t = t[2]
            elif t[0] == 'lst':
                t = t[1][s]
            else:
                raise Unsupported('path into scalar %s %s' % (obj.name, path))
        return t

    def step_types(self, obj, path):
        out = []
        t = obj.type
        for s in path:
            t = self.rt(t)
            out.append(t)
            t = t[2] if t[0] == 'arr' else t[1][s]
        return out, t

    def is_agg(self, t):
        t = self.rt(t)
        return isinstance(t, tuple) and t[0] in ('arr', 'lst')

    def decay(self, p):
        """descend to the first scalar leaf"""
        t = self.type_at(p.obj, p.path)
        path = p.path
        while self.is_agg(t):
            r = self.rt(t)
            if r[0] == 'arr':
                t = r[2]
            else:
                if not r[1]:
                    raise Unsupported('access to empty struct')
                t = r[1][0]
            path = path + (0,)
        return Ptr(p.obj, path), t

    def field_path(self, tname, offset, size=None):
        """path of the (outermost) field of a struct that starts at byte offset"""
        t = ('st', tname)
        return self._path_at(t, offset, size)

    def _path_at(self, t, offset, size=None):
        path = ()
        while True:
            if offset == 0 and size is not None and self.mod.size(t) == size:
                return path
            r = self.rt(t)
            if not (isinstance(r, tuple) and r[0] in ('arr', 'lst')):
                if offset == 0:
                    return path
                raise Unsupported('offset inside scalar')
            if offset == 0 and path and size is None:
                return path
            if r[0] == 'arr':
                es = self.mod.size(r[2])
                path += (offset // es,)
                offset %= es
                t = r[2]
            else:
                offs = self.mod.layout(r)[2]
                k = max(i for i, o in enumerate(offs) if o <= offset)
                # zero-sized fields: choose the last one starting there
                path += (k,)
                offset -= offs[k]
                t = r[1][k]

    def struct_name(self, short):
        for pre in ('struct.', 'class.'):
            for q in ('FNLog::', ''):
                if pre + q + short in self.mod.types:
                    return pre + q + short
        raise Unsupported('type %s not found' % short)

    def field(self, short, fld):
        """path of the named field (byte offset obtained from the compiler through a probe constant)"""
        off = self.mod.const_int('vp_off__%s__%s' % (short, fld))
        return self.field_path(self.struct_name(short), off)

    # ------------------------------------------------ array terms
    def idx_eq(self, i, j):
        r = []
        for a, b in zip(i, j):
            if isc(a) and isc(b):
                if a != b:
                    return False
                continue
            if not isc(a) and not isc(b) and a.get_id() == b.get_id():
                continue
            k = (a if isc(a) else ('t', a.get_id()), b if isc(b) else ('t', b.get_id()))
            e = self._eqc.get(k) if hasattr(self, '_eqc') else None
            if e is None:
                if self.D.name == 'int':
                    (la, ha), (lb, hb) = self.D.range(a), self.D.range(b)
                    if ha < lb or hb < la:
                        e = False
                    else:
                        e = z3.simplify(self.D.lift(a) == self.D.lift(b))
                else:
                    e = z3.simplify(self.D.eq(a, b))
                if not isinstance(e, bool):
                    if z3.is_true(e):
                        e = True
                    elif z3.is_false(e):
                        e = False
                if not hasattr(self, '_eqc'):
                    self._eqc = {}
                self._eqc[k] = e
                self._eqk = getattr(self, '_eqk', [])
                self._eqk.append((a, b))
            if e is False:
                return False
            if e is not True:
                r.append(e)
        return And(r)

    def read(self, arr, idx):
        key = (id(arr), tuple(i if isc(i) else ('t', i.get_id()) for i in idx))
        r = self.rmemo.get(key)
        if r is not None:
            return r[0]
        # iterative walk down stores
        stack = []
        a = arr
        val = None
        while True:
            k2 = (id(a), key[1])
            m = self.rmemo.get(k2)
            if m is not None:
                val = m[0]
                break
            if isinstance(a, AStore):
                c = self.idx_eq(a.idx, idx)
                if c is True:
                    val = a.val
                    break
                if c is not False:
                    stack.append((c, a.val))
                a = a.prev
            elif isinstance(a, ABlk):
                c = a.cond(idx)
                if c is True:
                    val = a.val(idx)
                    break
                if c is not False:
                    stack.append((c, a.val(idx)))
                a = a.prev
            elif isinstance(a, AIte):
                x = self.read(a.a, idx)
                y = self.read(a.b, idx)
                val = self.merge_val(a.c, x, y)
                break
            else:
                val = a.fn(idx)
                break
        for c, v in reversed(stack):
            val = self.merge_val(c, v, val)
        self.rmemo[key] = (val, arr, idx)
        return val

    def base(self, name, ty, ndims, on_read=None):
        """unconstrained array (or scalar when ndims == 0) of leaf type ty"""
        w = ty[1] if isinstance(ty, tuple) and ty[0] == 'i' else None
        if w is not None:
            if ndims == 0:
                if w == 1:
                    return z3.Bool(self.nm(name))
                return self.D.fresh(w, name)
            isort = z3.IntSort() if self.D.name == 'int' else z3.BitVecSort(64)
            f = z3.Function(self.nm(name), *([isort] * ndims), self.D.sort(w) if w > 1 else z3.BoolSort())

            def fn(idx):
                v = f(*[self.ix(i) for i in idx])
                if w > 1:
                    v = self.D.fromleaf(w, v)
                if on_read:
                    on_read(idx, v)
                return v
            b = ABase(fn)
            b.z3f = f
            return b
        if ty == 'ptr':
            if ndims == 0:
                return self.opaque_ptr(z3.Int(self.nm(name)))
            isort = z3.IntSort() if self.D.name == 'int' else z3.BitVecSort(64)
            f = z3.Function(self.nm(name), *([isort] * ndims), z3.IntSort())
            return ABase(lambda idx: self.opaque_ptr(f(*[self.ix(i) for i in idx])))
        if ty in ('double', 'float', 'x86_fp80'):
            S = self.fsort(ty)
            if ndims == 0:
                return z3.Const(self.nm(name), S)
            isort = z3.IntSort() if self.D.name == 'int' else z3.BitVecSort(64)
            f = z3.Function(self.nm(name), *([isort] * ndims), S)
            return ABase(lambda idx: f(*[self.ix(i) for i in idx]))
        raise Unsupported('leaf type %s' % (ty,))

    def flt_op(self, st, ins, op, a):
        """floating-point instruction with the IEEE-754 specification of flt.py"""
        F, env = self.flt, st.env
        if op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem') and a['t'] in ('double', 'float'):
            env[ins.res] = F.arith(op, self.val(st, a['x'], a['t']), self.val(st, a['y'], a['t']), a['t'])
        elif op == 'fneg' and a['t'] in ('double', 'float'):
            env[ins.res] = F.neg(self.val(st, a['x'], a['t']), a['t'])
        elif op == 'fcmp' and a['t'] in ('double', 'float'):
            env[ins.res] = F.cmp(a['p'], self.val(st, a['x'], a['t']), self.val(st, a['y'], a['t']))
        elif op in ('fptoui', 'fptosi') and a['t'] in ('double', 'float'):
            env[ins.res] = F.toint(st, self.val(st, a['x'], a['t']), a['tt'][1], op == 'fptosi')
        elif op in ('uitofp', 'sitofp') and a['tt'] in ('double', 'float'):
            env[ins.res] = F.fromint(self.ival(st, a['x'], a['t']), a['t'][1], op == 'sitofp', a['tt'])
        elif op in ('fpext', 'fptrunc') and a['t'] in ('double', 'float') and a['tt'] in ('double', 'float'):
            env[ins.res] = (F.ext if op == 'fpext' else F.trunc_to)(self.val(st, a['x'], a['t']), a['tt'])
        else:
            return False
        return True

    def fsort(self, ty):
        return z3.DeclareSort('F_' + str(ty))

    def ix(self, i):
        if self.D.name == 'int':
            return self.D.lift(i)
        if isc(i):
            return z3.BitVecVal(i, 64)
        if i.size() < 64:
            return z3.SignExt(64 - i.size(), i)
        return i

    def opaque_ptr(self, token):
        k = ('op', token.get_id())
        o = self._fid.get(k)
        if o is None:
            o = Obj('opaque', None, 'opaque', token=token)
            self._fid[k] = o
        return Ptr(o)

    # ------------------------------------------------ value merging
    def merge_val(self, c, a, b):
        if a is b or c is True:
            return a
        if c is False:
            return b
        if isinstance(a, bool) or isinstance(b, bool) or (isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef)):
            if isinstance(a, bool) and isinstance(b, bool) and a == b:
                return a
            if a is True and b is False:
                return c
            if a is False and b is True:
                return Not(c)
            return z3.If(B(c), B(a), B(b))
        if isc(a) and isc(b) and a == b:
            return a
        if isinstance(a, (Ptr, PtrU)) and isinstance(b, (Ptr, PtrU)):
            return self.merge_ptr(c, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            return AIte(c, a, b)
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.get_id() == b.get_id():
            return a
        if hasattr(a, 'merge'):
            return a.merge(self, c, b)
        if isinstance(a, PInt) and isinstance(b, PInt):
            return PInt(self.merge_ptr(c, a.p, b.p))
        if isinstance(a, (z3.ArithRef, z3.BitVecRef)) or isinstance(b, (z3.ArithRef, z3.BitVecRef)) or (isc(a) and isc(b)):
            if isinstance(a, PInt) or isinstance(b, PInt):
                a = self.pint(a) if isinstance(a, PInt) else a
                b = self.pint(b) if isinstance(b, PInt) else b
            if isc(a) and isc(b) and self.D.name == 'bv':
                return BVIte(self, c, a, b)
            return self.D.ite(c, self.demote(a, b), self.demote(b, a))
        if isinstance(a, BVIte) or isinstance(b, BVIte):
            return BVIte(self, c, a, b)
        if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
            return z3.If(B(c), a, b)
        if a is None or b is None:
            return a if b is None else b
        raise Unsupported('merge of %r and %r' % (type(a), type(b)))

    def demote(self, a, other):
        if isinstance(a, BVIte):
            return a.to(other.size())
        return a

    def merge_ptr(self, c, a, b):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.obj is b.obj and len(a.path) == len(b.path):
                st, _ = self.step_types(a.obj, a.path) if a.path else ([], None)
                ok = True
                for x, y, t in zip(a.path, b.path, st):
                    if t[0] == 'lst' and x != y:
                        ok = False
                if ok:
                    path = tuple(x if (isc(x) and isc(y) and x == y) or x is y else self.merge_idx(c, x, y) for x, y in zip(a.path, b.path))
                    return Ptr(a.obj, path)
        out = []
        for g, p in alts(a):
            out.append((And(c, g), p))
        for g, p in alts(b):
            out.append((And(Not(c), g), p))
        # join alternatives on the same object/shape
        res = []
        for g, p in out:
            for k, (g2, p2) in enumerate(res):
                if p2.obj is p.obj and len(p2.path) == len(p.path):
                    m = None
                    if all((isc(x) and isc(y) and x == y) or x is y for x, y in zip(p.path, p2.path)):
                        m = p
                    else:
                        q = self.merge_ptr(g, p, p2)
                        if isinstance(q, Ptr):
                            m = q
                    if m is not None:
                        res[k] = (Or(g2, g), m)
                        break
            else:
                res.append((g, p))
        if len(res) == 1:
            return res[0][1]
        return PtrU(res)

    def merge_idx(self, c, x, y):
        if self.D.name == 'bv':
            return z3.If(B(c), self.ix(x), self.ix(y))
        return self.D.ite(c, x, y)

    def merge_states(self, sts):
        if len(sts) == 1:
            return sts[0]
        # common prefix of path conditions
        n = min(len(s.pc) for s in sts)
        k = 0
        while k < n and all(s.pc[k][1] is sts[0].pc[k][1] or s.pc[k][1].get_id() == sts[0].pc[k][1].get_id() for s in sts):
            k += 1
        conds = []
        extra = []
        for s in sts:
            br = []
            for kind, c in s.pc[k:]:
                if kind == 'b':
                    br.append(c)
                else:
                    extra.append(Implies(And(br), c))
            conds.append(And(br))
        r = State()
        pc = list(sts[0].pc[:k])
        for e in extra:
            if e is not True:
                pc.append(('a', B(e)))
        dj = self.disj(conds)
        if dj is not True:
            pc.append(('b', B(dj)))
        r.pc = tuple(pc)

        def mg(vals):
            v = vals[-1]
            for c, x in zip(reversed(conds[:-1]), reversed(vals[:-1])):
                if x is v:
                    continue
                v = self.merge_val(c, x, v)
            return v
        e0 = sts[0].env
        env = {}
        for nme, v in e0.items():
            vals = [v]
            same = True
            for s in sts[1:]:
                if nme not in s.env:
                    break
                x = s.env[nme]
                if x is not v:
                    same = False
                vals.append(x)
            else:
                if same:
                    env[nme] = v
                else:
                    try:
                        env[nme] = mg(vals)
                    except Unsupported:
                        pass      # only live values matter; a dead one of mixed kinds is dropped
        r.env = env
        keys = set()
        for s in sts:
            keys |= s.mem.keys()
        mem = {}
        for key in keys:
            vals = []
            for s in sts:
                if key in s.mem:
                    vals.append(s.mem[key])
                else:
                    vals.append(self.leaf_init(key))
            if all(v is vals[0] for v in vals):
                mem[key] = vals[0]
            else:
                mem[key] = mg(vals)
        r.mem = mem
        g = {}
        gk = set()
        for s in sts:
            gk |= s.ghost.keys()
        for key in gk:
            vals = [s.ghost.get(key) for s in sts]
            if all(v is vals[0] for v in vals):
                g[key] = vals[0]
            elif any(v is None for v in vals):
                vv = [v for v in vals if v is not None]
                dflt = self.ghost_default(key)
                if dflt is not None:
                    g[key] = mg([dflt if v is None else v for v in vals])
                else:
                    cs = [c for c, v in zip(conds, vals) if v is not None]
                    v = vv[-1]
                    for c, x in zip(reversed(cs[:-1]), reversed(vv[:-1])):
                        if x is not v:
                            v = self.merge_val(c, x, v)
                    g[key] = v
            else:
                g[key] = mg(vals)
        r.ghost = g
        return r

    def ghost_default(self, key):
        return None

    def disj(self, conds):
        """disjunction, recognising complementary branch conditions"""
        def lits(c):
            if c is True:
                return ()
            if z3.is_and(c):
                return tuple(c.children())
            return (c,)
        cs = [list(lits(c)) for c in conds]
        changed = True
        while changed:
            changed = False
            for i in range(len(cs)):
                for j in range(i + 1, len(cs)):
                    a, b = cs[i], cs[j]
                    if a and b and len(a) == len(b):
                        ia = {x.get_id() for x in a}
                        da = [x for x in a if x.get_id() not in {y.get_id() for y in b}]
                        db = [y for y in b if y.get_id() not in ia]
                        if len(da) == 1 and len(db) == 1 and self.compl(da[0], db[0]):
                            cs[i] = [x for x in a if x is not da[0]]
                            del cs[j]
                            changed = True
                            break
                    # subsumption
                    if not a or not b:
                        return True
                if changed:
                    break
        if any(not c for c in cs):
            return True
        return Or([And(c) for c in cs])

    def compl(self, a, b):
        if z3.is_not(a) and a.arg(0).get_id() == b.get_id():
            return True
        if z3.is_not(b) and b.arg(0).get_id() == a.get_id():
            return True
        x = z3.simplify(z3.Not(a))
        y = z3.simplify(b)
        return x.get_id() == y.get_id()

    # ------------------------------------------------ memory
    def leaf(self, p):
        """-> (key, idx, leaftype) of a fully decayed pointer, with bounds obligations"""
        t = p.obj.type
        key = []
        idx = []
        for s in p.path:
            t = self.rt(t)
            if t[0] == 'arr':
                n = t[1]
                if n is None:
                    n = p.obj.len
                if n is not None:
                    self.bounds(s, n, p)
                key.append('*')
                idx.append(s)
                t = t[2]
            else:
                key.append(s)
                t = t[1][s]
        return (p.obj.id, tuple(key)), tuple(idx), t

    def bounds(self, i, n, p):
        if isc(i) and isc(n):
            if not 0 <= i < n:
                self.oblige('bounds', False, 'index %d outside %s[%d]' % (i, p.obj.name, n))
            return
        D = self.D
        if D.name == 'int':
            lo, hi = D.range(i)
            if isc(n) and lo >= 0 and hi < n:
                return
            g = z3.And(D.lift(i) >= 0, D.lift(i) < D.lift(n))
        else:
            g = z3.ULT(self.ix(i), self.ix(n))
        self.oblige('bounds', g, 'index within %s' % p.obj.name)

    objs = {}

    def new_obj(self, name, type, kind='obj', **kw):
        o = Obj(name, type, kind, **kw)
        self.objs = getattr(self, '_objs', None) or {}
        self._objs = self.objs
        self.objs[o.id] = o
        self._inits = getattr(self, '_inits', {})
        return o

    def leaf_type(self, key):
        o = self.objs[key[0]]
        t = o.type
        for s in key[1]:
            t = self.rt(t)
            t = t[2] if t[0] == 'arr' else t[1][s]
        return t

    def leaf_init(self, key):
        v = self._inits.get(key)
        if v is None:
            o = self.objs[key[0]]
            nd = key[1].count('*')
            ty = self.leaf_type(key)
            if o.init:
                v = o.init(key[1], ty, nd)
            if v is None and o.const is not None:
                v = self.const_leaf(o, key[1], ty, nd)
            if v is None:
                v = self.base('%s%s' % (o.name, ''.join('.%s' % s for s in key[1])), ty, nd)
            self._inits[key] = v
        return v

    def const_leaf(self, o, lp, ty, nd):
        def get(v, path, t):
            for s in path:
                if v[0] == 'zero':
                    break
                if v[0] == 'cstr':
                    return ('int', csigned(8, v[1][s]))
                v = v[1][s][1]
            return v
        if nd == 0:
            return self.const_val(get(o.const, lp, o.type), ty)

        def fn(idx):
            it = iter(idx)
            path = [next(it) if s == '*' else s for s in lp]
            if all(isc(x) for x in path):
                try:
                    return self.const_val(get(o.const, path, o.type), ty)
                except IndexError:
                    return self.base('oob', ty, 0)
            return self.const_table(o, lp, idx, ty, get)
        return ABase(fn)

    def const_table(self, o, lp, idx, ty, get):
        """symbolic read of a constant table"""
        sym = [k for k, i in enumerate(idx) if not isc(i)]
        if len(sym) != 1:
            raise Unsupported('constant table with several symbolic indices')
        # extent
        t = o.type
        ext = None
        k = 0
        for s in lp:
            t = self.rt(t)
            if s == '*':
                if k == sym[0]:
                    ext = t[1]
                k += 1
                t = t[2]
            else:
                t = t[1][s]
        vals = []
        for v in range(ext):
            ii = list(idx)
            ii[sym[0]] = v
            it = iter(ii)
            vals.append(self.const_val(get(o.const, [next(it) if s == '*' else s for s in lp], o.type), ty))
        i = idx[sym[0]]
        if all(isc(v) for v in vals):
            r = self.table_closed(vals, i, ty[1])
            if r is not None:
                return r
        r = vals[-1]
        for v in range(ext - 2, -1, -1):
            r = self.merge_val(self.D.eq(i, v), vals[v], r) if not (isc(vals[v]) and isc(r) and vals[v] == r) else r
        if isinstance(r, BVIte):
            r = r.to(ty[1])
        return r

    def table_closed(self, vals, i, w):
        """closed forms for digit tables; every entry is compared, deviating entries become exceptions"""
        D = self.D
        n = len(vals)
        if w != 8 or n < 12:
            return None

        def hx(d):
            return 48 + d if d < 10 else 55 + d
        cands = {
            'dec2': lambda k: 48 + ((k // 2) // 10 if k % 2 == 0 else (k // 2) % 10),
            'hex2': lambda k: hx((k // 2) // 16 % 16 if k % 2 == 0 else (k // 2) % 16),
            'hex1': lambda k: hx(k),
        }
        for nm, f in cands.items():
            bad = [k for k in range(n) if vals[k] != f(k)]
            if len(bad) <= min(6, n // 4):
                if D.name == 'int':
                    x = i
                    if nm == 'hex1':
                        r = z3.If(D.lift(x) < 10, D.lift(x) + 48, D.lift(x) + 55)
                    else:
                        base = 10 if nm == 'dec2' else 16
                        h, lo = self.halve(x)
                        a, b = D._divmod(h, base)

                        def dg(d):
                            return D.lift(d) + 48 if base == 10 else z3.If(D.lift(d) < 10, D.lift(d) + 48, D.lift(d) + 55)
                        if isc(lo):
                            r = dg(b) if lo else dg(a)
                        else:
                            r = z3.If(lo == 0, dg(a), dg(b))
                    D.setr(r, -128, 127) if nm != 'dec2' else None
                    # valid only inside the table (the bounds obligation guards the access)
                    v = z3.Int(self.nm('tab'))
                    X = D.lift(x)
                    self.fact(z3.Implies(z3.And(X >= 0, X < n, *[X != k for k in bad]), v == r))
                    for k in bad:
                        self.fact(z3.Implies(X == k, v == vals[k]))
                    D.setr(v, min(vals), max(vals))
                    self.fact(z3.And(v >= min(vals), v <= max(vals)))
                    return v
                else:
                    x = self.ix(i)
                    if nm == 'hex1':
                        r = z3.If(z3.ULT(x, 10), x + 48, x + 55)
                    else:
                        base = 10 if nm == 'dec2' else 16
                        h = z3.LShR(x, 1)
                        a, b = z3.UDiv(h, z3.BitVecVal(base, 64)), z3.URem(h, z3.BitVecVal(base, 64))
                        if base == 16:
                            a, b = z3.LShR(h, 4) & 15, h & 15
                        dg = lambda d: z3.If(z3.ULT(d, 10), d + 48, d + 55)
                        r = z3.If(x & 1 == 0, dg(a), dg(b))
                    r = z3.Extract(7, 0, r)
                    for k in bad:
                        r = z3.If(x == k, z3.BitVecVal(vals[k], 8), r)
                    return r
        return None

    def halve(self, x):
        """x = 2*h + l (integer mode), recognising even linear terms syntactically"""
        s = z3.simplify(x, som=True)
        terms = s.children() if z3.is_add(s) else [s]
        c = 0
        rest = []
        ok = True
        for t in terms:
            if z3.is_int_value(t):
                c += t.as_long()
            elif z3.is_mul(t) and z3.is_int_value(t.arg(0)) and t.arg(0).as_long() % 2 == 0:
                k = t.arg(0).as_long() // 2
                rest.append(t.arg(1) if k == 1 else t.arg(1) * k)
            else:
                ok = False
        if ok and rest:
            h = rest[0]
            for r in rest[1:]:
                h = h + r
            if c // 2:
                h = h + c // 2
            lo, hi = self.D.range(x)
            if h.get_id() not in self.D.rng:
                self.D.setr(h, lo // 2 if lo > -self.D.INF else -self.D.INF, hi // 2 if hi < self.D.INF else self.D.INF)
            return h, c % 2
        return self.D._divmod(x, 2)

    def const_val(self, v, ty):
        k = v[0]
        if k == 'int':
            if ty == ('i', 1):
                return bool(v[1])
            return csigned(ty[1], v[1]) if isinstance(ty, tuple) else v[1]
        if k == 'zero':
            if ty == 'ptr':
                return NULLP
            if ty in ('double', 'float'):
                return self.flt.const(0.0, ty) if self.flt else z3.Const('fp_0', self.fsort(ty))
            if ty == ('i', 1):
                return False
            if self.is_agg(ty):
                raise Unsupported('aggregate zero value')
            return 0
        if k == 'null':
            return NULLP
        if k in ('undef', 'poison'):
            if self.is_agg(ty):
                r = self.rt(ty)
                return tuple(None for _ in r[1]) if r[0] == 'lst' else None
            return self.base('undef', ty, 0)
        if k == 'glob':
            return self.glob_ptr(v[1])
        if k == 'fp':
            if self.flt and ty in ('double', 'float'):
                c = self.flt.const(v[1], ty)
                if c is not None:
                    return c
            return z3.Const('fp_%s' % (v[1],), self.fsort(ty))
        if k == 'cgep':
            b = self.const_val(v[2], 'ptr')
            return self.gep(v[1], b, [(t, self.const_val(x, t)) for t, x in v[3]])
        if k == 'ccast':
            if v[1] == 'ptrtoint':
                return PInt(self.const_val(v[3], 'ptr'))
            if v[1] == 'inttoptr':
                x = self.const_val(v[3], v[2])
                if x == 0:
                    return NULLP
                return self.opaque_ptr(z3.IntVal(x))
            return self.const_val(v[3], v[2])
        if k == 'agg':
            return tuple(self.const_val(e, t) for t, e in v[1])
        raise Unsupported('constant %s' % (v,))

    def glob_ptr(self, name):
        if name in self.mod.funcs or name in self.mod.decls:
            o = self.funobj.get(name)
            if o is None:
                o = self.funobj[name] = Obj('&' + name, None, 'func', fname=name)
            return Ptr(o)
        o = self.globobj.get(name)
        if o is None:
            t, v, const = self.mod.gdef(name)
            if name.startswith('_ZGV'):
                t, v = ('i', 8), None      # guard of a function-local static: only its first byte is used
            o = self.new_obj('@' + name, t, 'global')
            if v is not None and (const or self.mod.never_stored(name)):
                o.const = v
            o.gname = name
            o.isconst = const
            self.globobj[name] = o
        return Ptr(o)

    def load(self, st, p, ty):
        if isinstance(p, PtrU):
            r = None
            oldpc = st.pc
            post = []
            for g, q in reversed(p.alts):
                st.pc = oldpc + (('b', B(g)),)
                if q.obj.kind == 'null':
                    self.oblige('null', False, 'null pointer read', st)
                    v = None
                else:
                    v = self.load(st, q, ty)
                post += [B(Implies(g, c)) for k, c in st.pc[len(oldpc) + 1:] if k == 'a']
                if v is not None:
                    r = v if r is None else self.merge_val(g, v, r)
            st.pc = oldpc + tuple(('a', f) for f in post)
            if r is None:
                r = self.base('nullread', ty, 0)
            return r
        o = p.obj
        if o.kind == 'null':
            self.oblige('null', False, 'null pointer read', st)
            return self.base('nullread', ty, 0)
        if o.kind in ('opaque', 'func'):
            raise Unsupported('load through opaque pointer')
        if self.is_agg(ty):
            r = self.rt(ty)
            if r[0] == 'lst':
                return tuple(self.load(st, self.gep1(p, ty, k), ft) for k, ft in enumerate(r[1]))
            raise Unsupported('aggregate load')
        q, lt = self.decay(p)
        if lt != ty and self.mod.size(lt) != self.mod.size(ty):
            return self.load_bytes(st, q, lt, ty)
        key, idx, lt = self.leaf(q)
        a = st.mem.get(key)
        if a is None:
            a = self.leaf_init(key)
            st.mem[key] = a
        v = self.read(a, idx) if isinstance(a, Arr) else a
        if lt != ty:
            if ty == 'ptr' and isinstance(lt, tuple):
                if isinstance(v, PInt):
                    return v.p
                raise Unsupported('integer loaded as pointer')
            if lt == 'ptr':
                return PInt(v)
            if ty in ('double', 'float') or lt in ('double', 'float'):
                raise Unsupported('type pun')
        if isinstance(v, BVIte):
            v = v.to(ty[1])
        return v

    def load_bytes(self, st, q, lt, ty):
        if lt == ('i', 8) and isinstance(ty, tuple) and ty[0] == 'i':
            n = self.mod.size(ty)
            bs = []
            for k in range(n):
                bs.append(self.load(st, self.bump(q, k), ('i', 8)))
            return self.D.bytes_join(bs)
        if isinstance(lt, tuple) and lt[0] == 'i' and isinstance(ty, tuple) and ty[0] == 'i' and self.mod.size(ty) < self.mod.size(lt):
            v = self.load(st, q, lt)
            return self.D.trunc(lt[1], ty[1], v)
        raise Unsupported('load of %s from %s' % (tstr(ty), tstr(lt)))

    def bump(self, p, k):
        """pointer to the k-th following element of the array p points into"""
        if k == 0:
            return p
        return Ptr(p.obj, p.path[:-1] + (self.iadd(p.path[-1], k),))

    def iadd(self, a, b):
        if isc(a) and isc(b):
            return a + b
        if self.D.name == 'bv':
            return self.D._s(self.ix(a) + self.ix(b))
        return self.D.add(128, a, b)

    def store(self, st, p, ty, v):
        if isinstance(p, PtrU):
            oldpc = st.pc
            post = []
            for g, q in p.alts:
                st.pc = oldpc + (('b', B(g)),)
                if q.obj.kind == 'null':
                    self.oblige('null', False, 'null pointer write', st)
                else:
                    old = self.load(st, q, ty)
                    self.store(st, q, ty, self.merge_val(g, v, old))
                post += [B(Implies(g, c)) for k, c in st.pc[len(oldpc) + 1:] if k == 'a']
            st.pc = oldpc + tuple(('a', f) for f in post)
            return
        o = p.obj
        if o.kind == 'null':
            self.oblige('null', False, 'null pointer write', st)
            return
        if o.kind in ('opaque', 'func'):
            raise Unsupported('store through opaque pointer')
        if self.is_agg(ty):
            r = self.rt(ty)
            if r[0] == 'lst':
                for k, ft in enumerate(r[1]):
                    self.store(st, self.gep1(p, ty, k), ft, v[k])
                return
            raise Unsupported('aggregate store')
        if getattr(o, 'isconst', False):
            self.oblige('bounds', False, 'write to constant object', st)
            return
        q, lt = self.decay(p)
        if lt != ty and self.mod.size(lt) != self.mod.size(ty):
            if lt == ('i', 8) and isinstance(ty, tuple) and ty[0] == 'i':
                for k in range(self.mod.size(ty)):
                    self.store(st, self.bump(q, k), ('i', 8), self.D.byte_at(ty[1], v, k))
                return
            raise Unsupported('store of %s into %s' % (tstr(ty), tstr(lt)))
        key, idx, lt = self.leaf(q)
        if lt != ty:
            if lt == 'ptr' and isinstance(ty, tuple):
                if isc(v) and v == 0:
                    v = NULLP
                elif isinstance(v, PInt):
                    v = v.p
                else:
                    raise Unsupported('integer stored as pointer')
            elif ty == 'ptr':
                v = PInt(v)
            else:
                raise Unsupported('type pun store')
        if not key[1].count('*'):
            st.mem[key] = v
        else:
            a = st.mem.get(key)
            if a is None:
                a = self.leaf_init(key)
            st.mem[key] = AStore(a, idx, v)

    def gep1(self, p, ty, k):
        """field k of aggregate type ty at p"""
        return self.gep(ty, p, [(('i', 32), 0), (('i', 32), k)])

    def gep(self, et, p, idx):
        if isinstance(p, PtrU):
            return self.norm_ptr([(g, self.gep(et, q, idx) if q.obj.kind != 'null' else q) for g, q in p.alts])
        if p.obj.kind in ('null', 'func'):
            if all(isc(i) and i == 0 for _, i in idx):
                return p
            if p.obj.kind == 'null':
                return p
            raise Unsupported('gep on function')
        if p.obj.kind == 'opaque':
            if all(isc(i) and i == 0 for _, i in idx):
                return p
            raise Unsupported('gep on opaque pointer')
        i0 = idx[0][1]
        path = p.path
        et_r = self.rt(et)
        esz = self.mod.size(et)
        if not (isc(i0) and i0 == 0):
            path = self.step(p, et, esz, i0)
            p = Ptr(p.obj, path)
        rest = idx[1:]
        t = et
        for (it, i) in rest:
            tr = self.rt(t)
            # find the matching aggregate at p
            if tr[0] == 'lst':
                p = self.into(p, t, tr)
                here = self.rt(self.type_at(p.obj, p.path))
                if here == tr:
                    p = Ptr(p.obj, p.path + (i,))
                else:
                    off = self.mod.layout(tr)[2][i]
                    p = Ptr(p.obj, p.path + self._path_at2(self.type_at(p.obj, p.path), off, tr[1][i]))
                t = tr[1][i]
            else:
                p = self.into_arr(p, tr)
                p = Ptr(p.obj, p.path + (self.ixn(i),))
                t = tr[2]
        return p

    def ixn(self, i):
        if isc(i) or self.D.name == 'int':
            return i
        return self.D._s(self.ix(i)) if not isinstance(i, BVIte) else self.D._s(i.to(64))

    def _path_at2(self, t, off, want):
        path = ()
        wsz = self.mod.size(want)
        while True:
            if off == 0 and self.rt(t) == self.rt(want):
                return path
            r = self.rt(t)
            if not (isinstance(r, tuple) and r[0] in ('arr', 'lst')):
                if off == 0:
                    return path
                raise Unsupported('byte offset into scalar')
            if r[0] == 'arr':
                es = self.mod.size(r[2])
                path += (off // es,)
                off %= es
                t = r[2]
            else:
                offs = self.mod.layout(r)[2]
                k = max(i for i, o in enumerate(offs) if o <= off)
                path += (k,)
                off -= offs[k]
                t = r[1][k]

    def into(self, p, t, tr):
        """descend from p to a sub-object of struct type t at the same address (or same-size wrapper)"""
        cur = self.type_at(p.obj, p.path)
        q = p
        while True:
            if self.rt(cur) == tr:
                return q
            r = self.rt(cur)
            if isinstance(r, tuple) and r[0] == 'lst' and r[1]:
                cur = r[1][0]
                q = Ptr(q.obj, q.path + (0,))
            elif isinstance(r, tuple) and r[0] == 'arr':
                cur = r[2]
                q = Ptr(q.obj, q.path + (0,))
            else:
                # ascend: pointer to first member used as the struct
                return self.ascend(p, tr)

    def ascend(self, p, tr):
        path = p.path
        while path and isc(path[-1]) and path[-1] == 0:
            path = path[:-1]
            if self.rt(self.type_at(p.obj, path)) == tr:
                return Ptr(p.obj, path)
        # an enclosing type of the same size
        return p

    def into_arr(self, p, tr):
        cur = self.type_at(p.obj, p.path)
        q = p
        while True:
            r = self.rt(cur)
            if isinstance(r, tuple) and r[0] == 'arr' and (r == tr or (self.mod.size(r[2]) == self.mod.size(tr[2]) and self.rt(r[2]) == self.rt(tr[2]))):
                return q
            if isinstance(r, tuple) and r[0] == 'lst' and r[1]:
                cur = r[1][0]
                q = Ptr(q.obj, q.path + (0,))
            elif isinstance(r, tuple) and r[0] == 'arr':
                cur = r[2]
                q = Ptr(q.obj, q.path + (0,))
            else:
                raise Unsupported('array gep: no array %s at %r' % (tstr(tr), p))

    def step(self, p, et, esz, i0):
        """pointer arithmetic in units of et"""
        i0 = self.ixn(i0)
        st, t = self.step_types(p.obj, p.path)
        # ends with an index into an array whose elements have that size
        path = p.path
        k = len(path)
        cur = t
        # climb over trailing zero steps
        while True:
            if k > 0 and st[k - 1][0] == 'arr' and self.mod.size(st[k - 1][2]) == esz:
                return path[:k - 1] + (self.iadd(path[k - 1], i0),)
            if k > 0 and isc(path[k - 1]) and path[k - 1] == 0:
                k -= 1
                continue
            break
        # descend into an array at this address
        q = p
        cur = t
        while True:
            r = self.rt(cur)
            if isinstance(r, tuple) and r[0] == 'arr':
                if self.mod.size(r[2]) == esz:
                    return q.path + (i0,)
                cur = r[2]
                q = Ptr(q.obj, q.path + (0,))
            elif isinstance(r, tuple) and r[0] == 'lst' and r[1]:
                cur = r[1][0]
                q = Ptr(q.obj, q.path + (0,))
            else:
                break
        if isc(i0):
            # constant byte offset inside the object
            off = i0 * esz
            path = p.path
            while True:
                sz = self.mod.size(self.type_at(p.obj, path)) if not (self.rt(self.type_at(p.obj, path))[0] == 'arr' and self.rt(self.type_at(p.obj, path))[1] is None) else None
                if 0 <= off and (sz is None or off < sz):
                    return path + self._path_off(self.type_at(p.obj, path), off)
                if not path:
                    break
                # move outwards
                s = path[-1]
                path = path[:-1]
                r = self.rt(self.type_at(p.obj, path))
                if r[0] == 'arr':
                    if not isc(s):
                        break
                    off += s * self.mod.size(r[2])
                else:
                    off += self.mod.layout(r)[2][s]
        raise Unsupported('pointer arithmetic %r + %s*%s' % (p, i0, esz))

    def _path_off(self, t, off):
        path = ()
        while off:
            r = self.rt(t)
            if not (isinstance(r, tuple) and r[0] in ('arr', 'lst')):
                raise Unsupported('byte offset into scalar')
            if r[0] == 'arr':
                es = self.mod.size(r[2])
                path += (off // es,)
                off %= es
                t = r[2]
            else:
                offs = self.mod.layout(r)[2]
                k = max(i for i, o in enumerate(offs) if o <= off)
                path += (k,)
                off -= offs[k]
                t = r[1][k]
        return path

    def norm_ptr(self, al):
        if len(al) == 1:
            return al[0][1]
        return PtrU(al)

    # ---- block operations
    def charptr(self, p):
        """p as pointer to an element of an i8 array, or None"""
        st, t = self.step_types(p.obj, p.path)
        if t == ('i', 8) and p.path and st[-1][0] == 'arr':
            return p
        q = p
        cur = t
        while True:
            r = self.rt(cur)
            if isinstance(r, tuple) and r[0] == 'arr':
                q = Ptr(q.obj, q.path + (0,))
                cur = r[2]
                if cur == ('i', 8):
                    return q
            elif isinstance(r, tuple) and r[0] == 'lst' and r[1]:
                q = Ptr(q.obj, q.path + (0,))
                cur = r[1][0]
            else:
                return None

    def find_region(self, p, n):
        """path of a sub-object of exactly n bytes starting at p"""
        path = p.path
        # ascend / descend
        cands = []
        q = path
        while True:
            t = self.type_at(p.obj, q)
            r = self.rt(t)
            if not (isinstance(r, tuple) and r[0] == 'arr' and r[1] is None) and self.mod.size(t) == n:
                return q
            if q and isc(q[-1]) and q[-1] == 0:
                q = q[:-1]
            else:
                break
        q = path
        t = self.type_at(p.obj, q)
        while True:
            r = self.rt(t)
            if not (isinstance(r, tuple) and r[0] in ('arr', 'lst')):
                return None
            if r[0] == 'lst' and not r[1]:
                return None
            t = r[2] if r[0] == 'arr' else r[1][0]
            q = q + (0,)
            if self.mod.size(t) == n:
                return q

    def leaves(self, t, pre=()):
        r = self.rt(t)
        if isinstance(r, tuple) and r[0] == 'arr':
            yield from self.leaves(r[2], pre + ('*',))
        elif isinstance(r, tuple) and r[0] == 'lst':
            for k, f in enumerate(r[1]):
                yield from self.leaves(f, pre + (k,))
        else:
            yield pre, r

    def pathkey(self, obj, path):
        """leaf key prefix and index tuple of an arbitrary path (with bounds obligations)"""
        key = []
        idx = []
        t = obj.type
        for s in path:
            t = self.rt(t)
            if t[0] == 'arr':
                n = t[1] if t[1] is not None else obj.len
                if n is not None:
                    self.bounds(s, n, Ptr(obj, path))
                key.append('*')
                idx.append(s)
                t = t[2]
            else:
                key.append(s)
                t = t[1][s]
        return tuple(key), tuple(idx), t

    def copy_region(self, st, d, s, n):
        """memcpy of a typed sub-object"""
        dp = self.find_region(d, n)
        sp = self.find_region(s, n)
        if dp is None or sp is None:
            raise Unsupported('memcpy of %d bytes between untyped regions %r %r' % (n, d, s))
        dk, di, dt = self.pathkey(d.obj, dp)
        sk, si, stt = self.pathkey(s.obj, sp)
        if self.rt(dt) != self.rt(stt):
            raise Unsupported('memcpy between different types')
        new = []
        for lp, lt in self.leaves(dt):
            skey = (s.obj.id, sk + lp)
            sv = st.mem.get(skey)
            if sv is None:
                sv = st.mem[skey] = self.leaf_init(skey)
            dkey = (d.obj.id, dk + lp)
            nd = len(di)
            if not di and not lp.count('*'):
                new.append((dkey, sv if not isinstance(sv, Arr) else self.read(sv, si)))
                continue
            dv = st.mem.get(dkey)
            if dv is None:
                dv = self.leaf_init(dkey)
            if not di and not si:
                new.append((dkey, sv))
                continue
            if not isinstance(sv, Arr):
                new.append((dkey, AStore(dv, di, sv)))
                continue

            def cond(idx, di=di, nd=nd):
                return self.idx_eq(idx[:nd], di)

            def val(idx, sv=sv, si=si, nd=nd):
                return self.read(sv, si + tuple(idx[nd:]))
            new.append((dkey, ABlk(dv, cond, val)))
        for k, v in new:
            st.mem[k] = v

    def in_range(self, k, off, n):
        """off <= k < off+n as Bool"""
        D = self.D
        if isc(k) and isc(off) and isc(n):
            return off <= k < off + n
        if D.name == 'int':
            lo, hi = D.range(k)
            lo2, hi2 = D.range(off)
            a = True if lo >= hi2 else (False if hi < lo2 else D.lift(k) >= D.lift(off))
            if a is False:
                return False
            ln, hn = D.range(n)
            b = D.lift(k) < D.lift(off) + D.lift(n)
            if hi < lo2 + ln:
                b = True
            elif lo >= hi2 + hn:
                return False
            r = And(a, b)
        else:
            r = z3.ULT(self.ix(k) - self.ix(off), self.ix(n))
        if isinstance(r, bool):
            return r
        r = z3.simplify(r)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return r

    def isub(self, a, b):
        if isc(a) and isc(b):
            return a - b
        if self.D.name == 'bv':
            return self.D._s(self.ix(a) - self.ix(b))
        return self.D.sub(128, a, b)

    def span_ok(self, p, n, st):
        """obligation: n bytes from char pointer p are inside the array"""
        stt, t = self.step_types(p.obj, p.path)
        ext = stt[-1][1] if stt[-1][1] is not None else p.obj.len
        i = p.path[-1]
        # outer dimensions
        for s, tt in zip(p.path[:-1], stt[:-1]):
            if tt[0] == 'arr':
                e = tt[1] if tt[1] is not None else p.obj.len
                if e is not None:
                    self.bounds(s, e, p)
        if ext is None:
            return
        D = self.D
        if isc(i) and isc(n) and isc(ext):
            g = n == 0 or (0 <= i and i + n <= ext and n >= 0)
        elif D.name == 'int':
            I, N, E = D.lift(i), D.lift(n), D.lift(ext)
            g = z3.Or(N == 0, z3.And(N >= 0, I >= 0, I + N <= E))
        else:
            I, N, E = self.ix(i), self.ix(n), self.ix(ext)
            g = z3.Or(N == 0, z3.And(z3.ULE(I, E), z3.ULE(N, E - I)))
        self.oblige('bounds', g, 'block of bytes within %s' % p.obj.name, st)

    def memcpy(self, st, d, s, n):
        if isinstance(d, PtrU) or isinstance(s, PtrU):
            # distribute over alternatives
            if isinstance(d, PtrU):
                base = st.mem
                res = []
                post = []
                oldpc = st.pc
                for g, q in d.alts:
                    st.mem = dict(base)
                    st.pc = oldpc + (('b', B(g)),)
                    self.memcpy(st, q, s, n)
                    post += [B(Implies(g, c)) for k, c in st.pc[len(oldpc) + 1:] if k == 'a']
                    res.append((g, st.mem))
                self._mergemem(st, res)
                st.pc = oldpc + tuple(('a', f) for f in post)
                return
            base = st.mem
            res = []
            post = []
            oldpc = st.pc
            for g, q in s.alts:
                st.mem = dict(base)
                st.pc = oldpc + (('b', B(g)),)
                self.memcpy(st, d, q, n)
                post += [B(Implies(g, c)) for k, c in st.pc[len(oldpc) + 1:] if k == 'a']
                res.append((g, st.mem))
            self._mergemem(st, res)
            st.pc = oldpc + tuple(('a', f) for f in post)
            return
        if isc(n) and n == 0:
            return
        for q, w in ((d, 'destination'), (s, 'source')):
            if q.obj.kind == 'null':
                self.oblige('null', self.D.eq(n, 0), 'null %s of block copy' % w, st)
                return
            if q.obj.kind in ('opaque', 'func'):
                raise Unsupported('block copy through opaque pointer')
        cd, cs = self.charptr(d), self.charptr(s)
        if isc(n) and (cd is None or cs is None):
            return self.copy_region(st, d, s, n)
        if cd is None or cs is None:
            raise Unsupported('symbolic memcpy of non-bytes')
        if isc(n):
            # struct copies whose first member is a char array
            rd, rs = self.find_region(d, n), self.find_region(s, n)
            if rd is not None and rs is not None and self.rt(self.type_at(d.obj, rd)) == self.rt(self.type_at(s.obj, rs)) and self.rt(self.type_at(d.obj, rd))[0] == 'lst':
                return self.copy_region(st, d, s, n)
        self.span_ok(cd, n, st)
        self.span_ok(cs, n, st)
        if getattr(cd.obj, 'isconst', False):
            self.oblige('bounds', False, 'write to constant object', st)
            return
        skey, sidx, _ = self._ck(cs)
        sa = st.mem.get(skey)
        if sa is None:
            sa = st.mem[skey] = self.leaf_init(skey)
        dkey, didx, _ = self._ck(cd)
        da = st.mem.get(dkey)
        if da is None:
            da = self.leaf_init(dkey)
        if isc(n) and n <= 32:
            vals = [self.read(sa, sidx[:-1] + (self.iadd(sidx[-1], k),)) for k in range(n)]
            for k in range(n):
                da = AStore(da, didx[:-1] + (self.iadd(didx[-1], k),), vals[k])
            st.mem[dkey] = da
            return

        def cond(idx):
            return And(self.idx_eq(idx[:-1], didx[:-1]), self.in_range(idx[-1], didx[-1], n))

        def val(idx):
            return self.read(sa, sidx[:-1] + (self.iadd(self.isub(idx[-1], didx[-1]), sidx[-1]),))
        st.mem[dkey] = ABlk(da, cond, val)

    def _ck(self, p):
        t = p.obj.type
        key = []
        idx = []
        for s in p.path:
            t = self.rt(t)
            if t[0] == 'arr':
                key.append('*')
                idx.append(s)
                t = t[2]
            else:
                key.append(s)
                t = t[1][s]
        return (p.obj.id, tuple(key)), tuple(idx), t

    def _mergemem(self, st, res):
        keys = set()
        for g, m in res:
            keys |= m.keys()
        out = {}
        for k in keys:
            vals = [m[k] if k in m else self.leaf_init(k) for g, m in res]
            v = vals[-1]
            for (g, _), x in zip(reversed(res[:-1]), reversed(vals[:-1])):
                if x is not v:
                    v = self.merge_val(g, x, v)
            out[k] = v
        st.mem = out

    def memset(self, st, d, v, n):
        if isinstance(d, PtrU):
            raise Unsupported('memset through pointer union')
        if d.obj.kind == 'null':
            self.oblige('null', False, 'null memset', st)
            return
        cd = self.charptr(d)
        if isc(n):
            reg = self.find_region(d, n)
            if reg is not None and (isc(v) and v == 0):
                k, i, t = self.pathkey(d.obj, reg)
                for lp, lt in self.leaves(t):
                    key = (d.obj.id, k + lp)
                    z = NULLP if lt == 'ptr' else (self.const_val(('zero',), lt))
                    if not i and not lp.count('*'):
                        st.mem[key] = z
                    elif not i:
                        st.mem[key] = ABase(lambda idx, z=z: z)
                    else:
                        old = st.mem.get(key) or self.leaf_init(key)
                        if lp.count('*') == 0:
                            st.mem[key] = AStore(old, i, z)
                        else:
                            st.mem[key] = ABlk(old, lambda idx, i=i: self.idx_eq(idx[:len(i)], i), lambda idx, z=z: z)
                return
        if cd is None:
            raise Unsupported('memset of untyped region')
        self.span_ok(cd, n, st)
        key, didx, _ = self._ck(cd)
        old = st.mem.get(key)
        if old is None:
            old = self.leaf_init(key)
        st.mem[key] = ABlk(old, lambda idx: And(self.idx_eq(idx[:-1], didx[:-1]), self.in_range(idx[-1], didx[-1], n)), lambda idx: v)

    # ------------------------------------------------ pointer values
    def ptr_eq(self, a, b):
        out = []
        for g, p in alts(a):
            for h, q in alts(b):
                e = self.ptr_eq1(p, q)
                if e is False:
                    continue
                out.append(And(g, h, e))
        return Or(out)

    def ptr_eq1(self, p, q):
        if p.obj.kind == 'opaque' or q.obj.kind == 'opaque':
            return self.token(p) == self.token(q)
        if p.obj is not q.obj:
            return False
        # same object: compare normalised paths
        a, b = list(p.path), list(q.path)
        while len(a) > len(b) and isc(a[-1]) and a[-1] == 0:
            a.pop()
        while len(b) > len(a) and isc(b[-1]) and b[-1] == 0:
            b.pop()
        if len(a) != len(b):
            # trailing zeros on the longer one only
            n = min(len(a), len(b))
            return False if any(isc(x) and x for x in a[n:] + b[n:]) else self._uneq(p, q)
        st, _ = self.step_types(p.obj, tuple(a))
        r = []
        for x, y, t in zip(a, b, st):
            if isc(x) and isc(y):
                if x != y:
                    return False
            else:
                r.append(self.D.eq(x, y) if self.D.name == 'int' else self.ix(x) == self.ix(y))
        return And(r)

    def _uneq(self, p, q):
        raise Unsupported('pointer comparison of different shapes')

    def token(self, p):
        """an injective-enough abstraction of pointers as integers: null is 0, others distinct constants"""
        if p.obj.kind == 'null':
            return z3.IntVal(0)
        if p.obj.kind == 'opaque':
            return p.obj.token
        k = ('tok', p.obj.id, tuple(x if isc(x) else ('t', x.get_id()) for x in p.path))
        t = self._fid.get(k)
        if t is None:
            t = z3.Int(self.nm('ptr_%s' % p.obj.name))
            self.fact(t > 0)
            for k2, t2 in list(self._fid.items()):
                if k2[0] == 'tok' and k2[1] != p.obj.id:
                    self.fact(t != t2)
            self._fid[k] = t
            self._fidk = getattr(self, '_fidk', [])
            self._fidk.append(p)
        return t

    def ptoken(self, p):
        if isinstance(p, PtrU):
            t = self.token(p.alts[-1][1])
            for g, q in reversed(p.alts[:-1]):
                t = z3.If(B(g), self.token(q), t)
            return t
        return self.token(p)

    def is_null(self, p):
        return self.ptr_eq(p, NULLP)

    def pint(self, x):
        """integer value of a pointer"""
        p = x.p if isinstance(x, PInt) else x
        r = None
        for g, q in reversed(alts(p)):
            if q.obj.kind == 'null':
                v = 0
            elif q.obj.kind == 'opaque' and self.D.name == 'int':
                v = q.obj.token
                self.D.setr(v, -(1 << 63), (1 << 63) - 1)
                self.fact(z3.And(v >= -(1 << 63), v < (1 << 63)))
            else:
                k = ('addr', q.obj.id)
                b = self._fid.get(k)
                if b is None:
                    b = self._fid[k] = self.D.fresh(64, 'addr_' + q.obj.name)
                    if self.D.name == 'int':
                        self.fact(b > 0)
                        self.D.setr(b, 1, 1 << 62)
                    else:
                        self.fact(b != 0)
                off = self.offset(q)
                v = self.D.add(64, b, off)
            r = v if r is None else self.merge_val(g, v, r)
        return r

    def offset(self, q):
        off = 0
        t = q.obj.type
        for s in q.path:
            t = self.rt(t)
            if t[0] == 'arr':
                es = self.mod.size(t[2])
                off = self.iadd(off, self.D.mul(64, s, es) if not isc(s) else s * es)
                t = t[2]
            else:
                off = self.iadd(off, self.mod.layout(t)[2][s])
                t = t[1][s]
        return off

    # ------------------------------------------------ values
    def val(self, st, v, ty):
        if v[0] == 'loc':
            x = st.env.get(v[1])
            if x is None:
                raise Unsupported('value %%%s undefined' % v[1])
            if isinstance(x, BVIte) and isinstance(ty, tuple) and ty[0] == 'i':
                return x.to(ty[1])
            return x
        return self.const_val(v, ty)

    def ival(self, st, v, ty):
        x = self.val(st, v, ty)
        if isinstance(x, PInt):
            return self.pint(x)
        return x

    # ------------------------------------------------ instructions
    def run_block(self, f, b, st):
        """executes the block; returns list of (state, terminator target or ('ret', v))"""
        insts = f.blocks[b]
        states = [st]
        thrown = []
        for k, ins in enumerate(insts):
            if ins.op == 'phi':
                continue
            if ins.op in ('br', 'switch', 'ret', 'unreachable', 'resume', 'invoke'):
                out = list(thrown)
                for s in states:
                    out += self.term(f, b, ins, s)
                return out
            nxt = []
            for s in states:
                nxt += self.step_inst(f, ins, s)
            states = nxt
            if ins.op == 'call' and f.mod_exc:
                for s in [s for s in states if '#throw' in s.env]:
                    del s.env['#throw']
                    thrown.append((s, ('ret', THROW)))
                states = [s for s in states if not any(s is t for t, _ in thrown)]
            if not states:
                return thrown
        raise Unsupported('block without terminator')

    def term(self, f, b, ins, st):
        a = ins.a
        if ins.op == 'br':
            if a['c'] is None:
                return [(st, a['t'])]
            c = self.val(st, a['c'], ('i', 1))
            if a['t'] == a['f']:
                return [(st, a['t'])]
            return self.branch(st, [(c, a['t']), (Not(c), a['f'])])
        if ins.op == 'switch':
            v = self.val(st, a['v'], a['t'])
            if isinstance(v, PInt):
                # switch over a pointer value (null / -1 tests)
                alt = []
                none = True
                for cv, l in a['cases']:
                    e = self.is_null(v.p) if cv == 0 else (self.ptoken(v.p) == cv if any(q.obj.kind == 'opaque' for _, q in alts(v.p)) else False)
                    alt.append((And(none, e), l))
                    none = And(none, Not(e))
                alt.append((none, a['d']))
                return self.branch(st, alt)
            alt = []
            by = {}
            for cv, l in a['cases']:
                cvs = csigned(a['t'][1], cv)
                by.setdefault(l, []).append(self.D.icmp('eq', a['t'][1], v, cvs))
            none = True
            for l, cs in by.items():
                alt.append((Or(cs), l))
                none = And(none, [Not(c) for c in cs])
            alt.append((none, a['d']))
            # merge duplicates of default
            return self.branch(st, alt)
        if ins.op == 'ret':
            v = None if a['v'] is None else self.val(st, a['v'], a['t'])
            return [(st, ('ret', v))]
        if ins.op == 'invoke':
            out = []
            for s in self.call(f, ins, st):
                if s.env.pop('#throw', None) is None:
                    out.append((s, a['normal']))
                elif not f.mod_exc:
                    raise Unsupported('exception')
                else:
                    out.append((s, a['unwind']))
            return out
        if ins.op == 'unreachable':
            return []
        if ins.op == 'resume' and f.mod_exc:
            return [(st, ('ret', THROW))]
        return []

    def branch(self, st, alt):
        live = [(c, t) for c, t in alt if c is not False]
        if len(live) == 1:
            c, t = live[0]
            if c is not True:
                st.pc = st.pc + (('b', B(c)),)
            return [(st, t)]
        out = []
        for c, t in live:
            if c is True:
                return [(st, t)]
            s = st.fork()
            s.pc = s.pc + (('b', B(c)),)
            if self.mode == 'paths' and not self.feasible(s):
                continue
            out.append((s, t))
        return out

    def step_inst(self, f, ins, st):
        self.cur = st
        op, a = ins.op, ins.a
        D = self.D
        env = st.env
        if op in ('call',):
            return self.call(f, ins, st)
        if op == 'load':
            p = self.val(st, a['p'], 'ptr')
            if (a['atomic'] or self.hook_plain) and self.on_atomic:
                self.order, self.weak = a['order'], False
                r = self.on_atomic(self, st, 'load', p, a['t'], None, None)
                if r is not None:
                    out = []
                    for s, v in r:
                        s.env[ins.res] = v
                        out.append(s)
                    return out
            env[ins.res] = self.load(st, p, a['t'])
        elif op == 'store':
            p = self.val(st, a['p'], 'ptr')
            v = self.val(st, a['v'], a['t'])
            if (a['atomic'] or self.hook_plain) and self.on_atomic:
                self.order, self.weak = a['order'], False
                r = self.on_atomic(self, st, 'store', p, a['t'], v, None)
                if r is not None:
                    return [s for s, _ in r]
            self.store(st, p, a['t'], v)
        elif op == 'getelementptr':
            p = self.val(st, a['base'], 'ptr')
            env[ins.res] = self.gep(a['et'], p, [(t, self.ival(st, v, t)) for t, v in a['idx']])
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            t = a['t']
            x, y = self.val(st, a['x'], t), self.val(st, a['y'], t)
            env[ins.res] = self.binop(op, t, x, y, a['fl'])
        elif op == 'icmp':
            t = a['t']
            x, y = self.val(st, a['x'], t), self.val(st, a['y'], t)
            env[ins.res] = self.icmp(a['p'], t, x, y)
        elif op in ('trunc', 'zext', 'sext'):
            w, v = a['t'][1], a['tt'][1]
            x = self.ival(st, a['x'], a['t'])
            if w == 1:
                if isb(x):
                    r = (1 if op == 'zext' else -1) if x else 0
                elif D.name == 'int':
                    r = D.ite(x, 1 if op == 'zext' else -1, 0)
                else:
                    r = z3.If(x, z3.BitVecVal(1 if op == 'zext' else -1, v), z3.BitVecVal(0, v))
            elif op == 'trunc':
                r = D.trunc(w, v, x)
            elif op == 'zext':
                r = D.zext(w, v, x)
            else:
                r = D.sext(w, v, x)
            env[ins.res] = r
        elif op == 'select':
            c = self.val(st, a['c'], ('i', 1))
            x, y = self.val(st, a['x'], a['t']), self.val(st, a['y'], a['t'])
            if self.mode == 'paths' and not isb(c) and a['t'] != ('i', 1) and not (isc(x) and isc(y) and x == y):
                out = []
                for g, v in ((c, x), (Not(c), y)):
                    s = st.fork()
                    s.pc = s.pc + (('b', B(g)),)
                    if self.feasible(s):
                        s.env[ins.res] = v
                        out.append(s)
                return out
            v = self.merge_val(c, x, y)
            if isinstance(v, BVIte) and isinstance(a['t'], tuple):
                v = v.to(a['t'][1])
            env[ins.res] = v
        elif op == 'alloca':
            n = self.val(st, a['n'], ('i', 32))
            if not (isc(n) and n == 1):
                raise Unsupported('dynamic alloca')
            o = self.new_obj('%s.%%%s' % (basename(self.mod.dem.get(f.name, f.name)).split('::')[-1], ins.res), a['t'], 'local')
            env[ins.res] = Ptr(o)
        elif op in ('ptrtoint',):
            env[ins.res] = PInt(self.val(st, a['x'], 'ptr'))
        elif op == 'inttoptr':
            x = self.val(st, a['x'], a['t'])
            if isinstance(x, PInt):
                env[ins.res] = x.p
            elif isc(x) and x == 0:
                env[ins.res] = NULLP
            else:
                raise Unsupported('inttoptr')
        elif op == 'bitcast' and self.flt and a['t'] in ('double', 'float') and isinstance(a['tt'], tuple):
            env[ins.res] = self.flt.bits(self.val(st, a['x'], a['t']), a['tt'][1])
        elif op == 'bitcast' or op == 'freeze' or op == 'addrspacecast':
            env[ins.res] = self.val(st, a['x'], a['t'])
        elif op == 'landingpad' and f.mod_exc:
            if a['other']:
                raise Unsupported('exception filter')
            n = next((self.typeid(c) for c in a['clauses'] if c == 'null' or c[1:] in self.thrown), 0)
            env[ins.res] = (self.opaque_ptr(z3.Int('exception')), n)
        elif op == 'extractvalue':
            v = self.val(st, a['v'], a['t'])
            for i in a['ix']:
                v = v[i]
            env[ins.res] = v
        elif op == 'insertvalue':
            v = self.val(st, a['v'], a['t'])
            e = self.val(st, a['e'], a['et'])

            def ins_(v, ix):
                v = list(v)
                v[ix[0]] = e if len(ix) == 1 else ins_(v[ix[0]], ix[1:])
                return tuple(v)
            env[ins.res] = ins_(v, a['ix'])
        elif op == 'atomicrmw':
            p = self.val(st, a['p'], 'ptr')
            v = self.val(st, a['v'], a['t'])
            if self.on_atomic:
                self.order, self.weak = a['order'], False
                r = self.on_atomic(self, st, 'rmw ' + a['rop'], p, a['t'], v, None)
                if r is not None:
                    out = []
                    for s, x in r:
                        s.env[ins.res] = x
                        out.append(s)
                    return out
            old = self.load(st, p, a['t'])
            env[ins.res] = old
            w = a['t'][1]
            if a['rop'] == 'add':
                new = D.add(w, old, v)
            elif a['rop'] == 'sub':
                new = D.sub(w, old, v)
            elif a['rop'] == 'xchg':
                new = v
            elif a['rop'] == 'and':
                new = D.and_(w, old, v)
            elif a['rop'] == 'or':
                new = D.or_(w, old, v)
            else:
                raise Unsupported('atomicrmw ' + a['rop'])
            self.store(st, p, a['t'], new)
        elif op == 'cmpxchg':
            p = self.val(st, a['p'], 'ptr')
            e = self.val(st, a['e'], a['t'])
            n = self.val(st, a['n'], a['t'])
            if self.on_atomic:
                self.order, self.weak = a['order'], a['weak']
                r = self.on_atomic(self, st, 'cmpxchg', p, a['t'], e, n)
                if r is not None:
                    out = []
                    for s, x in r:
                        s.env[ins.res] = x
                        out.append(s)
                    return out
            old = self.load(st, p, a['t'])
            c = D.icmp('eq', a['t'][1], old, e)
            self.store(st, p, a['t'], self.merge_val(c, n, old))
            env[ins.res] = (old, c)
        elif self.flt and self.flt_op(st, ins, op, a):
            pass
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = self.val(st, a['x'], a['t']), self.val(st, a['y'], a['t'])
            S = self.fsort(a['t'])
            env[ins.res] = z3.Function('f_' + op, S, S, S)(x, y)
        elif op == 'fneg':
            S = self.fsort(a['t'])
            env[ins.res] = z3.Function('f_neg', S, S)(self.val(st, a['x'], a['t']))
        elif op == 'fcmp':
            x, y = self.val(st, a['x'], a['t']), self.val(st, a['y'], a['t'])
            S = self.fsort(a['t'])
            env[ins.res] = z3.Function('f_cmp_' + a['p'], S, S, z3.BoolSort())(x, y)
        elif op in ('fptoui', 'fptosi'):
            x = self.val(st, a['x'], a['t'])
            w = a['tt'][1]
            S = self.fsort(a['t'])
            rs = z3.IntSort() if D.name == 'int' else z3.BitVecSort(w)
            env[ins.res] = D.fromleaf(w, z3.Function('f_%s_%d' % (op, w), S, rs)(x))
        elif op in ('uitofp', 'sitofp'):
            x = self.ival(st, a['x'], a['t'])
            S = self.fsort(a['tt'])
            w = a['t'][1]
            rs = z3.IntSort() if D.name == 'int' else z3.BitVecSort(w)
            env[ins.res] = z3.Function('f_%s_%d' % (op, w), rs, S)(D.lift(x, w))
        elif op in ('fpext', 'fptrunc'):
            x = self.val(st, a['x'], a['t'])
            env[ins.res] = z3.Function('f_' + op, self.fsort(a['t']), self.fsort(a['tt']))(x)
        elif op == 'fence':
            pass
        elif op == 'unsupported':
            raise Unsupported(a['why'] + ' in ' + ins.line.strip()[:120])
        else:
            raise Unsupported('instruction ' + op)
        return [st]

    def binop(self, op, t, x, y, fl):
        D = self.D
        if t == ('i', 1):
            if op == 'and':
                return And(x, y)
            if op == 'or':
                return Or(x, y)
            if op == 'xor':
                return Not(Iff(x, y))
            raise Unsupported('i1 ' + op)
        w = t[1]
        if isinstance(x, PInt) or isinstance(y, PInt):
            if op == 'sub' and isinstance(x, PInt) and isinstance(y, PInt):
                r = self.pdiff(x.p, y.p)
                if r is not None:
                    return r
            x = self.pint(x) if isinstance(x, PInt) else x
            y = self.pint(y) if isinstance(y, PInt) else y
        if op == 'add':
            return D.add(w, x, y, fl)
        if op == 'sub':
            return D.sub(w, x, y, fl)
        if op == 'mul':
            return D.mul(w, x, y, fl)
        if op == 'shl':
            return D.shl(w, x, y, fl)
        return {'udiv': D.udiv, 'sdiv': D.sdiv, 'urem': D.urem, 'srem': D.srem, 'lshr': D.lshr, 'ashr': D.ashr,
                'and': D.and_, 'or': D.or_, 'xor': D.xor}[op](w, x, y)

    def pdiff(self, p, q):
        """byte difference of two pointers"""
        r = None
        for g, a in reversed(alts(p)):
            for h, b in reversed(alts(q)):
                if a.obj is not b.obj or a.obj.kind in ('null', 'opaque'):
                    if a.obj.kind == 'null' and b.obj.kind == 'null':
                        v = 0
                    else:
                        return None
                else:
                    v = self.isub(self.offset(a), self.offset(b))
                r = v if r is None else self.merge_val(And(g, h), v, r)
        return r

    def icmp(self, p, t, x, y):
        D = self.D
        if t == ('i', 1):
            e = Iff(x, y)
            return e if p == 'eq' else Not(e)
        if t == 'ptr' or isinstance(x, PInt) or isinstance(y, PInt):
            if isinstance(x, PInt) and not isinstance(y, PInt) or isinstance(y, PInt) and not isinstance(x, PInt):
                other = y if isinstance(x, PInt) else x
                if isc(other) and other == 0 and p in ('eq', 'ne'):
                    e = self.is_null(x.p if isinstance(x, PInt) else y.p)
                    return e if p == 'eq' else Not(e)
                x = self.pint(x) if isinstance(x, PInt) else x
                y = self.pint(y) if isinstance(y, PInt) else y
                return D.icmp(p, 64, x, y)
            a = x.p if isinstance(x, PInt) else x
            b = y.p if isinstance(y, PInt) else y
            if p == 'eq':
                return self.ptr_eq(a, b)
            if p == 'ne':
                return Not(self.ptr_eq(a, b))
            d = self.pdiff(a, b)
            if d is None:
                return D.icmp(p, 64, self.pint(a), self.pint(b))
            return D.icmp('s' + p[1:], 64, d, 0)
        return D.icmp(p, t[1], x, y)

    # ------------------------------------------------ calls
    def call(self, f, ins, st):
        a = ins.a
        self.cur = st
        cv = a['callee']
        if cv[0] == 'glob':
            name = cv[1]
        else:
            p = self.val(st, cv, 'ptr')
            if isinstance(p, Ptr) and p.obj.kind == 'func':
                name = p.obj.fname
            else:
                if self.indirect:
                    args = [self.val(st, v, t) for t, v in a['args']]
                    return self.finish(ins, self.indirect(self, st, ins, p, args))
                raise Unsupported('indirect call')
        if name.startswith('llvm.'):
            return self.intrinsic(name, ins, st)
        args = [self.val(st, v, t) for t, v in a['args']]
        return self.finish(ins, self.invoke(name, args, st, ins))

    def finish(self, ins, res):
        out = []
        for s, v in res:
            if v is THROW:
                s.env['#throw'] = True
                out.append(s)
                continue
            if ins.res is not None:
                if v is None and ins.a['t'] != 'void':
                    v = self.base('ret', ins.a['t'], 0) if not self.is_agg(ins.a['t']) else None
                s.env[ins.res] = v
            out.append(s)
        return out

    def invoke(self, name, args, st, ins=None):
        """call by mangled name -> [(state, value)]"""
        self.tick()
        dem = self.mod.dem.get(name, name)
        bn = basename(dem)
        for table, kind in ((self.contracts, 'contract'), (self.models, 'model')):
            h = table.get(name) or table.get(bn)
            if h:
                r = h(self, st, ins, args, dem)
                if r is not NotImplemented:
                    self.contract_used[bn] = kind
                    if isinstance(r, list):
                        return r
                    return [(st, r)]
        for pre, h in self.prefix_models:
            if bn.startswith(pre):
                r = h(self, st, ins, args, dem)
                if r is not NotImplemented:
                    self.contract_used[pre + '*'] = 'model'
                    if isinstance(r, list):
                        return r
                    return [(st, r)]
        fn = self.mod.funcs.get(name)
        if fn is None:
            raise Unsupported('call to external ' + dem)
        return self.run_function(fn, args, st)

    def run_function(self, fn, args, st):
        fn.parse()
        if self.stack_depth > 60:
            raise Unsupported('recursion')
        dem = self.mod.dem.get(fn.name, fn.name)
        self.functions[dem] = self.functions.get(dem, 0) + 1
        self.stack_depth += 1
        self.where.append(basename(dem))
        saved = st.env
        st.env = {}
        for (t, n), v in zip(fn.params, args):
            st.env[n] = v
        rets = []
        self.region(fn, fn.entry, [st], None, rets)
        self.where.pop()
        self.stack_depth -= 1
        if self.mode == 'merge' and len(rets) > 1:
            for s, v in rets:
                s.env = {'#ret': v}
            m = self.merge_states([s for s, _ in rets])
            v = m.env.get('#ret')
            if isinstance(v, BVIte) and isinstance(fn.ret, tuple):
                v = v.to(fn.ret[1])
            rets = [(m, v)]
        for s, v in rets:
            s.env = dict(saved)
        return rets

    def typeid(self, c):
        return self.typeids.setdefault(c, len(self.typeids) + 1)

    def intrinsic(self, name, ins, st):
        a = ins.a
        base = name.split('.')[1]
        D = self.D
        if base in ('lifetime', 'dbg', 'assume', 'donothing', 'invariant', 'experimental', 'stackrestore', 'prefetch', 'var'):
            return [st]
        if base == 'eh':
            st.env[ins.res] = self.typeid(re.search(r'typeid\.for[^(]*\(ptr (null|@[^\s,)]+)', ins.line).group(1))
            return [st]
        args = [self.ival(st, v, t) if isinstance(t, tuple) and t[0] == 'i' else self.val(st, v, t) for t, v in a['args']]
        tys = [t for t, _ in a['args']]
        if base == 'threadlocal':
            st.env[ins.res] = args[0]
        elif base in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
        elif base == 'memset':
            self.memset(st, args[0], args[1], args[2])
        elif base in ('umin', 'umax', 'smin', 'smax'):
            w = tys[0][1]
            p = base[0] + ('lt' if base.endswith('min') else 'gt')
            c = D.icmp(p, w, args[0], args[1])
            v = self.merge_val(c, args[0], args[1])
            st.env[ins.res] = v.to(w) if isinstance(v, BVIte) else v
        elif base == 'abs':
            w = tys[0][1]
            c = D.icmp('slt', w, args[0], 0)
            v = self.merge_val(c, D.sub(w, 0, args[0]), args[0])
            st.env[ins.res] = v
        elif base == 'ctlz':
            w = tys[0][1]
            x = args[0]
            zp = args[1]
            if zp is True or (isc(zp) and zp):
                self.oblige('clz', Not(D.icmp('eq', w, x, 0)), 'count-leading-zeros of zero is undefined')
            if isc(x):
                st.env[ins.res] = w - (x & ((1 << w) - 1)).bit_length()
            elif self.mode == 'paths':
                out = []
                for n in range(w + 1):      # case split on the number of leading zeros (n == w only for 0)
                    if D.name == 'bv':
                        c = x == 0 if n == w else z3.LShR(x, w - 1 - n) == 1
                    else:
                        u = D.u(w, x)
                        c = u == 0 if n == w else z3.And(u >= 1 << (w - 1 - n), u < 1 << (w - n))
                    s = st.fork()
                    s.pc = s.pc + (('b', B(c)),)
                    if self.feasible(s):
                        s.env[ins.res] = n
                        out.append(s)
                return out
            elif D.name == 'bv':
                r = z3.BitVecVal(w, w)
                for k in range(w):
                    r = z3.If(z3.Extract(k, k, x) == 1, z3.BitVecVal(w - 1 - k, w), r)
                st.env[ins.res] = r
            else:
                u = D.u(w, x)
                r = z3.IntVal(0)
                for k in range(w - 1, -1, -1):
                    r = z3.If(u < (1 << k), z3.IntVal(w - k), r)
                D.setr(r, 0, w)
                st.env[ins.res] = r
        elif self.flt and base in ('fabs', 'floor', 'ceil', 'trunc', 'fmuladd') and a['t'] in ('double', 'float'):
            F, rt = self.flt, a['t']
            st.env[ins.res] = F.fabs(args[0], rt) if base == 'fabs' else F.arith('fadd', F.arith('fmul', args[0], args[1], rt), args[2], rt) if base == 'fmuladd' else F.integral(args[0], rt, base)
        elif self.flt and base == 'is' and tys[0] in ('double', 'float') and isc(args[1]):
            st.env[ins.res] = self.flt.fpclass(args[0], args[1], tys[0])
        elif base in ('fabs', 'floor', 'ceil', 'trunc', 'sqrt', 'round', 'fmuladd', 'fma', 'is'):
            rt = a['t']
            if rt == ('i', 1):
                st.env[ins.res] = z3.Function(name.replace('.', '_') + '_%s' % args[1], self.fsort(tys[0]), z3.BoolSort())(args[0])
            else:
                S = self.fsort(rt)
                st.env[ins.res] = z3.Function('f_' + base, *[self.fsort(t) for t in tys], S)(*args)
        elif base in ('sadd', 'uadd', 'ssub', 'usub', 'smul', 'umul') and name.split('.')[2] == 'with':
            w = tys[0][1]
            m = {'add': D.add, 'sub': D.sub, 'mul': D.mul}[base[1:]]
            raise Unsupported(name)
        elif base == 'trap':
            self.oblige('user', False, 'trap reached')
            return []
        else:
            raise Unsupported('intrinsic ' + name)
        return [st]

    # ------------------------------------------------ control flow
    def goto(self, f, src, dst, st):
        """evaluate the phis of dst on the edge src->dst"""
        new = {}
        for ins in f.blocks[dst]:
            if ins.op != 'phi':
                break
            for v, l in ins.a['inc']:
                if l == src:
                    new[ins.res] = self.val(st, v, ins.a['t'])
                    break
            else:
                raise Unsupported('phi without incoming edge')
        if new:
            st.env.update(new)
        return st

    def region(self, f, entry, states, body, rets):
        """runs a single-entry region; returns (exits {target: [states]}, back [states])"""
        pending = {entry: list(states)}
        exits = {}
        back = []
        skip = set()

        def route(tgt, s):
            if body is not None and tgt == entry:
                back.append(s)
            elif body is None or tgt in body:
                pending.setdefault(tgt, []).append(s)
            else:
                exits.setdefault(tgt, []).append(s)
        order = [b for b in f.rpo if body is None or b in body]
        for b in order:
            sts = pending.pop(b, None)
            if not sts:
                continue
            self.tick()
            if self.mode == 'merge' and len(sts) > 1:
                sts = [self.merge_states(sts)]
            elif self.join_skip is not None and len(sts) > 1:
                sts = self.join(f, sts)
            if b in f.loops and not (body is not None and b == entry):
                ex = self.loop(f, b, sts, rets)
                for t, ss in ex.items():
                    for s in ss:
                        route(t, s)
                continue
            for s in sts:
                for s2, t in self.run_block(f, b, s):
                    if isinstance(t, tuple):
                        rets.append((s2, t[1]))
                    else:
                        route(t, self.goto(f, b, t, s2))
        return exits, back

    def join(self, f, sts):
        """paths that differ only in memory the specification does not speak about (join_skip) become one: what differs gets an arbitrary value and
        only the common hypotheses are kept"""
        from houdini import defs
        groups = {}
        idt = lambda v: v if isinstance(v, (int, bool)) else id(v)
        for s in sts:
            sig = (tuple(sorted((g, type(v).__name__, idt(v)) for g, v in s.ghost.items())),
                   tuple(sorted((k, idt(v)) for k, v in s.mem.items() if not self.join_skip(k))))
            groups.setdefault(sig, []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            m = g[0].fork()
            n = 0
            while all(len(s.pc) > n for s in g) and all(s.pc[n][1] is g[0].pc[n][1] or s.pc[n][1].eq(g[0].pc[n][1]) for s in g):
                n += 1
            m.pc = g[0].pc[:n]
            for k in set().union(*[s.mem for s in g]):
                if self.join_skip(k):
                    m.mem[k] = self.base('joined', self.leaf_type(k), k[1].count('*'))
            for r, v in list(m.env.items()):
                vs = [s.env.get(r) for s in g]
                if all(w is v or (isc(v) and isc(w) and v == w and isb(v) == isb(w)) or (z3.is_expr(v) and z3.is_expr(w) and v.eq(w)) for w in vs):
                    continue
                d = defs(f).get(r)
                t = d and (d.a.get('tt') or d.a.get('t'))
                del m.env[r]
                if d is None or any(w is None or isinstance(w, (Ptr, PtrU, tuple)) for w in vs):
                    continue
                if d.op in ('icmp', 'fcmp') or t == ('i', 1):
                    m.env[r] = z3.Bool(self.nm('joined'))
                elif isinstance(t, tuple) and t[0] == 'i':
                    m.env[r] = self.D.fresh(t[1], 'joined')
            out.append(m)
        return out

    def loop(self, f, h, states, rets):
        pol = self.loop_policy(self, f, h, self.stack_depth)
        body = f.loops[h]
        if pol[0] == 'cut':
            from houdini import cut_loop
            return cut_loop(self, f, h, states, rets, pol[1])
        limit = pol[1]
        exits = {}
        cur = states
        for it in range(limit + 1):
            if self.mode == 'merge' and len(cur) > 1:
                cur = [self.merge_states(cur)]
            if it:
                cur = [s for s in cur if self.feasible(s, 5000)]
            if not cur:
                break
            ex, back = self.region(f, h, cur, body, rets)
            for t, ss in ex.items():
                exits.setdefault(t, []).extend(ss)
            cur = back
            if not cur:
                break
        else:
            x = Incomplete('loop in %s not exhausted after %d iterations' % (f.name, limit))
            x.loop = (f.name, h)
            raise x
        self.loop_info.append((basename(self.mod.dem.get(f.name, f.name)), h, 'unrolled completely, %d iterations' % it))
        return exits


class BVIte:
    """ite of two width-less constants (bit-vector mode); the width is fixed on first use"""

    def __init__(self, eng, c, a, b):
        self.eng, self.c, self.a, self.b = eng, c, a, b

    def to(self, w):
        a = self.a.to(w) if isinstance(self.a, BVIte) else self.a
        b = self.b.to(w) if isinstance(self.b, BVIte) else self.b
        a = z3.BitVecVal(a, w) if isc(a) else a
        b = z3.BitVecVal(b, w) if isc(b) else b
        return z3.If(B(self.c), a, b)

    def merge(self, eng, c, other):
        return BVIte(eng, c, self, other)
