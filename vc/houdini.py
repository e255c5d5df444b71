"""Loops cut by invariants: havoc of everything the body modifies (found by symbolic execution of the body), invariants supplied by the
specification (checked at entry and around the body) and automatic candidates for integer variables, kept when inductive (Houdini)."""
import z3
import dom
from dom import And, Or, Not, Implies, isc, isb, B
from ll import Unsupported, basename


class Cut:
    """specification of a cut loop.
    inv(eng, st, entry) -> [(name, formula)] : must hold at the loop head
    cands(eng, st, entry) -> [(name, formula)] : optional candidates
    havoc(eng, st, entry): extra havoc / environment, run at the head after the automatic havoc
    ghosts: names of ghosts the body may change ('*' = every ghost found changed)
    split: values passed to havoc one after the other (havoc(eng, st, entry, value)): the head states are the union of these cases
    end(eng, st): called on every state that reaches the back edge (before the invariant is checked)"""

    def __init__(self, inv=None, cands=None, havoc=None, end=None, auto=True, keep=None, lemma=None, split=None):
        self.inv, self.cands, self.havoc, self.end, self.auto, self.keep, self.lemma, self.split = inv, cands, havoc, end, auto, keep, lemma, split


def fresh_like(eng, name, ty, v, ptrs=None):
    from eng import Ptr, PtrU, Arr, ABase, PInt
    if isinstance(ty, tuple) and ty[0] == 'i':
        return z3.Bool(eng.nm(name)) if ty[1] == 1 else eng.D.fresh(ty[1], name)
    if ty == 'ptr':
        return eng.base(name, 'ptr', 0)
    if ty in ('double', 'float'):
        return z3.Const(eng.nm(name), eng.fsort(ty))
    raise Unsupported('havoc of a %s' % (ty,))


def fresh_ghost(eng, name, v):
    from eng import Arr, ABase, AStore, ABlk, AIte
    if v is None:
        return None     # not known before, not known here
    if isinstance(v, bool):
        return z3.Bool(eng.nm(name))
    if isinstance(v, int):
        return z3.Int(eng.nm(name)) if eng.D.name == 'int' else z3.BitVec(eng.nm(name), 64)
    if z3.is_expr(v):
        return z3.Const(eng.nm(name), v.sort())
    if hasattr(v, 'fresh'):
        return v.fresh(eng, name)
    if isinstance(v, Arr) and name in getattr(eng, 'ghost_types', {}):
        return eng.base(name, *eng.ghost_types[name])
    raise Unsupported('havoc of ghost ' + name)


def ptr_phi(eng, name, vals):
    """a pointer that moves inside one object: same path, fresh last index"""
    from eng import Ptr, PtrU, alts
    base = None
    ps = [p for v in vals for c, p in alts(v)]
    long = max([len(p.path) for p in ps] or [0])
    for p in ps:
        if p.obj.kind in ('null', 'opaque') or not p.path:
            return None
        for path in (p.path + (0,) * (long - len(p.path)),):
            b = (p.obj, path[:-1])
            if base is None:
                base = b
            elif base[0] is not b[0] or len(base[1]) != len(b[1]) or any(not (x is y or (isc(x) and isc(y) and x == y) or (z3.is_expr(x) and z3.is_expr(y) and x.eq(y))) for x, y in zip(base[1], b[1])):
                return None
    i = eng.D.fresh(64, name)
    eng.auto_places = getattr(eng, 'auto_places', {})
    eng.auto_places[i.get_id()] = i
    return Ptr(base[0], base[1] + (i,))


def stays(eng, head, v):
    """a pointer that was given a place in one object at the head still is in that object"""
    from eng import Ptr
    if not (isinstance(head, Ptr) and head.path and z3.is_expr(head.path[-1]) and head.path[-1].get_id() in getattr(eng, 'auto_places', {})):
        return True
    return v is not None and (same(eng, head, v) or ptr_phi(eng, 'same', [head, v]) is not None)


def cut_loop(eng, f, h, states, rets, spec):
    from eng import Ptr, PtrU, Arr
    exits = {}
    if eng.mode == 'merge' and len(states) > 1:
        states = [eng.merge_states(states)]
    for st in states:
        for t, ss in cut_one(eng, f, h, st, rets, spec).items():
            exits.setdefault(t, []).extend(ss)
    return exits


def cut_one(eng, f, h, st, rets, spec):
    """the first analysis of a loop is remembered; later ones start from it. Outside dry runs everything that is used is checked again, and when the
    remembered analysis does not fit the loop is analysed from scratch"""
    cache = eng.__dict__.setdefault('cut_cache', {})
    key = (f.name, h, tuple(map(str, eng.where)))
    if key in cache:
        n, li = len(eng.obls), len(eng.loop_info)
        r2 = []
        nf = eng.cut_strict if hasattr(eng, 'cut_strict') else False
        ex = None if nf else cut_with(eng, f, h, st, r2, spec, cache[key], cache, key)
        if ex is not None:
            rets.extend(r2)
            return ex
        del eng.obls[n:]
        del eng.loop_info[li:]
        old, eng.cut_strict = getattr(eng, 'cut_strict', False), True
        try:
            return cut_with(eng, f, h, st, rets, spec, None, cache, key)
        finally:
            eng.cut_strict = old
    return cut_with(eng, f, h, st, rets, spec, None, cache, key)


def cut_with(eng, f, h, st, rets, spec, hint, cache, ckey):
    from eng import Ptr, PtrU, Arr, State
    body = f.loops[h]
    name = basename(eng.mod.dem.get(f.name, f.name))
    phis = [i for i in f.blocks[h] if i.op == 'phi']
    types = {i.res: i.a['t'] for i in phis}
    entry = st.fork()
    modk, modg, modp = set(), set(), set()
    ptrvals = {}

    variants = list(spec.split) if spec.split else [None]

    def head(variant=None):
        s = st.fork()
        for p in modp:
            if types[p] == 'ptr':
                v = ptr_phi(eng, 'it_' + p, [entry.env[p]] + ptrvals.get(p, []))
                s.env[p] = v if v is not None else eng.base('it_' + p, 'ptr', 0)
            else:
                s.env[p] = fresh_like(eng, 'it_' + p, types[p], entry.env[p])
        for k in modk:
            if eng.objs.get(k[0]) is None:
                continue
            nd = k[1].count('*')
            old = entry.mem.get(k)
            v = None
            if eng.leaf_type(k) == 'ptr' and not nd:
                v = ptr_phi(eng, 'loop_p', [old if old is not None else eng.leaf_init(k)] + ptrvals.get(k, []))
            if v is None:
                v = eng.base('loop', eng.leaf_type(k), nd)
            if spec.keep and nd:
                v = spec.keep(eng, k, entry, old if old is not None else eng.leaf_init(k), v) or v
            s.mem[k] = v
        for g in modg:
            s.ghost[g] = fresh_ghost(eng, g, entry.ghost.get(g))
        if spec.havoc:
            if spec.split:
                spec.havoc(eng, s, entry, variant)
            else:
                spec.havoc(eng, s, entry)
        if spec.inv:
            for nm, fm in spec.inv(eng, s, entry):
                eng.assume(s, fm)
        return s

    def dry(s):
        eng.suspend += 1
        n = len(eng.obls)
        li = len(eng.loop_info)
        try:
            r2 = []
            ex, back = eng.region(f, h, [s], body, r2)
        finally:
            eng.suspend -= 1
            del eng.obls[n:]
            del eng.loop_info[li:]
        return back

    def note(ref, back):
        """what these iterations modify; was anything new"""
        before = (len(modk), len(modg), len(modp), sum(len(v) for v in ptrvals.values()))
        for b in back:
            for k, v in b.mem.items():
                if k in modk:
                    continue
                if ref.mem.get(k, None) is not v and (k in ref.mem or eng._inits.get(k) is not v):
                    if o_in_entry(eng, entry, k[0]):
                        modk.add(k)
                        if eng.leaf_type(k) == 'ptr' and '*' not in k[1] and len(ptrvals.setdefault(k, [])) < 4:
                            ptrvals[k].append(v)
            for g, v in b.ghost.items():
                if g in ref.ghost and ref.ghost[g] is not v:
                    modg.add(g)
            for i in phis:
                v = b.env.get(i.res)
                if i.res not in modp and not same(eng, v, ref.env.get(i.res)):
                    modp.add(i.res)
                if types[i.res] == 'ptr' and v is not None:
                    ptrvals.setdefault(i.res, [])
                    if len(ptrvals[i.res]) < 4:
                        ptrvals[i.res].append(v)
        return (len(modk), len(modg), len(modp)) != before[:3]

    # 1. what the body modifies
    if hint:
        modk |= hint[0]
        modg |= hint[1]
        modp |= hint[2]
        ptrvals.update({k: list(v) for k, v in hint[3].items()})
    for rnd in range(0 if hint else 12):
        new = False
        for variant in variants:
            s0 = head(variant)
            ref = s0.fork()
            new = note(ref, dry(s0)) or new
        if not new:
            break
    else:
        if not hint:
            raise Unsupported('loop modification set does not stabilise in ' + name)

    # 2. candidates
    def cands(s):
        out = []
        if spec.cands:
            out += spec.cands(eng, s, entry)
        if spec.auto:
            out += relations(s)
            for p in sorted(modp):
                t = types[p]
                if isinstance(t, tuple) and t[0] == 'i' and t[1] > 1:
                    v, e = s.env[p], entry.env[p]
                    D = eng.D
                    out.append(('%s >= initial' % p, D.icmp('sge', t[1], v, e)))
                    out.append(('%s <= initial' % p, D.icmp('sle', t[1], v, e)))
                    out.append(('%s u>= initial' % p, D.icmp('uge', t[1], v, e)))
                    for n, (op, y, ty) in enumerate(bounds.get(p, ())):
                        c = evaluate(eng, f, body, y, ty, s)
                        if c is not None and ty == t:
                            out.append(('%s %s limit %d' % (p, op, n), D.icmp(op, t[1], v, c)))
        return out
    def scal(x, k):
        v = x.mem.get(k)
        return v if v is not None else eng.leaf_init(k)

    def relations(s):
        """two variables of the loop that move in step"""
        D = eng.D
        vs = [('%' + p, s.env.get(p), entry.env.get(p), types[p]) for p in sorted(modp)]
        vs += [(eng.objs[k[0]].name + str(k[1]), scal(s, k), scal(entry, k), eng.leaf_type(k)) for k in sorted(modk, key=str) if '*' not in k[1]]
        vs = [v for v in vs if isinstance(v[3], tuple) and v[3][0] == 'i' and v[3][1] > 1 and all(isc(x) or z3.is_expr(x) for x in v[1:3])]
        out = []
        if len(vs) <= 6 and D.name == 'int':
            for i in range(len(vs)):
                for j in range(i):
                    (n1, a, a0, _), (n2, b, b0, _) = vs[i], vs[j]
                    out.append(('%s - %s constant' % (n1, n2), D.lift(a) - D.lift(b) == D.lift(a0) - D.lift(b0)))
        return out
    bounds = {}
    for b in body:
        for i in f.blocks[b]:
            if i.op == 'icmp' and isinstance(i.a['t'], tuple):
                for x, y in ((i.a['x'], i.a['y']), (i.a['y'], i.a['x'])):
                    p = phi_of(f, body, x, modp)
                    if p and invariant_expr(f, body, y, modp):
                        for op in ('sle', 'ule'):
                            if (op, y, i.a['t']) not in bounds.setdefault(p, []):
                                bounds[p].append((op, y, i.a['t']))
    live = None
    if hint:
        live = set(hint[4])
        if not eng.suspend:
            for nm, fm in cands(entry):
                if nm in live and fm is not True and (fm is False or eng.check(entry.hyps(), B(fm), 3000) != 'unsat'):
                    return None
    for rnd in range(0 if hint else 30):
        if live is None:
            live = set()
            # initiation
            for nm, fm in cands(entry):
                if fm is True or (fm is not False and eng.check(entry.hyps(), B(fm), 3000) == 'unsat'):
                    live.add(nm)
        if not live:
            break
        drop = set()
        for variant in variants:
            s = head(variant)
            cs = [c for c in cands(s) if c[0] in live]
            for nm, fm in cs:
                eng.assume(s, fm)
            for b in dry(s):
                for nm, fm in cands(b):
                    if nm in live and nm not in drop and fm is not True and (fm is False or eng.check(b.hyps(), B(fm), eng.cand_ms) != 'unsat'):
                        drop.add(nm)
        if not drop:
            break
        live -= drop

    # 3. the real thing
    if spec.inv:
        e = entry.fork()
        eng.cur = e
        for nm, fm in spec.inv(eng, e, entry):
            eng.oblige('inv', fm, 'loop invariant at entry: ' + nm, e)
    ex, back, r2, heads_back = {}, [], [], []
    for variant in variants:
        s = head(variant)
        for nm, fm in cands(s):
            if nm in live:
                eng.assume(s, fm)
        ref = s.fork()
        x1, b1 = eng.region(f, h, [s], body, r2)
        for t, ss in x1.items():
            ex.setdefault(t, []).extend(ss)
        back += b1
        heads_back += [(ref, b) for b in b1]
        if note(ref, b1):
            if hint:
                return None
            if not eng.suspend:
                raise Unsupported('loop modification set does not stabilise in ' + name)
    if not eng.suspend:
        # the analysis above is confirmed on the final symbolic execution of the body
        for s, b in heads_back:
            for p in modp:
                if types[p] == 'ptr' and not stays(eng, s.env[p], b.env.get(p)):
                    raise Unsupported('a pointer of the loop changes its object in ' + name)
            for k in modk:
                if k in s.mem and eng.leaf_type(k) == 'ptr' and '*' not in k[1] and k in ptrvals and not stays(eng, s.mem[k], b.mem.get(k)):
                    raise Unsupported('a pointer of the loop changes its object in ' + name)
        for b in back:
            for nm, fm in cands(b):
                if nm in (live or ()) and fm is not True and (fm is False or eng.check(b.hyps(), B(fm), 3000) != 'unsat'):
                    if hint:
                        return None
                    raise Unsupported('loop invariant candidate not confirmed in ' + name)
    if hint is None:
        cache[ckey] = (frozenset(modk), frozenset(modg), frozenset(modp), {k: list(v) for k, v in ptrvals.items()}, frozenset(live or ()))
    rets.extend(r2)
    for b in back:
        eng.cur = b
        if spec.end:
            spec.end(eng, b)
        if spec.inv:
            for nm, fm in spec.inv(eng, b, entry):
                eng.oblige('inv', fm, 'loop invariant preserved: ' + nm, b)
    eng.loop_info.append((name, h, 'cut; invariants: ' + (', '.join([nm for nm, _ in (spec.inv(eng, entry.fork(), entry) if spec.inv else [])] + sorted(live or ())) or 'true')))
    return ex


def continues(eng, f, h, s):
    """the states with which the loop goes on after the back edge state s: the header is run once more and exits are dropped"""
    t = s.fork()
    n, li = len(eng.obls), len(eng.loop_info)
    eng.suspend += 1
    try:
        out = [x for x, to in eng.run_block(f, h, t) if not isinstance(to, tuple) and to in f.loops[h]]
        return [x for x in out if eng.feasible(x)]
    except Unsupported:
        return [s]
    finally:
        eng.suspend -= 1
        del eng.obls[n:]
        del eng.loop_info[li:]


def locals_of(eng, s):
    """the integer variables of the program that are in sight: (name, value)"""
    for p in sorted(s.env, key=str):
        v = s.env[p]
        if isinstance(p, str) and not p.startswith('#') and not isb(v) and (isc(v) or z3.is_int(v)):
            yield '%' + p, v
    for k in sorted((k for k in s.mem if eng.objs.get(k[0]) is not None and eng.objs[k[0]].kind == 'local' and '*' not in k[1]), key=str):
        v = s.mem[k]
        if not isb(v) and (isc(v) or z3.is_int(v)):
            yield '%s%s' % (eng.objs[k[0]].name, k[1]), v


def o_in_entry(eng, entry, oid):
    """objects that exist before the loop (an object allocated by the body dies with the iteration)"""
    o = eng.objs.get(oid)
    if o is None:
        return False
    return o.kind != 'local' or any(k[0] == oid for k in entry.mem) or any(getattr(getattr(v, 'obj', None), 'id', None) == oid for v in entry.env.values())


def same(eng, a, b):
    from eng import Ptr
    if a is b:
        return True
    if isc(a) and isc(b):
        return a == b and isb(a) == isb(b)
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.obj is b.obj and len(a.path) == len(b.path) and all(same(eng, x, y) for x, y in zip(a.path, b.path))
    return False


def phi_of(f, body, x, modp):
    """the loop phi a compared value comes from (through +constant and extensions)"""
    for _ in range(6):
        if x[0] != 'loc':
            return None
        n = x[1]
        if n in modp:
            return n
        d = defs(f).get(n)
        if d is None or d.op not in ('add', 'sub', 'sext', 'zext', 'trunc'):
            return None
        x = d.a['x']
    return None


def defs(f):
    d = getattr(f, '_defs', None)
    if d is None:
        d = {}
        for b in f.blocks.values():
            for i in b:
                if i.res is not None:
                    d[i.res] = i
        f._defs = d
    return d


def invariant_expr(f, body, y, modp, depth=0):
    """is the value a function of memory and of values from before the loop"""
    if y[0] != 'loc':
        return True
    if y[1] in modp or depth > 8:
        return False
    d = defs(f).get(y[1])
    if d is None or not any(d in f.blocks[b] for b in body):
        return True
    if d.op == 'load':
        return invariant_expr(f, body, d.a['p'], modp, depth + 1)
    if d.op == 'getelementptr':
        return invariant_expr(f, body, d.a['base'], modp, depth + 1) and all(invariant_expr(f, body, v, modp, depth + 1) for _, v in d.a['idx'])
    if d.op in ('sext', 'zext', 'trunc'):
        return invariant_expr(f, body, d.a['x'], modp, depth + 1)
    if d.op in ('add', 'sub'):
        return invariant_expr(f, body, d.a['x'], modp, depth + 1) and invariant_expr(f, body, d.a['y'], modp, depth + 1)
    return False


def evaluate(eng, f, body, y, ty, st):
    """value of a loop-invariant expression in a state (no obligations)"""
    s = st.fork()
    kinds, eng.kinds = eng.kinds, set()
    keep = eng.on_atomic
    eng.on_atomic = None
    try:
        def go(v, d=0):
            if v[0] != 'loc':
                return
            ins = defs(f).get(v[1])
            if ins is None or not any(ins in f.blocks[b] for b in body):
                return
            for w in ([ins.a['p']] if ins.op == 'load' else [ins.a['base']] + [x for _, x in ins.a['idx']] if ins.op == 'getelementptr' else [ins.a['x']] + ([ins.a['y']] if 'y' in ins.a else [])):
                go(w, d + 1)
            eng.cur = s
            eng.step_inst(f, ins, s)
        go(y)
        return eng.val(s, y, ty)
    except (Unsupported, KeyError, TypeError):
        return None
    finally:
        eng.kinds = kinds
        eng.on_atomic = keep
        eng.cur = st
