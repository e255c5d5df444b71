"""C04 building a record never writes outside its buffer and only appends"""
from core import *
from c01 import TRUSTED, stream_obj
from houdini import Cut
import re

ID = 'C04'
LEVEL = 'proof'
ASSUMPTIONS = ['invariant of a record under construction: 0 <= content_len_ <= LOG_SIZE; established by InitLogData and the prefix (C19), preserved by every operation (proved here)',
               'source pointers given by the caller are valid for the length given and shorter than 2^31-64 bytes',
               'write_double_unsafe writes at most 30 bytes (proved here from the libc contracts of gcvt, snprintf and modf)',
               'write_date_unsafe writes at most 40 bytes (C03), write_dec/hex/pointer_unsafe as proved in C01/C02',
               'containers: size, begin, end and iteration are arbitrary external functions that do not touch the record']


def contracts(eng):
    def dec(e, st, ins, a, dem):
        m = re.search(r'write_dec_unsafe<(\d+)', dem)
        w = max(int(m.group(1)) if m else 30, 20)
        return text_contract(1, w)(e, st, ins, a, dem)

    def hexc(e, st, ins, a, dem):
        m = re.search(r'write_hex_unsafe<(\d+)', dem)
        w = max(int(m.group(1)) if m else 30, 16)
        v = a[1]
        if m and w == 16 and not isc(v) and e.D.name == 'int' and e.D.range(v)[0] >= 0 and e.D.range(v)[1] < 256:
            w = max(int(m.group(1)), 2)
        return text_contract(1, w)(e, st, ins, a, dem)
    eng.contracts['FNLog::write_dec_unsafe'] = dec
    eng.contracts['FNLog::write_hex_unsafe'] = hexc
    eng.contracts['FNLog::write_pointer_unsafe'] = text_contract(1, 18)
    eng.contracts['FNLog::write_double_unsafe'] = text_contract(0, 30)

    def date(e, st, ins, a, dem):
        n = e.D.fresh(32, 'datelen', 0, 23)
        havoc_bytes(e, st, a[0], 40)
        e.fact(z3.Or(n == 0, n == 23))
        return n
    eng.contracts['FNLog::write_date_unsafe'] = date
    eng.models['isprint'] = lambda e, st, ins, a, dem: None

    eng.models['strlen'] = strlen_model


def build(ctx, null):
    eng = Engine(ctx.module('stream.cpp'), 'int', 'paths')
    st = State()
    ls, ldo, cl, size = stream_obj(eng, st)
    if null:
        eng.cur = st
        eng.store(st, Ptr(ls, eng.field('LogStream', 'log_data_')), 'ptr', NULLP)
    contracts(eng)
    return eng, st, ls, ldo, cl, size


def unit(fname, mk, exact=None, null=False, cutting=True):
    def go(ctx):
        eng, st, ls, ldo, cl, size = build(ctx, null)
        D = eng.D
        cp = content(eng, ldo)
        args = mk(eng, st)
        st0 = st.fork()
        k = D.fresh(64, 'k', 0, size - 1)
        CL = lambda s: ld(eng, s, Ptr(ldo, eng.field('LogData', 'content_len_')), I32)
        B_ = lambda s: at(eng, ldo, s, k, cp)
        inv = lambda e, s, entry: [('content length within the buffer', And(CL(s) >= cl, CL(s) <= size)), ('earlier bytes unchanged', Implies(k < D.lift(cl), D.lift(B_(s)) == D.lift(B_(st0))))]
        if cutting:
            eng.loop_policy = lambda e, f, h, d: ('cut', Cut(inv=inv))
        eng.covers.append(('entry', st.hyps()))
        own = set()
        for f in ('content_', 'content_len_'):
            own.add(key_of(eng, lg_scal(eng, ldo, f))[0])
        for s, r in run(eng, fname, [Ptr(ls)] + args, st):
            if not null:
                post(eng, s, And(CL(s) >= cl, CL(s) <= size), 'content length stays within the buffer and never shrinks')
                post(eng, s, Implies(k < D.lift(cl), D.lift(B_(s)) == D.lift(B_(st0))), 'bytes already in the record are unchanged')
                if exact:
                    exact(eng, s, st0, ldo, cl, CL(s), k, B_(s), B_(st0), size, args)
            cat = key_of(eng, lg_scal(eng, ldo, 'category_'))[0]
            skip = (lambda key, idx: key in own) if not null else (lambda key, idx: False)
            sk = (lambda key, idx: key in own or key == cat) if fname == 'vp_cat' and not null else skip
            frame(eng, s, st0, (ldo, ls), [sk], 'nothing else of the record changes')
            if fname == 'vp_cat' and not null:
                post(eng, s, D.lift(ld(eng, s, lg_scal(eng, ldo, 'category_')[0], I32)) == D.lift(args[0]), 'the category is set')
            post(eng, s, True, '%s returns' % fname)
        return eng
    return go


def lg_scal(eng, obj, f):
    path = eng.field('LogData', f)
    t = eng.rt(eng.type_at(obj, path))
    while isinstance(t, tuple) and t[0] in ('lst', 'arr'):
        path += (0,)
        t = eng.rt(eng.type_at(obj, path))
    return Ptr(obj, path), t


def text(eng, name, n):
    o = eng.new_obj(name, ('arr', None, I8), 'arg')
    o.len = n
    return o


def cut_exact(src, n):
    """n bytes of src appended, cut to the room"""
    def go(eng, s, st0, ldo, cl, cl2, k, b, b0, size, args):
        D = eng.D
        N = D.lift(n)
        room = size - D.lift(cl)
        m = z3.If(N <= 0, z3.IntVal(0), z3.If(N <= room, N, room))
        post(eng, s, D.lift(cl2) == D.lift(cl) + m, 'exactly the text is appended, cut to the space left')
        post(eng, s, Implies(k >= D.lift(cl2), D.lift(b) == D.lift(b0)), 'no byte behind the record is written')
        j = eng.isub(k, cl)
        post(eng, s, Implies(And(k >= D.lift(cl), k < D.lift(cl2)), D.lift(b) == D.lift(at(eng, src, st0, j))), 'the appended bytes are those of the text')
    return go


def buf_unit(fname, null):
    def go(ctx):
        holder = {}

        def mk(eng, st):
            n = eng.D.fresh(32, 'len', -(1 << 31), (1 << 31) - 65)
            eng.watch['len'] = n
            o = text(eng, 'src', z3.If(n > 0, n, z3.IntVal(0)))
            eng.D.setr(o.len, 0, (1 << 31) - 65)
            holder['o'], holder['n'] = o, n
            return [Ptr(o, (0,)), n]
        ex = None if fname == 'vp_binary' else lambda *a: cut_exact(holder['o'], holder['n'])(*a)
        return unit(fname, mk, ex, null)(ctx)
    return go


def cstr_unit(fname, nullarg=False):
    def go(ctx):
        holder = {}

        def mk(eng, st):
            n = eng.D.fresh(64, 'len', 0, (1 << 31) - 65)
            eng.watch['len'] = n
            o = text(eng, 'cstr', n + 1)
            holder['o'], holder['n'] = o, n

            def strlen(e, s, ins, a, dem):
                if isinstance(a[0], Ptr) and a[0].obj is o and isc(a[0].path[0]) and a[0].path[0] == 0:
                    return n
                return strlen_model(e, s, ins, a, dem)
            eng.models['strlen'] = strlen
            return [Ptr(o, (0,))]
        if nullarg:
            def ex(eng, s, st0, ldo, cl, cl2, k, b, b0, size, args):
                pass
            return unit(fname, lambda e, s: [NULLP], None)(ctx)
        return unit(fname, mk, lambda *a: cut_exact(holder['o'], holder['n'])(*a))(ctx)
    return go


def str_unit(ctx):
    holder = {}

    def mk(eng, st):
        n = eng.D.fresh(64, 'len', 0, (1 << 31) - 65)
        o = text(eng, 'string_data', n + 1)
        holder['o'], holder['n'] = o, n
        so = eng.new_obj('string', ('arr', 32, I8), 'arg')
        S = 'std::__cxx11::basic_string'
        chk = lambda v: (lambda e, s, ins, a, dem: v if isinstance(a[0], Ptr) and a[0].obj is so else NotImplemented)
        for nm in ('c_str', 'data'):
            eng.models['%s::%s' % (S, nm)] = chk(Ptr(o, (0,)))
        for nm in ('length', 'size'):
            eng.models['%s::%s' % (S, nm)] = chk(n)
        return [Ptr(so, (0,))]
    return unit('vp_string', mk, lambda *a: cut_exact(holder['o'], holder['n'])(*a))(ctx)


def cont_unit(fname):
    def go(ctx):
        def mk(eng, st):
            anyv = lambda e, s, ins, a, dem: None

            def it(e, s, ins, a, dem):
                if a and isinstance(a[0], Ptr) and ins is not None and ins.a['t'] == 'void':
                    pass
                return None
            for n in ('size', 'begin', 'end'):
                eng.models['VpCont::' + n] = it
            for n in ('operator!=', 'operator++', 'operator*'):
                eng.models['VpIter::' + n] = it
            o = eng.new_obj('container', ('st', eng.struct_name('VpCont')) if fname == 'vp_container' else ('arr', 64, I8), 'arg')
            return [Ptr(o)]
        return unit(fname, mk)(ctx)
    return go


def ints(w, n=1):
    def mk(eng, st):
        v = eng.D.fresh(w, 'value') if w > 1 else z3.Bool('value')
        eng.watch['value'] = v
        return [v]
    return mk


def fl(ty):
    return lambda eng, st: [z3.Const('fvalue', eng.fsort(ty))]


def units(ctx):
    import c20
    ctx.module('stream.cpp'), ctx.module('fmt.cpp')
    us = [Unit('write_double_unsafe', lambda ctx: c20.unit_double(ctx, values=False)), Unit('write_buffer', buf_unit('vp_buf', False)), Unit('write_buffer, no record', buf_unit('vp_buf', True)),
          Unit('write_buffer null source', unit('vp_buf', lambda e, s: [NULLP, e.D.fresh(32, 'len')])),
          Unit('write_binary', buf_unit('vp_binary', False)), Unit('write_binary, no record', buf_unit('vp_binary', True)),
          Unit('<< const char*', cstr_unit('vp_cstr')), Unit('<< null const char*', cstr_unit('vp_cstr', True)),
          Unit('<< std::string', str_unit), Unit('<< container', cont_unit('vp_container'))]
    for f, w in (('vp_s16', 16), ('vp_u16', 16), ('vp_s32', 32), ('vp_u32', 32), ('vp_sl', 64), ('vp_ul', 64), ('vp_s64', 64), ('vp_u64', 64), ('vp_u8', 8), ('vp_char', 8), ('vp_bool', 1),
                 ('vp_num_s32_w6', 32), ('vp_num_u64_w12', 64), ('vp_num_u8_w3', 8), ('vp_num_s64_w0', 64), ('vp_cat', 32)):
        us.append(Unit(f, unit(f, ints(w))))
        us.append(Unit(f + ', no record', unit(f, ints(w), null=True)))
    for f, mk in (('vp_float', fl('float')), ('vp_double', fl('double')), ('vp_percent', fl('float')), ('vp_blank', lambda e, s: []), ('vp_blank_wide', lambda e, s: []),
                  ('vp_time', lambda e, s: [e.D.fresh(64, 'ts'), e.D.fresh(32, 'ms')]), ('vp_null', lambda e, s: []),
                  ('vp_ptr', lambda e, s: [Ptr(text(e, 'pointee', 1), (0,))])):
        us.append(Unit(f, unit(f, mk)))
        us.append(Unit(f + ', no record', unit(f, mk, null=True)))
    return us


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c04.cpp', 200000, 5000000)
