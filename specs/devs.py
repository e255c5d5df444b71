"""shared models of the C library calls made by the output devices (stdio, sockets, time, std::string)"""
from core import *


def emit_reset(eng, st):
    st.ghost['emitted'] = z3.BitVecVal(0, 8)


class Dev:
    """an arbitrary logger, one record, one addressed device"""

    def __init__(self, ctx):
        eng = self.eng = Engine(ctx.module('core.cpp'), 'bv', 'merge')
        libc(eng)
        for f in ('printf', 'puts', 'fprintf'):
            eng.models.pop(f, None)
        st = self.st = State()
        lg = self.lg = LG(eng, st)
        eng.loop_policy = lambda e, f, h, d: ('unroll', 8)
        self.log = eng.new_obj('log', ('st', eng.struct_name('LogData')), 'arg')
        self.c, self.d = z3.BitVec('channel', 32), z3.BitVec('device', 32)
        eng.watch.update(channel=self.c, device=self.d)
        self.prio, self.len, self.ts = (self.rec(st, f) for f in ('priority_', 'content_len_', 'timestamp_'))
        eng.watch.update(priority=self.prio, content_len=self.len, timestamp=self.ts)
        eng.assume(st, z3.And(self.c >= 0, self.c < lg.NC, self.d >= 0, self.d < lg.ND))
        eng.assume(st, z3.And(self.prio >= 0, self.prio < K(eng, 'PRIORITY_MAX'), self.len >= 1, self.len <= lg.LS - 2, self.ts >= 0, self.ts < 1 << 40))
        eng.assume(st, z3.And(lg.get(st, lg.p_ch(self.c, 'channel_id_')) == self.c, lg.get(st, lg.p_dev(self.c, self.d, 'device_id_')) == self.d))
        emit_reset(eng, st)
        self.text = Ptr(self.log, content(eng, self.log) + (0,))
        self.args = [Ptr(lg.lg), self.c, self.d, Ptr(self.log)]
        self.h = self.c * lg.ND + self.d

    def rec(self, st, f):
        return self.lg.get(st, self.lg.scal(self.log, self.eng.field('LogData', f)))

    def p_stat(self, name, off=None):
        k = K(self.eng, name)
        return self.lg.p_ch(self.c, 'device_log_fields_', self.d, k if off is None else z3.SignExt(32, off) + k)

    def stat(self, st, name, off=None):
        return self.lg.get(st, self.p_stat(name, off))

    def cfg(self, st, name):
        return self.lg.get(st, self.lg.p_dev(self.c, self.d, 'config_fields_', K(self.eng, name)))

    def handle(self, arr, T, fld):
        lg = self.lg
        path = lg.arr(lg.lg, self.eng.field('Logger', arr)) + (z3.SignExt(32, self.h),) + self.eng.field(T, fld)
        return lg.scal(lg.lg, path)

    def emitted(self, e, s, good, what):
        """one output of the record's text"""
        post(e, s, good, what)
        s.ghost['emitted'] = s.ghost['emitted'] + 1

    def is_text(self, e, p):
        return e.ptr_eq(p, self.text)

    def len64(self):
        return z3.SignExt(32, self.len)


def const_text(e, st, p):
    """bytes of a literal, None when not a literal"""
    if not (isinstance(p, Ptr) and p.obj.const is not None):
        return None
    q, t = e.decay(p)
    n = e.rt(e.type_at(q.obj, q.path[:-1]))[1]
    out = b''
    for i in range(n):
        v = ld(e, st, Ptr(q.obj, q.path[:-1] + (e.iadd(q.path[-1], i),)), I8)
        if not isc(v):
            return None
        if v == 0:
            return out
        out += bytes([v & 255])
    return None


def literal(e, st, p):
    return all(const_text(e, st, q) is not None for _, q in alts(p))


def stdout_models(dev):
    e = dev.eng
    out = [None]

    def printf(eng, s, ins, a, dem):
        f = const_text(eng, s, a[0])
        if f is None:
            raise Unsupported('printf format is not a literal')
        k = 1
        i = 0
        while i < len(f):
            if f[i:i + 1] == b'%':
                if f[i:i + 2] == b'%%':
                    i += 2
                    continue
                if f[i:i + 2] != b'%s':
                    raise Unsupported('printf format ' + repr(f))
                if k < len(a) and literal(eng, s, a[k]):
                    pass
                else:
                    dev.emitted(eng, s, z3.BoolVal(False), 'the whole text is output, also behind a NUL byte')
                k += 1
                i += 2
                continue
            i += 1
        return None

    def fputs(eng, s, ins, a, dem):
        if not literal(eng, s, a[0]):
            dev.emitted(eng, s, z3.BoolVal(False), 'the whole text is output, also behind a NUL byte')
        return None

    def fwrite(eng, s, ins, a, dem):
        n = bv(a[1], 64) * bv(a[2], 64)
        if literal(eng, s, a[0]):
            return a[2]
        dev.emitted(eng, s, And(dev.is_text(eng, a[0]), n == dev.len64(), z3.ULE(bv(a[1], 64), 1 << 20)), 'exactly the text of the record is output')
        return a[2]
    e.models.update({'printf': printf, 'puts': fputs, 'fputs': fputs, 'fwrite': fwrite, 'fflush': lambda *x: 0, 'putchar': lambda *x: 0, 'fputc': lambda *x: 0})


def string_models(eng, on_c_str=None, on_len=None):
    """std::string: contents unconstrained; every object carries an identity that changes with each mutation.
    A string given by const reference to a contract keeps it."""
    S = 'std::__cxx11::basic_string'
    cons = z3.Function('c_str_of', z3.IntSort(), z3.IntSort())
    isint = eng.D.name == 'int'
    lens = z3.Function('length_of', z3.IntSort(), z3.IntSort() if isint else z3.BitVecSort(64))

    def ver(e, s, p):
        if not (isinstance(p, Ptr) and p.obj.kind != 'opaque'):
            raise Unsupported('string object')
        k = 'str:%d:%s' % (p.obj.id, e.pathkey(p.obj, p.path) if False else ''.join(str(x) for x in p.path[:0]))
        if k not in s.ghost:
            v = e._fid.get(('strver', k))
            if v is None:
                v = e._fid[('strver', k)] = z3.Int(e.nm('string'))
            s.ghost[k] = v
        return k, s.ghost[k]

    def mutate(e, s, p):
        k, _ = ver(e, s, p)
        s.ghost[k] = z3.Int(e.nm('string'))

    def model(e, s, ins, a, dem):
        m = dem[len(S):]
        # name of the member
        depth = 0
        for i, ch in enumerate(m):
            if ch == '<':
                depth += 1
            elif ch == '>':
                depth -= 1
                if depth == 0:
                    m = m[i + 1:]
                    break
        nme = m[2:].split('(')[0]
        nme = nme.split('[abi')[0]
        if os.environ.get("VD"): print(dem, "->", nme)
        t = ins.a["t"] if ins is not None else 'void'
        if nme in ('c_str', 'data'):
            _, v = ver(e, s, a[0])
            tok = cons(v)
            e.fact(tok != 0)
            return e.opaque_ptr(tok)
        if nme in ('length', 'size'):
            _, v = ver(e, s, a[0])
            r = lens(v)
            e.fact(z3.And(r >= 0, r < 1 << 40) if isint else z3.ULT(r, 1 << 40))
            if isint:
                e.D.setr(r, 0, (1 << 40) - 1)
            return r
        if nme == 'empty':
            _, v = ver(e, s, a[0])
            return lens(v) == 0
        if nme in ('find', 'rfind', 'find_first_of', 'find_last_of', 'find_last_not_of', 'find_first_not_of', 'compare'):
            return None
        if nme.startswith('~'):
            return None
        if nme in ('back', 'front', 'at', 'operator[]') or nme.startswith('operator['):
            return Ptr(e.new_obj('char', I8, 'arg'))
        if nme in ('begin', 'end', 'cbegin', 'cend'):
            return None
        if nme == 'operator=' and len(a) > 1 and isinstance(a[1], Ptr) and isinstance(a[1].obj.type, tuple) and a[1].obj.type[0] in ('st', 'lst'):
            k, _ = ver(e, s, a[0])
            s.ghost[k] = ver(e, s, a[1])[1]
            return a[0]
        if nme == 'basic_string' and len(a) > 1 and isinstance(a[1], Ptr) and isinstance(a[1].obj.type, tuple) and a[1].obj.type[0] == 'st' and 'basic_string' in str(a[1].obj.type):
            k, _ = ver(e, s, a[0])
            s.ghost[k] = ver(e, s, a[1])[1]
            return None
        # everything else changes the object and returns it (or nothing)
        mutate(e, s, a[0])
        if t == 'ptr':
            return a[0]
        return None
    eng.prefix_models.append((S, model))
    eng.prefix_models.append(('std::allocator', lambda *x: None))
    eng.prefix_models.append(('std::for_each', lambda *x: None))
    eng.prefix_models.append(('std::replace', lambda *x: None))
    eng.strver = lambda s, p: ver(eng, s, p)[1]
    eng.strmut = lambda s, p: mutate(eng, s, p)
    eng.cstr_of = cons
    eng.len_of = lens

    def fresh_string(e, s, ins, a, dem):
        mutate(e, s, a[0])     # returned through a result slot
        return None
    eng.fresh_string = fresh_string


OPENS = ['DEVICE_LOG_CUR_FILE_SIZE', 'DEVICE_LOG_CUR_FILE_CREATE_TIMESTAMP', 'DEVICE_LOG_CUR_FILE_CREATE_DAY', 'DEVICE_LOG_CUR_FILE_CREATE_HOUR', 'DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP', 'DEVICE_LOG_LAST_TRY_CREATE_ERROR', 'DEVICE_LOG_LAST_TRY_CREATE_CNT']


def time_models(eng):
    """localtime_r / mktime in a zone whose offset is constant over the day in question: the local day (y, m, d)
    starts at day_start(y, m, d); an instant is that start plus 3600 h + 60 m + s"""
    I = z3.BitVecSort(32)
    ds = z3.Function('day_start', I, I, I, z3.BitVecSort(64))
    F = ('tm_sec', 'tm_min', 'tm_hour', 'tm_mday', 'tm_mon', 'tm_year')

    def base(e, p):
        t = ('st', e.struct_name('tm'))
        if isinstance(p, Ptr) and p.obj.kind != 'opaque':
            path = p.path
            while path and e.type_at(p.obj, path) != t:
                path = path[:-1]
            if e.type_at(p.obj, path) == t:
                return p.obj, path
        raise Unsupported('struct tm')

    def put(e, s, p, name, v):
        o, b = base(e, p)
        k, e.kinds = e.kinds, set()
        e.cur = s
        e.store(s, Ptr(o, b + e.field('tm', name)), I32, v)
        e.kinds = k

    def get(e, s, p, name):
        o, b = base(e, p)
        return bv(ld(e, s, Ptr(o, b + e.field('tm', name)), I32), 32)

    def localtime_r(e, s, ins, a, dem):
        t = bv(ld(e, s, a[0], I64), 64)
        v = {f: z3.BitVec(e.nm(f), 32) for f in F}
        sx = lambda f: z3.SignExt(32, v[f])
        e.assume(s, z3.And([z3.And(v[f] >= 0, v[f] < n) for f, n in (('tm_sec', 60), ('tm_min', 60), ('tm_hour', 24), ('tm_mon', 12), ('tm_year', 20000))] + [v['tm_mday'] >= 1, v['tm_mday'] <= 31]))
        d = ds(v['tm_year'], v['tm_mon'], v['tm_mday'])
        e.assume(s, z3.And(d >= -(1 << 41), d <= 1 << 41, t == d + sx('tm_hour') * 3600 + sx('tm_min') * 60 + sx('tm_sec')))
        for f in F:
            put(e, s, a[1], f, v[f])
        return a[1]

    def mktime(e, s, ins, a, dem):
        g = {f: get(e, s, a[0], f) for f in F}
        sx = lambda f: z3.SignExt(32, g[f])
        return ds(g['tm_year'], g['tm_mon'], g['tm_mday']) + sx('tm_hour') * 3600 + sx('tm_min') * 60 + sx('tm_sec')
    eng.models['localtime_r'] = localtime_r
    eng.models['mktime'] = mktime
    return ds


def file_models(dev):
    """stdio, directory and rollback events of the file device; ghosts count them"""
    eng, st, lg = dev.eng, dev.st, dev.lg
    fp = dev.fp = dev.handle('file_handles_', 'FileHandler', 'file_')
    string_models(eng)
    ds = time_models(eng)
    z8 = z3.BitVecVal(0, 8)
    for k in ('closed', 'fopened', 'rolled', 'emitted'):
        st.ghost[k] = z8
    st.ghost['lastlen'] = z3.BitVecVal(0, 64)
    st.ghost['st_size'] = z3.BitVecVal(0, 64)
    st.ghost['openok'] = z3.BoolVal(False)
    st.ghost['rollpath'] = z3.IntVal(0)
    st.ghost['day'] = z3.BitVecVal(0, 64)
    st.ghost['hour'] = z3.BitVecVal(0, 64)
    for f in ('FNLog::MakeFileName', 'FNLog::MakePathName', 'FNLog::FmtName', 'FNLog::PreFmtName', 'FNLog::FileHandler::process_id', 'FNLog::FileHandler::process_name', 'std::to_string'):
        eng.contracts[f] = eng.fresh_string
    eng.contracts['FNLog::FileHandler::is_dir'] = lambda *x: None
    eng.contracts['FNLog::FileHandler::create_dir'] = lambda *x: None
    eng.models.update({k: (lambda *x: None) for k in ('opendir', 'closedir', 'mkdir', 'access', 'fileno', 'fsync', 'posix_fadvise')})
    eng.models['fflush'] = lambda *x: 0
    inner = eng.prefix_models[0]

    def strings(e, s, ins, a, dem):
        r = inner[1](e, s, ins, a, dem)
        b = basename(dem)
        if b.endswith('::length') or b.endswith('::size'):
            s.ghost['lastlen'] = r
        return r
    eng.prefix_models[0] = (inner[0], strings)

    def rollback(e, s, ins, a, dem):
        rb = dev.cfg(s, 'DEVICE_CFG_FILE_ROLLBACK')
        post(e, s, And(e.is_null(lg.get(s, fp)), s.ghost['fopened'] == 0), 'the backups are shifted while no file is open')
        post(e, s, bv(a[1], 32) == 1, 'rollback starts with the current file')
        post(e, s, bv(a[2], 32) == z3.If(rb > 0, z3.If(rb < (1 << 31) - 1, z3.Extract(31, 0, rb), z3.BitVecVal((1 << 31) - 1, 32)), z3.BitVecVal(1, 32)), 'rollback keeps the configured number of backups (one without a configured number)')
        s.ghost['rolled'] = s.ghost['rolled'] + 1
        dev.rolls = getattr(dev, 'rolls', 0) + 1
        s.ghost['rollpath'] = e.strver(s, a[0])
        return None
    eng.contracts['FNLog::FileHandler::rollback'] = rollback

    def fopen(e, s, ins, a, dem):
        m = const_text(e, s, a[1])
        if m is None:
            raise Unsupported('fopen mode is not a literal')
        post(e, s, B(m[:1] == b'a'), 'log files are opened for appending')
        post(e, s, e.is_null(lg.get(s, fp)), 'the previous file is closed before the next is opened')
        tok = z3.Int(e.nm('FILE'))
        e.assume(s, tok >= 0)
        s.ghost['fopened'] = s.ghost['fopened'] + 1
        if isinstance(a[0], Ptr) and a[0].obj.kind == 'opaque':
            post(e, s, Implies(s.ghost['rolled'] != 0, a[0].obj.token == e.cstr_of(s.ghost['rollpath'])), 'the file that is opened is the one that was rolled over')
        s.ghost['openok'] = tok != 0
        return e.opaque_ptr(tok)
    eng.models['fopen'] = fopen

    def fclose(e, s, ins, a, dem):
        post(e, s, Not(e.is_null(a[0])), 'only open files are closed')
        s.ghost['closed'] = s.ghost['closed'] + 1
        return None
    eng.models['fclose'] = fclose

    def fstat(e, s, ins, a, dem):
        ok = z3.Bool(e.nm('fstat_ok'))
        sz = z3.BitVec(e.nm('st_size'), 64)
        e.assume(s, z3.And(sz >= 0, sz < 1 << 60))
        p = a[1]
        if not (isinstance(p, Ptr) and p.obj.kind != 'opaque'):
            raise Unsupported('struct stat')
        path = p.path
        st_t = ('st', e.struct_name('stat'))
        while path and e.type_at(p.obj, path) != st_t:
            path = path[:-1]
        k, e.kinds = e.kinds, set()
        e.cur = s
        e.store(s, Ptr(p.obj, path + e.field_path(st_t[1], K(e, 'OFF_ST_SIZE'))), I64, sz)
        e.kinds = k
        s.ghost['openok'] = z3.And(s.ghost['openok'], ok)
        s.ghost['st_size'] = sz
        return z3.If(ok, z3.BitVecVal(0, 32), z3.BitVecVal(-1, 32))
    eng.models['fstat'] = fstat
    inner_lt = eng.models['localtime_r']

    def localtime_r(e, s, ins, a, dem):
        post(e, s, bv(ld(e, s, a[0], I64), 64) == dev.ts, 'the day and hour are those of the record')
        r = inner_lt(e, s, ins, a, dem)
        o, b = a[1].obj, a[1].path
        t = ('st', e.struct_name('tm'))
        while b and e.type_at(o, b) != t:
            b = b[:-1]
        g = {f: bv(ld(e, s, Ptr(o, b + e.field('tm', f)), I32), 32) for f in ('tm_year', 'tm_mon', 'tm_mday', 'tm_hour')}
        s.ghost['day'] = ds(g['tm_year'], g['tm_mon'], g['tm_mday'])
        s.ghost['hour'] = s.ghost['day'] + z3.SignExt(32, g['tm_hour']) * 3600
        return r
    eng.models['localtime_r'] = localtime_r

    def fwrite(e, s, ins, a, dem):
        n = bv(a[1], 64) * bv(a[2], 64)
        dev.emitted(e, s, And(dev.is_text(e, a[0]), n == dev.len64(), z3.ULE(bv(a[1], 64), 1 << 20), e.ptr_eq(a[3], lg.get(s, fp)), Not(e.is_null(a[3]))), 'exactly the text of the record is written to the file of the device')
        return a[2]
    eng.models['fwrite'] = fwrite
    LIM = 1 << 60
    for n in ('DEVICE_LOG_CUR_FILE_SIZE', 'DEVICE_LOG_CUR_FILE_CREATE_DAY', 'DEVICE_LOG_CUR_FILE_CREATE_HOUR', 'DEVICE_LOG_LAST_TRY_CREATE_TIMESTAMP'):
        v = dev.stat(st, n)
        eng.assume(st, z3.And(v >= -LIM, v <= LIM))
    eng.assume(st, z3.And(dev.cfg(st, 'DEVICE_CFG_FILE_LIMIT_SIZE') >= 0))
    eng.watch.update({n.replace('DEVICE_CFG_', '').lower(): dev.cfg(st, n) for n in ('DEVICE_CFG_FILE_LIMIT_SIZE', 'DEVICE_CFG_FILE_ROLLBACK', 'DEVICE_CFG_FILE_ROLLDAILY', 'DEVICE_CFG_FILE_ROLLHOURLY', 'DEVICE_CFG_FILE_STUFF_UP')})
    eng.watch.update({n.replace('DEVICE_LOG_', '').lower(): dev.stat(st, n) for n in OPENS})
    eng.watch['open_before'] = B(Not(eng.is_null(lg.get(st, fp))))
