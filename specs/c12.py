"""C12 hot update changes only filter settings and is all-or-nothing"""
from load import *
from c01 import TRUSTED

ID = 'C12'
LEVEL = 'proof'
ASSUMPTIONS = [
    'ParseLogger returns 0 only with a well-formed result: at most MAX_CHANNEL_SIZE channels and MAX_DEVICE_SIZE devices, numbered by position, entries behind the last channel zero',
    'the running configuration is well formed (it came from ParseLogger or from earlier updates: preserved here); the caller passes a configured channel',
    'one thread re-reads the configuration of a channel at a time (its output thread); settings changed through the accessors at the same time are not ordered against the update',
    'the C library keeps its contract: fopen, fstat, fclose, time, std::string members']


class Hot(Load):
    def __init__(self, ctx):
        Load.__init__(self, ctx)
        eng, st, lg, D = self.eng, self.st, self.lg, self.D
        self.c = D.fresh(32, 'channel', 0, lg.NC - 1)
        self.n = D.lift(lg.get(st, lg.p_shm('channel_size_')))
        eng.assume(st, And(self.n >= 1, self.n <= lg.NC, self.c >= 0, self.c < lg.NC))
        numbered(self, st, lg, self.n)
        self.size0 = D.lift(lg.get(st, lg.p_ch(self.c, 'device_size_')))
        self.J = D.fresh(64, 'device', 0, lg.ND - 1)
        self.ndc, self.nch = K(eng, 'DEVICE_CFG_MAX_ID'), K(eng, 'CHANNEL_CFG_MAX_ID')
        self.F = D.fresh(64, 'devfield', 0, self.ndc - 1)
        self.G = D.fresh(64, 'chfield', 0, self.nch - 1)
        self.B = D.fresh(64, 'pathbyte', 0, max(K(eng, 'MAX_PATH_LEN'), K(eng, 'MAX_LOGGER_NAME_LEN')) - 1)
        eng.fact(z3.And(self.J >= 0, self.J < lg.ND, self.F >= 0, self.F < self.ndc, self.G >= 0, self.G < self.nch, self.B >= 0, self.B < max(K(eng, 'MAX_PATH_LEN'), K(eng, 'MAX_LOGGER_NAME_LEN'))))
        last = D.lift(lg.get(st, lg.p_ch(self.c, 'last_hot_check_')))
        eng.assume(st, And(last >= 0, last < 1 << 40))
        self.HU = key_of(eng, lg.p_logger('hot_update_'))
        eng.loop_policy = self.policy
        self.st0 = st.fork()
        eng.watch.update(channel=self.c, channel_size=self.n, device_size=self.size0, logger_state=lg.get(st, lg.p_logger('logger_state_')), hot_update=lg.get(st, lg.p_logger('hot_update_')))

    def policy(self, e, f, h, d):
        if const_trip(f, h):
            return ('unroll', 40)
        return ('cut', Cut(cands=self.cands))

    # leaves of a device other than its settings
    def identity(self, s, src, c, d):
        g = self.lg.get
        return {f: g(s, src.p_dev(c, d, f)) for f in ('device_id_', 'out_type_', 'in_type_')} | {'out_file_': g(s, src.p_dev(c, d, 'out_file_', self.B)), 'out_path_': g(s, src.p_dev(c, d, 'out_path_', self.B))}

    def cfg(self, s, src, c, d, f):
        return self.D.lift(self.lg.get(s, src.p_dev(c, d, 'config_fields_', f)))

    def ccfg(self, s, src, c, f):
        return self.D.lift(self.lg.get(s, src.p_ch(c, 'config_fields_', f)))

    def same_identity(self, s, a, c, d, s1, b):
        x, y = self.identity(s, a, c, d), self.identity(s1, b, c, d)
        return And([self.D.lift(x[k]) == self.D.lift(y[k]) for k in x])

    def cands(self, e, s, entry):
        lg, J, c, D = self.lg, self.J, self.c, self.D
        if self.ls is None:
            return []
        src = self.ls
        out = []
        s0 = self.st0
        n = lambda: D.lift(lg.get(s, lg.p_ch(c, 'device_size_')))
        m = D.lift(lg.get(s, src.p_ch(c, 'device_size_')))
        g0 = D.lift(lg.get(entry, lg.p_ch(c, 'device_size_')))
        out.append(('the number of devices of the other channels stays', And([Implies(c != k, D.lift(lg.get(s, lg.p_ch(k, 'device_size_'))) == D.lift(lg.get(s0, lg.p_ch(k, 'device_size_')))) for k in range(lg.NC)])))
        out.append(('the settings of other channels stay', And([Implies(c != k, self.cfg(s, lg, k, J, self.F) == self.cfg(s0, lg, k, J, self.F)) for k in range(lg.NC)])))
        out.append(('the channel settings of other channels stay', And([Implies(c != k, self.ccfg(s, lg, k, self.G) == self.ccfg(s0, lg, k, self.G)) for k in range(lg.NC)])))
        out.append(('the devices of other channels stay', And([Implies(c != k, self.same_identity(s, lg, k, J, s0, lg)) for k in range(lg.NC)])))
        out.append(('existing devices keep their identity', Implies(J < self.size0, self.same_identity(s, lg, c, J, s0, lg))))
        out.append(('appended devices behind the new number stay', Implies(J >= n(), self.same_identity(s, lg, c, J, s0, lg))))
        out.append(('settings of devices behind the parsed ones stay', Implies(And(J >= m), self.cfg(s, lg, c, J, self.F) == self.cfg(s0, lg, c, J, self.F))))
        out.append(('new devices are the parsed ones', Implies(And(J >= self.size0, J < n()), And(J < m, self.same_identity(s, lg, c, J, entry, src), self.cfg(s, lg, c, J, self.F) == self.cfg(entry, src, c, J, self.F)))))
        out.append(('number of devices', And(n() >= self.size0, n() <= z3.If(self.size0 > m, self.size0, m))))
        out.append(('devices are numbered', And([Implies(D.lift(k) < n(), D.lift(lg.get(s, lg.p_dev(c, k, 'device_id_'))) == k) for k in range(lg.ND)])))
        for p in sorted(s.env, key=str):
            v = s.env[p]
            if isb(v) or not (isc(v) or z3.is_int(v)) or p.startswith('#'):
                continue
            v = D.lift(v)
            out.append(('%%%s range' % p, And(v >= 0, v <= lg.ND)))
            out.append(('channel settings before %%%s are copied' % p, Implies(self.G < v, self.ccfg(s, lg, c, self.G) == self.ccfg(entry, src, c, self.G))))
            out.append(('device settings before %%%s are copied' % p, Implies(And(J < v), And(self.cfg(s, lg, c, J, self.F) == self.cfg(entry, src, c, J, self.F)))))
            out.append(('device settings from %%%s stay' % p, Implies(And(J >= v), And(self.cfg(s, lg, c, J, self.F) == self.cfg(s0, lg, c, J, self.F)))))
            out.append(('device numbers up to %%%s' % p, n() == z3.If(v > self.size0, v, self.size0)))
            out.append(('%%%s within the parsed devices' % p, v <= m))
        out.append(('channel settings are as before the loop', self.ccfg(s, lg, c, self.G) == self.ccfg(entry, lg, c, self.G)))
        return out


def unit(ctx):
    w = Hot(ctx)
    eng, st, lg, D, c, J = w.eng, w.st, w.lg, w.D, w.c, w.J
    st0 = w.st0
    yml = lambda s: D.lift(lg.get(s, lg.p_ch(c, 'yaml_mtime_')))
    kch = lambda f, *ix: key_of(eng, lg.p_ch(0, f, *ix))[0]
    k_check = K(eng, 'CHANNEL_LOG_HOTUPDATE_CHECK')
    k_change = K(eng, 'CHANNEL_LOG_HOTUPDATE_CHANGE')
    book = [only(eng, lg.p_ch(c, 'last_hot_check_'), lg.p_ch(c, 'channel_log_fields_', k_check))]
    upd = book + [only(eng, lg.p_ch(c, 'yaml_mtime_'), lg.p_logger('hot_update_'), lg.p_ch(c, 'channel_log_fields_', k_change), lg.p_ch(c, 'device_size_'))]
    cfgkeys = {kch('config_fields_', 0): 1, key_of(eng, lg.p_dev(0, 0, 'config_fields_', 0))[0]: 2}
    devkeys = {key_of(eng, lg.p_dev(0, 0, f))[0] for f in ('device_id_', 'out_type_', 'in_type_')} | {key_of(eng, lg.p_dev(0, 0, f, 0))[0] for f in ('out_file_', 'out_path_')}
    seen = set()
    hu0 = lg.get(st0, lg.p_logger('hot_update_'))
    last0 = D.lift(lg.get(st0, lg.p_ch(c, 'last_hot_check_')))
    eng.covers.append(('entry', st.hyps()))
    for s, v in run(eng, 'vp_hot', [Ptr(lg.lg), c], st):
        v = D.lift(v)
        g = s.ghost
        post(eng, s, g['owned'] == 0, 'the state lock is released')
        post(eng, s, g['fopened'] == g['fclosed'], 'the configuration file is closed')
        if w.ls is None or not (eng.check(s.hyps() + [g["parseok"]], None, 3000) != "unsat"):
            applied = z3.BoolVal(False)
        else:
            src = w.ls
            m = D.lift(lg.get(s, src.p_ch(c, 'device_size_')))
            nls = D.lift(lg.get(s, src.f('channel_size_')))
            applied = And(g['parseok'], c < nls, v == 0)
        touched = Not(applied)
        changed = lg.get(s, lg.p_ch(c, 'channel_log_fields_', k_change)) != lg.get(st0, lg.p_ch(c, 'channel_log_fields_', k_change))
        post(eng, s, Implies(touched, Not(changed)), 'an update is counted only when it was applied')
        # nothing applied: only the bookkeeping of the check may differ
        t = s.fork()
        eng.assume(t, touched)
        if eng.feasible(t):
            frame(eng, t, st0, (lg.lg, lg.shm), book, 'a configuration that cannot be opened, has not changed, does not parse or lacks the channel changes nothing')
            seen.add('kept')
        t = s.fork()
        eng.assume(t, applied)
        if not eng.feasible(t):
            continue
        seen.add('applied')
        s = t
        src = w.ls
        frame(eng, s, st0, (lg.lg, lg.shm), upd + [lambda key, idx: True if key in cfgkeys or key in devkeys else (None if idx is None else False)], 'only the settings of the channel and appended devices change')
        for k in range(lg.NC):
            post(eng, s, Implies(c != k, And(w.same_identity(s, lg, k, J, st0, lg), w.cfg(s, lg, k, J, w.F) == w.cfg(st0, lg, k, J, w.F), w.ccfg(s, lg, k, w.G) == w.ccfg(st0, lg, k, w.G))), 'the settings and devices of other channels stay (channel %d)' % k)
        post(eng, s, Implies(J >= D.lift(lg.get(s, lg.p_ch(c, 'device_size_'))), w.same_identity(s, lg, c, J, st0, lg)), 'unused device entries stay')
        post(eng, s, g['openok'], 'the update was read from a file that could be opened')
        post(eng, s, g['parsed'] == 1, 'the configuration is parsed once')
        post(eng, s, And(D.lift(lg.get(s, lg.p_ch(c, 'device_size_'))) == z3.If(m > w.size0, m, w.size0)), 'existing devices stay and new ones are appended')
        post(eng, s, w.ccfg(s, lg, c, w.G) == w.ccfg(s, src, c, w.G), 'the channel settings are those of the file')
        post(eng, s, Implies(J < m, w.cfg(s, lg, c, J, w.F) == w.cfg(s, src, c, J, w.F)), 'the device settings are those of the file')
        post(eng, s, Implies(J >= m, w.cfg(s, lg, c, J, w.F) == w.cfg(st0, lg, c, J, w.F)), 'devices the file does not name keep their settings')
        post(eng, s, Implies(J < w.size0, w.same_identity(s, lg, c, J, st0, lg)), 'existing devices keep kind, name and path')
        post(eng, s, Implies(And(J >= w.size0, J < m), w.same_identity(s, lg, c, J, s, src)), 'appended devices are those of the file')
        post(eng, s, Implies(J < D.lift(lg.get(s, lg.p_ch(c, 'device_size_'))), D.lift(lg.get(s, lg.p_dev(c, J, 'device_id_'))) == J), 'devices stay numbered')
        post(eng, s, yml(s) == g['mtime'], 'the time of the applied file is remembered')
        post(eng, s, yml(st0) != g['mtime'], 'an unchanged file is not applied again')
    if seen != {'kept', 'applied'}:
        raise Unsupported('an update is never applied or never refused')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('HotUpdateLogger', unit, par=4, weight=4, timeout=40)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c12.cpp', 300, 6000)
