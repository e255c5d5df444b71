"""C13 files roll exactly at the configured size, day or hour boundary"""
from devs import *
from c01 import TRUSTED

ID = 'C13'
LEVEL = 'proof'
ASSUMPTIONS = [
    'timestamps in [0, 2^40), sizes in [0, 2^60], size limit >= 0, text of 1 to LOG_SIZE-2 bytes',
    'the UTC offset of the local zone is constant over the day of the record and of the file (days of a DST change: known finding)',
    'the C library keeps its contract: fopen/fstat/fclose/fwrite on regular files, localtime_r, mktime, std::string members',
    'nobody else writes the log file while it is open']


def unit(ctx):
    dev = Dev(ctx)
    eng, st, lg = dev.eng, dev.st, dev.lg
    file_models(dev)
    fp, ts, n = dev.fp, dev.ts, dev.len64()
    st0 = st.fork()
    S = lambda nme, s=st0: dev.stat(s, 'DEVICE_LOG_' + nme)
    C = lambda nme: dev.cfg(st0, 'DEVICE_CFG_FILE_' + nme)
    open0 = B(Not(eng.is_null(lg.get(st0, fp))))
    blocked = z3.And(z3.Not(open0), S('LAST_TRY_CREATE_TIMESTAMP') + 5 > ts)
    roll_size = z3.And(C('LIMIT_SIZE') > 0, C('ROLLBACK') > 0, S('CUR_FILE_SIZE') + n > C('LIMIT_SIZE'))
    day, hour = S('CUR_FILE_CREATE_DAY'), S('CUR_FILE_CREATE_HOUR')
    roll_day = z3.And(C('ROLLDAILY') != 0, z3.Or(ts < day, ts >= day + 86400))
    roll_hour = z3.And(C('ROLLDAILY') == 0, C('ROLLHOURLY') != 0, z3.Or(ts < hour, ts >= hour + 3600))
    roll = z3.Or(roll_size, roll_day, roll_hour)
    stay = z3.And(open0, z3.Not(roll))
    fresh = z3.And(z3.Not(stay), z3.Not(blocked))
    eng.covers += [('size roll', st.hyps() + [open0, roll_size]), ('daily roll', st.hyps() + [open0, roll_day]), ('hourly roll', st.hyps() + [open0, roll_hour]), ('no roll', st.hyps() + [stay]), ('blocked', st.hyps() + [blocked]), ('first open', st.hyps() + [z3.Not(open0), fresh])]
    eng.watch.update(rolls_by_size=roll_size, rolls_by_day=roll_day, rolls_by_hour=roll_hour, retry_blocked=blocked)
    for s, r in run(eng, 'vp_file', dev.args, st):
        g = s.ghost
        none = z3.And(g['closed'] == 0, g['fopened'] == 0, g['rolled'] == 0)
        s1 = lambda nme: dev.stat(s, 'DEVICE_LOG_' + nme)
        same = lambda *ns: z3.And([s1(x) == S(x) for x in ns])
        op = B(Not(eng.is_null(lg.get(s, fp))))
        post(eng, s, Implies(stay, none), 'an open file inside its limits is kept')
        post(eng, s, Implies(stay, B(eng.ptr_eq(lg.get(s, fp), lg.get(st0, fp)))), 'the record goes to the open file')
        post(eng, s, Implies(stay, g['emitted'] == 1), 'the record is written to the open file')
        post(eng, s, Implies(stay, s1('CUR_FILE_SIZE') == S('CUR_FILE_SIZE') + n), 'the tracked size grows by the bytes written')
        post(eng, s, Implies(stay, same('CUR_FILE_CREATE_DAY', 'CUR_FILE_CREATE_HOUR', 'LAST_TRY_CREATE_TIMESTAMP')), 'the boundaries of an open file stay')
        post(eng, s, Implies(blocked, z3.And(none, g['emitted'] == 0)), 'a failed open is not retried within five seconds')
        post(eng, s, Implies(blocked, same(*[x.replace('DEVICE_LOG_', '') for x in OPENS])), 'a blocked retry changes nothing')
        post(eng, s, Implies(And(open0, fresh), And(g['closed'] >= 1, Implies(g['openok'], g['closed'] == 1))), 'the old file is closed when a boundary is reached')
        post(eng, s, Implies(fresh, z3.Or(g['fopened'] == 1, z3.And(g['fopened'] == 0, z3.UGE(g['lastlen'], K(eng, 'MAX_PATH_LEN') + K(eng, 'MAX_LOGGER_NAME_LEN'))))), 'a new file is opened once')
        wants = z3.And(z3.Or(C('ROLLBACK') > 0, C('LIMIT_SIZE') > 0), z3.Or(C('STUFF_UP') == 0, roll_size))
        post(eng, s, Implies(And(fresh, g['fopened'] == 1), g['rolled'] == z3.If(wants, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))), 'the backups are shifted when rollback or a limit is configured and the file is not to be continued')
        ok = z3.And(fresh, g['fopened'] == 1, g['openok'])
        bad = z3.And(fresh, z3.Not(z3.And(g['fopened'] == 1, g['openok'])))
        post(eng, s, Implies(ok, z3.And(op, g['emitted'] == 1)), 'the record is written to the new file')
        post(eng, s, Implies(ok, s1('CUR_FILE_SIZE') == g['st_size'] + n), 'the tracked size is what was in the file plus the bytes written')
        post(eng, s, Implies(ok, s1('CUR_FILE_CREATE_DAY') == g['day']), 'the file belongs to the local day of the record')
        post(eng, s, Implies(ok, s1('CUR_FILE_CREATE_HOUR') == g['hour']), 'the file belongs to the local hour of the record')
        post(eng, s, Implies(ok, s1('LAST_TRY_CREATE_TIMESTAMP') == 0), 'a successful open clears the retry block')
        post(eng, s, Implies(bad, z3.And(z3.Not(op), g['emitted'] == 0)), 'without a file nothing is written')
        post(eng, s, Implies(bad, s1('LAST_TRY_CREATE_TIMESTAMP') == ts), 'a failed open blocks the next tries')
        post(eng, s, Implies(bad, s1('LAST_TRY_CREATE_ERROR') != 0), 'a failed open is reported')
        frame(eng, s, st0, (lg.lg, dev.log), [only(eng, fp)], 'no other handle changes')
    return eng


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('EnterProcOutFileDevice', unit, par=4, weight=4, timeout=40)]


def replay(ctx, refuted, incomplete):
    return std_replay(ctx, 'c13.cpp', 3000, 60000)
