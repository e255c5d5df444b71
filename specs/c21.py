"""C21 no log call and no output thread waits for ever"""
from ring import *
from c01 import TRUSTED
from c15 import Life, attempts, unit_hot, ld
from houdini import continues, locals_of
import ring

ID = 'C21'
LEVEL = 'proof'
ASSUMPTIONS = ring.ASSUMED + ['the scheduler is fair, sleeps, locks and device operations end, finitely many log calls are in progress (the step from the progress contracts to termination)',
                              'the destinations of virtual devices form no cycle over channels']


def hold_wait(r, s, nm):
    g = s.ghost
    return [(Or(r.justified(s, nm), g['halt:' + nm]), 'a log call waits on only when the queue was full, another call took the slot, or the channel was halted for a moment'),
            (g['run:' + nm], 'a waiting log call looks at the state of the channel in every round and waits only while it is running')]


def hold(ctx):
    box = []
    w = lambda s, nm: hold_wait(box[0], s, nm)
    return with_box(box, lambda: unit_hold(ctx, w))


def with_box(box, f):
    old = ring.Ring

    class R(old):
        def __init__(self, *a, **k):
            box.append(self)
            old.__init__(self, *a, **k)
    ring.Ring = R
    try:
        return f()
    finally:
        ring.Ring = old


def never(what):
    return lambda s, nm: [(z3.BoolVal(False), what)]


def sleeps(f, sleep):
    f.sleep = sleep
    return f


def no_rest(what):
    return sleeps(never(what), lambda r, s: post(r.eng, s, z3.BoolVal(False), what))


def rest(r, s):
    g = s.ghost
    outer = [k[4:] for k in g if isinstance(k, str) and k.startswith('atP:')][:1]
    for nm in outer:            # resting after this round took a record needs the queue seen empty since
        m = r.moved(s, nm)
        post(r.eng, s, Implies(m, g['okP']), 'the output thread never rests while published records wait')
        post(r.eng, s, Implies(m, g['okR']), 'the output thread gives every finished slot back before it rests')


def push(ctx):
    return unit_push(ctx, True, no_rest('handing a record over never waits for another thread'))


def proc_sync(ctx):
    return unit_proc(False, True, no_rest('output on a synchronous channel runs once and never waits'))(ctx)


def proc_wait(r, s, nm):
    g = s.ghost
    return [(Or(g['run:' + nm], g['left:' + nm]), 'the output thread goes on only while the channel is running or published records are left'),
            (g['okP'], 'the output thread never rests while published records wait'),
            (g['okR'], 'the output thread gives every finished slot back before it rests')]


def proc_async(ctx):
    box = []
    return with_box(box, lambda: unit_proc(True, True, sleeps(lambda s, nm: proc_wait(box[0], s, nm), rest))(ctx))


class Ends(Life):
    """starting and stopping: every loop counts to a bound, empties a queue, or waits for an output thread that has not reported yet"""

    def __init__(self, ctx, cuts):
        Life.__init__(self, ctx, cuts)
        self.eng.loop_policy = self.policy
        self.variant = {}
        for c in self.chans:
            self.st.ghost['waits%d' % c] = z3.BoolVal(False)

    def policy(self, e, f, h, d):
        if (f.name, h) not in self.cuts:
            return ('unroll', self.lg.NC + 2)
        phis = [(i.res, i.a['t']) for i in f.blocks[h] if i.op == 'phi']
        nm = '%s/%s' % (f.name, h)
        left = lambda s, c: self.dist(self.cur(s, c, 'read_idx_'), self.cur(s, c, 'hold_idx_'))

        def num(v):
            if isinstance(v, Ptr):
                v = v.path[-1] if v.path else None
            return self.D.lift(v) if v is not None and not isb(v) and (isc(v) or z3.is_int(v)) else None

        def havoc(e, s, entry):
            for p, _ in phis:
                v = num(s.env[p])
                if v is not None:
                    s.ghost['v%s:%s' % (p, nm)] = z3.IntVal(v) if isc(v) else v
            for c in self.chans:
                s.ghost['left%d:%s' % (c, nm)] = left(s, c)
                s.ghost['waits%d' % c] = z3.BoolVal(False)

        def end(e, s):
            if not e.suspend:
                for t in continues(e, f, h, s):
                    round_(e, t)

        def round_(e, s):
            g, hyps = s.ghost, s.hyps()
            ways = [(left(s, c) < g['left%d:%s' % (c, nm)], 'empties a queue') for c in self.chans]
            ways += [(g['waits%d' % c], 'waits for an output thread that has not reported yet or was told to end') for c in self.chans]
            for p, _ in phis:
                v, a = num(s.env[p]), g.get('v%s:%s' % (p, nm))
                if v is not None and a is not None:
                    ways += [(And(v > a, v <= 1 << 20), 'counts on'), (And(v < a, v >= 0), 'counts on')]
            for w, what in ways:
                if e.check(hyps, B(w), 3000) == 'unsat':
                    post(e, s, w, 'a round of a loop of starting or stopping ' + what)
                    return
            post(e, s, z3.BoolVal(False), 'starting and stopping wait only for output threads that have not reported yet or were told to end')
        return ('cut', Cut(inv=self.inv, cands=self.cands, havoc=havoc, end=end))

    def on_access(self, e, s, op, p, ty, v, nw):
        r = Life.on_access(self, e, s, op, p, ty, v, nw)
        if op == 'load' and r and isinstance(p, Ptr) and p.obj in (self.lg.lg, self.lg.shm):
            key, idx = key_of(e, self.lg.scal(p.obj, p.path))
            if key == self.chkey:
                c = int(idx[0])
                for t, x in r:
                    t.ghost['waits%d' % c] = B(And(self.tid(t, c) != 0, Or(x == self.C['NULL'], x == self.C['WAITING_FINISH'])))
        return r


def ending(entry):
    def unit(ctx, cuts):
        w = Ends(ctx, cuts)
        eng, st, lg = w.eng, w.st, w.lg
        eng.covers.append(('entry', st.hyps()))
        n = 0
        for s, v in run(eng, entry, [Ptr(lg.lg)], st):
            post(eng, s, s.ghost['depth'] == 0, 'the state lock is released')
            n += 1
        if n < 2:
            raise Unsupported('no paths')
        return eng
    return attempts(unit)


def units(ctx):
    ctx.module('core.cpp')
    return [Unit('HoldChannel', hold), Unit('PushChannel', push), Unit('EnterProcChannel, synchronous', proc_sync, limit=400), Unit('EnterProcChannel, output thread', proc_async, limit=400),
            Unit('StartLogger', ending('vp_start')), Unit('StopLogger', ending('vp_stop')), Unit('HotUpdateLogger (locking)', unit_hot)]


def replay(ctx, refuted, incomplete):
    life = [u for u in [o['unit'] for o in refuted] + list(incomplete) if 'Logger' in u]
    r = std_replay(ctx, 'c21.cpp', 2000, 100000)
    if not r['found'] and (life or not refuted and not incomplete):
        q = std_replay(ctx, 'c15.cpp', 400, 20000)
        r = dict(found=q['found'], text=r['text'] + q['text'], evaluations=r['evaluations'] + q['evaluations'])
    return r
