"""Check driver: compile /repo's current source, generate verification conditions, discharge, replay, report."""
import os, sys, json, time, subprocess, tempfile, shutil, hashlib, traceback, signal, resource
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'specs'))
import z3
import ll
from ll import Unsupported
from eng import Engine, Obl, Incomplete
from dom import B

INC = REPO + '/src/include'
CLANG = '/usr/bin/clang++-18'
OPT = '/usr/bin/opt-18'
PASSES = 'sroa,instsimplify,loop-simplify,lcssa'


class BuildError(Exception):
    pass


def sh(cmd, timeout=300, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)


class Ctx:
    def __init__(self, prop, tier, seed, work):
        self.prop, self.tier, self.seed, self.work = prop, tier, seed, work
        self.mods = {}
        self.compile_s = 0

    def module(self, tu, defs=()):
        """IR of a translation unit of /verif/tu that includes the real headers"""
        key = (tu, tuple(defs))
        if key in self.mods:
            return self.mods[key]
        t = time.time()
        src = os.path.join(VERIF, 'tu', tu)
        n = os.path.join(self.work, tu.replace('.cpp', '') + '-' + hashlib.sha1(repr(defs).encode()).hexdigest()[:6])
        r = sh([CLANG, '-std=c++11', '-O0', '-Xclang', '-disable-O0-optnone', '-fno-access-control', '-w', '-I' + INC, '-I' + os.path.join(VERIF, 'tu'), '-S', '-emit-llvm', src, '-o', n + '.ll'] + ['-D' + d for d in defs])
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        r = sh([OPT, '-passes=' + PASSES, '-S', n + '.ll', '-o', n + '.opt.ll'])
        if r.returncode:
            raise BuildError(r.stderr[-3000:])
        m = ll.Module(open(n + '.opt.ll').read())
        self.mods[key] = m
        self.compile_s += time.time() - t
        return m


# ------------------------------------------------------------------ discharge
def solve_one(eng, o, timeout):
    if o.status == 'proved':
        return
    fs = list(o.hyps) + [z3.Not(o.goal)]
    rel = eng.relevant(fs)
    t0 = time.time()
    last = 'unknown'
    for k, cfg in enumerate(({}, {'smt.arith.solver': 2}, {'smt.random_seed': 7})):
        s = z3.Solver()
        s.set('timeout', int(timeout * 1000 * (0.5 if k else 1)))
        for a, b in cfg.items():
            try:
                s.set(a, b)
            except z3.Z3Exception:
                pass
        s.add(fs)
        s.add(rel)
        r = str(s.check())
        if r != 'unknown':
            o.backend = 'z3'
            o.status = 'proved' if r == 'unsat' else 'refuted'
            if r == 'sat':
                m = s.model()
                o.model = {}
                for n, tm in eng.watch.items():
                    try:
                        o.model[n] = str(m.eval(tm, model_completion=True))
                    except Exception:
                        pass
            o.time = time.time() - t0
            return
    # second back end
    try:
        s = z3.Solver()
        s.add(fs)
        s.add(rel)
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
            f.write('(set-logic ALL)\n' + s.to_smt2())
        r = subprocess.run(['cvc5', '--tlimit=%d' % int(timeout * 1000), f.name], capture_output=True, text=True, timeout=timeout + 10)
        os.unlink(f.name)
        if r.stdout.startswith('unsat'):
            o.status, o.backend = 'proved', 'cvc5'
        elif r.stdout.startswith('sat'):
            o.status, o.backend = 'refuted', 'cvc5'
        else:
            o.status = 'unknown'
    except Exception:
        o.status = 'unknown'
    o.time = time.time() - t0


GRACE = 60      # seconds the other units still get after an obligation was refuted
DEADLINE = 520  # quick tier: seconds for all units together


def note_refuted(ctx):
    with open(os.path.join(ctx.work, 'refuted'), 'a') as f:
        f.write('x')


def refuted_since(ctx):
    """(number of refuted obligations so far, seconds since the last one)"""
    try:
        st = os.stat(os.path.join(ctx.work, 'refuted'))
        return st.st_size, time.time() - st.st_mtime
    except OSError:
        return 0, 0


def solve_list(ctx, eng, todo, timeout):
    """a unit with several undecided obligations, or a run with several refuted ones, is not worth the full time of the rest"""
    unk = 0
    for o in todo:
        n, _ = refuted_since(ctx)
        if o.status != 'proved' and n >= 4:
            o.status = 'skipped'
            continue
        solve_one(eng, o, timeout if unk < 3 and not n else min(timeout, 3))
        if o.status == 'unknown':
            unk += 1
        elif o.status == 'refuted':
            note_refuted(ctx)


def run_unit(ctx, unit, out):
    """executed in a forked child: generate + solve, write a JSON summary"""
    t0 = time.time()
    res = dict(unit=unit.name, bounded=getattr(unit, 'bounded', False), status='ok', obls=[], functions=[], contracts={}, loops=[], covers=[], gen_s=0, solve_s=0, note='', assumed=[])
    try:
        engs = unit.fn(ctx)
        if isinstance(engs, Engine):
            engs = [engs]
        res['gen_s'] = time.time() - t0
        for eng in engs:
            res['functions'] += sorted(eng.functions)
            res['contracts'].update(eng.contract_used)
            res['loops'] += [list(x) for x in eng.loop_info]
            res['assumed'] += sorted(eng.assumed)
            for nm, hyps in eng.covers:
                r = eng.check(hyps, None, 10000)
                res['covers'].append([nm, r])
                if r == 'unsat':
                    res['status'] = 'vacuous'
                    res['note'] += 'precondition/path unreachable: %s; ' % nm
            seen = set()
            todo = []
            for o in eng.obls:
                k = (o.name, o.name if o.backend == 'rewriting' else o.goal.get_id(), tuple(h.get_id() for h in o.hyps))
                if k in seen:
                    continue
                seen.add(k)
                todo.append(o)
            par = getattr(unit, 'par', 1)
            if par > 1 and len(todo) > par:
                chunks = [todo[i::par] for i in range(par)]
                pipes = []
                for c in chunks:
                    fn = tempfile.mktemp(dir=ctx.work)
                    pid = os.fork()
                    if pid == 0:
                        try:
                            solve_list(ctx, eng, c, unit.timeout)
                            json.dump([[o.status, o.backend, o.model, o.time] for o in c], open(fn, 'w'))
                        finally:
                            os._exit(0)
                    pipes.append((pid, fn, c))
                for pid, fn, c in pipes:
                    os.waitpid(pid, 0)
                    try:
                        for o, (a, b, m, t) in zip(c, json.load(open(fn))):
                            o.status, o.backend, o.model, o.time = a, b, m, t
                    except Exception:
                        for o in c:
                            o.status = o.status or 'unknown'
            else:
                solve_list(ctx, eng, todo, unit.timeout)
            for o in todo:
                res['obls'].append(dict(name=o.name, kind=o.kind, status=o.status, backend=o.backend, time=round(o.time, 3), model=o.model, where=o.where, hard=bool(o.extra)))
        res['solve_s'] = time.time() - t0 - res['gen_s']
        if not res['obls'] and res['status'] == 'ok':
            res['status'] = 'vacuous'
            res['note'] += 'no obligations generated'
    except (Unsupported, BuildError, KeyError, IndexError, TypeError, AttributeError, AssertionError, ValueError, z3.Z3Exception) as e:
        res['status'] = 'tool-limit'
        res['note'] = '%s: %s' % (type(e).__name__, str(e)[:500])
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
    except MemoryError:
        res['status'] = 'tool-limit'
        res['note'] = 'memory'
    except RecursionError as e:
        res['status'] = 'tool-limit'
        res['note'] = 'recursion'
    res['wall'] = round(time.time() - t0, 2)
    json.dump(res, open(out, 'w'))


class Unit:
    def __init__(self, name, fn, timeout=20, limit=300, bounded=False, par=1, weight=1):
        self.name, self.fn, self.timeout, self.limit, self.bounded, self.par, self.weight = name, fn, timeout, limit, bounded, par, weight


def run_units(ctx, units, jobs=8):
    pend = list(units)
    run = {}
    results = []
    load = 0
    t_start = time.time()
    while pend or run:
        nref, since = refuted_since(ctx)
        late = (nref and since > GRACE) or time.time() - t_start > DEADLINE * (4 if ctx.tier == 'thorough' else 1)
        if late and pend:
            for u in pend:
                results.append(dict(unit=u.name, bounded=u.bounded, status='tool-limit', note='not started: another obligation was refuted' if nref else 'not started: time budget used up', obls=[], functions=[], contracts={}, loops=[], covers=[], gen_s=0, solve_s=0, assumed=[], wall=0))
            pend = []
        while pend and (load + pend[0].weight <= jobs or not run):
            u = pend.pop(0)
            fn = os.path.join(ctx.work, 'unit-%d.json' % (len(results) + len(run) + len(pend) + 1000 * len(pend)))
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
                    run_unit(ctx, u, fn)
                except BaseException as e:
                    traceback.print_exc()
                finally:
                    sys.stdout.flush()
                    os._exit(0)
            run[pid] = (u, fn, time.time())
            load += u.weight
        time.sleep(0.02)
        for pid in list(run):
            u, fn, t0 = run[pid]
            p, _ = os.waitpid(pid, os.WNOHANG)
            lim = u.limit * (3 if ctx.tier == 'thorough' else 1)
            if p == 0 and (late or time.time() - t0 > lim):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                p = pid
            if p:
                del run[pid]
                load -= u.weight
                try:
                    r = json.load(open(fn))
                except Exception:
                    r = dict(unit=u.name, bounded=u.bounded, status='tool-limit', note='time or memory limit', obls=[], functions=[], contracts={}, loops=[], covers=[], gen_s=0, solve_s=0, assumed=[], wall=time.time() - t0)
                results.append(r)
                if os.environ.get('VERIF_DEBUG'):
                    print('UNIT', r['unit'], r['status'], r['note'], 'obls', len(r['obls']), 'bad', [o['name'] + ' ' + str(o['status']) for o in r['obls'] if o['status'] != 'proved'][:6], r['wall'], flush=True)
    order = {u.name: i for i, u in enumerate(units)}
    results.sort(key=lambda r: order[r['unit']])
    return results


# ------------------------------------------------------------------ native harness
def build_harness(ctx, src, out=None, flags=(), san=True):
    out = out or os.path.join(ctx.work, os.path.basename(src).replace('.cpp', ''))
    cmd = ['g++', '-std=c++11', '-O1', '-g', '-w', '-fno-access-control', '-I' + INC, '-I' + os.path.join(VERIF, 'replay')] + list(flags)
    if san:
        cmd += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']
    cmd += [os.path.join(VERIF, 'replay', src), '-o', out, '-pthread']
    r = sh(cmd, timeout=400)
    if r.returncode:
        return None, r.stderr[-2000:]
    return out, ''


def run_harness(ctx, exe, args, timeout=120, env=None):
    scratch = tempfile.mkdtemp(dir=ctx.work)
    e = dict(os.environ)
    e.update({'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=0:exitcode=99', 'UBSAN_OPTIONS': 'print_stacktrace=1:exitcode=99', 'TZ': 'UTC'})
    e.update(env or {})
    try:
        p = subprocess.run([exe] + [str(a) for a in args], capture_output=True, timeout=timeout, cwd=scratch, env=e)
        out = (p.stdout + p.stderr).decode('utf8', 'replace')
        rc = p.returncode
    except subprocess.TimeoutExpired as ex:
        out = ((ex.stdout or b'') + (ex.stderr or b'')).decode('utf8', 'replace') + '\nTIMEOUT'
        rc = 124
    shutil.rmtree(scratch, ignore_errors=True)
    return rc, out


def known_findings(prop):
    fs = []
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % prop):
                fs.append(ln[len('finding: property=%s ' % prop):])
    return fs


def main(spec):
    """spec: module with ID, units(ctx) -> [Unit], replay(ctx, failures) -> (found, text) or None, TRUSTED, ASSUMPTIONS"""
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    for a in sys.argv[1:]:
        if a in ('quick', 'thorough'):
            tier = a
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % spec.ID, dir='/tmp')
    ctx = Ctx(spec.ID, tier, seed, work)
    code = 1
    try:
        code = _main(spec, ctx, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)


def _main(spec, ctx, t0):
    prop = spec.ID
    build_note = ''
    results = []
    try:
        units = spec.units(ctx)
        results = run_units(ctx, units)
    except (BuildError, Unsupported) as e:
        build_note = 'extraction failed: %s' % str(e)[:1500]
    obls = [dict(o, unit=r['unit']) for r in results for o in r['obls']]
    refuted = [o for o in obls if o['status'] == 'refuted']
    unknown = [o for o in obls if o['status'] in ('unknown', 'skipped')]
    limits = [r for r in results if r['status'] not in ('ok',)]
    # findings: obligations known to fail on the unchanged tree for a recorded, specific reason
    kf = known_findings(prop)
    kf_hit = []
    if kf and hasattr(spec, 'known'):
        rest = []
        for o in refuted:
            k = spec.known(ctx, o, kf)
            if k:
                kf_hit.append(k)
            else:
                rest.append(o)
        refuted = rest
    for k in kf:
        if getattr(spec, 'always_report_findings', True) or k in kf_hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
    proved = [o for o in obls if o['status'] == 'proved']
    viol = None
    stand_in = None
    if refuted or unknown or limits or build_note or not results:
        # replay / bounded stand-in on the real code
        try:
            stand_in = spec.replay(ctx, refuted, [r['unit'] for r in limits] + sorted({o['unit'] for o in unknown}))
        except (BuildError, Unsupported, subprocess.TimeoutExpired) as e:
            stand_in = dict(found=False, text='replay harness not available: %s' % str(e)[:800], evaluations=0)
        if stand_in and stand_in.get('found'):
            viol = 'replayed'
        elif refuted:
            viol = 'noinput'
    bnd = []
    if hasattr(spec, 'bounded'):
        # functions out of the verifier's reach: bounded checks of the real code on every run, never counted as proved
        try:
            bnd = spec.bounded(ctx)
        except (BuildError, Unsupported, subprocess.TimeoutExpired) as e:
            bnd = [dict(function='?', found=False, text='not available: %s' % str(e)[:500], evaluations=0)]
        if any(b['found'] for b in bnd):
            viol = 'replayed'
            stand_in = dict(stand_in or dict(evaluations=0), found=True)
            stand_in['text'] = stand_in.get('text', '') + ''.join(b['text'] for b in bnd if b['found'])
    rdir = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, prop + '.txt')
    if os.path.exists(rpath):
        os.unlink(rpath)
    if viol:
        with open(rpath, 'w') as f:
            f.write('property %s, tier %s, seed %s\n\n' % (prop, ctx.tier, ctx.seed))
            for o in refuted[:10]:
                f.write('FAILED OBLIGATION [%s] %s (%s, %.2fs)\n  call stack: %s\n  counterexample: %s\n' % (o['unit'], o['name'], o['backend'], o['time'], ' > '.join(o['where']), json.dumps(o['model'])))
            for o in unknown[:10]:
                f.write('UNDECIDED OBLIGATION [%s] %s\n' % (o['unit'], o['name']))
            for r in limits:
                f.write('UNIT NOT COMPLETED %s: %s %s\n' % (r['unit'], r['status'], r['note']))
            if build_note:
                f.write(build_note + '\n')
            if stand_in:
                f.write('\nREPLAY ON THE REAL CODE:\n%s\n' % stand_in.get('text', ''))
    cov = dict(
        obligations=len(obls), discharged=len(proved), refuted=len(refuted), undecided=len(unknown),
        checker_cmd='python3-vt checks/run.py %s (clang-18 IR of /repo headers -> VC generator vc/eng.py -> z3 %s, cvc5)' % (prop, z3.get_version_string()),
        trusted_base=list(spec.TRUSTED),
        functions_under_contract=sorted({f for r in results for f in r['functions']}),
        contracts_used=sorted({'%s (%s)' % (k, v) for r in results for k, v in r['contracts'].items()}),
        loops=sorted({'%s@%s: %s' % tuple(l) for r in results for l in r['loops']}),
        back_ends={b: sum(1 for o in proved if o['backend'] == b) for b in sorted({o['backend'] for o in proved if o['backend']})},
        obligation_kinds={k: sum(1 for o in obls if o['kind'] == k) for k in sorted({o['kind'] for o in obls})},
        solver_s=round(sum(o['time'] for o in obls), 2),
        generator_s=round(sum(r['gen_s'] for r in results), 2), compile_s=round(ctx.compile_s, 2),
        reachability_checks=sum(len(r['covers']) for r in results),
        units=[dict(unit=r['unit'], status=r['status'], note=r['note'], obligations=len(r['obls']), bounded=r['bounded'], wall_s=r.get('wall')) for r in results],
        slowest=[dict(name=o['name'], unit=o['unit'], s=o['time']) for o in sorted(obls, key=lambda o: -o['time'])[:5]],
        known_findings=kf,
    )
    if stand_in is not None:
        cov['bounded_stand_in'] = dict(reason=build_note or '; '.join('%s: %s' % (r['unit'], r['note']) for r in limits) or 'undecided or refuted obligations', evaluations=stand_in.get('evaluations', 0), found=bool(stand_in.get('found')), text=stand_in.get('text', '')[-1500:])
    if bnd:
        cov['bounded_checks'] = bnd
    ev = dict(property=prop, tier=ctx.tier, seed=ctx.seed, level=spec.LEVEL, coverage=cov,
              assumptions=list(spec.ASSUMPTIONS) + sorted({a for r in results for a in r['assumed']}),
              wall_s=round(time.time() - t0, 2), violations=1 if viol else 0)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s: %d obligations, %d proved, %d refuted, %d undecided; %d units (%d incomplete); %.1fs' % (
        prop, len(obls), len(proved), len(refuted), len(unknown), len(results), len(limits), time.time() - t0))
    for r in limits:
        print('  incomplete: %s: %s' % (r['unit'], r['note'][:300]))
    if build_note:
        print('  ' + build_note[:600])
    for o in refuted[:5]:
        print('  failed obligation: [%s] %s' % (o['unit'], o['name']))
    if stand_in is not None:
        print('  stand-in/replay: %s' % stand_in.get('text', '')[-400:].strip())
    if viol:
        print('VIOLATION property=%s replay=%s%s' % (prop, rpath, '' if viol == 'replayed' else ' no-failing-input-found'))
        return 1
    return 0
