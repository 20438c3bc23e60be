"""Runs one property's harnesses: exhaustive path exploration on 8 processes,
replay of every counterexample on the unmodified code, evidence."""
import importlib
import json
import multiprocessing as mp
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def load_known(prop):
    fn = os.path.join(VERIF, 'known_findings.json')
    if not os.path.isfile(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f)['findings'] if k['property'] == prop
                and k['status'] == 'open']


# development: replay many unusual witnesses (tests the harnesses)
SHAKE = int(os.environ.get('VERIF_SHAKE', 0))

class Scenario(object):
    """fn(ctx, env, **params): one harness with its bounds."""

    def __init__(self, name, fn, bounds, tier='quick', covers=(), **params):
        self.name = name
        self.fn = fn
        self.bounds = bounds
        self.tier = tier
        self.covers = covers
        self.params = params

    def run(self, ctx, env):
        return self.fn(ctx, env, **self.params)


def short_tb(e):
    tb = traceback.extract_tb(e.__traceback__)
    at = ''
    for fr in reversed(tb):
        if '/ncdiff/' in fr.filename:
            at = '%s:%s' % (os.path.basename(fr.filename), fr.name)
            break
    return at


class Hang(Exception):
    """One execution of a harness takes tens of milliseconds; this is raised
    after PATH_S seconds of CPU time."""


PATH_S = 60


def _hang(*a):
    raise Hang('no end after %d s' % PATH_S)


def run_harness(scn, ctx, env):
    signal.signal(signal.SIGVTALRM, _hang)
    signal.setitimer(signal.ITIMER_VIRTUAL, PATH_S)
    try:
        try:
            scn.run(ctx, env)
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    except Exception as e:
        msg = 'unexpected %s in %s' % (type(e).__name__, short_tb(e))
        ctx.note(''.join(traceback.format_exception(e))[-2000:])
        ctx.exception(msg)


class Explorer(object):
    def __init__(self, mod, env, tier, known):
        self.mod = mod
        self.env = env
        self.tier = tier
        self.known = known

    def one(self, scn, prefix, stats):
        from . import engine
        from .ctx import SymCtx, ConcCtx, SkipRun
        p = engine.Path(prefix, stats)
        ctx = SymCtx(p, self.tier, self.known)
        engine.cur = p
        unsup = None
        ok = True
        try:
            run_harness(scn, ctx, self.env)
        except engine.Infeasible:
            stats.infeasible += 1
            ok = False
        except (engine.Unsupported, engine.PathLimit) as e:
            unsup = '%s: %s' % (type(e).__name__, e)
        except RecursionError:
            unsup = 'RecursionError'
        finally:
            engine.cur = None
        if ok:
            stats.paths += 1
        conc = None
        if unsup is not None:
            # fall back to one concrete representative of this path
            stats.unsupported += 1
            if len(stats.unsupported_msgs) < 50 or \
                    unsup in stats.unsupported_msgs:
                stats.unsupported_msgs[unsup] = \
                    stats.unsupported_msgs.get(unsup, 0) + 1
            try:
                engine.cur = p
                inp = p.concretise(p.get_model())
            except BaseException:
                inp = None
            finally:
                engine.cur = None
            if inp is not None:
                c = ConcCtx(inp, self.tier, self.known)
                try:
                    run_harness(scn, c, self.env)
                    for msg, regions in c.failed:
                        if not regions:
                            p.violations.append((msg, inp))
                        else:
                            ctx.known_hits.append((regions[0], msg, inp))
                except SkipRun:
                    pass
        return p, ctx, ok

    def explore(self, si, prefixes, slice_s, want_samples):
        from . import engine
        scn = self.mod.SCENARIOS[si]
        stats = engine.Stats()
        stack = list(prefixes)
        end = time.time() + slice_s
        viol, hits, samples = [], [], []
        while stack:
            pre = stack.pop()
            p, ctx, ok = self.one(scn, pre, stats)
            stack.extend(p.pending)
            for msg, inp in p.violations:
                viol.append((si, msg, inp))
            for h in ctx.known_hits:
                hits.append((si,) + h)
            if ok and len(samples) < want_samples:
                try:
                    engine.cur = p
                    samples.append((si, p.concretise(
                        p.unusual(SHAKE, '<>&"\'\\/[]=.:,{}%*!+-^$?|~ ')
                        if SHAKE else p.get_model())))
                except BaseException:
                    pass
                finally:
                    engine.cur = None
            if time.time() > end or len(viol) >= 5:
                break
        return si, stack, stats, viol[:5], hits[:5], samples


def worker(ex, tasks, results):
    import signal
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    while True:
        t = tasks.get()
        if t is None:
            return
        try:
            results.put(('ok', ex.explore(*t)))
        except BaseException as e:
            results.put(('err', (t[0], traceback.format_exc())))


def explore_all(ex, scns, budget, jobs):
    """scns: indices.  Returns dict with totals."""
    from . import engine
    ctxm = mp.get_context('fork')
    tasks, results = ctxm.Queue(), ctxm.Queue()
    procs = [ctxm.Process(target=worker, args=(ex, tasks, results),
                          daemon=True) for _ in range(jobs)]
    for p in procs:
        p.start()
    t0 = time.time()
    per = {si: engine.Stats() for si in scns}
    left = {si: [] for si in scns}
    wall = {si: 0.0 for si in scns}
    out = {'viol': [], 'hits': [], 'samples': [], 'errors': []}
    todo = [(si, [b'']) for si in scns]
    outstanding = 0
    nsamp = {si: 0 for si in scns}
    complete = True
    first = {si: True for si in scns}
    while True:
        while todo and outstanding < jobs * 2:
            si, pre = todo.pop()
            sl = 0.15 if first[si] else 1.0
            first[si] = False
            tasks.put((si, pre, sl, 20 if SHAKE else
                       3 if nsamp[si] < 40 else 0))
            outstanding += 1
        if not outstanding:
            break
        try:
            kind, r = results.get(timeout=5)
        except Exception:
            if time.time() - t0 > budget + 30 or \
                    not any(p.is_alive() for p in procs):
                out['errors'].append('workers died or hang')
                complete = False
                break
            if not all(p.is_alive() for p in procs):
                out['errors'].append('a worker died')
                complete = False
                break
            continue
        outstanding -= 1
        if kind == 'err':
            out['errors'].append('%s: %s' % r)
            complete = False
            continue
        si, stack, stats, viol, hits, samples = r
        per[si].merge(stats)
        out['viol'] += viol
        out['hits'] += hits
        out['samples'] += samples
        nsamp[si] += len(samples)
        if len(out['viol']) >= 12:
            complete = False
            break
        if time.time() - t0 > budget:
            if stack or todo:
                complete = False
            todo = []
            continue
        if stack:
            n = max(1, min(len(stack), jobs - len(todo)))
            for k in range(n):
                todo.append((si, stack[k::n]))
    for p in procs:
        p.terminate()
    for p in procs:
        p.join()
    out['per'] = per
    out['complete'] = complete
    return out


def replay_batch(prop, items, known, timeout=600):
    """Run inputs on unmodified ncdiff in a fresh process; returns list of
    {'failed': [(msg, regions)], 'notes', 'skipped', 'checked'}"""
    d = tempfile.mkdtemp(prefix='ncverif-')
    try:
        fi, fo = os.path.join(d, 'in.json'), os.path.join(d, 'out.json')
        with open(fi, 'w') as f:
            json.dump({'property': prop, 'items': items,
                       'known': sorted(known)}, f)
        env = dict(os.environ, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([PY, os.path.join(VERIF, 'replay.py'), '--batch',
                            fi, fo], env=env, cwd=VERIF, timeout=timeout,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        if not os.path.isfile(fo):
            return None, r.stderr.decode()[-3000:]
        with open(fo) as f:
            return json.load(f), None
    except subprocess.TimeoutExpired:
        return None, 'replay timed out'
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write_replay(prop, scn, inputs, msg):
    d = os.path.join(VERIF, 'evidence', 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    h = hashlib.sha1(json.dumps([scn, inputs], sort_keys=True)
                     .encode()).hexdigest()[:10]
    fn = os.path.join(d, '%s-%s.json' % (prop, h))
    with open(fn, 'w') as f:
        json.dump({'property': prop, 'scenario': scn, 'inputs': inputs,
                   'message': msg,
                   'how': PY + ' replay.py ' + os.path.relpath(fn, VERIF)},
                  f, indent=1)
    return os.path.relpath(fn, VERIF)


def setup_failed(prop, tier, mod, t0):
    """The device of the harnesses cannot be made. That is a violation when
    the unmodified code cannot make it either: nothing of the property works
    on a schema that it should work on."""
    traceback.print_exc(limit=-6)
    out, err = replay_batch(prop, [], [])
    ok = out is not None
    if not ok:
        print(err)
        path = write_replay(prop, '(setup)', {}, 'the modules in /verif/yang '
                            'cannot be loaded into a device')
        print('VIOLATION property=%s replay=%s' % (prop, path))
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'model_checking', 'coverage': {
              'states': 0, 'transitions': 0,
              'traces_validated_against_impl': 0, 'samples': [],
              'explanation': 'the device of the harness cannot be made'},
          'assumptions': list(mod.ASSUMPTIONS),
          'wall_s': round(time.time() - t0, 2), 'violations': 0 if ok else 1}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    return 2 if ok else 1


def main(prop, tier, budget=None, jobs=None, only=None):
    t0 = time.time()
    jobs = jobs or min(8, os.cpu_count() or 1)
    from . import loader, lx
    loader.install()
    lx.install()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module('props.' + prop)
    known = load_known(prop)
    kids = [k['id'] for k in known]
    try:
        env = mod.setup()
    except Exception:
        return setup_failed(prop, tier, mod, t0)
    scns = [i for i, s in enumerate(mod.SCENARIOS)
            if (tier == 'thorough' or s.tier == 'quick') and
            (not only or s.name in only)]
    if budget is None:
        budget = float(os.environ.get(
            'VERIF_BUDGET', 500 if tier == 'quick' else 3000))
    ex = Explorer(mod, env, tier, kids)
    res = explore_all(ex, scns, budget, jobs)
    if hasattr(mod, 'teardown'):
        mod.teardown(env)
    names = {i: mod.SCENARIOS[i].name for i in scns}
    status = 0
    problems = []
    # counterexamples, replayed on the real code
    confirmed = []
    unconfirmed = []
    if res['viol']:
        seen, items = set(), []
        for si, msg, inp in res['viol']:
            key = (si, msg)
            if key in seen and len(items) > 6:
                continue
            seen.add(key)
            items.append({'scenario': names[si], 'inputs': inp, 'msg': msg})
        out, err = replay_batch(prop, items, kids)
        if out is None:
            problems.append('replay failed: %s' % err)
        else:
            for it, r in zip(items, out):
                bad = [f for f in r['failed'] if not f[1]]
                if bad:
                    confirmed.append((it, bad, r['notes']))
                else:
                    unconfirmed.append(it)
    # witnesses of explored paths, re-run on the real code
    validated = 0
    samples_out = []
    ws = res['samples']
    most = 6000 if SHAKE else 160
    step = max(1, len(ws) // most)
    ws = ws[::step][:most]
    if ws and not confirmed:
        items = [{'scenario': names[si], 'inputs': inp} for si, inp in ws]
        out, err = replay_batch(prop, items, kids)
        if out is None:
            problems.append('witness replay failed: %s' % err)
        else:
            for it, r in zip(items, out):
                bad = [f for f in r['failed'] if not f[1]]
                if bad:
                    confirmed.append((it, bad, r['notes']))
                elif not r['skipped']:
                    validated += 1
            samples_out = items[:3]
    # known findings: each must still fail on the real code
    for k in known:
        r = None
        if 'inputs' in k:
            out, err = replay_batch(prop, [{'scenario': k['scenario'],
                                            'inputs': k['inputs']}], kids)
            r = out[0] if out else None
        if r and r['failed']:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for it, bad, notes in confirmed[:5]:
        path = write_replay(prop, it['scenario'], it['inputs'], bad[0][0])
        print('counterexample in scenario %s: %s' % (it['scenario'],
                                                     bad[0][0]))
        print('  inputs: %s' % json.dumps(it['inputs'])[:1500])
        for n in notes[:8]:
            print('  | ' + n.replace('\n', '\n  | ')[:1500])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        status = 1
    if not confirmed:
        if unconfirmed:
            problems.append('%d counterexamples did not reproduce, e.g. %s' %
                            (len(unconfirmed),
                             json.dumps(unconfirmed[0])[:800]))
        if res['errors']:
            problems += res['errors'][:3]
    # vacuity: declared covers must be reached
    from . import engine
    tot = engine.Stats()
    for s in res['per'].values():
        tot.merge(s)
    missing = []
    if res['complete']:
        for i in scns:
            for c in mod.SCENARIOS[i].covers:
                if not res['per'][i].covers.get(c):
                    missing.append('%s/%s' % (names[i], c))
    if missing and not confirmed and only is None:
        problems.append('covers not reached: %s' % missing)
    wall = time.time() - t0
    cov = {
        'states': tot.paths,
        'transitions': tot.forks + tot.forced,
        'traces_validated_against_impl': validated,
        'samples': samples_out,
        'exhaustive': bool(res['complete'] and not tot.unsupported and
                           not res['errors']),
        'solver_queries': tot.queries,
        'solver_sat': tot.sat, 'solver_unsat': tot.unsat,
        'solver_unknown': tot.unknown,
        'solver_s': round(tot.solver_s, 2),
        'assertions': tot.checks,
        'assertions_discharged_by_query': tot.checks_solver,
        'paths_concretised': tot.unsupported,
        'concretised_reasons': tot.unsupported_msgs,
        'infeasible_paths': tot.infeasible,
        'scenarios': [{
            'name': names[i], 'bounds': mod.SCENARIOS[i].bounds,
            'paths': res['per'][i].paths,
            'queries': res['per'][i].queries,
            'covers': res['per'][i].covers} for i in scns],
        'functions_encoded': sorted(
            f for f in loader.functions
            if any(f.startswith(m) for m in mod.MODULES)),
        'explanation': 'states = feasible symbolic paths of the harness and '
        'the ncdiff code it calls; transitions = branch decisions made by '
        'Z3 on symbolic conditions; traces_validated = path witnesses '
        're-executed on the unmodified implementation',
    }
    ev = {'property': prop, 'tier': tier,
          'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
          'level': 'model_checking', 'coverage': cov,
          'assumptions': list(mod.ASSUMPTIONS),
          'wall_s': round(wall, 2), 'violations': len(confirmed)}
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    print('%s %s: %d paths, %d decisions, %d queries (%.1fs solver), '
          '%d assertions, %d concretised, %d witnesses replayed, '
          'complete=%s, %.1fs' %
          (prop, tier, tot.paths, cov['transitions'], tot.queries,
           tot.solver_s, tot.checks, tot.unsupported, validated,
           res['complete'], wall))
    if os.environ.get('VERIF_VERBOSE'):
        for s in cov['scenarios']:
            print('   %-28s %7d paths %8d queries %s' % (
                s['name'], s['paths'], s['queries'], s['covers']))
        if tot.unsupported_msgs:
            print('   unsupported:', tot.unsupported_msgs)
    if problems and status == 0:
        for p in problems:
            print('ERROR: ' + p)
        status = 2
    return status
