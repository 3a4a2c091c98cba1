#!/usr/bin/env python3-vt
"""check.py <PROPERTY> [--tier quick|thorough] [--only substr] [--replay FILE]

Explores every job of the property's harness symbolically (8 processes),
replays counterexamples on the real code and writes evidence/<id>.json.
Exit 0: held on everything explored (undecided parts are listed as inconclusive
and counted in the evidence).  Exit 1: VIOLATION printed.  Exit 2: nothing could
be explored.
"""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('SX_REPO', '/repo')
PYPY = os.environ.get('SX_PYTHON', '/opt/venv-pypy/bin/python')
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import warnings
warnings.filterwarnings('ignore', category=SyntaxWarning)


def setup_symbolic():
    sys.setrecursionlimit(20000)
    from symex import loader
    import symex.stubs          # noqa
    loader.install(REPO, HERE)
    from symex import trace
    trace.start(REPO)


def run_job(mod, fn, params, opts):
    from symex.engine import Engine, EngineSignal
    from symex.api_sym import SX
    from symex import trace
    t0 = time.time()
    en = Engine(query_ms=opts['query_ms'], hard_ms=opts['hard_ms'],
                deadline=min(opts['deadline'], t0 + opts['job_s']),
                max_paths=opts['max_paths'])
    en.known_labels = set(opts.get('known_labels', ()))
    f = getattr(mod, fn)
    sx = SX(params)

    def path():
        en.opts = {}
        f(sx, params)
    complete = en.explore(path, sample=opts.get('sample', 2))
    return dict(fn=fn, params=params, complete=bool(complete), stats=en.stats,
                labels=en.labels, violations=en.violations,
                concretise=en.concretise, validated=en.validated,
                reasons=en.unsupported_reasons, wall=time.time() - t0,
                funcs=sorted(trace.take()))


def heartbeat(beat):
    """Tell the parent when the solver was last called: some z3 procedures
    do not honour their time limit."""
    import z3
    check = z3.Solver.check

    def timed(self, *a):
        beat.value = time.time()
        try:
            return check(self, *a)
        finally:
            beat.value = time.time()
    z3.Solver.check = timed


def worker(conn, modname, opts, beat):
    try:
        setup_symbolic()
        heartbeat(beat)
        mod = importlib.import_module('harness.' + modname)
        from symex import trace
        trace.reset()
    except BaseException:
        conn.send(('init', traceback.format_exc()))
        return
    conn.send(('ready', None))
    while True:
        try:
            msg = conn.recv()
        except EOFError:
            return
        if msg is None:
            return
        k, fn, params, seed = msg
        try:
            beat.value = time.time()
            if seed:
                import z3
                z3.set_param('smt.random_seed', seed)
                z3.set_param('nlsat.seed', seed)
            r = run_job(mod, fn, params, opts)
            conn.send((k, r))
        except BaseException:
            conn.send((k, dict(fn=fn, params=params, error=traceback.format_exc())))


def explore_all(modname, jobs, opts, nproc=8):
    ctx = mp.get_context('fork')
    results = [None] * len(jobs)
    todo = list(range(len(jobs)))[::-1]
    procs = {}
    tries = {}
    init_err = None

    def spawn():
        a, b = ctx.Pipe()
        beat = ctx.Value('d', time.time(), lock=False)
        p = ctx.Process(target=worker, args=(b, modname, opts, beat))
        p.start()
        b.close()
        procs[a] = [p, None, time.time(), beat]
    for _ in range(min(nproc, max(1, len(jobs)))):
        spawn()
    from multiprocessing.connection import wait
    while procs:
        ready = wait(list(procs), timeout=5)
        now = time.time()
        for c in list(procs):
            p, cur, since, beat = procs[c]
            if c in ready:
                try:
                    k, r = c.recv()
                except (EOFError, OSError):
                    if cur is not None:
                        results[cur] = dict(fn=jobs[cur][0], params=jobs[cur][1],
                                            crashed=True)
                    p.join()
                    del procs[c]
                    if todo:
                        spawn()
                    continue
                if k == 'init':
                    init_err = r
                    p.join()
                    del procs[c]
                    todo = []
                    continue
                if k != 'ready':
                    results[k] = r
                procs[c][1] = None
                if todo:
                    k = todo.pop()
                    procs[c][1], procs[c][2] = k, now
                    beat.value = now
                    c.send((k, jobs[k][0], jobs[k][1], tries.get(k, 0)))
                else:
                    try:
                        c.send(None)
                    except OSError:
                        pass
                    p.join(5)
                    if p.is_alive():
                        p.kill()
                    del procs[c]
            elif cur is not None and (now - since > opts['job_s'] + 90 or
                                      now - beat.value > opts['stall_s']):
                stalled = now - since <= opts['job_s'] + 90
                p.kill()
                p.join()
                tries[cur] = tries.get(cur, 0) + 1
                if stalled and tries[cur] < 3 and now < opts['deadline']:
                    todo.append(cur)
                else:
                    results[cur] = dict(fn=jobs[cur][0], params=jobs[cur][1], timeout=True)
                del procs[c]
                if todo:
                    spawn()
    return results, init_err


def replay(items, chunk=400):
    """Run concrete inputs on the real code; returns {id: result}."""
    out = {}
    env = dict(os.environ, SX_REPO=REPO, PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1')
    parts = [items[i:i + chunk] for i in range(0, len(items), chunk)]
    procs = []
    for part in parts:
        p = subprocess.Popen([PYPY, os.path.join(HERE, 'symex', 'replay.py')],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, env=env)
        procs.append((p, part))
    for p, part in procs:
        try:
            so, se = p.communicate(json.dumps(part).encode(), timeout=240)
            for r in json.loads(so.decode()):
                out[r['id']] = r
        except Exception as e:
            p.kill()
            for it in part:
                out.setdefault(it['id'], dict(status='error', failed=[], detail='replay: %s' % e))
    return out


def load_known(prop):
    out = []
    path = os.path.join(HERE, 'known_findings.json')
    if os.path.exists(path):
        for k in json.load(open(path))['findings']:
            if k['property'] == prop:
                out.append(k)
    return out


def known_match(known, v):
    for k in known:
        if k['fn'] == v['fn'] and k['label'] == v['label'] and \
                all(v['params'].get(a) == b for a, b in k.get('params', {}).items()) and \
                k.get('detail', '') in v.get('detail', ''):
            return k
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--only', default='')
    ap.add_argument('--replay')
    ap.add_argument('--procs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    modname = prop.lower()
    if a.replay:
        item = json.load(open(a.replay))
        r = replay([dict(item, id=0)])[0]
        print(json.dumps(r, indent=1))
        return 1 if r.get('failed') else 0
    # job list comes from a plain subprocess-free import of the harness under
    # the symbolic loader in a forked child, so that the parent stays clean
    sys.path.insert(0, HERE)
    ctx = mp.get_context('fork')
    q, w = ctx.Pipe()

    def lister(conn):
        try:
            setup_symbolic()
            mod = importlib.import_module('harness.' + modname)
            conn.send(dict(jobs=[(f, dict(p)) for f, p in mod.jobs(tier)],
                           opts=dict(getattr(mod, 'OPTS', {})),
                           bounds=getattr(mod, 'BOUNDS', ''),
                           assumptions=list(getattr(mod, 'ASSUMPTIONS', [])),
                           doc=(mod.__doc__ or '').strip()))
        except BaseException:
            conn.send(dict(error=traceback.format_exc()))
    pr = ctx.Process(target=lister, args=(w,))
    pr.start()
    info = q.recv()
    pr.join()
    known = load_known(prop)
    if 'error' in info:
        # the code under test (or a name the harness needs) does not import:
        # confirm on the real interpreter
        r = replay([dict(id=0, module=modname, fn='jobs', params={}, values={})])[0]
        sys.stderr.write(info['error'])
        print('harness does not load: %s' % r.get('detail'))
        return 2
    jobs = [j for j in info['jobs'] if a.only in (j[0] + json.dumps(j[1], sort_keys=True))]
    budget = 420 if tier == 'quick' else 3300
    opts = dict(query_ms=8000 if tier == 'quick' else 30000,
                hard_ms=15000 if tier == 'quick' else 60000,
                job_s=300 if tier == 'quick' else 1800,
                stall_s=50 if tier == 'quick' else 200,
                max_paths=200000, deadline=t0 + budget, sample=2)
    opts.update(info['opts'])
    opts['known_labels'] = [k['label'] for k in known]
    results, init_err = explore_all(modname, jobs, opts, a.procs)
    if init_err:
        sys.stderr.write(init_err)
        return 2

    # ---- aggregate ---------------------------------------------------------
    tot, labels, funcs, reasons = {}, {}, set(), {}
    cexs, items, errors = [], [], []
    incomplete = []
    nid = 0
    for r in results:
        if r is None or 'error' in r:
            errors.append((r or {}).get('error', 'job lost'))
            continue
        if r.get('crashed') or r.get('timeout'):
            incomplete.append('%s %s: %s' % (r['fn'], r['params'], 'solver process died' if r.get('crashed') else 'timeout'))
            continue
        for k, v in r['stats'].items():
            if k == 'slowest_s':
                tot[k] = max(tot.get(k, 0), v)
            else:
                tot[k] = tot.get(k, 0) + v
        for k, v in r['labels'].items():
            labels[k] = labels.get(k, 0) + v
        for k, v in r['reasons'].items():
            reasons[k] = reasons.get(k, 0) + v
        funcs.update(map(tuple, r['funcs']))
        if r['stats'].get('out_of_budget'):
            incomplete.append('%s %s: time budget' % (r['fn'], r['params']))
        if not r['labels'] and not r['violations'] and not r['concretise']:
            incomplete.append('%s %s: no check reached' % (r['fn'], r['params']))
        for v in r['violations']:
            v = dict(v, fn=r['fn'], params=r['params'], ids=[])
            for ins in v['inputs'][:4]:
                items.append(dict(id=nid, module=modname, fn=r['fn'], params=r['params'], values=ins))
                v['ids'].append(nid)
                nid += 1
            cexs.append(v)
        for kind in ('concretise', 'validated'):
            for ins in r[kind][:60]:
                items.append(dict(id=nid, module=modname, fn=r['fn'], params=r['params'],
                                  values=ins, kind=kind))
                nid += 1
    rep = replay(items) if items else {}
    byid = dict((it['id'], it) for it in items)

    violations, knownhits, ghosts = [], {}, []
    for v in cexs:
        hit = None
        for i in v['ids']:
            if rep[i].get('failed'):
                hit = i
                break
        if hit is None:
            ghosts.append(v)
            continue
        v['detail'] = v.get('detail', '') + ' ' + rep[hit].get('detail', '')
        k = known_match(known, v)
        if k is not None:
            knownhits[k['id']] = (k, v)
            continue
        violations.append((v, hit))
    conc_run = conc_ok = val_run = val_ok = 0
    diverged = []
    for it in items:
        kind = it.get('kind')
        if not kind:
            continue
        r = rep[it['id']]
        if kind == 'concretise':
            conc_run += 1
        else:
            val_run += 1
        if r['status'] == 'ok':
            if kind == 'concretise':
                conc_ok += 1
            else:
                val_ok += 1
        elif r.get('failed') and kind == 'concretise':
            v = dict(label=r['failed'][0], fn=it['fn'], params=it['params'],
                     detail=r.get('detail', ''))
            k = known_match(known, v)
            if k is not None:
                knownhits[k['id']] = (k, v)
            else:
                violations.append((v, it['id']))
        elif r['status'] != 'ok':
            diverged.append(dict(fn=it['fn'], params=it['params'], values=it['values'],
                                 status=r['status'], detail=r.get('detail', ''), failed=r['failed']))

    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, 'evidence', 'replays'), exist_ok=True)
    lines = []
    seen = set()
    for v, i in violations:
        sig = (v['fn'], v['label'])
        if sig in seen:
            continue
        seen.add(sig)
        it = dict(byid[i], property=prop, label=v['label'], detail=v.get('detail', ''))
        h = hashlib.sha1(json.dumps(it, sort_keys=True).encode()).hexdigest()[:10]
        path = os.path.join(HERE, 'evidence', 'replays', '%s-%s.json' % (prop, h))
        json.dump(it, open(path, 'w'), indent=1)
        print('  failed: %s [%s %s] %s inputs=%s' % (v['label'], v['fn'], json.dumps(v['params']),
              v.get('detail', '')[:300], json.dumps(it['values'])[:400]))
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    for kid in sorted(knownhits):
        k, v = knownhits[kid]
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    samples = []
    for r in results:
        if r and r.get('validated') and len(samples) < 6:
            samples.append(dict(harness=r['fn'], params=r['params'], path_model=r['validated'][0]))
    solver_time = round(tot.get('solver_s', 0), 3)
    ev = dict(
        property=prop, tier=tier, seed=int(os.environ.get('VERIF_SEED', '1') or 1),
        level='model_checking',
        coverage=dict(
            states=tot.get('paths', 0), transitions=tot.get('forks', 0),
            traces_validated_against_impl=val_ok,
            samples=samples or [dict(note='no path completed')],
            method='symbolic execution of /repo/gerber source (AST-instrumented on this run), z3 verdict per path and assertion',
            bounds=info['bounds'], jobs=len(jobs),
            functions_encoded=['%s:%s' % f for f in sorted(funcs)],
            solver_queries=tot.get('queries', 0), property_queries=tot.get('check_queries', 0),
            assertions_decided=tot.get('checks', 0), solver_seconds=solver_time,
            slowest_query_seconds=round(tot.get('slowest_s', 0), 3),
            second_opinion_queries=tot.get('hard_queries', 0),
            assertion_labels=labels, paths_cut_by_assumption=tot.get('aborted', 0),
            unknown_property_verdicts=tot.get('unknown_check', 0),
            unknown_branch_verdicts=tot.get('unknown_branch', 0),
            paths_outside_encoding=tot.get('unsupported', 0),
            paths_outside_encoding_reasons=reasons,
            outside_encoding_run_concretely=conc_run,
            path_models_replayed=val_run, path_models_diverged=len(diverged),
            diverged=diverged[:5],
            incomplete_jobs=incomplete[:20], known_findings_hit=sorted(knownhits),
            unreproduced_counterexamples=len(ghosts), jobs_not_run=len(errors)),
        wall_s=round(wall, 2), assumptions=info['assumptions'] + [
            'floating-point numbers are decided as exact reals (float literals denote their decimal value); float rounding is outside the claim',
        ],
        violations=len(lines))
    if not a.only:
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
    print('%s %s: jobs=%d paths=%d checks=%d queries=%d solver=%.1fs slowest=%.2fs forks=%d '
          'outside=%d unknown=%d validated=%d/%d ghosts=%d wall=%.1fs' % (
              prop, tier, len(jobs), tot.get('paths', 0), tot.get('checks', 0), tot.get('queries', 0),
              tot.get('solver_s', 0), tot.get('slowest_s', 0), tot.get('forks', 0),
              tot.get('unsupported', 0), tot.get('unknown_check', 0), val_ok, val_run, len(ghosts), wall))
    if a.v:
        for r in results:
            if r and 'stats' in r:
                print('   %-28s %-70s paths=%d q=%d %.1fs' % (r['fn'], json.dumps(r['params']),
                      r['stats']['paths'], r['stats']['queries'], r['wall']))
    for k, v in reasons.items():
        print('  outside encoding: %s (%d)' % (k, v))
    for x in incomplete[:10]:
        print('  incomplete: ' + x)
    for d in diverged[:5]:
        print('  path model diverged: %s' % json.dumps(d)[:600])
    for e in errors[:3]:
        sys.stderr.write(e + '\n')
    if lines:
        print('\n'.join(lines))
        return 1
    for g in ghosts[:5]:
        print('  not reproduced: %s [%s %s] %s %s -> %s' % (g['label'], g['fn'], json.dumps(g['params']),
              g.get('detail', ''), json.dumps(g['inputs'][:1])[:500], [rep[i] for i in g['ids']][:2]))
    if ghosts or errors:
        # nothing that fails on the real code was found; what could not be
        # decided is in the evidence file and above
        print('inconclusive: %d counterexample(s) of the model do not fail on the real code, '
              '%d job(s) could not be run' % (len(ghosts), len(errors)))
    if not tot.get('checks'):
        print('vacuous: no assertion was reached')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
