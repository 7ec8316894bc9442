"""Command line driver: runs the configurations of one property, writes evidence, reports violations."""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import re
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Config:
    def __init__(self, name, body, tier, opts):
        self.name, self.body, self.tier, self.opts = name, body, tier, opts


class Suite:
    """One property: its configurations, the functions it encodes and its bounds."""

    def __init__(self, prop, functions, bounds, assumptions=(), sources=()):
        self.prop, self.functions, self.bounds = prop, list(functions), bounds
        self.assumptions = list(assumptions)
        self.configs = []

    def config(self, name=None, tier='quick', **opts):
        def deco(f):
            self.add(name or f.__name__, f, tier, **opts)
            return f
        return deco

    def add(self, name, body, tier='quick', **opts):
        assert name not in [c.name for c in self.configs], name
        self.configs.append(Config(name, body, tier, opts))

    def with_falling(self, names=None, skip=None):
        """every configuration once more with the numbers of texts in falling order and negative"""
        from . import dag

        def twin(body):
            def run(c):
                with dag.falling():
                    return body(c)
            return run
        for k in list(self.configs):
            if k.name != skip and (names is None or k.name in names):
                self.add(k.name + '_falling', twin(k.body), k.tier, **k.opts)


def setup_path():
    src = os.path.join(REPO, 'src')
    for p in (src, VERIF):
        if p in sys.path:
            sys.path.remove(p)
        sys.path.insert(0, p)
    sys.dont_write_bytecode = True


def load(prop):
    setup_path()
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import torch
    torch.set_num_threads(1)
    import pytorch_kinematics as pk
    f = os.path.realpath(pk.__file__)
    if not f.startswith(os.path.realpath(REPO)):
        raise RuntimeError('pytorch_kinematics imported from %s, not from %s' % (f, REPO))
    return importlib.import_module('props.' + prop.lower()).SUITE


def run_config(suite, cfg, seed, budget, q):
    import signal
    import torch
    from symtorch import ctx as C
    from symtorch import smt
    from symtorch import tensor as T
    t0 = time.time()
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    try:
        o = dict(cfg.opts)
        o.pop('budget', None)
        s = C.Session(cfg.name, cfg.body, seed=seed, deadline=t0 + budget, **o)
        torch.manual_seed(seed)
        r = s.run()
    except BaseException as e:
        r = {'config': cfg.name, 'violations': [], 'errors': ['driver: %s: %s\n%s' % (type(e).__name__, e,
             traceback.format_exc()[-1500:])]}
    r['stats'] = {k: v for k, v in smt.STATS.items()}
    r['ops'] = sum(T.OPCOUNT.values())
    r['time'] = round(time.time() - t0, 2)
    q.put(r)
    q.close()
    q.join_thread()


def kill_group(p):
    import signal
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    p.kill()


def run_all(suite, configs, seed, budget, jobs):
    ctxm = mp.get_context('fork')
    q = ctxm.Queue()
    todo = list(configs)
    running = {}
    results = {}
    while todo or running:
        while todo and len(running) < jobs:
            c = todo.pop(0)
            b = min(budget, c.opts.get('budget', budget))
            p = ctxm.Process(target=run_config, args=(suite, c, seed, b, q))
            p.start()
            running[c.name] = (p, time.time(), b)
        try:
            r = q.get(timeout=0.2)
            results[r['config']] = r
            p = running.pop(r['config'], None)
            if p:
                p[0].join(5)
                if p[0].is_alive():
                    kill_group(p[0])
            continue
        except Exception:
            pass
        for n, (p, t, b) in list(running.items()):
            dead = not p.is_alive()
            if dead or time.time() - t > b + 45:
                # a finished process may still have its result in the pipe
                try:
                    r = q.get(timeout=1.0)
                    results[r['config']] = r
                    running.pop(r['config'], None)
                    continue
                except Exception:
                    pass
                kill_group(p)
                running.pop(n)
                if n not in results:
                    results[n] = {'config': n, 'violations': [], 'time': time.time() - t,
                                  'errors': ['worker %s' % ('died' if dead else 'exceeded its time budget')]}
    return [results[c.name] for c in configs]


def known_findings():
    p = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('file', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', default=None)
    ap.add_argument('--jobs', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--budget', type=float, default=None)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args(argv)
    if a.prop == 'replay':
        return replay(a.file)
    t0 = time.time()
    suite = load(a.prop)
    tiers = ('quick',) if a.tier == 'quick' else ('quick', 'thorough')
    configs = [c for c in suite.configs if c.tier in tiers]
    if a.only:
        configs = [c for c in configs if re.search(a.only, c.name)]
    # all configurations of a quick run must end well inside the 900 s limit
    total = 780.0 if a.tier == 'quick' else 3 * 3600.0
    waves = (len(configs) + a.jobs - 1) // a.jobs
    budget = a.budget or min(300.0 if a.tier == 'quick' else 3600.0, total / max(1, waves))
    results = run_all(suite, configs, a.seed, budget, a.jobs)
    known = known_findings()
    nviol, inconclusive = 0, []
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for r in results:
        for v in r['violations']:
            k = next((k for k in known if k['property'] == suite.prop and k['config'] == v['config']
                      and re.fullmatch(k['obligation'], v['obligation'])), None)
            if k is not None:
                print('KNOWN-FINDING: property=%s %s' % (suite.prop, k['what']))
                continue
            nviol += 1
            path = os.path.join(VERIF, 'replays', '%s_%s.json' % (suite.prop, re.sub(r'\W+', '_', v['config'])))
            with open(path, 'w') as f:
                json.dump({'property': suite.prop, 'config': v['config'], 'obligation': v['obligation'],
                           'detail': v['detail'], 'values': v['values']}, f, indent=1)
            print('  config %s, obligation %s: %s' % (v['config'], v['obligation'], v['detail']))
            print('VIOLATION property=%s replay=%s' % (suite.prop, path), flush=True)
        for e in r['errors']:
            inconclusive.append('%s: %s' % (r['config'], e))
    wall = time.time() - t0
    write_evidence(suite, a, results, nviol, inconclusive, wall)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    print('%s %s: %d configurations, %d paths, %d obligations, %d discharged (%d by syntactic identity, %d after '
          'normalisation, rest by the solver), %d solver queries, %.1f s solver, %.1f s wall, %d inconclusive, '
          '%d violations' % (suite.prop, a.tier, len(results), tot('paths'), tot('obligations'), tot('discharged'),
                             tot('structural'), tot('normalised'), sum(r.get('stats', {}).get('queries', 0) for r in results),
                             sum(r.get('stats', {}).get('time', 0) for r in results), wall, len(inconclusive), nviol))
    if a.v:
        for r in results:
            print('   %-40s %6.1fs paths %d obl %d/%d q %d %s' % (
                r['config'], r.get('time', 0), r.get('paths', 0), r.get('discharged', 0), r.get('obligations', 0),
                r.get('stats', {}).get('queries', 0), '; '.join(sorted(set(r.get('notes', []))))[:150]))
    for s in inconclusive:
        print('INCONCLUSIVE ' + (s if a.v else s.split('\n')[0]))
    return 1 if nviol else 0


def write_evidence(suite, a, results, nviol, inconclusive, wall):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tot = lambda k: sum(r.get(k, 0) for r in results)
    st = lambda k: sum(r.get('stats', {}).get(k, 0) for r in results)
    by = {}
    for r in results:
        for k, v in r.get('stats', {}).get('by', {}).items():
            by[k] = by.get(k, 0) + v
    ob, dis = tot('obligations'), tot('discharged')
    ev = {
        'property': suite.prop, 'tier': a.tier, 'seed': a.seed, 'level': 'other',
        'coverage': {
            'explanation': 'Bounded symbolic execution of the current source under the PyTorch dispatcher; every '
                           'data-dependent branch forks, each claim is discharged by ring normalisation and an SMT '
                           'solver for all values within the bounds. ' + suite.bounds,
            'configurations': [r['config'] for r in results],
            'functions_encoded': suite.functions,
            'bounds': suite.bounds,
            'paths': tot('paths'), 'paths_witnessed_satisfiable': tot('witnessed'), 'paths_infeasible': tot('infeasible'),
            'paths_cross_checked_against_real_code': tot('validated'),
            'obligations': ob, 'discharged': dis,
            'discharged_by_identity': tot('structural'), 'discharged_by_normalisation': tot('normalised'),
            'definedness_obligations': tot('definedness'),
            'solver_queries': st('queries'), 'solver_unsat': st('unsat'), 'solver_sat': st('sat'),
            'solver_unknown': st('unknown'), 'solver_time_s': round(st('time'), 2), 'verdicts_by_engine': by,
            'tensor_operations_executed_symbolically': tot('ops'),
            'inconclusive': [s.split('\n')[0] for s in inconclusive],
        },
        'wall_s': round(wall, 2),
        'assumptions': ['arithmetic over the reals: floating-point rounding is outside the model unless a '
                        'configuration says otherwise'] + suite.assumptions,
        'violations': nviol,
    }
    with open(os.path.join(d, suite.prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


def replay(path):
    with open(path) as f:
        r = json.load(f)
    suite = load(r['property'])
    from symtorch import ctx as C
    cfg = next(c for c in suite.configs if c.name == r['config'])
    cc, e = C.run_concrete(cfg.body, r['values'], cfg.opts.get('tol', 1e-6))
    if e is not None:
        print('exception: %s: %s' % (type(e).__name__, e))
        traceback.print_exception(e)
        return 1
    for n, d in cc.fails:
        print('fails: %s %s' % (n, d))
    if not cc.fails:
        print('no failure on the current tree')
    return 1 if cc.fails else 0


if __name__ == '__main__':
    sys.exit(main())
