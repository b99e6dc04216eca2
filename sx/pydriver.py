#!/usr/bin/env python3
"""Checks a property of the Python sources: explores every entry of pyharness/PROPERTY*.py with
the symbolic executor (pysym), replays counterexamples and sampled paths on plain Python, and
writes the evidence file.  usage: pydriver.py PROPERTY [--only ENTRY] [--keep-going] [-v]"""
import concurrent.futures as cf
import glob, json, os, re, shutil, subprocess, sys, threading, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUDGET = 600.0 if TIER == 'quick' else 3400.0
RUN = os.environ.get('SX_RUN', '')  # set by tools/mutate.py: keeps parallel runs apart
T0 = time.time()
PY = '/opt/veriftools/pyvenv/bin/python'
VENV = '/opt/arolla-venv/bin/python'


def say(*a):
    print(*a, flush=True)


def run(args, inp=None, timeout=60, procs=None):
    env = dict(os.environ)
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    env['PYTHONHASHSEED'] = '0'
    env['PYTHONPATH'] = os.pathsep.join([os.path.join(V, 'sx')] + SITE)
    p = subprocess.Popen(args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env)
    if procs is not None:
        procs.add(p)
    try:
        o, e = p.communicate((inp or '').encode(), timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return None, 'timeout'
    finally:
        if procs is not None:
            procs.discard(p)
    o = o.decode('utf8', 'replace')
    i = o.rfind('\n@@')
    if i < 0:
        return None, 'rc=%d %s' % (p.returncode, e.decode('utf8', 'replace')[-1500:])
    return json.loads(o[i + 3:]), ''


# the venv with the repository's own Python dependencies; z3 comes from the tools' venv
SITE = [p for p in subprocess.run([VENV, '-c', 'import sys;print("\\n".join(p for p in sys.path if "site-packages" in p or "dist-packages" in p))'], stdout=subprocess.PIPE).stdout.decode().split('\n') if p]


def main():
    a = sys.argv[1:]
    prop, verbose, keep = a[0], '-v' in a, '--keep-going' in a
    only = a[a.index('--only') + 1] if '--only' in a else None
    files = sorted(glob.glob(os.path.join(V, 'pyharness', prop + '*.py')))
    known = []
    kf = os.path.join(V, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop and k.get('status') == 'known']
    problems, jobs, labels, bounds = [], [], [], {}
    for f in files:
        l, err = run([PY, os.path.join(V, 'sx', 'sxp.py'), 'list', f])
        if l is None or l['error']:
            problems.append('%s does not load: %s' % (os.path.basename(f), err or l['error']))
            continue
        labels += [(f, x) for x in l['labels']]
        for name, e in l['entries'].items():
            if e['tier'] == 'thorough' and TIER == 'quick' or only and not re.fullmatch(only, name):
                continue
            bounds[name] = e['bound']
            jobs += [(f, name, e, s) for s in range(e['shards'])]
    rdir = os.path.join(V, 'build', 'replay' + RUN, prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    results, violations, unconfirmed, valbad, knownhit = [], [], [], [], {}
    validated = [0]

    stop, procs = threading.Event(), set()

    def job(f, name, e, s):
        if stop.is_set():
            return
        left = BUDGET - (time.time() - T0)
        t = min(e['timeout'] * (4 if TIER == 'thorough' else 1), left - 20)
        if t < 5:
            problems.append('%s[%d]: no time left' % (name, s))
            return
        d, err = run([PY, os.path.join(V, 'sx', 'sxp.py'), 'explore', f, name, str(s), str(t), '6'], timeout=t + 90, procs=procs)
        if stop.is_set():
            return
        if d is None:
            problems.append('%s[%d]: %s' % (name, s, err))
            return
        if 'paths' not in d:
            problems.append('%s[%d]: %s' % (name, s, d['error']))
            return
        d['file'] = f
        results.append(d)
        if verbose:
            say('  %-32s shard %d paths %d completed %d forks %d queries %d z3 %.1fs wall %.1fs viol %d %s' % (name, s, d['paths'], d['completed'], d['forks'], d['queries'], d['z3_s'], d['wall_s'], len(d['violations']), d['error']))
        if d['error']:
            problems.append('%s[%d]: %s' % (name, s, d['error']))
        if d['unknown']:
            problems.append('%s[%d]: %d undecided queries' % (name, s, d['unknown']))
        for v in d['violations']:
            k = next((k for k in known if k['entry'] == name and k['match'] in v['msg']), None)
            if k:
                knownhit[k['what']] = k
                continue
            r, err = run([PY, os.path.join(V, 'sx', 'sxp.py'), 'plain', f, name, str(s)], json.dumps(v['inputs']))
            rec = dict(v, property=prop, entry=name, shard=s, replay=r or err)
            path = os.path.join(rdir, '%s-%d-%d.json' % (name, s, len(violations) + len(unconfirmed)))
            json.dump(rec, open(path, 'w'), indent=1)
            if r and r['result'] == 'fail':
                violations.append((path, rec))
                if not keep:  # one confirmed violation decides the run
                    stop.set()
                    for q in list(procs):
                        q.kill()
                    return
            else:
                unconfirmed.append(rec)
        for t in d['traces']:
            r, err = run([PY, os.path.join(V, 'sx', 'sxp.py'), 'plain', f, name, str(s)], json.dumps(t['inputs']))
            if r and r['result'] == 'ok' and r['obs'] == t['obs']:
                validated[0] += 1
            else:
                valbad.append('%s: plain run disagrees: %s %s' % (name, str(r or err)[:400], str(t)[:400]))

    with cf.ThreadPoolExecutor(8) as pool:
        list(pool.map(lambda j: job(*j), jobs))
    reached = {}
    for d in results:
        for k, n in d['reached'].items():
            reached[(d['file'], k)] = reached.get((d['file'], k), 0) + n
    missing = []
    if not violations and not problems and not only and not unconfirmed:
        missing = [l for f, l in labels if not reached.get((f, l))]
    for k in knownhit.values():
        say('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    tot = lambda k: sum(d[k] for d in results)
    fns = sorted({x for d in results for x in d['functions'] if x.startswith('arolla')})
    cov = {'states': tot('paths'), 'transitions': tot('ops'), 'traces_validated_against_impl': validated[0],
           'samples': [{'entry': d['entry'], 'inputs': t['inputs'][:12], 'observed': [o[:200] for o in t['obs'][:6]]} for d in results for t in d['traces'][:1]][:12] or ['none'],
           'paths_completed': tot('completed'), 'paths_cut_by_assumptions': tot('infeasible'), 'forks': tot('forks'), 'assertions_checked': tot('asserts'), 'assertions_symbolic': tot('asserts_sym'),
           'queries': tot('queries'), 'z3_sat': tot('sat'), 'z3_unsat': tot('unsat'), 'z3_unknown': tot('unknown'), 'solver_s': round(tot('z3_s'), 2),
           'slowest_query_s': round(max([d['z3_max_s'] for d in results] or [0]), 3), 'functions_encoded': len(fns), 'functions': fns[:150], 'entries': bounds,
           'labels_reached': {k[1]: n for k, n in reached.items()}, 'inconclusive': problems[:20], 'unconfirmed': [u['msg'] for u in unconfirmed][:10],
           'exhaustive': bool(results) and not problems and not unconfirmed and all(d['exhausted'] or d['violations'] for d in results)}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    json.dump({'property': prop, 'tier': TIER if TIER == 'thorough' else 'quick', 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
               'assumptions': [], 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}, open(os.path.join(V, 'evidence' if not RUN else 'build/replay' + RUN, prop + '.json'), 'w'), indent=1)
    for p in problems:
        say('INCONCLUSIVE', p)
    for u in unconfirmed:
        say('UNCONFIRMED (not reported): %s %s %s :: %s' % (u['entry'], u['msg'], u['inputs'], str(u['replay'])[:500]))
    for b in valbad:
        say('TRACE-MISMATCH', b)
    say('%s: %d paths, %d operations, %d queries (%.1fs), %d functions of /repo, %d traces replayed, %.1fs' % (prop, tot('paths'), tot('ops'), tot('queries'), tot('z3_s'), len(fns), validated[0], time.time() - T0))
    for path, rec in violations:
        say('  %s: %s' % (rec['entry'], rec['msg']))
        say('  inputs ' + json.dumps(rec['inputs'])[:600])
        say('VIOLATION property=%s replay=%s' % (prop, path))
    if violations:
        return 1
    if missing:
        path = os.path.join(rdir, 'unreachable.json')
        json.dump({'property': prop, 'unreachable': missing}, open(path, 'w'))
        say('  required outcomes that no input reaches: ' + ', '.join(missing))
        say('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    return 0 if results else 3


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
