#!/usr/bin/env python3
"""Runs the solver-based check of one property: compiles the harnesses together with
/repo's current sources to LLVM IR, explores them with the symbolic executor, replays
every counterexample natively, and writes the evidence file.

usage: driver.py PROPERTY [--only ENTRY] [--keep-going] [-v]"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SX_REPO', '/repo')
BUILD = os.path.join(VERIF, 'build')
LLVM = '/usr/lib/llvm-18/bin/'
CXX = LLVM + 'clang++'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = 8
RUN = os.environ.get('SX_RUN', '')  # set by tools/mutate.py: keeps parallel runs apart
T0 = time.time()
BUDGET = 780.0 if TIER == 'quick' else 3400.0
UBSAN = 'signed-integer-overflow,shift,integer-divide-by-zero,bool,return,unreachable,float-cast-overflow,null'


def say(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def ensure_engine():
    src = [os.path.join(VERIF, 'engine', f) for f in sorted(os.listdir(os.path.join(VERIF, 'engine')))]
    h = hashlib.sha256()
    for f in src:
        h.update(open(f, 'rb').read())
    stamp = os.path.join(BUILD, 'symx.stamp')
    if os.path.exists(os.path.join(BUILD, 'symx')) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    os.makedirs(BUILD, exist_ok=True)
    r = sh(['make', '-C', os.path.join(VERIF, 'engine'), '-B', '-j8'])
    if r.returncode:
        say(r.stderr.decode(errors='replace')[-3000:])
        raise SystemExit(3)
    open(stamp, 'w').write(h.hexdigest())


def common_flags(h):
    f = ['-std=c++20', '-w', '-fno-exceptions', '-ffp-contract=off', '-I' + os.path.join(VERIF, 'harness'),
         '-I' + os.path.join(VERIF, 'shim'), '-I' + REPO, '-I' + os.path.join(VERIF, 'build', 'pb')]
    if TIER == 'thorough':
        f.append('-DSX_THOROUGH=1')
    return f + h['flags']


def bc_flags(h, ub=True):
    f = ['-D_GLIBCXX_EXTERN_TEMPLATE=0', h['opt'], '-fno-vectorize', '-fno-slp-vectorize', '-gline-tables-only', '-fno-threadsafe-statics' if not h['threads'] else '-g1',
         '-fno-discard-value-names', '-fno-builtin-printf', '-fno-delete-null-pointer-checks']
    if ub and h['ubsan']:
        f += ['-fsanitize=' + h['ubsan'], '-fsanitize-trap=all']
    return f


def nat_flags(h, ub=True):
    f = ['-O1', '-g1', '-DSX_NATIVE=1', '-fPIC', '-fsanitize=thread' if h['threads'] else '-fsanitize=address', '-fno-omit-frame-pointer']
    if ub and h['ubsan']:
        f += ['-fsanitize=' + h['ubsan'], '-fsanitize-trap=' + h['ubsan']]
    return f


def compile_one(src, flags, ext):
    """compiles via a content-addressed cache keyed by the preprocessed text"""
    pp = sh([CXX] + flags + ['-E', src])
    if pp.returncode:
        return None, pp.stderr.decode(errors='replace')
    key = hashlib.sha256(('\0'.join(flags) + ext).encode() + pp.stdout).hexdigest()[:32]
    d = os.path.join(BUILD, 'cache')
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + ext)
    if not os.path.exists(out):
        tmp = out + '.%d.%d' % (os.getpid(), threading.get_ident())
        r = sh([CXX] + flags + (['-emit-llvm'] if ext == '.bc' else []) + ['-c', src, '-o', tmp])
        if r.returncode:
            return None, r.stderr.decode(errors='replace')
        os.rename(tmp, out)
    else:
        os.utime(out)
    return out, ''


def generate(h, script):
    """runs /repo's code generators (through harness/gen/SCRIPT) and makes what they write available to the harness"""
    out = os.path.join(BUILD, 'gen' + RUN, h['name'])
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    env = dict(os.environ, PYTHONPATH=REPO, PYTHONDONTWRITEBYTECODE='1')
    r = sh(['/opt/arolla-venv/bin/python', os.path.join(VERIF, 'harness', 'gen', script), out], env=env, cwd=out)
    if r.returncode:
        h['gen_error'] = r.stderr.decode(errors='replace')
    h['flags'].append('-I' + out)


def parse_harness(path):
    txt = open(path).read()
    h = {'path': path, 'name': os.path.basename(path)[:-3], 'srcs': [], 'flags': [], 'entries': [], 'opt': '-O1', 'threads': False, 'ubsan': UBSAN,
         'labels': [], 'assume': [], 'gen_error': ''}
    for m in re.finditer(r'^// SX-(\w+):[ \t]*(.*)$', txt, re.M):
        k, v = m.group(1), m.group(2).strip()
        if k == 'SRCS':
            h['srcs'] += v.split()
        elif k == 'FLAGS':
            h['flags'] += v.replace('$VERIF', VERIF).split()
        elif k == 'OPT':
            h['opt'] = v
        elif k == 'THREADS':
            h['threads'] = True
        elif k == 'UBSAN':
            h['ubsan'] = '' if v == 'none' else v
        elif k == 'ASSUME':
            h['assume'].append(v)
        elif k == 'GEN':
            generate(h, v)
    for m in re.finditer(r'^\s*SX_ENTRY\((\w+)\)[^\n]*?(?://\s*sx:\s*([^\n]*))?$', txt, re.M):
        e = {'name': m.group(1), 'shards': 1, 'timeout': 240 if TIER == 'quick' else 1500, 'tier': 'quick', 'opts': [], 'weight': 1.0, 'qtimeout': 60000}
        for kv in (m.group(2) or '').split():
            k, _, v = kv.partition('=')
            if k in ('shards',):
                e[k] = int(v)
            elif k in ('timeout', 'weight'):
                e[k] = float(v)
            elif k == 'tier':
                e[k] = v
            elif k == 'leak':
                e['opts'].append('--leak')
            elif k in ('preempt', 'max-steps', 'traces'):
                e['opts'] += ['--' + k, v]
            elif k == 'qtimeout':
                e[k] = int(v)
            elif k == 'bound':
                e['bound'] = v.replace('_', ' ')
        if e['tier'] == 'thorough' and TIER == 'quick':
            continue
        h['entries'].append(e)
    h['labels'] = re.findall(r'sx_reach\("([^"]+)"\)', re.sub(r'//.*', '', txt))
    return h


def build(h, pool, native):
    srcs = [h['path'], os.path.join(VERIF, 'shim', 'rt', 'rt.cc')] + [os.path.join(REPO if not s.startswith('shim/') else VERIF, s) for s in h['srcs']]
    if native:
        srcs.append(os.path.join(VERIF, 'harness', 'sx_native.cc'))
        flags = common_flags(h) + nat_flags(h)
        plain = common_flags(h) + nat_flags(h, False)
    else:
        flags = common_flags(h) + bc_flags(h)
        plain = common_flags(h) + bc_flags(h, False)
    futs = [(s, pool.submit(compile_one, s, flags if s.startswith(REPO) or s == h['path'] else plain, '.o' if native else '.bc')) for s in srcs]
    return futs


def link_bc(h, objs):
    key = hashlib.sha256('\0'.join(objs + [e['name'] for e in h['entries']]).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'cache', 'L' + key + '.bc')
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = sh([LLVM + 'llvm-link', '-o', tmp] + objs)
        if r.returncode:
            return None, r.stderr.decode(errors='replace')
        names = ','.join(e['name'] for e in h['entries'])
        r = sh([LLVM + 'opt', '-passes=internalize,globaldce', '--internalize-public-api-list=' + names, tmp, '-o', tmp])
        if r.returncode:
            return None, r.stderr.decode(errors='replace')
        os.rename(tmp, out)
    return out, ''


def link_native(h, objs):
    key = hashlib.sha256('\0'.join(objs).encode()).hexdigest()[:24]
    out = os.path.join(BUILD, 'cache', 'N' + key)
    if not os.path.exists(out):
        tmp = out + '.%d' % os.getpid()
        r = sh([CXX, '-rdynamic', '-fsanitize=thread' if h['threads'] else '-fsanitize=address', '-o', tmp] + objs + ['-lpthread', '-ldl', '-lm', '-Wl,--unresolved-symbols=ignore-all'])
        if r.returncode:
            return None, r.stderr.decode(errors='replace')
        os.rename(tmp, out)
    return out, ''


def run_native(exe, entry, shard, inputs, fill=None, timeout=60):
    env = dict(os.environ)
    ao = 'detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=4000:detect_stack_use_after_return=0'
    if fill is not None:
        ao += ':max_malloc_fill_size=100000000:malloc_fill_byte=%d' % fill
    env['ASAN_OPTIONS'] = ao
    env['TSAN_OPTIONS'] = 'exitcode=98:halt_on_error=1'
    try:
        r = subprocess.run(['timeout', '-s', 'KILL', str(timeout), exe, entry, str(shard)] + [v for _, v in inputs], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, timeout=timeout + 10)
    except subprocess.TimeoutExpired:
        return 'timeout', ''
    out = r.stdout.decode('latin1') + r.stderr.decode('latin1')
    rc = r.returncode
    if rc == 42:
        return 'fail', out
    if rc == 43:
        return 'assume', out
    if rc == 0:
        return 'ok', out
    if rc in (-9, 137):
        return 'timeout', out
    return 'crash', out


def confirm(h, exe, entry, shard, v, bc):
    """does the violation reproduce in the natively compiled code?"""
    if exe is None:
        return False, 'no native build'
    last = ''
    for fill in (None, 0xbe, 0xff, 0x00, 0x01):
        k, out = run_native(exe, entry, shard, v['inputs'], fill, 25 if v['kind'] == 'nontermination' else 60)
        last = k + ': ' + out[-400:]
        if k in ('fail', 'crash') or (k == 'timeout' and v['kind'] == 'nontermination'):
            return True, last
        if not v['uninit'] and v['kind'] not in ('memory',):
            break
    # Violations a native run cannot show (leaks, races, deadlocks, schedule-dependent
    # failures): re-execute the compiled code's IR with the concrete inputs and schedule.
    if v['kind'] in ('leak', 'data-race', 'deadlock', 'lock') or h['threads']:
        tmp = os.path.join(BUILD, 'cache', 'c%d-%d.json' % (os.getpid(), threading.get_ident()))
        opts = [o for e in h['entries'] if e['name'] == entry for o in e['opts']]
        sh([os.path.join(BUILD, 'symx'), bc, '--entry', entry, '--shard', str(shard), '--out', tmp, '--timeout', '60', '--inputs', ','.join(x for _, x in v['inputs'])] + opts)
        try:
            d = json.load(open(tmp)); os.unlink(tmp)
            if d['violations'] and d['violations'][0]['kind'] == v['kind']:
                return True, 'reproduced by concrete re-execution of the IR (%s)' % v['kind']
        except Exception:
            pass
    if v['kind'] == 'memory' and not last.startswith('ok'):
        return True, last
    return False, last


class Stop(Exception):
    pass


def setup():
    """builds the executor and fills the compile cache from the current tree"""
    ensure_engine()
    pool = cf.ThreadPoolExecutor(JOBS)
    hd = os.path.join(VERIF, 'harness')
    todo = []
    for f in sorted(os.listdir(hd)):
        if re.match(r'[A-Z]\d+_.*\.cc$', f):
            h = parse_harness(os.path.join(hd, f))
            todo.append((h, build(h, pool, False), build(h, pool, True)))
    for h, *fs in todo:
        for futs, link in zip(fs, (link_bc, link_native)):
            objs = [f.result()[0] for _, f in futs]
            if None in objs:
                say(h['name'], 'does not compile (yet)')
            elif link(h, objs)[0] is None:
                say(h['name'], 'does not link')
    say('executor built, %d harnesses compiled, %.0fs' % (len(todo), time.time() - T0))
    return 0


def main():
    args = sys.argv[1:]
    prop = args[0]
    if prop == '--setup':
        return setup()
    only = args[args.index('--only') + 1] if '--only' in args else None
    keep = '--keep-going' in args
    verbose = '-v' in args
    ensure_engine()
    hs = []
    hd = os.path.join(VERIF, 'harness')
    for f in sorted(os.listdir(hd)):
        if f.startswith(prop + '_') and f.endswith('.cc'):
            hs.append(parse_harness(os.path.join(hd, f)))
    if only:
        for h in hs:
            h['entries'] = [e for e in h['entries'] if re.fullmatch(only, e['name'])]
        hs = [h for h in hs if h['entries']]
    if not hs:
        say('no harness for', prop)
        return 3
    known = []
    kf = os.path.join(VERIF, 'known_findings.json')
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf))['findings'] if k['property'] == prop and k.get('status') == 'known']
    cpool = cf.ThreadPoolExecutor(JOBS)
    problems, violations, unconfirmed, results = [], [], [], []
    genbad = []
    bc_f = [(h, build(h, cpool, False)) for h in hs]
    nat_f = [(h, build(h, cpool, True)) for h in hs]
    runnable = []
    for h, futs in bc_f:
        objs, bad = [], ''
        for s, f in futs:
            o, err = f.result()
            if o is None:
                bad = s + ': ' + err
            else:
                objs.append(o)
        if h['gen_error'] or re.search(r'/build/gen[^:\n]*:\d+:\d+: (fatal )?error', bad):
            # /repo's generators fail on, or write invalid C++ for, inputs they have to handle
            os.makedirs(os.path.join(BUILD, 'replay' + RUN, prop), exist_ok=True)
            path = os.path.join(BUILD, 'replay' + RUN, prop, h['name'] + '-generated.txt')
            genbad.append((path, h['gen_error'] or bad))
            continue
        if bad:
            problems.append('%s does not compile: %s' % (h['name'], bad[-1500:]))
            continue
        bc, err = link_bc(h, objs)
        if bc is None:
            problems.append('%s does not link: %s' % (h['name'], err[-1500:]))
            continue
        h['bc'] = bc
        runnable.append(h)
    t_compiled = time.time() - T0
    for h, futs in nat_f:
        h['natfuts'] = futs
    nat_lock = threading.Lock()

    def native(h):
        with nat_lock:
            if 'exe' not in h:
                objs, bad = [], ''
                for s, f in h['natfuts']:
                    o, err = f.result()
                    if o is None:
                        bad = err
                    else:
                        objs.append(o)
                if bad:
                    h['exe'] = None
                    problems.append('%s: native build failed: %s' % (h['name'], bad[-800:]))
                else:
                    h['exe'], err = link_native(h, objs)
                    if h['exe'] is None:
                        problems.append('%s: native link failed: %s' % (h['name'], err[-800:]))
            return h['exe']

    stop = threading.Event()
    procs = set()
    plock = threading.Lock()
    validated = [0, 0]
    valbad = []
    knownhit = {}
    rdir = os.path.join(BUILD, 'replay' + RUN, prop)
    shutil.rmtree(rdir, ignore_errors=True)
    os.makedirs(rdir, exist_ok=True)
    for path, text in genbad:
        open(path, 'w').write(text)
        violations.append((path, {'entry': 'generation', 'kind': 'generated-code', 'msg': (re.findall(r'error: .*', text) or text.strip().splitlines()[-1:])[0], 'where': os.path.basename(path)}))
    odir = os.path.join(BUILD, 'out' + RUN, prop)
    shutil.rmtree(odir, ignore_errors=True)
    os.makedirs(odir, exist_ok=True)

    def job(h, e, shard):
        if stop.is_set():
            return
        left = BUDGET - (time.time() - T0)
        if left < 20:
            problems.append('%s[%d]: no time left' % (e['name'], shard))
            return
        out = os.path.join(odir, '%s-%d.json' % (e['name'], shard))
        cmd = [os.path.join(BUILD, 'symx'), h['bc'], '--entry', e['name'], '--shard', str(shard), '--out', out, '--timeout', str(min(e['timeout'], left - 10)),
               '--qtimeout', str(e['qtimeout']), '--max-violations', '6', '--seed', str(SEED), '--traces', '6'] + e['opts']
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
        with plock:
            procs.add(p)
        try:
            _, err = p.communicate(timeout=min(e['timeout'], left) + 60)
        except subprocess.TimeoutExpired:
            p.kill()
            _, err = p.communicate()
        with plock:
            procs.discard(p)
        if stop.is_set():
            return
        if not os.path.exists(out):
            problems.append('%s[%d]: engine died rc=%s %s' % (e['name'], shard, p.returncode, err.decode('latin1')[-300:]))
            return
        d = json.load(open(out))
        d['harness'] = h['name']; d['shard'] = shard
        results.append(d)
        if verbose:
            say('  %-40s shard %d: paths %d done %d steps %d z3 %d (%.1fs, max %.1f) wall %.1fs viol %d inc %d %s' % (e['name'], shard, d['paths'], d['completed'], d['steps'], d['z3_calls'], d['z3_s'], d['z3_max_s'], d['wall_s'], len(d['violations']), d['incomplete'], d['error'][:300]))
        if d['error']:
            problems.append('%s[%d]: engine error: %s' % (e['name'], shard, d['error'][:700]))
        elif d['incomplete'] or d['left']:
            problems.append('%s[%d]: not exhausted (%d paths left, %d undecided): %s' % (e['name'], shard, d['left'], d['incomplete'], '; '.join(d['incomplete_why'][:2])[:500]))
        exe = native(h) if (d['violations'] or d['traces']) else None
        for v in d['violations']:
            k = next((k for k in known if k['entry'] == e['name'] and k['match'] in v['msg'] + ' ' + v['where']), None)
            if k:
                knownhit[k['what']] = k
                continue
            ok, how = confirm(h, exe, e['name'], shard, v, h['bc'])
            rec = {'property': prop, 'harness': h['name'], 'entry': e['name'], 'shard': shard, 'kind': v['kind'], 'msg': v['msg'], 'where': v['where'], 'inputs': v['inputs'], 'confirmed': ok, 'how': how,
                   'replay_cmd': ' '.join([exe or '?', e['name'], str(shard)] + [x for _, x in v['inputs']])}
            path = os.path.join(rdir, '%s-%d-%d.json' % (e['name'], shard, len(violations) + len(unconfirmed)))
            json.dump(rec, open(path, 'w'), indent=1)
            if ok:
                violations.append((path, rec))
                if not keep:
                    stop.set()
                    with plock:
                        for q in procs:
                            q.kill()
                return
            unconfirmed.append(rec)
        # sampled paths: the native code must agree on every observation
        for t in d['traces']:
            if not t['replayable'] or exe is None or stop.is_set():
                continue
            k, o = run_native(exe, e['name'], shard, t['inputs'], None, 60)
            obs = ['0x' + x.split()[1] for x in o.splitlines() if x.startswith('OBS ')]
            want = [hex(int(x, 16) & (2**64 - 1)) for x in t['obs']]
            if k == 'ok' and obs == want:
                validated[0] += 1
            else:
                valbad.append('%s: native run disagrees with the executor (%s): inputs %s, obs %s vs %s' % (e['name'], k + ' ' + o[-200:], t['inputs'][:12], obs[:8], want[:8]))

    jobs = [(h, e, s) for h in runnable for e in h['entries'] for s in range(e['shards'])]
    jobs.sort(key=lambda j: -j[1]['weight'])
    rpool = cf.ThreadPoolExecutor(JOBS)
    futs = [rpool.submit(job, *j) for j in jobs]
    for f in futs:
        f.result()
    # ---- vacuity: every label in the harness sources must have been reached
    reached = {}
    for d in results:
        for k, n in d['reached'].items():
            reached[(d['harness'], k)] = reached.get((d['harness'], k), 0) + n
    missing = []
    if not violations and not problems and not only:
        for h in runnable:
            for l in h['labels']:
                if not reached.get((h['name'], l)):
                    missing.append(h['name'] + ':' + l)
    for k in knownhit.values():
        say('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    tot = lambda k: sum(d[k] for d in results)
    fns = sorted({tuple(x) for d in results for x in d['functions']})
    samples = []
    for d in results:
        for t in d['traces'][:1]:
            samples.append({'entry': d['entry'], 'inputs': t['inputs'][:12], 'observed': t['obs'][:12]})
    cov = {
        'states': tot('paths'), 'transitions': tot('steps'), 'traces_validated_against_impl': validated[0], 'samples': samples[:12] or ['none'],
        'paths_completed': tot('completed'), 'paths_cut_by_assumptions': tot('infeasible'), 'paths_undecided': tot('incomplete') + tot('left'), 'forks': tot('forks'),
        'assertions_checked': tot('asserts'), 'assertions_symbolic': tot('asserts_symbolic'), 'memory_accesses_checked_symbolically': tot('symbolic_memory_checks'),
        'queries': tot('queries'), 'queries_to_z3': tot('z3_calls'), 'z3_sat': tot('z3_sat'), 'z3_unsat': tot('z3_unsat'), 'z3_unknown': tot('z3_unknown'),
        'solver_s': round(tot('z3_s'), 2), 'slowest_query_s': max([d['z3_max_s'] for d in results] or [0]), 'scheduling_points': tot('sched_points'),
        'functions_encoded': len(fns), 'functions': ['%s: %s' % (os.path.relpath(a, REPO), b) for a, b in fns][:150],
        'entries': {h['name']: [e['name'] + (' [bound: ' + e['bound'] + ']' if 'bound' in e else '') for e in h['entries']] for h in runnable},
        'labels_reached': {'%s:%s' % k: n for k, n in sorted(reached.items())}, 'inconclusive': problems[:20], 'unconfirmed': [u['msg'] for u in unconfirmed][:10],
        'compile_s': round(t_compiled, 1), 'exhaustive': not problems and not unconfirmed,
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    ev = {'property': prop, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'model_checking', 'coverage': cov,
          'assumptions': sorted({a for h in hs for a in h['assume']}), 'wall_s': round(time.time() - T0, 1), 'violations': len(violations)}
    json.dump(ev, open(os.path.join(VERIF, 'evidence' if not RUN else 'build/replay' + RUN, prop + '.json'), 'w'), indent=1)
    for p in problems:
        say('INCONCLUSIVE', p)
    for u in unconfirmed:
        say('UNCONFIRMED (not reported): %s %s %s :: %s' % (u['entry'], u['kind'], u['msg'], u['how'][-300:]))
    for b in valbad:
        say('TRACE-MISMATCH', b)
    say('%s: %d paths, %d instructions, %d queries (%d to z3, %.1fs), %d functions of /repo, %d traces replayed natively, %.1fs' % (prop, tot('paths'), tot('steps'), tot('queries'), tot('z3_calls'), tot('z3_s'), len(fns), validated[0], time.time() - T0))
    if violations:
        for path, rec in violations:
            say('  %s %s: %s' % (rec['entry'], rec['kind'], rec['msg']))
            say('  at ' + rec['where'][:600])
            say('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if missing:
        path = os.path.join(rdir, 'unreachable.json')
        json.dump({'property': prop, 'unreachable': missing, 'note': 'the exploration was exhaustive within its bounds and no input reaches these required outcomes'}, open(path, 'w'), indent=1)
        say('  required outcomes that no input reaches: ' + ', '.join(missing))
        say('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if valbad and not keep:
        return 2 if os.environ.get('SX_STRICT') else 0
    if not results or all(d['error'] for d in results):
        return 3
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    os._exit(rc)
