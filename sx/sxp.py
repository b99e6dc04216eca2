"""Harness interface of the Python checks: symbolic values under exploration (run_symbolic),
recorded values on a replay (run_plain)."""
_sx_api = True
import json, os, sys, time, traceback

MODE = None     # 'symbolic' or 'plain'
S = None        # the pysym module in symbolic mode
PLAIN = None    # remaining recorded inputs in plain mode
REACHED = {}
OBS = []
SHARD = 0
THOROUGH = os.environ.get('VERIF_TIER') == 'thorough'
ENTRIES = {}
LABELS = set()


class CheckFailed(Exception):
    pass


class Assumed(BaseException):
    pass


def entry(shards=1, timeout=240, bound='', tier='quick'):
    def deco(f):
        ENTRIES[f.__name__] = {'f': f, 'shards': shards, 'timeout': timeout, 'bound': bound, 'tier': tier}
        return f
    return deco


def shard():
    return SHARD


def _next(name):
    if not PLAIN:
        raise Assumed('no more inputs')
    n, v = PLAIN.pop(0)
    if n != name:
        raise Assumed('replay asks for %s, recorded %s' % (name, n))
    return v


def _fresh(name):
    C = S.C
    k = C.names.get(name, 0)
    C.names[name] = k + 1
    return name if not k else '%s.%d' % (name, k)


def int_(name, lo, hi):
    if lo == hi:
        return lo
    if MODE == 'plain':
        return _next(name)
    z = S.z3.Int(_fresh(name))
    S.C.vars.append((name, 'int', z))
    S.C.assume(S.z3.And(z >= lo, z <= hi))
    return S.SymInt(z)


def pick(name, lo, hi):
    v = int_(name, lo, hi)
    return v if isinstance(v, int) else int(v)


def choose(name, options):
    return options[pick(name, 0, len(options) - 1)]


def bool_(name):
    if MODE == 'plain':
        return _next(name)
    z = S.z3.Bool(_fresh(name))
    S.C.vars.append((name, 'bool', z))
    return S.SymBool(z)


def str_(name, lo, hi, alphabet=None):
    """a string of lo..hi characters; each from the alphabet (any of Latin-1 when None)"""
    n = pick(name + '.len', lo, hi)
    if MODE == 'plain':
        return _next(name) if n else ''
    if not n:
        return ''
    base = _fresh(name)
    cs = [S.z3.BitVec('%s[%d]' % (base, i), S.CW) for i in range(n)]
    S.C.vars.append((name, 'str', cs))
    if alphabet is not None:
        for c in cs:
            S.setdomain(c, [ord(x) for x in alphabet])
            S.C.assume(S.z3.Or(*[c == ord(x) for x in alphabet]))
    return S.SymStr(cs)


def assume(c):
    if MODE == 'plain':
        if not c:
            raise Assumed('assumption')
    elif isinstance(c, S.SymBool):
        S.C.assume(c.e)
    elif not c:
        raise S.Infeasible()


def check(c, msg):
    if MODE == 'plain':
        if not c:
            raise CheckFailed(msg)
        return
    C = S.C
    C.asserts += 1
    if isinstance(c, S.SymInt):
        c = c != 0
    if isinstance(c, S.SymBool):
        C.asserts_sym += 1
        if C.pos == len(C.trail) and C.check(S.z3.Not(c.e)) == S.z3.sat:
            C.solver.push()
            C.solver.add(S.z3.Not(c.e))
            m = C.model()
            C.solver.pop()
            e = S.Violation(msg)
            e.model = m
            raise e
        C.assume(c.e)
        return
    if not c:
        raise S.Violation(msg)


def same(a, b):
    """a == b without forking on string comparisons"""
    return a == b


def both(*cs):
    """conjunction without forking"""
    if MODE == 'plain':
        return all(cs)
    return S.mkbool(S.z3.And(*[S.tobool(c) for c in cs]))


def either(*cs):
    if MODE == 'plain':
        return any(cs)
    return S.mkbool(S.z3.Or(*[S.tobool(c) for c in cs]))


def iff(a, b):
    if MODE == 'plain':
        return bool(a) == bool(b)
    return S.mkbool(S.tobool(a) == S.tobool(b))


def concrete(v):
    return v if MODE == 'plain' else S.conc(v)


def reach(label):
    REACHED[label] = REACHED.get(label, 0) + 1


def obs(v):
    if MODE == 'plain':
        OBS.append(repr(v))
    else:
        S.C.obs.append(v)


def raised(kinds, f, *a, **k):
    """(result, None) or (None, exception)"""
    try:
        return f(*a, **k), None
    except kinds as e:
        return None, e


def load_file(relpath, g):
    """executes a file of the repository (e.g. a .bzl) as Python with the given globals"""
    path = os.path.join(os.environ.get('SX_REPO', '/repo'), relpath)
    g['__name__'] = relpath
    if MODE == 'symbolic':
        S.load_source(path, g, True)
    else:
        exec(compile(open(path).read(), path, 'exec', dont_inherit=True), g)
    return g


def _load(path):
    g = {'__name__': 'sx_harness', '__file__': path, '_sx_scope_plain': True}
    if MODE == 'symbolic':
        S.load_source(path, g, True)
    else:
        src = open(path).read()
        exec(compile(src, path, 'exec', dont_inherit=True), g)
    return g


def run_symbolic(path, name, shard_, seconds, ntraces):
    global MODE, S, SHARD
    import pysym
    MODE, S, SHARD = 'symbolic', pysym, shard_
    sys.meta_path.insert(0, pysym.Finder())
    sys.path.insert(0, pysym.REPO)
    t0 = time.time()
    out = {'entry': name, 'shard': shard_, 'error': '', 'violations': [], 'traces': [], 'completed': 0, 'infeasible': 0}
    C = pysym.C = pysym.Ctx(t0 + seconds)
    try:
        C.start()
        C.paths = 0
        _load(path)
        f = ENTRIES[name]['f']
    except Exception as e:
        out['error'] = 'load: ' + ''.join(traceback.format_exception(e))[-1500:]
        return out
    more = True
    done = False
    try:
        while more:
            C.start()
            v = m = None
            complete = False
            try:
                f()
                out['completed'] += 1
                complete = True
            except pysym.Infeasible:
                out['infeasible'] += 1
            except pysym.Violation as e:
                v, m = str(e), getattr(e, 'model', None)
                tb = e
            except OutOfTimeT():
                raise
            except RecursionError as e:
                v, tb = 'RecursionError', e
            except Exception as e:
                v, tb = 'unexpected %s: %s' % (type(e).__name__, str(e)[:300]), e
            if v is not None:
                m = m or C.model()
                where = [fr for fr in traceback.extract_tb(tb.__traceback__) if 'pysym' not in fr.filename and 'sxp' not in fr.filename][-4:]
                out['violations'].append({'msg': v, 'inputs': C.inputs(m), 'where': '; '.join('%s:%d' % (fr.filename, fr.lineno) for fr in where)})
                if len(out['violations']) >= 4:
                    break
            elif complete and len(out['traces']) < ntraces and C.paths % 7 == 1:
                m = C.model()
                out['traces'].append({'inputs': C.inputs(m), 'obs': [repr(_eval(o, m)) for o in C.obs]})
            more = C.backtrack()
        done = not more
    except OutOfTimeT():
        out['error'] = 'out of time after %d paths' % C.paths
    out.update(paths=C.paths, forks=C.forks, queries=C.queries, sat=C.sat, unsat=C.unsat, unknown=C.unknown, ops=C.ops, asserts=C.asserts, asserts_sym=C.asserts_sym,
               z3_s=C.zs, z3_max_s=C.zmax, wall_s=time.time() - t0, functions=sorted('%s.%s' % x for x in C.funcs), reached=REACHED, exhausted=done, undecided=C.undecided[:3])
    return out


def OutOfTimeT():
    return S.OutOfTime


def _eval(o, m):
    if isinstance(o, S.SymStr):
        return ''.join(chr(c if isinstance(c, int) else m.eval(c, model_completion=True).as_long()) for c in o.cs)
    if isinstance(o, S.SymInt):
        return m.eval(o.e, model_completion=True).as_long()
    if isinstance(o, S.SymBool):
        return S.z3.is_true(m.eval(o.e, model_completion=True))
    if isinstance(o, (list, tuple)):
        return type(o)(_eval(x, m) for x in o)
    return o


def run_plain(path, name, shard_, inputs):
    global MODE, PLAIN, SHARD
    MODE, PLAIN, SHARD = 'plain', list(inputs), shard_
    sys.path.insert(0, os.environ.get('SX_REPO', '/repo'))
    try:
        _load(path)
        ENTRIES[name]['f']()
    except Assumed as e:
        return {'result': 'assume', 'why': str(e)}
    except CheckFailed as e:
        return {'result': 'fail', 'why': str(e)}
    except Exception as e:
        return {'result': 'fail', 'why': 'unexpected %s: %s' % (type(e).__name__, e), 'tb': ''.join(traceback.format_exception(e))[-1500:]}
    return {'result': 'ok', 'obs': OBS}


if __name__ == '__main__':
    me = sys.modules['sxp'] = sys.modules['__main__']
    a = sys.argv[1:]
    sys.setrecursionlimit(5000)
    if a[0] == 'explore':
        r = run_symbolic(a[1], a[2], int(a[3]), float(a[4]), int(a[5]))
    elif a[0] == 'list':
        MODE = 'list'
        import re
        src = open(a[1]).read()
        import types as _t
        g = {'__name__': 'sx_harness', '__file__': a[1]}
        sys.path.insert(0, os.environ.get('SX_REPO', '/repo'))
        try:
            exec(compile(src, a[1], 'exec', dont_inherit=True), g)
            err = ''
        except Exception as e:
            err = ''.join(traceback.format_exception(e))[-1500:]
        r = {'entries': {k: {x: y for x, y in v.items() if x != 'f'} for k, v in ENTRIES.items()}, 'labels': re.findall(r"reach\('([^']+)'\)", src), 'error': err}
    else:
        r = run_plain(a[1], a[2], int(a[3]), json.loads(sys.stdin.read()))
    print('\n@@' + json.dumps(r))
    sys.stdout.flush()
    os._exit(0)
