#!/usr/bin/env python3
"""Mutation testing of the checks. usage: mutate.py PROP FILE [--lines A-B] [--max N] [--seed S] [--jobs J] [--stop]
Makes single-point mutants of FILE in copies of /repo under /tmp, runs the property's check on each (SX_REPO), and lists the
mutants it does not report and that the repository's own (Python) tests do not report either."""
import ast, concurrent.futures as cf, json, os, random, re, shutil, subprocess, sys, threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, F = sys.argv[1:3]
opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
A, B = map(int, opt.get('--lines', '1-99999').split('-'))
JOBS = int(opt.get('--jobs', '3'))
R = os.environ.get('SX_REPO', '/repo')
src = open(R + '/' + F).read()
lines = src.split('\n')
M = []  # (line, old, new, text)


def rep(lineno, c0, c1, new, l1=None):
    if not A <= lineno <= B: return
    l1 = l1 or lineno
    off = [0]
    for l in lines: off.append(off[-1] + len(l.encode()) + 1)
    b = src.encode()
    i, j = off[lineno - 1] + c0, off[l1 - 1] + c1
    old = b[i:j].decode()
    if old == new: return
    M.append((lineno, old, new, (b[:i] + new.encode() + b[j:]).decode()))


def node(n, new): rep(n.lineno, n.col_offset, n.end_col_offset, new, n.end_lineno)


def seg(n): return ast.get_source_segment(src, n)


def py():
    t = ast.parse(src)
    doc = set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr): doc.add(n.body[0])
        if isinstance(n, (ast.arg, ast.FunctionDef, ast.AnnAssign)):
            for a in [getattr(n, 'annotation', None), getattr(n, 'returns', None)]:
                if a: doc.update(ast.walk(a))
    for d in list(doc):
        doc.update(ast.walk(d))
    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    for n in ast.walk(t):
        if n in doc: continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            node(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])))
        elif isinstance(n, ast.BoolOp):
            op = ' or ' if isinstance(n.op, ast.And) else ' and '
            node(n, '(' + op.join('(' + seg(v) + ')' for v in n.values) + ')')
            keep = ' and ' if isinstance(n.op, ast.And) else ' or '
            for k in range(len(n.values)):
                node(n, '(' + keep.join('(' + seg(v) + ')' for i, v in enumerate(n.values) if i != k) + ')')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            node(n, '(' + seg(n.operand) + ')')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            node(n.test, 'True') if not isinstance(n, ast.While) else None
            node(n.test, 'False')
        elif isinstance(n, ast.comprehension):
            for i in n.ifs: node(i, 'True')
        elif isinstance(n, ast.Constant):
            if isinstance(n.value, bool): node(n, str(not n.value))
            elif isinstance(n.value, int): node(n, str(n.value + 1)); node(n, str(n.value - 1) if n.value else '-1')
            elif isinstance(n.value, str) and n.lineno == n.end_lineno and seg(n) and seg(n)[0] in '\'"r':
                if n.value: node(n, "''")
                else: node(n, "'q'")
                if n.value: node(n, repr(n.value + 'q')); node(n, repr(n.value[1:])); node(n, repr(n.value[:-1]))
            elif isinstance(n.value, float): node(n, str(n.value * 3 + 1))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            node(n, '(%s %s %s)' % (seg(n.left), '-' if isinstance(n.op, ast.Add) else '+', seg(n.right)))
            node(n, '(%s)' % seg(n.left)); node(n, '(%s)' % seg(n.right))
        elif isinstance(n, ast.Expr): node(n, 'pass')
        elif isinstance(n, (ast.Raise, ast.Continue, ast.Break, ast.AugAssign, ast.Assert, ast.Delete)): node(n, 'pass')
        elif isinstance(n, ast.Return) and n.value is not None: node(n.value, 'None')
        elif isinstance(n, ast.Call):
            if n.keywords:
                for k in n.keywords:
                    s = seg(n); ks = seg(k)
                    if ks and s.count(ks) == 1: node(n, re.sub(r',\s*,', ',', s.replace(ks, '')).replace('(,', '('))
            nm = seg(n.func)
            if nm in ('sorted', 'list', 'reversed', 'set') and n.args: node(n, '(%s)' % seg(n.args[0]))
            if nm.endswith('.startswith'): node(n.func, nm[:-10] + 'endswith')
            if nm.endswith('.endswith'): node(n.func, nm[:-8] + 'startswith')
            if nm.endswith('fullmatch'): node(n.func, nm[:-9] + 'match')
            if nm.endswith('.match'): node(n.func, nm[:-5] + 'search')
            if nm == 're.search': node(n.func, 're.match')
            if nm.endswith(('.lower', '.upper', '.strip', '.lstrip', '.rstrip')): node(n, nm[:nm.rindex('.')])
            if nm in ('min', 'max'): node(n.func, 'max' if nm == 'min' else 'min')
            if nm in ('any', 'all'): node(n.func, 'all' if nm == 'any' else 'any')
            if nm.endswith('.rsplit'): node(n.func, nm[:-6] + 'split')
            if nm.endswith('.split'): node(n.func, nm[:-5] + 'rsplit')
        elif isinstance(n, ast.Slice):
            for p in (n.lower, n.upper):
                if p is not None: node(p, '(%s) + 1' % seg(p))
        elif isinstance(n, ast.JoinedStr):
            pass


def cpp():
    com = re.compile(r'//.*|"(?:[^"\\]|\\.)*"')
    pats = [(r'(?<![<>=!\-+*/&|^])<(?![<=a-zA-Z_:])', ['<=', '>']), (r'(?<= )<(?= )', ['<=', '>']), (r'(?<= )>(?= )', ['>=', '<']), (r'<=', ['<']), (r'(?<!-)>=', ['>']), (r'==', ['!=']), (r'!=', ['==']), (r'&&', ['||']), (r'\|\|', ['&&']),
            (r'(?<= )\+(?= )', ['-']), (r'(?<= )-(?= )', ['+']), (r' \+ 1\b', ['']), (r' - 1\b', ['']), (r'<<', ['>>']), (r'(?<= )>>(?= )', ['<<']), (r'\+\+', ['--']), (r'--', ['++']), (r'\+=', ['-=', '=']), (r'-=', ['+=']), (r'(?<= )\*(?= )', ['+', '/']), (r'(?<= )/(?= )', ['*']), (r'(?<= )%(?= )', ['/']),
            (r'(?<= )\|(?= )', ['&']), (r'(?<= )&(?= )', ['|']), (r'&=', ['|=', '=']), (r'\|=', ['&=', '=']), (r'~(?=[A-Za-z(]+\{?\d)', ['']), (r'(?<=[ (])!(?=[a-zA-Z(])', ['']),
            (r'\b(\d+)\b(?!\.)', None), (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']), (r'memory_order_\w+', ['memory_order_relaxed']), (r'std::min\b', ['std::max']), (r'std::max\b', ['std::min']), (r'std::move\((\w+)\)', [r'\1']),
            (r'\blower_bound\b', ['upper_bound']), (r'\.begin\(\)', ['.end()']), (r'fetch_add', ['fetch_sub']), (r'\bcontinue;', [';']), (r'\bbreak;', [';']), (r'\[\[fallthrough\]\];', ['break;'])]
    for i, l in enumerate(lines, 1):
        if not A <= i <= B or re.match(r'\s*(#|//|\*|using |namespace |template|static_assert)', l): continue
        m = com.search(l)
        code = l[:m.start()] if m else l
        for p, news in pats:
            for k in re.finditer(p, code):
                for nw in (news if news is not None else [str(int(k.group(1)) + 1), str(int(k.group(1)) - 1)]):
                    rep(i, len(l[:k.start()].encode()), len(l[:k.end()].encode()), k.expand(nw) if '\\' in nw else nw)
        m = re.match(r'(\s*)(if|while) \((.*)\) \{\s*$', code)
        if m and 'constexpr' not in code:
            rep(i, m.start(3), m.end(3), 'true') if m.group(2) == 'if' else None
            rep(i, m.start(3), m.end(3), 'false')
        if re.match(r'\s+[\w.\->\[\]*(]+.*;\s*$', code) and not re.match(r'\s*(return|const|auto|using|static|for|case|default|friend|public|private|break|[\w:<>]+ \w+( =|;|\())', code):
            rep(i, len(code) - len(code.lstrip()), len(code), ';')
        m = re.match(r'(\s*)return (.+);', code)
        if m and m.group(2) not in ('true', 'false', '*this'): pass


(py if F.endswith('.py') else cpp)()
M = list({m[3]: m for m in M}.values())
random.Random(int(opt.get('--seed', '1'))).shuffle(M)
M = M[:int(opt.get('--max', '100000'))]
print(len(M), 'mutants', flush=True)
pool, lock = [], threading.Lock()
for k in range(JOBS):
    d = '/tmp/mut_%s_%d' % (prop, k)
    shutil.rmtree(d, ignore_errors=True)
    subprocess.run(['cp', '-a', R, d])
    pool.append(d)
stat = {'killed': 0, 'invalid': 0, 'tests': 0, 'machinery': 0, 'survived': 0}


def one(m):
    with lock: d = pool.pop()
    try:
        if F.endswith('.py'):
            try: compile(m[3], F, 'exec')
            except SyntaxError: stat['invalid'] += 1; return
        open(os.path.join(d, F), 'w').write(m[3])
        env = dict(os.environ, SX_REPO=d, SX_RUN=os.path.basename(d), PYTHONDONTWRITEBYTECODE='1')
        if F.endswith('.py'):
            te = dict(env, PYTHONPATH=d)
            for t in sorted(os.popen('cd %s && find arolla/codegen -name "*_test.py" ! -name protopath_test.py' % d).read().split()):
                if subprocess.run(['timeout', '60', '/opt/arolla-venv/bin/python', t], cwd=d, env=te, capture_output=True).returncode not in (0, 5):
                    stat['tests'] += 1; return
        r = subprocess.run(['./check', prop], cwd=V, env=env, capture_output=True, text=True)
        if r.returncode == 1: stat['killed'] += 1; return
        o = (r.stdout + r.stderr).strip().split('\n')
        if r.returncode != 0 and any('does not compile' in x or 'error:' in x for x in o): stat['invalid'] += 1; return
        k = 'survived' if r.returncode == 0 else 'machinery'
        stat[k] += 1
        print('%s line %d: %s -> %s%s' % (k.upper(), m[0], m[1].replace('\n', '\\n')[:110], m[2].replace('\n', '\\n')[:110], '' if k == 'survived' else ' | ' + ' / '.join(x for x in o if 'INCON' in x or 'UNCONF' in x)[:260]), flush=True)
    finally:
        open(os.path.join(d, F), 'w').write(src)
        with lock: pool.append(d)


with cf.ThreadPoolExecutor(JOBS) as ex: list(ex.map(one, M))
print(stat, flush=True)
for d in pool:
    for x in (d, V + '/build/replay' + os.path.basename(d), V + '/build/out' + os.path.basename(d)): shutil.rmtree(x, ignore_errors=True)
