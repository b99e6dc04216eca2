"""Symbolic execution of Python source with Z3.

Modules under /repo (and the harness) are loaded from their current source with their
syntax tree rewritten so that operations which CPython would force to concrete values
(calls into C, f-strings, %, in) go through this module. Symbolic strings, integers and
booleans are proxies; a branch on a symbolic condition asks Z3 which sides are feasible and
explores both (depth-first, by re-execution). Where a library function has no symbolic
model its arguments are concretised, which explores every feasible value as its own path,
so nothing is lost."""
import ast, builtins, importlib.abc, importlib.util, os, re, re._constants as sre, re._parser as sre_parse, string, sys, time, types
import z3

REPO = os.environ.get('SX_REPO', '/repo')


class Violation(Exception):
    pass


class Infeasible(BaseException):
    pass


class OutOfTime(BaseException):
    pass


class Ctx:
    def __init__(self, deadline):
        self.solver = z3.Solver()
        self.solver.set('timeout', 60000)
        self.trail = []      # decisions: [expr, taken, alternative still to explore]
        self.pos = 0
        self.paths = self.forks = self.queries = self.sat = self.unsat = self.unknown = self.ops = self.asserts = self.asserts_sym = 0
        self.zs = self.zmax = 0.0
        self.funcs = set()
        self.reached = {}
        self.deadline = deadline
        self.undecided = []
        self.last = None     # a model of the current path condition

    def start(self):
        self.pos = 0
        self.vars = []       # (name, kind, z3 vars)
        self.names = {}
        self.obs = []
        self.paths += 1
        self.dom = {}        # id of a character term -> (term, the set of its possible values)

    def check(self, e=None):
        t = time.time()
        if t > self.deadline:
            raise OutOfTime()
        r = self.solver.check() if e is None else self.solver.check(e)
        dt = time.time() - t
        self.queries += 1
        self.zs += dt
        self.zmax = max(self.zmax, dt)
        if r == z3.sat:
            self.sat += 1
        elif r == z3.unsat:
            self.unsat += 1
        else:
            self.unknown += 1
            self.undecided.append(str(e)[:200])
        return r

    def keep(self):
        """remembers the model of the last satisfiable query"""
        try:
            self.last = self.solver.model()
        except z3.Z3Exception:
            self.last = None

    def witness(self, e):
        """value of e in the remembered model, if that is a model of the path condition"""
        if self.last is None:
            return None
        v = self.last.eval(e, model_completion=True)
        return True if z3.is_true(v) else False if z3.is_false(v) else None

    def _push(self, e, taken, alt):
        if self.last is not None and self.witness(e) is not bool(taken):
            self.last = None
        self.trail.append([e, taken, alt])
        self.pos += 1
        self.solver.push()
        self.solver.add(e if taken else z3.Not(e))

    def branch(self, e):
        """decides a symbolic condition; forks when both outcomes are possible"""
        if e is True or e is False:
            return e
        if self.pos < len(self.trail) and self.trail[self.pos][0].eq(e):
            # the same condition at the same place of the path being re-executed
            t = self.trail[self.pos]
            self.pos += 1
            return t[1]
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        if self.pos < len(self.trail):
            t = self.trail[self.pos]
            self.pos += 1
            return t[1]
        w = self.witness(e)
        can_t = w is True or self.check(e) != z3.unsat
        if can_t and w is None:
            self.keep()
        can_f = w is False or self.check(z3.Not(e)) != z3.unsat
        if can_t and can_f:
            self.forks += 1
            self._push(e, True, True)
            return True
        if not can_t and not can_f:
            raise Infeasible()
        self._push(e, can_t, False)
        return can_t

    def assume(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return
        if self.pos < len(self.trail):
            self.pos += 1
            return
        if z3.is_false(e):
            raise Infeasible()
        if self.witness(e) is not True:
            if self.check(e) == z3.unsat:
                raise Infeasible()
            self.keep()
        self._push(e, True, False)

    def value(self, e):
        """concretises a term: every feasible value becomes a path of its own"""
        e = z3.simplify(e)
        while True:
            if z3.is_bv_value(e) or z3.is_int_value(e):
                return e.as_long()
            if self.pos < len(self.trail):
                t = self.trail[self.pos]
                self.pos += 1
                if t[1]:
                    return t[3]
                continue
            if self.check() != z3.sat:
                raise Infeasible()
            v = self.solver.model().eval(e, model_completion=True).as_long()
            eq = e == v
            alt = self.check(z3.Not(eq)) != z3.unsat
            if alt:
                self.forks += 1
            self._push(eq, True, alt)
            self.trail[-1].append(v)
            return v

    def backtrack(self):
        while self.trail and not self.trail[-1][2]:
            self.trail.pop()
            self.solver.pop()
        if not self.trail:
            return False
        t = self.trail[-1]
        self.last = None
        self.solver.pop()
        self.solver.push()
        t[1] = False
        t[2] = False
        self.solver.add(z3.Not(t[0]))
        return True

    def model(self):
        if self.check() != z3.sat:
            raise Infeasible()
        return self.solver.model()

    def inputs(self, m):
        out = []
        for name, kind, zs in self.vars:
            if kind == 'str':
                out.append([name, ''.join(chr(m.eval(c, model_completion=True).as_long()) for c in zs)])
            elif kind == 'bool':
                out.append([name, z3.is_true(m.eval(zs, model_completion=True))])
            else:
                out.append([name, m.eval(zs, model_completion=True).as_long()])
        return out


def domain(c):
    d = C.dom.get(c.get_id())
    return d[1] if d else None


def setdomain(c, vals):
    if not isinstance(c, int):
        C.dom[c.get_id()] = (c, frozenset(vals))
    return c


C = None       # the exploration in progress; None when running on plain values
CW = 8         # bits of a character


def zc(c):
    return c if not isinstance(c, int) else z3.BitVecVal(c, CW)


class SymBool:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return C.branch(self.e)

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __and__(self, o):
        return mkbool(z3.And(self.e, tobool(o)))

    def __or__(self, o):
        return mkbool(z3.Or(self.e, tobool(o)))

    __rand__, __ror__ = __and__, __or__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __repr__(self):
        return repr(bool(self))


def tobool(v):
    if isinstance(v, SymBool):
        return v.e
    if z3.is_expr(v):
        return v
    return z3.BoolVal(bool(v))


def mkbool(e):
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


def toint(v):
    if isinstance(v, SymInt):
        return v.e
    if isinstance(v, (int, SymBool)):
        return z3.IntVal(int(v))
    return None


def mkint(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else SymInt(e)


class SymInt:
    __slots__ = ('e',)

    def __init__(self, e):
        self.e = e

    def _bin(self, o, f):
        z = toint(o)
        return NotImplemented if z is None else mkint(f(self.e, z))

    def _cmp(self, o, f):
        z = toint(o)
        return NotImplemented if z is None else mkbool(f(self.e, z))

    def __add__(self, o): return self._bin(o, lambda a, b: a + b)
    def __sub__(self, o): return self._bin(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._bin(o, lambda a, b: b - a)
    __radd__ = __add__

    def __mul__(self, o):
        if isinstance(o, (str, SymStr, list, tuple)):
            return o * int(self)
        return self._bin(o, lambda a, b: a * b)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e / o)
        return int(self) // int(o)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(self.e % o)
        return int(self) % int(o)

    def __rfloordiv__(self, o): return o // int(self)
    def __rmod__(self, o): return o % int(self)
    def __truediv__(self, o): return int(self) / o
    def __rtruediv__(self, o): return o / int(self)
    def __neg__(self): return mkint(-self.e)
    def __abs__(self): return mkint(z3.If(self.e < 0, -self.e, self.e))
    def __lt__(self, o): return self._cmp(o, lambda a, b: a < b)
    def __le__(self, o): return self._cmp(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._cmp(o, lambda a, b: a > b)
    def __ge__(self, o): return self._cmp(o, lambda a, b: a >= b)
    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r
    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r
    def __bool__(self): return C.branch(self.e != 0)
    def __index__(self): return C.value(self.e)
    __int__ = __index__
    def __hash__(self): return hash(int(self))
    def __str__(self): return str(int(self))
    __repr__ = __str__
    def __format__(self, spec): return format(int(self), spec)


def mkstr(cs):
    """a real str when no character is symbolic"""
    out = []
    for c in cs:
        if not isinstance(c, int):
            if c.get_id() in C.dom:
                return SymStr(cs)
            c = z3.simplify(c)
            if not z3.is_bv_value(c):
                return SymStr(cs)
            c = c.as_long()
        out.append(c)
    return ''.join(map(chr, out))


def chars(s):
    return s.cs if isinstance(s, SymStr) else tuple(map(ord, s))


def ceq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, int) and a > 255 or isinstance(b, int) and b > 255:
        return False
    if isinstance(a, int):
        a, b = b, a
    d = domain(a)
    if d is not None:
        if isinstance(b, int):
            if b not in d:
                return False
        else:
            e = domain(b)
            if e is not None and not (d & e):
                return False
    return a == zc(b)


def streq(a, b):
    a, b = chars(a), chars(b)
    if len(a) != len(b):
        return False
    es = [ceq(x, y) for x, y in zip(a, b)]
    if any(e is False for e in es):
        return False
    es = [e for e in es if e is not True]
    return mkbool(z3.And(*es)) if es else True


def strlt(a, b, orequal):
    a, b = chars(a), chars(b)
    r = z3.BoolVal(len(a) < len(b) or (orequal and len(a) == len(b)))
    for x, y in reversed(list(zip(a, b))):
        if isinstance(x, int) and isinstance(y, int):
            if x != y:
                r = z3.BoolVal(x < y)
            continue
        x, y = zc(x), zc(y)
        r = z3.If(x == y, r, z3.ULT(x, y))
    return mkbool(r)


_pred_cache = {}


def charpred(c, pred):
    if isinstance(c, int):
        return bool(pred(chr(c)))
    d = domain(c)
    if d is not None:
        y = [x for x in d if pred(chr(x))]
        if len(y) in (0, len(d)):
            return bool(y)
    key = getattr(pred, '__name__', None)
    rs = _pred_cache.get(key) if key != '<lambda>' else None
    if rs is None:
        ok = [i for i in range(1 << CW) if pred(chr(i))]
        rs, i = [], 0
        while i < len(ok):
            j = i
            while j + 1 < len(ok) and ok[j + 1] == ok[j] + 1:
                j += 1
            rs.append((ok[i], ok[j]))
            i = j + 1
        if key != '<lambda>':
            _pred_cache[key] = rs
    return z3.Or(*[z3.And(z3.UGE(c, a), z3.ULE(c, b)) if a != b else c == a for a, b in rs]) if rs else False


def _idpart(c):
    return ('a' + c).isidentifier()


def _case(c, f, first, delta):
    if isinstance(c, int):
        return ord(f(chr(c))) if c < 128 else c
    d = domain(c)
    if d is not None:
        m = {x: ord(f(chr(x))) if x < 128 else x for x in d}
        if all(k == v for k, v in m.items()):
            return c
    e = z3.simplify(z3.If(z3.And(z3.UGE(c, first), z3.ULE(c, first + 25)), c + delta, c))
    return setdomain(e, m.values()) if d is not None else e


def orlist(es):
    if any(e is True for e in es):
        return True
    es = [e for e in es if e is not False]
    return (z3.Or(*es) if len(es) > 1 else es[0]) if es else False


def neg(e):
    return (not e) if isinstance(e, bool) else z3.Not(e)


def conj(es):
    if any(e is False for e in es):
        return False
    es = [e for e in es if e is not True]
    return mkbool(z3.And(*es)) if es else True


def isstr(x):
    return isinstance(x, (str, SymStr))


class SymStr:
    __slots__ = ('cs',)

    def __init__(self, cs):
        self.cs = tuple(cs)

    def conc(self):
        return ''.join(chr(c if isinstance(c, int) else C.value(c)) for c in self.cs)

    def __len__(self): return len(self.cs)
    def __bool__(self): return bool(self.cs)

    def __getitem__(self, i):
        if isinstance(i, slice):
            return mkstr(self.cs[i])
        return mkstr((self.cs[i],))

    def __iter__(self):
        return iter([mkstr((c,)) for c in self.cs])

    def __add__(self, o): return mkstr(self.cs + chars(o)) if isstr(o) else NotImplemented
    def __radd__(self, o): return mkstr(chars(o) + self.cs) if isstr(o) else NotImplemented
    def __mul__(self, n): return mkstr(self.cs * int(n))
    __rmul__ = __mul__
    def __eq__(self, o): return streq(self, o) if isstr(o) else False
    def __ne__(self, o):
        r = self == o
        return mkbool(z3.Not(r.e)) if isinstance(r, SymBool) else not r
    def __lt__(self, o): return strlt(self, o, False) if isstr(o) else NotImplemented
    def __le__(self, o): return strlt(self, o, True) if isstr(o) else NotImplemented
    def __gt__(self, o): return strlt(o, self, False) if isstr(o) else NotImplemented
    def __ge__(self, o): return strlt(o, self, True) if isstr(o) else NotImplemented
    def __hash__(self): return hash(self.conc())
    def __str__(self): return self.conc()
    def __repr__(self): return repr(self.conc())
    def __format__(self, spec): return format(self.conc(), spec)
    def __fspath__(self): return self.conc()
    def __contains__(self, sub): return self.find(sub) >= 0
    def __mod__(self, args): return self.conc() % conc(args)

    def _at(self, i, sub):
        return streq(mkstr(self.cs[i:i + len(sub)]), sub)

    def find(self, sub, start=0, end=None):
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        for i in range(start, end - len(sub) + 1):
            if self._at(i, sub):
                return i
        return -1

    def rfind(self, sub, start=0, end=None):
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        for i in range(end - len(sub), start - 1, -1):
            if self._at(i, sub):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError('substring not found')
        return r

    def count(self, sub, *a):
        if not len(sub):
            return len(self.cs) + 1
        n, i = 0, 0
        while True:
            i = self.find(sub, i)
            if i < 0:
                return n
            n += 1
            i += len(sub)

    def startswith(self, p, start=0):
        if isinstance(p, tuple):
            return any(self.startswith(x, start) for x in p)
        return len(self.cs) >= start + len(p) and self._at(start, p)

    def endswith(self, p):
        if isinstance(p, tuple):
            return any(self.endswith(x) for x in p)
        return len(self.cs) >= len(p) and self._at(len(self.cs) - len(p), p)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self.cs) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, a, b, count=-1):
        if not len(a):
            return self.conc().replace(conc(a), conc(b), count)
        out, i, n = [], 0, 0
        while i < len(self.cs):
            if (count < 0 or n < count) and i + len(a) <= len(self.cs) and self._at(i, a):
                out += chars(b)
                i += len(a)
                n += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mkstr(out)

    def split(self, sep=None, maxsplit=-1):
        out, i, start = [], 0, 0
        if sep is None:
            cur, n = [], 0
            k = 0
            while k < len(self.cs):
                if C.branch(charpred(self.cs[k], str.isspace)):
                    if cur:
                        out.append(mkstr(cur))
                        cur = []
                        n += 1
                else:
                    if not cur and maxsplit >= 0 and n >= maxsplit:
                        out.append(mkstr(self.cs[k:]).rstrip())
                        return out
                    cur.append(self.cs[k])
                k += 1
            if cur:
                out.append(mkstr(cur))
            return out
        if not len(sep):
            raise ValueError('empty separator')
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.find(sep, start)
            if i < 0:
                break
            out.append(mkstr(self.cs[start:i]))
            start = i + len(sep)
        return out + [mkstr(self.cs[start:])]

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None:
            return self.conc().rsplit(None, maxsplit)
        out, end = [], len(self.cs)
        while maxsplit < 0 or len(out) < maxsplit:
            i = self.rfind(sep, 0, end)
            if i < 0:
                break
            out.append(mkstr(self.cs[i + len(sep):end]))
            end = i
        return [mkstr(self.cs[:end])] + out[::-1]

    def partition(self, sep):
        i = self.find(sep)
        return (self, '', '') if i < 0 else (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        return ('', '', self) if i < 0 else (self[:i], sep, self[i + len(sep):])

    def _in(self, c, cset):
        if cset is None:
            return C.branch(charpred(c, str.isspace))
        return C.branch(orlist([ceq(c, x) for x in chars(cset)]))

    def lstrip(self, cset=None):
        i = 0
        while i < len(self.cs) and self._in(self.cs[i], cset):
            i += 1
        return mkstr(self.cs[i:])

    def rstrip(self, cset=None):
        i = len(self.cs)
        while i > 0 and self._in(self.cs[i - 1], cset):
            i -= 1
        return mkstr(self.cs[:i])

    def strip(self, cset=None):
        s = self.lstrip(cset)
        return s.rstrip(cset)

    def _all(self, pred):
        return conj([charpred(c, pred) for c in self.cs])

    def isdigit(self): return self._all(str.isdigit)
    def isalnum(self): return self._all(str.isalnum)
    def isalpha(self): return self._all(str.isalpha)
    def isspace(self): return self._all(str.isspace)
    def isprintable(self): return self._all(str.isprintable)
    def isdecimal(self): return self._all(str.isdecimal)

    def isidentifier(self):
        return conj([charpred(self.cs[0], str.isidentifier)] + [charpred(c, _idpart) for c in self.cs[1:]])

    def upper(self):
        return mkstr([_case(c, str.upper, 97, -32) for c in self._ascii()])

    def lower(self):
        return mkstr([_case(c, str.lower, 65, 32) for c in self._ascii()])

    def _ascii(self):
        return [c if isinstance(c, int) or (domain(c) is not None and max(domain(c)) < 128) or C.branch(z3.ULE(c, 127)) else C.value(c) for c in self.cs]

    def join(self, it):
        return join(self, it)

    def __getattr__(self, name):
        m = getattr(str, name)     # AttributeError like str's
        return lambda *a, **k: m(self.conc(), *conc(a), **conc(k))


def join(sep, it):
    out, first = [], True
    for x in it:
        if not isstr(x):
            raise TypeError('sequence item: expected str instance, %s found' % type(x).__name__)
        if not first:
            out += chars(sep)
        first = False
        out += chars(x)
    return mkstr(out)


SYM = (SymStr, SymInt, SymBool)


def symbolic(x, depth=4):
    if isinstance(x, SYM):
        return True
    if depth and isinstance(x, (list, tuple, set, frozenset)):
        return any(symbolic(y, depth - 1) for y in x)
    if depth and isinstance(x, dict):
        return any(symbolic(k, 0) or symbolic(v, depth - 1) for k, v in x.items())
    return False


def conc(x):
    if isinstance(x, SymStr):
        return x.conc()
    if isinstance(x, SymInt):
        return int(x)
    if isinstance(x, SymBool):
        return bool(x)
    if type(x) in (list, tuple, set, frozenset):
        return type(x)(conc(y) for y in x) if symbolic(x) else x
    if type(x) is dict:
        return {conc(k): conc(v) for k, v in x.items()} if symbolic(x) else x
    return x


def sx_fstr(parts):
    out = []
    for p in parts:
        if isinstance(p, str):
            out += map(ord, p)
            continue
        v, conv, spec = p
        if conv == 'r':
            v = repr(v)
        elif conv == 'a':
            v = ascii(conc(v))
        elif conv == 's' or (not spec and not isinstance(v, SymStr)):
            v = sx_str(v)
        if spec:
            v = format(conc(v), conc(spec))
        out += chars(v)
    return mkstr(out)


def sx_str(v=''):
    """str(v) that lets __str__ return a symbolic string"""
    if isstr(v):
        return v if isinstance(v, SymStr) else str(v)
    if isinstance(v, SYM) or type(v).__module__ == 'builtins':
        return str(v)
    for n in ('__str__', '__repr__'):
        f = getattr(type(v), n, None)
        if isinstance(f, types.FunctionType) and in_scope(f):
            return f(v)
    return str(v)


def sx_mod(a, b):
    if not isstr(a) or not (symbolic(b) or isinstance(a, SymStr) or hasattr(b, '__dict__') or isinstance(b, tuple)):
        return a % b
    f = conc(a)
    vals = list(b) if isinstance(b, tuple) else None
    parts, i, k, lit = [], 0, 0, ''
    while i < len(f):
        if f[i] != '%':
            lit += f[i]
            i += 1
            continue
        if f[i + 1] == '%':
            lit += '%'
            i += 2
            continue
        if f[i + 1] in 'srd':
            v = vals[k] if vals is not None else b
            k += 1
            if lit:
                parts.append(lit)
                lit = ''
            parts.append((int(v) if f[i + 1] == 'd' else v, 'r' if f[i + 1] == 'r' else 's', ''))
            i += 2
            continue
        return f % conc(b)
    if lit:
        parts.append(lit)
    if k != (len(vals) if vals is not None else 1):
        return f % conc(b)
    return sx_fstr(parts)


def sx_in(a, b):
    if isinstance(a, SymStr) and isinstance(b, str):
        b = SymStr(chars(b))
    if isinstance(a, SymStr) and isinstance(b, (set, frozenset, dict, list, tuple)) and all(isinstance(x, str) for x in b):
        es = [streq(a, x) for x in b if len(x) == len(a)]
        return mkbool(z3.Or(*[tobool(e) for e in es])) if es else False
    return a in b


def sx_not_in(a, b):
    r = sx_in(a, b)
    return mkbool(z3.Not(r.e)) if isinstance(r, SymBool) else not r


def sx_format(fmt, args, kwargs):
    if not (symbolic(args) or symbolic(kwargs)):
        return fmt.format(*args, **kwargs)
    parts, auto = [], 0
    F = string.Formatter()
    for lit, field, spec, conv in F.parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        if field == '':
            field = str(auto)
            auto += 1
        v, _ = F.get_field(field, args, kwargs)
        parts.append((v, conv or ('s' if not spec else ''), spec))
    return sx_fstr(parts)


def sx_isinstance(x, t):
    if isinstance(x, SYM):
        ts = t if isinstance(t, tuple) else (t,)
        real = str if isinstance(x, SymStr) else int if isinstance(x, SymInt) else bool
        return any(issubclass(real, u) if isinstance(u, type) else isinstance(real(), u) for u in ts)
    return isinstance(x, t)


def sx_type(*a):
    if len(a) == 1 and isinstance(a[0], SYM):
        return str if isinstance(a[0], SymStr) else int if isinstance(a[0], SymInt) else bool
    return type(*a)


def sx_int(x=0, *a):
    if isinstance(x, SymInt) and not a:
        return x
    return int(conc(x), *a) if not isinstance(x, SymBool) else int(bool(x))


def sx_ord(c):
    return mkint(z3.BV2Int(c.cs[0])) if isinstance(c, SymStr) and len(c) == 1 else ord(c)


def sx_commonprefix(m):
    if not m:
        return ''
    m = list(m)
    out = m[0]
    for s in m[1:]:
        n = 0
        while n < len(out) and n < len(s) and out[n] == s[n]:
            n += 1
        out = out[:n]
    return out


def sx_pathjoin(a, *p):
    path = a
    for b in p:
        if b.startswith('/') if isstr(b) else False:
            path = b
        elif not len(path) or path.endswith('/'):
            path = path + b
        else:
            path = path + '/' + b
    return path


class SymMatch:
    """match object over a symbolic string"""

    def __init__(self, s, spans, names):
        self.s, self.spans, self.names = s, spans, names
        self.string = s

    def span(self, g=0):
        return self.spans.get(self.names.get(g, g), (-1, -1))

    def start(self, g=0): return self.span(g)[0]
    def end(self, g=0): return self.span(g)[1]

    def _g(self, g, d=None):
        a, b = self.span(g)
        return d if a < 0 else self.s[a:b]

    def group(self, *gs):
        r = tuple(self._g(g) for g in gs or (0,))
        return r if len(r) > 1 else r[0]

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._g(g, default) for g in range(1, self.ngroups + 1))

    def groupdict(self, default=None):
        return {n: self._g(g, default) for n, g in self.names.items()}


def _word(c):
    return c.isalnum() or c == '_'


_CATS = {sre.CATEGORY_DIGIT: str.isdecimal, sre.CATEGORY_SPACE: str.isspace, sre.CATEGORY_WORD: _word}
_NCATS = {sre.CATEGORY_NOT_DIGIT: sre.CATEGORY_DIGIT, sre.CATEGORY_NOT_SPACE: sre.CATEGORY_SPACE, sre.CATEGORY_NOT_WORD: sre.CATEGORY_WORD}


def _re_cond(op, av, c):
    """condition: character c matches a one-character item"""
    d = None if isinstance(c, int) else domain(c)
    if op is sre.LITERAL:
        return ceq(c, av)
    if op is sre.NOT_LITERAL:
        return neg(ceq(c, av))
    if op is sre.ANY:
        return neg(ceq(c, 10))
    if op is sre.RANGE:
        if isinstance(c, int):
            return av[0] <= c <= av[1]
        if d is not None:
            k = sum(av[0] <= x <= av[1] for x in d)
            if k in (0, len(d)):
                return k > 0
        return z3.And(z3.UGE(c, av[0]), z3.ULE(c, min(av[1], 255))) if av[0] < 256 else False
    if op is sre.CATEGORY:
        return charpred(c, _CATS[av]) if av in _CATS else neg(charpred(c, _CATS[_NCATS[av]]))
    if op is sre.IN:
        neg_ = av and av[0][0] is sre.NEGATE
        e = orlist([_re_cond(o, v, c) for o, v in (av[1:] if neg_ else av)])
        return neg(e) if neg_ else e
    raise KeyError(op)


def _re_run(items, k, s, pos, groups):
    """backtracking match of items[k:] at pos; yields (end, groups)"""
    if k == len(items):
        yield pos, groups
        return
    op, av = items[k]
    n = len(s.cs)
    if op is sre.AT:
        if av in (sre.AT_BEGINNING, sre.AT_BEGINNING_STRING):
            ok = pos == 0
        elif av is sre.AT_END_STRING:
            ok = pos == n
        elif av is sre.AT_END:
            ok = pos == n or (pos == n - 1 and C.branch(ceq(s.cs[pos], 10)))
        else:
            raise KeyError(av)
        if ok:
            yield from _re_run(items, k + 1, s, pos, groups)
    elif op is sre.BRANCH:
        for b in av[1]:
            yield from _re_run(list(b) + items[k + 1:], 0, s, pos, groups)
    elif op is sre.SUBPATTERN:
        g, _, _, sub = av
        for e, gr in _re_run(list(sub), 0, s, pos, groups):
            if g is not None:
                gr = dict(gr)
                gr[g] = (pos, e)
            yield from _re_run(items, k + 1, s, e, gr)
    elif op in (sre.MAX_REPEAT, sre.MIN_REPEAT):
        lo, hi, sub = av
        sub = list(sub)

        def rep(cnt, p, gr):
            more = cnt < hi and not (cnt >= lo and p == n)
            if op is sre.MIN_REPEAT and cnt >= lo:
                yield from _re_run(items, k + 1, s, p, gr)
            if more:
                for e, g2 in _re_run(sub, 0, s, p, gr):
                    if e > p or cnt < lo:
                        yield from rep(cnt + 1, e, g2)
            if op is sre.MAX_REPEAT and cnt >= lo:
                yield from _re_run(items, k + 1, s, p, gr)
        yield from rep(0, pos, groups)
    else:
        if pos < n and C.branch(_re_cond(op, av, s.cs[pos])):
            yield from _re_run(items, k + 1, s, pos + 1, groups)


_re_trees = {}


def _re(kind, pattern, s, flags=0):
    if isinstance(pattern, re.Pattern):
        pattern, flags = pattern.pattern, pattern.flags & ~re.UNICODE
    if not isinstance(s, SymStr) or flags or isinstance(pattern, SymStr):
        return getattr(re, kind)(conc(pattern), conc(s), flags)
    tree = _re_trees.get(pattern)
    if tree is None:
        tree = _re_trees[pattern] = sre_parse.parse(pattern)
    starts = range(len(s.cs) + 1) if kind == 'search' else (0,)
    try:
        for st in starts:
            items = list(tree) + ([(sre.AT, sre.AT_END_STRING)] if kind == 'fullmatch' else [])
            for e, gr in _re_run(items, 0, s, st, {}):
                m = SymMatch(s, {0: (st, e), **gr}, dict(tree.state.groupdict))
                m.ngroups = tree.state.groups - 1
                return m
        return None
    except KeyError:
        return getattr(re, kind)(pattern, conc(s), flags)


def sx_re_match(p, s, flags=0): return _re('match', p, s, flags)
def sx_re_fullmatch(p, s, flags=0): return _re('fullmatch', p, s, flags)
def sx_re_search(p, s, flags=0): return _re('search', p, s, flags)


def sx_repr(x):
    f = getattr(type(x), '__repr__', None)
    if isinstance(f, types.FunctionType) and in_scope(f):
        return f(x)
    return repr(x)


def sx_abs(x):
    return x.__abs__() if isinstance(x, SymInt) else abs(x)


def sx_bool(x=False):
    return x if isinstance(x, SymBool) else bool(x)


REPLACED = {isinstance: sx_isinstance, type: sx_type, str: sx_str, int: sx_int, ord: sx_ord, os.path.commonprefix: sx_commonprefix, os.path.join: sx_pathjoin,
            repr: sx_repr, abs: sx_abs, bool: sx_bool, re.match: sx_re_match, re.fullmatch: sx_re_fullmatch, re.search: sx_re_search}
DIRECT = {len, sorted, list, tuple, dict, set, frozenset, enumerate, zip, range, any, all, min, max, sum, map, filter, reversed, iter, next, getattr, setattr, hasattr, callable,
          issubclass, id, hash, print, super, property, classmethod, staticmethod, object, Exception, ValueError, TypeError, KeyError, RuntimeError, AssertionError, NotImplementedError}
DIRECT_MODULES = {'itertools', 'functools', 'dataclasses', 'collections', 'abc', 'enum', 'typing', 'operator', 'copy', 'contextlib', 'builtins_exc'}
SAFE_RECV = (list, dict, set, tuple, frozenset)


def in_scope(f):
    g = getattr(f, '__globals__', None)
    return g is not None and '_sx_scope' in g


def sx_call(f, /, *a, **k):
    C.ops += 1
    try:
        r = REPLACED.get(f)
    except TypeError:
        r = None
    if r is not None:
        return r(*a, **k)
    if isinstance(f, types.FunctionType):
        if '_sx_scope' in f.__globals__:
            C.funcs.add((f.__module__, f.__qualname__))
            return f(*a, **k)
        if f.__module__ in DIRECT_MODULES or f.__globals__.get('_sx_api'):
            return f(*a, **k)
    elif isinstance(f, types.MethodType):
        if in_scope(f.__func__):
            C.funcs.add((f.__func__.__module__, f.__func__.__qualname__))
            return f(*a, **k)
    elif isinstance(f, type):
        m = sys.modules.get(f.__module__)
        if m is not None and '_sx_scope' in m.__dict__ or issubclass(f, BaseException) or f in DIRECT or f.__module__ in DIRECT_MODULES:
            return f(*a, **k)
    elif isinstance(f, types.BuiltinFunctionType):
        recv = f.__self__
        if isinstance(recv, str):
            return sx_m(recv, f.__name__, *a, **k)
        if isinstance(recv, SAFE_RECV) or f in DIRECT or f.__module__ in DIRECT_MODULES:
            return f(*a, **k)
    elif getattr(type(f), '__module__', '') in DIRECT_MODULES:
        return f(*a, **k)
    if symbolic(a) or symbolic(k):
        a, k = conc(a), conc(k)
    return f(*a, **k)


def sx_m(x, name, /, *a, **k):
    """x.name(*a, **k)"""
    if isinstance(x, str):
        C.ops += 1
        if name == 'join':
            return join(x, *a)
        if name == 'format':
            return sx_format(x, a, k)
        if symbolic(a) or symbolic(k):
            return getattr(SymStr(chars(x)), name)(*a, **k)
        return getattr(x, name)(*a, **k)
    if isinstance(x, SYM):
        C.ops += 1
        return getattr(x, name)(*a, **k)
    if isinstance(x, re.Pattern) and name in ('match', 'fullmatch', 'search') and len(a) == 1 and not k:
        return _re(name, x, *a)
    return sx_call(getattr(x, name), *a, **k)


RT = {'_sx_call': sx_call, '_sx_m': sx_m, '_sx_fstr': sx_fstr, '_sx_mod': sx_mod, '_sx_in': sx_in, '_sx_nin': sx_not_in, '_sx_scope': True}


class Rewrite(ast.NodeTransformer):
    def name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def visit_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id in ('super', 'locals', 'globals', 'vars', 'exec', 'eval', '__import__'):
            self.generic_visit(n)
            return n
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute):
            # super().__init__(...) and friends keep their own call
            if isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super':
                return n
            if n.func.attr.startswith('__') and not n.func.attr.endswith('__'):  # private names are mangled
                return ast.copy_location(ast.Call(self.name('_sx_call'), [n.func] + n.args, n.keywords), n)
            args = [n.func.value, ast.Constant(n.func.attr)] + n.args
            return ast.copy_location(ast.Call(self.name('_sx_m'), args, n.keywords), n)
        return ast.copy_location(ast.Call(self.name('_sx_call'), [n.func] + n.args, n.keywords), n)

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            elif isinstance(v, ast.FormattedValue):
                conv = chr(v.conversion) if v.conversion > 0 else ''
                spec = v.format_spec if v.format_spec is not None else ast.Constant('')
                parts.append(ast.Tuple([v.value, ast.Constant(conv), spec], ast.Load()))
            else:
                parts.append(v)
        return ast.copy_location(ast.Call(self.name('_sx_fstr'), [ast.List(parts, ast.Load())], []), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(self.name('_sx_mod'), [n.left, n.right], []), n)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            f = '_sx_in' if isinstance(n.ops[0], ast.In) else '_sx_nin'
            return ast.copy_location(ast.Call(self.name(f), [n.left, n.comparators[0]], []), n)
        return n

    def _noann(self, n):
        # annotations stay as they are
        ann = {}
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            ann[id(a)] = a.annotation
            a.annotation = None
        r, n.returns = n.returns, None
        self.generic_visit(n)
        for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs + [x for x in (n.args.vararg, n.args.kwarg) if x]:
            a.annotation = ann.get(id(a))
        n.returns = r
        return n

    visit_FunctionDef = visit_AsyncFunctionDef = _noann

    def visit_AnnAssign(self, n):
        ann = n.annotation
        n.annotation = ast.Constant(None)
        self.generic_visit(n)
        n.annotation = ann
        return n

    def visit_match_case(self, n):
        n.guard = self.visit(n.guard) if n.guard else None
        n.body = [self.visit(s) for s in n.body]
        return n


def load_source(path, g, symbolic_mode):
    src = open(path).read()
    tree = ast.parse(src, path)
    if symbolic_mode:
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        g.update(RT)
    exec(compile(tree, path, 'exec', dont_inherit=True), g)


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    """loads arolla.* from the repository, rewritten"""

    def find_spec(self, name, path, target=None):
        if name.split('.')[0] != 'arolla':
            return None
        base = os.path.join(REPO, *name.split('.'))
        if os.path.isfile(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=self)
        return None

    def create_module(self, spec):
        return None

    def exec_module(self, mod):
        global C
        saved, C = C, C or Ctx(float('inf'))
        try:
            load_source(mod.__spec__.origin, mod.__dict__, True)
        finally:
            C = saved
