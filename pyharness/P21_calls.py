"""Build-time function calls, template helpers and the Starlark macros."""
import json
import os
import shutil
import tempfile
import types
import sxp
from arolla.codegen import render_jinja2_template as rjt
from arolla.codegen import utils

MAGIC = '__call_python_func__'
CALLS = []


def func(*args, **kwargs):
  CALLS.append((args, kwargs))
  return ('result', args, tuple(sorted(kwargs.items())))


def fake_load(path):
  if path != 'some.module.fn':
    raise ImportError(path)
  return func


@sxp.entry(shards=15, timeout=200, bound='nested lists, dicts and calls up to depth 3')
def call_requests():
  utils.load_function = fake_load
  del CALLS[:]

  def build(depth):
    """(context, expected result)"""
    k = sxp.pick('shape', 0, 4 if depth else 1)
    if not depth and k == 1 and sxp.bool_('call'):
      return {MAGIC: 1, 'fn': 'some.module.fn'}, ('result', (), ())
    if depth == 2:
      sxp.assume(sxp.shard() % 3 == max(k - 2, 0))
    if depth == 1:
      sxp.assume(sxp.shard() // 3 == k)
    if k == 0:
      v = sxp.str_('leaf', 0, 1, '_a')
      return v, v
    if k == 1:
      v = sxp.int_('num', 0, 9)
      return v, v
    a, ea = build(depth - 1)
    if k == 2:
      b, eb = build(0)
      return [a, b], [ea, eb]
    if k == 3:
      b, eb = build(0)
      return {'x': a, 'fn': b}, {'x': ea, 'fn': eb}
    b, eb = build(0)
    spec = {MAGIC: 1, 'fn': 'some.module.fn'}
    n = sxp.pick('argkind', 0, 4)
    args, kw = (), ()
    if n == 4:  # the nested value is a keyword argument
      a, ea, b, eb, n = b, eb, a, ea, 3
    if n & 1:
      spec['args'] = [a]
      args = (ea,)
    if n & 2:
      spec['kwargs'] = {'k': b}
      kw = (('k', eb),)
    return spec, ('result', args, kw)

  def count(c):
    if isinstance(c, list):
      return sum([count(x) for x in c])
    if isinstance(c, dict):
      if MAGIC in c:
        return 1 + sum([count(x) for x in c.get('args', [])]) + sum([count(x) for x in c.get('kwargs', {}).values()])
      return sum([count(x) for x in c.values()])
    return 0
  ctx, want = build(2)
  sxp.check(utils.process_call_function_requests(ctx) == want, 'every call request is replaced by its result, the rest is unchanged')
  sxp.check(len(CALLS) == count(ctx), 'each request runs once')
  if CALLS:
    sxp.reach('called')
  if isinstance(ctx, dict):
    sxp.check(sxp.iff(utils.is_function_call(ctx), MAGIC in ctx), 'requests are recognised by the marker')
    if MAGIC in ctx:
      sxp.check(utils.call_function(ctx) == want, 'call_function')
      s = json.dumps(sxp.concrete(ctx))
      sxp.check(utils.call_function_from_json(s) == sxp.concrete(want), 'from json')
      sxp.reach('json')


@sxp.entry(bound='up to 3 dicts over 3 keys')
def merge():
  ds = []
  want = {}
  for i in range(sxp.pick('dicts', 0, 3)):
    d = {}
    for k in 'ab':
      if sxp.bool_('has'):
        d[k] = sxp.int_('v', 0, 3)
    ds.append(d)
    for k in d:
      want[k] = d[k]
  copies = [dict(d) for d in ds]
  got = utils.merge_dicts(*ds)
  sxp.check(set(got) == set(want), 'all keys')
  for k in want:
    sxp.check(got[k] == want[k], 'the last value of a key wins')
  for d, c in zip(ds, copies):
    sxp.check(set(d) == set(c) and all([d[k] is c[k] for k in c]), 'arguments are not changed')
    sxp.check(d is not got, 'a new dict')


@sxp.entry(shards=4, bound='up to 4 strings of up to 3 characters over 2 letters')
def common_prefix():
  n = sxp.shard()
  strs = [sxp.str_('s', 0, 3 if n < 3 else 2, 'ab') for i in range(n)]
  if n == 3:
    strs.append(sxp.str_('last', 0, 1, 'ab'))
  out = utils.remove_common_prefix_with_previous_string(iter(strs))
  sxp.check(len(out) == len(strs), 'one result per string')
  for i in range(len(strs)):
    sxp.check(strs[i].endswith(out[i]), 'a suffix of the string')
    if i == 0:
      sxp.check(out[i] == strs[i], 'the first is kept')
    else:
      cut = len(strs[i]) - len(out[i])
      sxp.check(strs[i][:cut] == strs[i - 1][:cut], 'what is removed is a prefix of the previous string')
      if cut < len(strs[i]) and cut < len(strs[i - 1]):
        sxp.check(strs[i][cut] != strs[i - 1][cut], 'all of the common prefix is removed')
      if cut:
        sxp.reach('removed')


@sxp.entry(bound='function paths: module and attribute present or not, callable or not')
def load_function():
  mod = sxp.choose('module', ['os.path', 'json', 'no_such_module_', 'os.path.no_such'])
  attr = sxp.choose('attr', ['join', 'sep', 'dumps', 'nothing_'])
  import importlib
  try:
    m = importlib.import_module(mod)
    want = getattr(m, attr, None)
  except ImportError:
    m = want = None
  got, err = sxp.raised((ImportError, TypeError, AttributeError), utils_load, mod + '.' + attr)
  if m is not None and callable(want):
    sxp.check(got is want, 'the function named')
    sxp.reach('loaded')
  else:
    sxp.check(err is not None, 'an error otherwise')
    if m is None:
      sxp.check(isinstance(err, ImportError), 'no module: ImportError')
    elif want is not None:
      sxp.check(isinstance(err, TypeError), 'not callable: TypeError')


utils_load = utils.load_function


@sxp.entry(bound='contents of up to 3 characters')
def files():
  d = tempfile.mkdtemp()
  try:
    s = sxp.str_('s', 0, 2, 'a\n\r\xe9')
    p = os.path.join(d, 'f')
    utils.write_file(p, sxp.concrete(s))
    sxp.check(utils.read_file(p) == sxp.concrete(s).encode('utf-8'), 'what is read is what was written')
    b = sxp.concrete(s).encode('latin1')
    utils.write_file(p, b)
    sxp.check(utils.read_file(p) == b, 'bytes are written as they are')
  finally:
    shutil.rmtree(d)


@sxp.entry(bound='strings of up to 2 characters, all of Latin-1 in one position')
def cescape():
  s = sxp.str_('s', 0, 1) + sxp.str_('t', 0, 1, '\\"a')
  s = sxp.concrete(s)
  e = rjt._cescape(s)
  sxp.check(e.encode('ascii').decode('unicode_escape').encode('latin1') == s.encode('utf8'), 'a C string literal with these bytes')
  sxp.check(all([c in '\\x0123456789abcdef' for c in e]), 'escapes only')


@sxp.entry(bound='names of up to 4 characters over 5')
def c_identifier():
  s = sxp.str_('s', 0, 4, 'a1/_ ')
  out, err = sxp.raised(ValueError, rjt._as_c_identifier, s)
  s = sxp.concrete(s)
  words = ''.join([c if c.isalnum() else ' ' for c in s]).split()
  if not words or words[0][0] in '0123456789':
    sxp.check(err is not None, 'no identifier starts so')
    sxp.reach('rejected')
  else:
    sxp.check(err is None and out == '_'.join(words), 'words joined by underscores')
    sxp.reach('identifier')


# ---- utils.bzl, executed as Python with just enough of Starlark
class struct(types.SimpleNamespace):
  def __hash__(self):
    return id(self)


class depset:
  def __init__(self, items=()):
    if isinstance(items, depset):
      items = items.items
    self.items = []
    for x in items:
      if x not in self.items:
        self.items.append(x)

  def to_list(self):
    return list(self.items)


RULES = []


class native:
  @staticmethod
  def genrule(**kw):
    RULES.append(('genrule', kw))


def py_binary(**kw):
  RULES.append(('py_binary', kw))


def bzl_fail(msg):
  raise RuntimeError(msg)


def to_json(x):
  return json.dumps(x, default=vars, ensure_ascii=False, separators=(',', ':'))


def bzl():
  del RULES[:]
  g = {'struct': struct, 'depset': depset, 'native': native, 'py_binary': py_binary, 'load': lambda *a, **k: None, 'Label': lambda s: s, 'fail': bzl_fail,
       'json': types.SimpleNamespace(encode=to_json), 'structs': types.SimpleNamespace(to_dict=lambda s: dict(vars(s)))}
  return sxp.load_file('arolla/codegen/utils.bzl', g)


def unquote(s):
  """what the genrule's shell sees inside double quotes, after make variables"""
  s = s.replace('$$', '$')
  out = ''
  i = 0
  while i < len(s):
    if s[i] == '\\' and i + 1 < len(s) and s[i + 1] in '\\"`$':
      i += 1
    elif s[i] == '"' or s[i] == '`':
      return None
    out = out + s[i]
    i += 1
  return out


@sxp.entry(bound='strings of up to 4 characters over 5')
def bash_escape():
  g = bzl()
  s = sxp.concrete(sxp.str_('s', 0, 4, '\\"`$a'))
  e = g['bash_escape'](s)
  sxp.check(unquote(e) == s, 'the shell sees the original')
  # each $ is doubled, so that none is taken for a make variable
  sxp.check(e.count('$') == 2 * s.count('$'), 'no make variable is left')


@sxp.entry(bound='2 pieces out of make variables and special characters')
def bash_escape_make_vars():
  g = bzl()
  pieces = ['$(location //a:b)', '$(execpath x)', '$(rootpath y)', '$@', '$<', '$', '"', 'a', '$(other z)']
  a = sxp.choose('a', pieces)
  b = sxp.choose('b', pieces)
  keep = lambda p: p[1:2] in ('@', '<') or p[:11] == '$(location ' or p[:11] == '$(execpath ' or p[:11] == '$(rootpath '
  one = lambda p: p if keep(p) else p.replace('$', '$$').replace('"', '\\"')
  if a != '$':
    sxp.check(g['bash_escape_wo_make_vars'](a + ' ' + b) == one(a) + ' ' + one(b), 'make variables are kept, everything else is escaped')


def call_spec(g, tag, depth):
  deps = [d for d in ('d1', 'd0') if sxp.bool_(tag + d)]
  data = [tag + '.txt'] if sxp.bool_(tag + 'data') else []
  args, adeps, adata = [sxp.pick(tag + 'arg', 0, 1)], [], []
  kwargs = {}
  if depth:
    inner, ideps, idata = call_spec(g, tag + '_', depth - 1)
    k = sxp.pick(tag + 'place', 0, 3)
    value = [inner, [inner], {'a': inner}, struct(f=[inner])][k]
    if sxp.bool_(tag + 'kw'):
      kwargs['k'] = value
    else:
      args.append(value)
    adeps, adata = ideps, idata
  f = g['call_python_function']('mod.' + tag, args, deps, kwargs, data)
  return f, deps + adeps, data + adata


@sxp.entry(bound='calls nested once in an argument, list, dict or struct')
def bzl_calls():
  g = bzl()
  f, deps, data = call_spec(g, 'f', 1)
  sxp.check(g['is_python_function_call'](f) and not g['is_python_function_call'](struct(a=1)), 'marked')
  sxp.check(f.fn == 'mod.f', 'the function named')
  sxp.check(f.deps == sorted(set(deps)) and f.data == sorted(set(data)), 'deps and data of the call and of every call inside, once each, sorted')
  s = g['encode_call_python_function'](f)
  sxp.check(unquote(s) is not None, 'no bare quote')
  d = json.loads(unquote(s))
  sxp.check(d['fn'] == 'mod.f' and d[MAGIC] == 1 and d.get('args', []) == json.loads(to_json(f.args)), 'the evaluator gets the call')
  sxp.check('deps' not in d and 'data' not in d, 'deps and data are not passed on')
  m = g['merge_dicts'](f, f)
  sxp.check(m.fn == 'arolla.codegen.utils.merge_dicts' and len(m.args) == 2 and set(f.deps) <= set(m.deps) and m.data == f.data, 'merge_dicts keeps deps')
  r = g['read_file_function']('file')
  sxp.check(r.fn == 'arolla.codegen.utils.read_file' and r.args == ['$(execpath file)'] and r.data == ['file'], 'read_file')
  w = g['write_file_function']('file', f)
  sxp.check(w.fn == 'arolla.codegen.utils.write_file' and w.args[0] == '$(execpath file)' and set(deps) <= set(w.deps), 'write_file')


@sxp.entry(bound='a call with or without extra deps, env, tags')
def bzl_genrule():
  g = bzl()
  f, deps, data = call_spec(g, 'f', 0)
  kw = {}
  if sxp.bool_('vis'):
    kw['visibility'] = ['//x']
  env = {'A': 'b$'} if sxp.bool_('env') else {}
  g['python_function_call_genrule']('n', f, ['o'], env, **kw)
  last = RULES[-1]
  sxp.check(last[0] == 'genrule' and last[1]['name'] == 'n' and last[1]['outs'] == ['o'], 'the rule')
  sxp.check(all([x in last[1]['tools'] for x in data]), 'data are inputs of the rule')
  sxp.check(('A=b$$' in last[1]['cmd']) == bool(env) and 'LC_ALL=C.UTF-8' in last[1]['cmd'], 'environment')
  sxp.check(g['encode_call_python_function'](f) in last[1]['cmd'], 'the call is passed')
  sxp.check(last[1].get('visibility') == kw.get('visibility'), 'visibility')
  bins = [r for r in RULES if r[0] == 'py_binary']
  if deps:
    sxp.check(len(bins) == 1 and all([d in bins[0][1]['deps'].to_list() for d in deps]), 'a binary with the extra deps')
    sxp.check(bins[0][1]['name'] in last[1]['tools'], 'the rule runs that binary')
    sxp.reach('own binary')
  else:
    sxp.check(not bins, 'no binary of its own')
    sxp.reach('shared binary')
  _, err = sxp.raised(RuntimeError, g['python_function_call_genrule'], 'n', struct(x=1), ['o'])
  sxp.check(err is not None, 'only calls are accepted')
