"""The generated input loaders and slot listeners: what each of the generated files contains."""
import importlib
import os
import re
import shutil
import sys
import tempfile
import types
import subprocess
import sxp
from cpptext import norm, bodies, braces, scopes
from absl import app
from absl import flags
from google.protobuf import descriptor_pb2
from google.protobuf import descriptor_pool
from google.protobuf import message_factory
from google.protobuf import text_format


def proto_module(path):
  """the module protoc would generate for a .proto file of the repository"""
  repo = os.path.dirname(os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(cpp_file())))))
  raw = subprocess.run(['protoc', '-I' + repo, '--include_imports', '--descriptor_set_out=/dev/stdout', path], stdout=subprocess.PIPE, check=True).stdout
  pool = descriptor_pool.DescriptorPool()
  for f in descriptor_pb2.FileDescriptorSet.FromString(raw).file:
    pool.Add(f)
  m = types.ModuleType(path[:-6].replace('/', '.') + '_pb2')
  for n, d in pool.FindFileByName(path).message_types_by_name.items():
    setattr(m, n, message_factory.GetMessageClass(d))
  return m


def cpp_file():
  from arolla.codegen.io import cpp
  return cpp.__file__


io_pb2 = proto_module('arolla/proto/io.proto')
import arolla
if 'arolla.proto' not in sys.modules:
  sys.modules['arolla.proto'] = types.ModuleType('arolla.proto')
  sys.modules['arolla.proto'].__path__ = []
sys.modules['arolla.proto'].io_pb2 = io_pb2
sys.modules['arolla.proto.io_pb2'] = io_pb2
from arolla.codegen.io import accessor_generator
from arolla.codegen.io import accessors
from arolla.codegen.io import array_generator
from arolla.codegen.io import cpp
from arolla.codegen.io import flag_utils
from arolla.codegen.io import input_loader_lib as lib
from arolla.codegen.io import multi_protopath as mp
from arolla.codegen.io import protopath

FLAGSETS = {}


def load_main(name):
  """the programs define the same flags: each gets them back when it runs"""
  before = set(flags.FLAGS)
  m = importlib.import_module('arolla.codegen.io.' + name)
  mine = {n: flags.FLAGS[n] for n in set(flags.FLAGS) - before}
  for n in mine:
    delattr(flags.FLAGS, n)
  FLAGSETS[m] = mine
  return m


def with_flags(m):
  for n in list(flags.FLAGS):
    if any([n in s for s in FLAGSETS.values()]):
      delattr(flags.FLAGS, n)
  for n, f in FLAGSETS[m].items():
    flags.FLAGS[n] = f
  if not flags.FLAGS.is_parsed():
    flags.FLAGS.mark_as_parsed()


input_loader_main = load_main('input_loader_main')
input_loader_set_main = load_main('input_loader_set_main')
listener = load_main('slot_listener_main')
wildcard_input_loaders_main = load_main('wildcard_input_loaders_main')

PLAIN, SINGLE, SIZE, MULTI, MSIZE, WILD, DEFAULT = range(7)


def acc(kind, i, mutable=False):
  """(name, accessor) with code and header of its own"""
  h = [cpp.Include('hdr%d.h' % i)]
  if kind == PLAIN:
    return ('/n%d' % i, accessors.Accessor('[](const auto& input) { return input.x%d(); }' % i, h))
  p = {SINGLE: 's/x%d', SIZE: 'count(x%d[:])', MULTI: 'r[:]/x%d', MSIZE: 'r[:]/count(x%d[:])', WILD: 'x%d[*]', DEFAULT: 's/x%d'}[kind] % i
  pp = (protopath.Protopath.parse_wildcard if kind == WILD else protopath.Protopath.parse)(p)
  if mutable:
    a = pp.mutable_accessor(array_gen=array_generator.create_generator('DenseArray'))
  elif kind == DEFAULT:
    a = pp.scalar_accessor_with_default_value(cpp_type='int', default_value_cpp='%d' % i)
  else:
    a = pp.accessor()
  name = ('/w%d/' % i) + '%s' if kind == WILD else '/n%d' % i
  return (name, protopath.ProtopathAccessor(a.lambda_str, list(a.required_includes) + h, a.default_name, protopath=a.protopath, cpp_type=a.cpp_type, default_value_cpp=a.default_value_cpp))


def registered(text):
  """names registered by the classes in a piece of a generated file, in order"""
  out = []
  for body in re.findall(r'\[\]\(\)\{.*?return ', text):
    prev = ''
    for n, s in re.findall(r'AddFromCommonPrefixWithPrevious\([^()]*?(\d+),R"RL_CODEGEN_DELIM\((.*?)\)RL_CODEGEN_DELIM"', body, re.S):
      n = int(n)
      prev = prev[:n - len(s)] + s
      out.append(prev)
    for s in re.findall(r'result\[\d+\]=\{R"RL_CODEGEN_DELIM\((.*?)\)RL_CODEGEN_DELIM"', body, re.S):
      out.append(s)
  return out


def check_links(texts):
  """functions without parameters that are declared are defined, once"""
  declared, defined = set(), []
  for text in texts:
    for path, t in scopes(norm('\n'.join(x for x in text.split('\n') if not x.startswith('#')))).items():
      for n in re.findall(r'\w[*&>]* ?\b(\w+)\(\);', t):
        declared.add(path + (n,))
      for n in re.findall(r'\w[*&>]* ?\b(\w+)\(\)\{\}', t):
        defined.append(path + (n,))
  sxp.check(declared <= set(defined), 'what is declared is defined')
  sxp.check(len(declared & set(defined)) == len([d for d in defined if d in declared]), 'once')
  return declared


def sections(text, lname):
  """the implementation of a loader"""
  impl = lname.namespace + '_' + lname.name + 'ImplNamespace'
  text = norm(text)
  i = text.find('namespace ' + impl + '{')
  return (None, '') if i < 0 else (impl, braces(text, i))


def includes(text):
  return re.findall(r'^\s*#\s*include\s+(\S+)', text, re.M)


def check_collection(sect, lst):
  """lst: [(kind, name, accessor)] which this file has to load"""
  want = sorted([n for k, n, _ in lst])
  sxp.check(sorted(registered(sect)) == want, 'every accessor of the shard is registered, once')
  for k, n, a in lst:
    if k == PLAIN:
      sxp.check(sect.count(norm(a.lambda_str)) == 1, 'with its code')
    elif a.default_value_cpp:
      sxp.check('=' + a.default_value_cpp + ';' in sect, 'its default value')


def expected_shards(named, shards):
  """as the documentation of sharding: up to `shards` parts of nearly equal length"""
  if shards <= 1:
    return [named]
  q, r = divmod(len(named), shards)
  out = []
  k = 0
  for i in range(shards):
    n = q + (1 if i < r else 0)
    if n:
      out.append(named[k:k + n])
    k += n
  return out or [[]]


def check_loader(gen_files, header, lname, named, wild, shards, input_cls, hdrs):
  parts = expected_shards(named, shards)
  used = min(shards, len(parts))
  main = gen_files[0]
  impl = lname.namespace + '_' + lname.name + 'ImplNamespace'
  for i, text in enumerate(gen_files):
    got, sect = sections(text, lname)
    if i and i >= used:
      sxp.check(got is None, 'nothing of a loader in the files beyond its shards')
      continue
    sxp.check(got == impl and input_cls in sect, 'the class it reads')
    part = parts[i]
    check_collection(sect, part)
    inc = includes(text)
    for h in list(hdrs) + [x for _, _, a in part for x in a.required_includes]:
      sxp.check(str(h).split(' ')[1] in inc, 'with the headers needed')
  _, sect = sections(main, lname)
  public = tuple(lname.namespace.split('::')) if lname.namespace else ()
  declared = check_links([header] + gen_files)
  sxp.check(public + (lname.name,) in declared, 'one function')
  sxp.check(public + (lname.name + '_Shards',) in declared or used <= 1, 'the shards are accessible')
  inc = includes(main)
  for j, (_, n, a) in enumerate(wild):
    sxp.check(sect.count(norm(a.lambda_str)) == 1 and sect.count('(' + n + ')') == 1, 'wildcard accessors')
    for h in a.required_includes:
      sxp.check(str(h).split(' ')[1] in inc, 'with the headers needed')
  doc = header[:header.find('\n' + lname.name + '();')]
  doc = doc[doc.rfind('// Returns generated InputLoader'):]
  sxp.check(re.findall(r'^// \* (.*)$', doc, re.M) == sorted(n for _, n, _ in named) + [n for _, n, _ in wild], 'all names are in the documentation')


def subset(kinds):
  out = []
  for i, k in enumerate(kinds):
    if sxp.bool_('in'):
      out.append((k,) + acc(k, i))
  return out


@sxp.entry(shards=5, timeout=200, bound='every subset of 6 accessors of six kinds in 0 to 4 shards')
def loader():
  shards = sxp.shard()
  named = subset([SINGLE, PLAIN, MULTI, SIZE, PLAIN, MSIZE] if sxp.THOROUGH else [SINGLE, PLAIN, MULTI, DEFAULT, SIZE])
  wild = [(WILD,) + acc(WILD, 8)] if sxp.bool_('wildcard') else []
  everything = [x[1:] for x in named + wild]
  if sxp.bool_('reversed'):
    everything = everything[::-1]
  spec = {'input_cls': '::ns::Msg', 'accessors': everything, 'hdrs': ['base.h']}
  if shards or sxp.bool_('given'):
    spec['sharding'] = {'shard_count': shards}
  g = lib.AccessorGenerator('//a/b:c', {'::ns::GetLoader': spec})
  n = g.max_shard_count()
  sxp.check(n == max(1, min(shards, len(named))), 'as many shards as needed')
  files = [g.cpp_loader_content(i) for i in range(n)]
  check_loader(files, g.header_content(), cpp.CppName.from_full_name('::ns::GetLoader'), named, wild, shards, '::ns::Msg', ['#include "base.h"'])


@sxp.entry(bound='two loaders of 0 to 3 accessors and 0 to 3 shards each')
def two_loaders():
  spec, want = {}, []
  for j in range(2):
    n = sxp.pick('accessors', 0, 3)
    s = sxp.pick('shards', 0, 3)
    lst = [(k,) + acc(k, j * 10 + i) for i, k in enumerate([PLAIN, SINGLE, MULTI][:n])]
    wild = [(WILD,) + acc(WILD, j * 10 + 5)] if s == 2 else []
    name = ['::ns::GetB', '::other::GetA'][j]
    cls = '::ns::Msg%d' % j
    spec[name] = {'input_cls': cls, 'accessors': [x[1:] for x in wild + lst], 'hdrs': ['base%d.h' % j], 'sharding': {'shard_count': s}}
    want.append((cpp.CppName.from_full_name(name), lst, wild, s, cls, ['#include "base%d.h"' % j]))
  g = lib.AccessorGenerator('//a/b:c', spec)
  n = g.max_shard_count()
  sxp.check(n == max([1] + [min(w[3], len(w[1])) for w in want]), 'as many files as shards')
  files = [g.cpp_loader_content(i) for i in range(n)]
  h = g.header_content()
  for name, lst, wild, s, cls, hdrs in want:
    check_loader(files, h, name, lst, wild, s, cls, hdrs)
  sxp.check(re.search(r'#ifndef (\w+)\s+#define \1\b', h) is not None, 'guarded')


@sxp.entry(shards=4, timeout=150, bound='every subset of 4 accessors in 0 to 3 shards, two loaders')
def operators():
  shards = sxp.shard()
  named = subset([SINGLE, PLAIN, MULTI, PLAIN])
  other = [(PLAIN,) + acc(PLAIN, 9)]
  name, oname = cpp.CppName.from_full_name('::ns::Loader'), cpp.CppName.from_full_name('::ns::Other')
  specs = {'::ns::Loader': {'input_cls': '::ns::Msg', 'accessors': [x[1:] for x in named], 'hdrs': ['base.h'], 'sharding': {'shard_count': shards}},
           '::ns::Other': {'input_cls': '::ns::Msg2', 'accessors': [x[1:] for x in other], 'hdrs': ['base2.h']}}
  g = lib.AccessorGenerator('//a/b:c', specs)
  h = g.operators_header_content()
  t = norm(h)
  structs = [(m.group(1), braces(t, m.start())) for m in re.finditer(r'struct (\w+)\{', t)]
  want = {}
  for nm, cls, lst in ((name, '::ns::Msg', named), (oname, '::ns::Msg2', other)):
    for k, n, a in lst:
      f = [x for x, body in structs if norm(a.lambda_str) in body and re.search(re.escape(cls) + r'\b', body)]
      sxp.check(len(f) == 1, 'a functor for every accessor')
      want[cpp.construct_operator_name(nm, n)] = f[0]
  functors = list(want.values())
  sxp.check(len(set(functors)) == len(functors) and len(want) == len(named) + 1, 'of its own')
  sxp.check(sorted(x for x, _ in structs) == sorted(functors), 'and no other')
  got = []
  qtypes = 0
  for i in range(g.max_shard_count()):
    t = g.operators_cpp_content(i, 'ops/header.h')
    sxp.check('"ops/header.h"' in includes(t) and '"base.h"' in includes(t) and '"base2.h"' in includes(t), 'headers')
    t = norm(t)
    for nm in (name, oname):
      qtypes += t.count('"' + cpp.construct_input_qtype_operator_name(nm) + '"')
    cuts = sorted((m.start(), o) for o in want for m in re.finditer(re.escape('"' + o + '"'), t))
    for (at, o), (end, _) in zip(cuts, cuts[1:] + [(len(t), '')]):
      got.append((o, set(re.findall(r'\w+', t[at:end])) & set(functors)))
  sxp.check(qtypes == 2, 'the type operator of each loader once')
  sxp.check(len(got) == len(want) and dict(got) == {o: {f} for o, f in want.items()}, 'every operator is registered once with the code of its accessor, and metadata names it')


def check_listener(files, header, lname, named, shards, cls, hdrs):
  order = sorted(named, key=lambda x: x[1])
  order = [x for x in order if x[0] != MULTI] + [x for x in order if x[0] == MULTI]
  parts = expected_shards(order, shards)
  used = min(shards, len(parts))
  for i, text in enumerate(files):
    got, sect = sections(text, lname)
    if i and i >= used:
      sxp.check(got is None, 'nothing of a listener in the files beyond its shards')
      continue
    sxp.check(got is not None and cls in sect, 'the class it writes')
    check_collection(sect, parts[i])
    inc = includes(text)
    for h in list(hdrs) + [x for k, _, a in parts[i] if k != PLAIN for x in a.required_includes]:
      sxp.check(str(h).split(' ')[1] in inc, 'with the headers needed')
  public = tuple(lname.namespace.split('::')) if lname.namespace else ()
  sxp.check(public + (lname.name,) in check_links([header] + files), 'one function')
  doc = header[:header.find('\n' + lname.name + '();')]
  doc = doc[doc.rfind('// Returns generated SlotListener'):]
  sxp.check(re.findall(r'^// \* (.*)$', doc, re.M) == sorted(n for _, n, _ in named), 'all names are in the documentation')


@sxp.entry(shards=5, timeout=200, bound='every subset of 5 accessors of four kinds in 0 to 4 shards')
def listeners():
  with_flags(listener)
  flags.FLAGS['build_target'].value = '//a/b:c'
  shards = sxp.shard()
  named = []
  for i, k in enumerate([MULTI, SINGLE, PLAIN, SIZE, MULTI]):
    if sxp.bool_('in'):
      named.append((k,) + acc(k, i, mutable=k != PLAIN))
  lst = [x[1:] for x in named]
  spec = {'output_cls': '::ns::Msg', 'accessors': lst, 'hdrs': ['base.h'], 'array_type': 'DenseArray'}
  if shards or sxp.bool_('given'):
    spec['sharding'] = {'shard_count': shards}
  other = [(PLAIN,) + acc(PLAIN, 9)]
  g = listener.AccessorGenerator('//a/b:c', {'::ns::GetListener': spec, '::ns::Other': {'output_cls': '::ns::Msg2', 'accessors': [other[0][1:]], 'hdrs': []}})
  n = max(1, g.max_shard_count())
  sxp.check(n == max(1, min(shards, len(named))), 'as many shards as needed')
  files = [g.cpp_content(i) for i in range(n)]
  h = g.header_content()
  check_listener(files, h, cpp.CppName.from_full_name('::ns::GetListener'), named, shards, '::ns::Msg', ['#include "base.h"'])
  check_listener(files, h, cpp.CppName.from_full_name('::ns::Other'), other, 0, '::ns::Msg2', [])


@sxp.entry(bound='a repeated field, its size and fields below it')
def listener_order():
  # sizes are written before the elements which need the size
  with_flags(listener)
  flags.FLAGS['build_target'].value = '//a/b:c'
  paths = ['z[:]/a', 'a[:]/b[:]/c', 'count(z[:])', 'a[:]/count(b[:])', 'count(a[:])', 'a[:]/d']
  lst = []
  for i, p in enumerate(paths):
    if sxp.bool_('in'):
      nm = sxp.choose('name', ['x', 'y'])
      lst.append((nm + '%d' % i, protopath.Protopath.parse(p).mutable_accessor(array_gen=array_generator.create_generator('DenseArray'))))
  g = listener.AccessorGenerator('//a/b:c', {'::ns::L': {'output_cls': '::ns::M', 'accessors': lst, 'hdrs': []}})
  text = g.cpp_content(0)
  multi = [(n, a) for n, a in lst if not a.protopath.startswith('count')]
  body = norm(text)
  sxp.check([body.count(norm(a.lambda_str)) for _, a in multi] == [1] * len(multi), 'repeated fields have accessors')
  rank = {a.protopath: body.index(norm(a.lambda_str)) for n, a in multi}
  for p in rank:
    if 'count(' in p:
      for q in rank:
        if q.startswith(p.replace('count(', '').replace(')', '')):
          sxp.check(rank[p] < rank[q], 'the size first')
  sxp.check(sorted(registered(norm(text))) == sorted(n for n, _ in lst), 'all registered')


def gen_a(config):
  sxp_mod.seen.append(config)
  return [acc(PLAIN, 1), acc(SINGLE, 2)]


def gen_b(config, *names):
  sxp_mod.seen.append(config)
  return [acc(PLAIN, 3 + i) for i, _ in enumerate(names)]


def gen_bad(config):
  return []


sxp_mod = types.ModuleType('sxgen')
sxp_mod.gen_a = gen_a
sxp_mod.make_b = lambda *names: lambda config: gen_b(config, *names)
sxp_mod.make_a = lambda: gen_a
sxp_mod.wild = lambda i: lambda config: [acc(WILD, int(i))]
sxp_mod.two = lambda i: lambda config: [acc(WILD, int(i)), acc(WILD, int(i) + 1)]
sxp_mod.cls = lambda: '::ns::FromFn'
sxp_mod.hdrs = lambda *a: list(a)
sxp_mod.seen = []
sys.modules['sxgen'] = sxp_mod
MAGIC = '__call_python_func__'


def call(fn, *args):
  return {MAGIC: '', 'fn': 'sxgen.' + fn, 'args': list(args), 'kwargs': {}}


@sxp.entry(bound='accessors given as pairs, generators or anything else; class and headers given or computed')
def specs():
  """accessors given one by one, or by a function; the class by name or by a function"""
  from arolla.codegen import utils
  key = [k for k in vars(utils) if 'MAGIC' in k]
  magic = getattr(utils, key[0]) if key else MAGIC
  fix = lambda d: {magic if k == MAGIC else k: v for k, v in d.items()}
  sxp_mod.seen.clear()
  fn_cls = sxp.pick('class', 0, 1)
  kind = sxp.pick('accessors', 0, 4)
  array = sxp.choose('array', [None, 'DenseArray', ''])
  lst = [[acc(PLAIN, 0)], [{'generator_fn': fix(call('make_a'))}], [acc(PLAIN, 0), {'generator_fn': fix(call('make_b', 'x', 'y'))}], [fix(call('make_a'))], ['text']][kind]
  mutable = sxp.pick('listener', 0, 1)
  cls = fix(call('cls')) if fn_cls else '::ns::Given'
  hdrs = fix(call('hdrs', 'h1.h', '<h2>')) if sxp.pick('hdrs', 0, 1) else ['h1.h', '<h2>']
  spec = {'accessors': lst, 'hdrs': hdrs, ('output_cls' if mutable else 'input_cls'): cls}
  if array is not None:
    spec['array_type'] = array
  make = listener._ListenerSpec if mutable else lib._LoaderSpec
  s, err = sxp.raised((ValueError, KeyError), make, spec)
  bad = kind == 4 or (kind == 3 and not mutable)
  sxp.check((err is not None) == bad, 'unknown accessors are rejected')
  if bad:
    return
  want = [['/n0'], ['/n1', '/n2'], ['/n0', '/n3', '/n4'], ['/n1', '/n2']][kind]
  sxp.check(s.accessor_names == want, 'all accessors')
  sxp.check((s.output_cls if mutable else s.input_cls).full_name == ('::ns::FromFn' if fn_cls else '::ns::Given'), 'class')
  sxp.check({str(h) for h in s.hdrs} >= {'#include "h1.h"', '#include <h2>'}, 'headers')
  for c in sxp_mod.seen:
    sxp.check(c.io_cpp_type == ('::ns::FromFn' if fn_cls else '::ns::Given') and c.array_type == ('DenseArray' if array is None else array) and c.is_mutable == bool(mutable), 'generators are told what for')
  sxp.check(len(sxp_mod.seen) == (kind > 0), 'generators are called once')


@sxp.entry(bound='up to 3 wildcard accessors and loader names')
def wildcards():
  na = sxp.pick('accessors', 1, 3)
  nl = sxp.pick('loaders', 1, 3)
  lst = [acc(WILD, i) for i in range(na)]
  names = ['::n%d::Get' % (i % 2) + sxp.str_('name', 1, 1, 'AB') for i in range(nl)]
  make = lambda: lib.WildcardAccessorGenerator(accessors_list=lst, loader_names=names, build_target='//a/b:c', input_cls='::ns::Msg', extra_includes=[cpp.Include('base.h')])
  conc = [sxp.concrete(n) for n in names]
  g, err = sxp.raised(ValueError, make)
  bad = na != nl or len(set(conc)) < nl
  sxp.check((err is not None) == bad, 'one name for every accessor, no name twice')
  if bad:
    return
  cc, h = g.cpp_content(), g.header_content()
  t = norm(cc)
  got = bodies(cc)
  declared = check_links([h, cc])
  hn = norm(h)
  for n, (pattern, a) in zip(conc, lst):
    path = tuple(n[2:].split('::'))
    sxp.check(path in declared, 'each loader is declared')
    lam = re.findall(r'auto (\w+)=' + re.escape(norm(a.lambda_str)), t)
    sxp.check(len(lam) == 1, 'every accessor once')
    body = got[path]
    sxp.check(re.findall(r'accessor_lambda_\w+|' + lam[0], body) == lam and re.findall(r'"\w*\((/w.*?)\)\w*"', body) == [pattern], 'each loader has its accessor and its pattern')
    sxp.check(pattern in h, 'and is documented')
  sxp.check('::ns::Msg' in hn, 'input class')
  inc = includes(cc)
  for _, a in lst:
    for x in a.required_includes:
      sxp.check(str(x).split(' ')[1] in inc, 'with the headers needed')
  sxp.check('"base.h"' in inc and '"base.h"' in includes(h), 'and the ones given')
  sxp.check('::ns::Msg' in cc, 'input class')


def make_proto(modname, package, ext_of=None):
  """a module as protoc would generate it"""
  F = descriptor_pb2.FieldDescriptorProto
  fd = descriptor_pb2.FileDescriptorProto()
  fd.name, fd.package, fd.syntax = modname + '.proto', package, 'proto2'
  if ext_of is None:
    m = fd.message_type.add()
    m.name = 'Root'
    for i, (n, t, rep) in enumerate([('s', F.TYPE_STRING, 0), ('x', F.TYPE_INT32, 0), ('r', F.TYPE_STRING, 1), ('sub', F.TYPE_MESSAGE, 0), ('subs', F.TYPE_MESSAGE, 1)]):
      f = m.field.add()
      f.name, f.number, f.type = n, i + 1, t
      f.label = F.LABEL_REPEATED if rep else F.LABEL_OPTIONAL
      if t == F.TYPE_MESSAGE:
        f.type_name = '.%s.Root.Sub' % package
    e = m.extension_range.add()
    e.start, e.end = 100, 200
    sub = m.nested_type.add()
    sub.name = 'Sub'
    f = sub.field.add()
    f.name, f.number, f.type, f.label = 'y', 1, F.TYPE_INT64, F.LABEL_OPTIONAL
  else:
    fd.dependency.append(ext_of[0] + '.proto')
  f = fd.extension.add()
  f.name, f.number, f.type, f.label = 'e_' + modname, 100 + len(modname), F.TYPE_INT32, F.LABEL_OPTIONAL
  f.extendee = '.%s.Root' % (ext_of[1] if ext_of else package)
  POOL.Add(fd)
  mod = types.ModuleType(modname + '_pb2')
  mod.DESCRIPTOR = POOL.FindFileByName(fd.name)
  for n, d in mod.DESCRIPTOR.message_types_by_name.items():
    setattr(mod, n, message_factory.GetMessageClass(d))
  sys.modules[modname + '_pb2'] = mod
  return mod


POOL = descriptor_pool.DescriptorPool()
P26A = make_proto('sxa', 'sxp')
P26B = make_proto('sxbb', 'sxq', ('sxa', 'sxp'))
skips = types.ModuleType('sxskip')
skips.skip_x = lambda d: d.name == 'x'
sys.modules['sxskip'] = skips


def alike(got, want):
  return [(n, a.lambda_str, a.required_includes) for n, a in got] == [(n, a.lambda_str, a.required_includes) for n, a in want]


def config():
  return accessor_generator.Config('::ns::Msg', sxp.choose('array', ['DenseArray', '']), sxp.bool_('mutable'))


@sxp.entry(shards=3, bound='up to 2 accessors per generator (3 in thorough), names of one character, up to 2 generators merged, every filter')
def makers():
  how = sxp.shard()
  cfg = accessor_generator.Config('::ns::Msg', 'DenseArray', sxp.bool_('mutable'))
  lst = [(['', 'a', 'b'][sxp.pick('name', 0, 2)], accessors.Accessor('[](const auto& i) { return %d; }' % i, [], ['a', 'c', 'b'][i])) for i in range(sxp.pick('n', 0, 1 if how == 1 else 3 if sxp.THOROUGH else 2))]
  seen = []

  def given(c):
    seen.append(c)
    return list(lst)

  allowed = [c for c in 'abc' if how != 1 and sxp.bool_('allowed')]
  full = lambda nm, a: nm or a.default_name
  if how == 0:
    g = accessor_generator.filtered_by_name_accessor(given, accessor_generator.allowed_from_set(iter(allowed)))
    want = [(n, a) for n, a in lst if full(n, a) in allowed]
  elif how == 1:
    more = accessor_generator.path_accessor('.x()', 'more')
    g = accessor_generator.merge_accessor_list(*[given, more, given][:sxp.pick('parts', 0, 3)])
  else:
    d = tempfile.mkdtemp()
    try:
      files = []
      strip = sxp.choose('strip', ['', 'p:', 'p:p:'])
      pre = sxp.choose('prefix', ['', 'p:', 'p:p:'])
      use = {False: [], True: []}
      for j in range(sxp.pick('files', 0, 2)):
        info = io_pb2.ModelInputOutputInfo()
        for c in allowed[j::2]:
          side = c != 'a'
          if side:
            info.side_outputs.add().name = pre + c
          if c != 'b':
            info.inputs.add().name = pre + c
          for m in (False, True):
            if (side if m else c != 'b') and (pre + c).startswith(strip):
              use[m].append((pre + c)[len(strip):])
        files.append(os.path.join(d, 'f%d' % j))
        with open(files[-1], 'w') as f:
          f.write(text_format.MessageToString(info))
      g = accessor_generator.filtered_for_models_accessor(given, files, strip_prefix=strip) if strip or sxp.bool_('given') else accessor_generator.filtered_for_models_accessor(given, files)
    finally:
      shutil.rmtree(d)
    want = [(n, a) for n, a in lst if full(n, a) in use[bool(cfg.is_mutable)]]
  if how == 1:
    got = g(cfg)
    x = [('more', accessors.path_accessor('.x()', 'more'))]
    ways = [[], lst, lst + x, lst + x + lst]
    sxp.check(any([alike(got, w) for w in ways[len(seen):] if len(seen) < 2 or w == ways[3]]), 'all of them, in order')
    sxp.check(all([c is cfg for c in seen]), 'with the configuration')
    return
  got = g(cfg)
  sxp.check(alike(got, want) and seen == [cfg], 'what is allowed, in order')
  sxp.reach('kept' if want else 'none')


@sxp.entry(bound='five paths with and without a name, a type and mutability')
def path_makers():
  cfg = config()
  name, typ = sxp.choose('name', ['', 'nm']), sxp.choose('type', ['', '::ns::T'])
  path = sxp.choose('path', ['a/b', 'r[:]/x', 'count(r[:])', 'm[*]', 'r[:]/m[*]'])
  if cfg.array_type == '' and ('[:]' in path):
    return
  arr = array_generator.create_generator(cfg.array_type)
  if '*' in path:
    f = accessor_generator.wildcard_protopath_accessor(path, name, typ)
    if cfg.is_mutable:
      _, err = sxp.raised(ValueError, f, cfg)
      sxp.check(err is not None, 'wildcards cannot be written')
      return
    a = protopath.Protopath.parse_wildcard(path, input_type='::ns::Msg').accessor(arr, cpp_type=typ or None)
    want = [(name or a.default_name, a)]
  else:
    if typ and 'count' in path and cfg.is_mutable:
      return
    f = accessor_generator.protopath_accessor(path, name, typ)
    p = protopath.Protopath.parse(path, input_type='::ns::Msg')
    make = lambda: p.mutable_accessor(array_gen=arr, cpp_type=typ) if cfg.is_mutable else p.accessor(array_gen=arr, cpp_type=typ)
    a, err = sxp.raised(ValueError, make)
    if err is not None:
      _, e2 = sxp.raised(ValueError, f, cfg)
      sxp.check(e2 is not None, 'not supported')
      return
    want = [(name, a)]
  got = f(cfg)
  sxp.check(alike(got, want) and (got[0][1].protopath == path), 'the accessor of the path')
  sxp.check(name != '' or got[0][1].default_name == a.default_name, 'with its name')


@sxp.entry(bound='one proto with an extension, one module of extensions, every policy, prefix and skip function')
def proto_makers():
  cfg = config()
  pol = sxp.choose('policy', list(protopath.default_name_modifiers))
  kw = {}
  if sxp.bool_('skip'):
    kw['skip_field_fn'] = 'sxskip.skip_x'
  prefix, cls, given = sxp.choose('style', [('', 'auto', False), ('q/p', '::ns::Msg', False), ('', '::ns::Msg', True), ('q/p', 'auto', True)])
  if prefix or given:
    kw['protopath_prefix'] = prefix
  if cls != 'auto' or given:
    kw['input_cls'] = cls
  if pol != 'default' or given:
    kw['naming_policy'] = pol
  mods = ['sxbb_pb2'] if sxp.bool_('extensions') else []
  root = sxp.choose('proto', ['sxa_pb2.Root', 'sxa_pb2.Root.Sub'])
  f = accessor_generator.protopath_descriptor_accessors(root, iter(mods) if given else mods, '::ns::Text', **kw)
  desc = P26A.Root.DESCRIPTOR if root.endswith('Root') else P26A.Root.DESCRIPTOR.nested_types[0]
  ext = [P26A.DESCRIPTOR.extensions_by_name['e_sxa']] + ([P26B.DESCRIPTOR.extensions_by_name['e_sxbb']] if mods else [])
  make = lambda: protopath.accessors_from_descriptor(desc, array_generator.create_generator(cfg.array_type), accessor_input_type=cls, type2extensions={'sxp.Root': ext}, default_name_modifier_fn=protopath.default_name_modifiers[pol],
                                              text_cpp_type='::ns::Text', skip_field_fn=skips.skip_x if 'skip_field_fn' in kw else (lambda d: False), mutable=cfg.is_mutable, protopath_prefix=prefix)
  want, err = sxp.raised((ValueError, TypeError), make)
  if err is not None:  # names that coincide are an error of sorting
    return
  sxp.check(alike(f(cfg), want), 'the accessors of the fields')
  if pol == 'default' and not kw:
    _, err = sxp.raised(ValueError, accessor_generator.protopath_descriptor_accessors, sxp.choose('bad', ['sxa.Root', 'sxnone_pb2.Root', 'sxa_pb2.None', 'sxa_pb2.Root.None']), [], '')
    sxp.check(err is not None, 'what is no proto is an error')


@sxp.entry(bound='up to 6 characters of a 2 letter alphabet')
def flag_values():
  s = sxp.str_('flag', 0, 6, '~a')
  p = flag_utils.WildcardProtopathAccessorParser()
  res, err = sxp.raised(ValueError, p.parse, s)
  parts = s.split('~~')
  sxp.check((err is not None) == (len(parts) != 4), 'four parts or an error')
  if err is None:
    sxp.check(list(res) == parts, 'the parts in order')
  sxp.reach('parsed' if err is None else 'rejected')


def run(module, **kw):
  """runs a generator with its flags; the files written"""
  from arolla.codegen import utils
  d = tempfile.mkdtemp()
  with_flags(module)
  F = flags.FLAGS
  old = {k: (F[k].value, F[k].present) for k in kw}
  try:
    for k, v in kw.items():
      F[k].value = v
    F['output_dir'].value = d
    err = None
    try:
      module.main(['prog'])
    except ValueError as e:
      err = e
    out = {}
    for f in os.listdir(d):
      with open(os.path.join(d, f)) as x:
        out[f] = x.read()
    return out, err
  finally:
    for k, (v, p) in old.items():
      F[k].value = v
    shutil.rmtree(d)


def js(x):
  import json
  from arolla.codegen import utils
  key = [k for k in vars(utils) if 'MAGIC' in k]
  return json.dumps(x).replace(MAGIC, getattr(utils, key[0]) if key else MAGIC)


@sxp.entry(bound='0 to 4 accessors, 0 to 3 shards')
def loader_main():
  n = sxp.pick('accessors', 0, 4)
  s = sxp.pick('shards', 0, 3)
  getter = sxp.pick('getter', 0, 1)
  out, err = run(input_loader_main, accessor_generator=[js(call('make_b', *['x'] * n)), js(call('make_a'))][:2 if s != 3 else 1], array_type='DenseArray', sharding_info=js({'shard_count': s}), hdrs=['given.h'],
                 hdr_getters=[js(call('hdrs', 'fn1.h')), js(call('hdrs', 'fn2.h'))], build_target='//a/b:c', input_cls='::ns::Msg', input_cls_getter=js(call('cls')) if getter else None,
                 loader_name='::ns::GetLoader', cc_out_file='out.cc', h_out_file='out.h')
  sxp.check(err is None, 'works')
  named = [(PLAIN,) + acc(PLAIN, 3 + i) for i in range(n)]
  if s != 3:
    named = [(PLAIN,) + acc(PLAIN, 1), (SINGLE,) + acc(SINGLE, 2)] + named
  fs = ['out.cc'] + ['out_%d.cc' % i for i in range(1, s)]
  sxp.check(sorted(out) == sorted(fs + ['out.h']), 'one file per shard')
  used = max(1, min(s, len(named)))
  for f in fs[used:]:
    sxp.check(out[f] == '', 'files not needed are empty')
  check_loader([out[f] for f in fs[:used]], out['out.h'], cpp.CppName.from_full_name('::ns::GetLoader'), named, [], s, '::ns::FromFn' if getter else '::ns::Msg', ['#include "given.h"', '#include "fn1.h"', '#include "fn2.h"'])


@sxp.entry(bound='0 to 3 accessors, 0 to 3 shards, at most 1 to 3 files')
def set_main():
  n = sxp.pick('accessors', 0, 3)
  s = sxp.pick('shards', 0, 3)
  most = sxp.pick('max', 0, 3)
  ops = bool(sxp.pick('operators', 0, 1))
  spec = {'::ns::GetLoader': {'input_cls': '::ns::Msg', 'accessors': [{'generator_fn': call('make_b', *['x'] * n)}], 'sharding': {'shard_count': s}, 'hdrs': ['base.h']}}
  out, err = run(input_loader_set_main, build_target='//a/b:c', loaders_spec=js(spec), cc_out_file='out.cc', h_out_file='out.h', max_shard_count=most, generate_operators_set=ops)
  used = max(1, min(s, n))
  sxp.check((err is not None) == (used > max(1, most)), 'more shards than files is an error')
  if err is not None:
    return
  fs = ['out.cc'] + ['out_%d.cc' % i for i in range(1, max(most, 1))]
  sxp.check(sorted(out) == sorted(fs + ['out.h']), 'as many files as allowed for')
  for f in fs[used:]:
    sxp.check(out[f] == '', 'files not needed are empty')
  named = [(PLAIN,) + acc(PLAIN, 3 + i) for i in range(n)]
  if ops:
    sxp.check(sum([out[f].count('QExprOperatorFromFunction') for f in fs]) == n and all(['"a/b/out.h"' in includes(out[f]) for f in fs[:used]]), 'operators')
  else:
    check_loader([out[f] for f in fs[:used]], out['out.h'], cpp.CppName.from_full_name('::ns::GetLoader'), named, [], s, '::ns::Msg', ['#include "base.h"'])


@sxp.entry(bound='0 to 3 accessors, 0 to 3 shards, at most 0 to 3 files or no limit')
def listener_main():
  n = sxp.pick('accessors', 0, 3)
  s = sxp.pick('shards', 0, 3)
  most = sxp.choose('max', [None, 1, 2, 3])
  by = sxp.pick('spec', 0, 1)
  gen = call('make_b', *['x'] * n)
  if by:
    a = dict(listeners_spec=js({'::ns::L': {'output_cls': '::ns::Msg', 'accessors': [gen], 'sharding': {'shard_count': s}, 'hdrs': ['base.h'], 'array_type': 'DenseArray'}}))
  else:
    a = dict(listeners_spec=None, slot_listener_name='::ns::L', output_cls='::ns::Msg', output_cls_getter=None, accessor_generator=[js(gen)], array_type='DenseArray', sharding_info=js({'shard_count': s}), hdrs=['base.h'], hdr_getters=[])
  out, err = run(listener, build_target='//a/b:c', cc_out_file='out.cc', h_out_file='out.h', max_shard_count=most, **a)
  used = max(1, min(s, n))
  sxp.check((err is not None) == (most is not None and used > most), 'more shards than files is an error')
  if err is not None:
    return
  fs = ['out.cc'] + ['out_%d.cc' % i for i in range(1, most or used)]
  sxp.check(sorted(out) == sorted(fs + ['out.h']), 'as many files as allowed for')
  for f in fs[used:]:
    sxp.check(out[f] == '', 'files not needed are empty')
  check_listener([out[f] for f in fs[:used]], out['out.h'], cpp.CppName.from_full_name('::ns::L'), [(PLAIN,) + acc(PLAIN, 3 + i) for i in range(n)], s, '::ns::Msg', ['#include "base.h"'])


@sxp.entry(bound='up to 3 generators and loader names')
def wildcard_main():
  n = sxp.pick('generators', 1, 3)
  m = sxp.pick('names', 1, 3)
  two = sxp.pick('two', 0, 1)
  gens = [js(call('wild', i)) for i in range(n)]
  if two:
    gens[-1] = js(call('two', 7))
  out, err = run(wildcard_input_loaders_main, accessor_generator=gens, loader_name=['::ns::Get%d' % i for i in range(m)], array_type='DenseArray', hdrs=['base.h'], build_target='//a/b:c', input_cls='::ns::Msg', cc_out_file='out.cc', h_out_file='out.h')
  sxp.check((err is not None) == (n != m or two == 1), 'one accessor for every name')
  if err is None:
    sxp.check(sorted(out) == ['out.cc', 'out.h'], 'two files')
    sxp.check(out['out.cc'].count('WildcardInputLoader<Input>::Build') == n, 'all loaders')
