"""Accessors derived from proto descriptors, array code generation, wrappers and flags of the generators."""
import sxp
import sys
import types
from google.protobuf import descriptor_pb2
from google.protobuf import descriptor_pool
from arolla.codegen.io import array_generator
from arolla.codegen.io import cpp
from arolla.codegen.io import jinja_util
from arolla.codegen.io import protopath

F = descriptor_pb2.FieldDescriptorProto
INT, STR, BYTES, MSG, REC, REP_INT, REP_MSG, REP_STR, MAP = range(9)


def add_field(m, num, kind, name, leafs):
  f = m.field.add()
  f.name = name
  f.number = num
  rep = kind in (REP_INT, REP_MSG, REP_STR, MAP)
  f.label = F.LABEL_REPEATED if rep else F.LABEL_OPTIONAL
  if kind in (INT, REP_INT):
    f.type = F.TYPE_INT32
  elif kind in (STR, REP_STR):
    f.type = F.TYPE_STRING
  elif kind == BYTES:
    f.type = F.TYPE_BYTES
  else:
    f.type = F.TYPE_MESSAGE
    if kind == MAP:
      e = m.nested_type.add()
      e.name = name.capitalize() + 'Entry'
      e.options.map_entry = True
      for i, n in enumerate(['key', 'value']):
        x = e.field.add()
        x.name = n
        x.number = i + 1
        x.label = F.LABEL_OPTIONAL
        x.type = F.TYPE_INT32
      f.type_name = '.p.%s.%s' % (m.name, e.name)
    else:
      f.type_name = '.p.Root' if kind == REC else '.p.Inner'


def make(root_kinds, inner_kinds, ext):
  fd = descriptor_pb2.FileDescriptorProto()
  fd.name = 'p.proto'
  fd.package = 'p'
  fd.syntax = 'proto2'
  for mname, kinds in (('Root', root_kinds), ('Inner', inner_kinds)):
    m = fd.message_type.add()
    m.name = mname
    for i, k in enumerate(kinds):
      add_field(m, i + 1, k, '%s%d' % ('r' if mname == 'Root' else 'i', i), None)
    r = m.extension_range.add()
    r.start = 100
    r.end = 200
  for i, (where, to, rep) in enumerate(ext):
    f = (fd.extension.add() if where == 0 else fd.message_type[1].extension.add())
    f.name = 'x%d' % i
    f.number = 100 + i
    f.extendee = '.p.' + to
    f.label = F.LABEL_REPEATED if rep else F.LABEL_OPTIONAL
    f.type = F.TYPE_INT32
  pool = descriptor_pool.DescriptorPool()
  pool.Add(fd)
  return pool


def want_accessors(kinds, exts, arr, mutable, skip, prefix):
  """[(default name, protopath, cpp type)] by the documentation"""
  out = []

  def walk(msg, pre, chain):
    fields = [('ri'[msg == 'Inner'] + str(i), k, False) for i, k in enumerate(kinds[msg])]
    for full, to, rep in exts:
      if to == msg:
        fields.append(('Ext::' + full, REP_INT if rep else INT, True))
    for name, k, ext in fields:
      rep = k in (REP_INT, REP_MSG, REP_STR)
      if name == skip or k == MAP or rep and (not arr or ext):
        continue
      p = pre + name + ('[:]' if rep else '')
      if rep and (not mutable or k == REP_MSG):
        out.append((pre + 'count(%s[:])' % name, 'size'))
      if k in (MSG, REP_MSG, REC):
        to = 'Root' if k == REC else 'Inner'
        if to not in chain:
          walk(to, p + '/', chain + [to])
      elif not (mutable and rep):
        out.append((p, 'text' if k in (STR, REP_STR) else None))
  walk('Root', prefix, ['Root'])
  return out


def table_name(path):
  els = []
  for e in path.split('/'):
    if e.startswith('count('):
      els += [e[6:-4], '@size']
    else:
      els.append(e.replace('[:]', ''))
  return '/' + '/'.join(els)


@sxp.entry(shards=9, timeout=200, bound='messages with 2 and 1 fields of every kind, up to 2 extensions, with and without arrays, mutable or not, skipped fields, prefixes')
def from_descriptor():
  root = [sxp.shard(), sxp.pick('kind', 0, 8)]
  nested = MSG in root or REP_MSG in root
  inner = [sxp.pick('inner', 0, 8)] if nested else [INT]
  next_ = sxp.pick('ext', 0, 3)
  ext = [[], [(0, 'Root', 0)], [(1, 'Inner', 0)], [(0, 'Root', 1), (1, 'Root', 0)]][next_]
  fulls = [('p.x%d' % i if w == 0 else 'p.Inner.x%d' % i, to, rep) for i, (w, to, rep) in enumerate(ext)]
  pool = make(root, inner, ext)
  d = pool.FindMessageTypeByName('p.Root')
  fdesc = pool.FindFileByName('p.proto')
  arr = sxp.pick('array', 0, 1)
  mutable = bool(sxp.pick('mutable', 0, 1))
  skip = sxp.choose('skip', [None, 'i0'])
  prefix = sxp.choose('prefix', ['', 'w/v'])
  t2e = protopath.collect_extensions_per_containing_type([fdesc])
  sxp.check({k: sorted(x.full_name for x in v) for k, v in t2e.items()} == {'p.' + m: sorted(f for f, to, _ in fulls if to == m) for m in set(to for _, to, _ in fulls)}, 'extensions by the type they extend')
  args = dict(type2extensions=t2e, text_cpp_type='TEXT', mutable=mutable, protopath_prefix=prefix)
  if skip:
    args['skip_field_fn'] = lambda f: f.name == skip
  got = protopath.accessors_from_descriptor(d, array_generator.create_generator('DenseArray') if arr else None, **args)
  want = want_accessors({'Root': root, 'Inner': inner}, fulls, arr, mutable, skip, prefix + '/' if prefix else '')
  names = sorted([(table_name(p), p) for p, _ in want])
  sxp.check([(n, a.protopath) for n, a in got] == names, 'one accessor per field reachable, sorted by name')
  types_ = {p: t for p, t in want}
  for n, a in got:
    t = types_[a.protopath]
    if t != 'size':
      sxp.check(a.cpp_type == ('TEXT' if t == 'text' else None), 'strings are texts, bytes are not')
    sxp.check(('output_type_meta_fn' in a.lambda_str) == mutable, 'mutators if asked for')
  sxp.obs([n for n, _ in got])


@sxp.entry(bound='modifier applied to every name')
def naming():
  pool = make([INT, MSG], [STR, REP_INT], [])
  d = pool.FindMessageTypeByName('p.Root')
  gen = array_generator.create_generator('DenseArray')
  pol = sxp.choose('policy', ['default', 'single_underscore', 'double_underscore', 'leaf_only'])
  f = protopath.default_name_modifiers[pol]
  base = protopath.accessors_from_descriptor(d, gen)
  got = protopath.accessors_from_descriptor(d, gen, default_name_modifier_fn=f)
  sxp.check(got == sorted(got, key=lambda x: x[0]), 'sorted')
  sxp.check({n: a.protopath for n, a in got} == {f(n): a.protopath for n, a in base}, 'every name modified, no field lost')
  inp = protopath.accessors_from_descriptor(d, gen, accessor_input_type='::my::Type')
  for _, a in inp:
    sxp.check('const ::my::Type& input' in a.lambda_str, 'the input type')


@sxp.entry(bound='module and class names of up to 2 parts')
def import_proto():
  class Inner:
    pass

  class Msg:
    pass
  Msg.Inner = Inner
  mod = types.ModuleType('sxmod.sub.proto_pb2')
  mod.Msg = Msg
  for n in ('sxmod', 'sxmod.sub'):
    sys.modules[n] = types.ModuleType(n)
    sys.modules[n].__path__ = []
  sys.modules['sxmod.sub.proto_pb2'] = mod
  name = sxp.choose('name', ['sxmod.sub.proto_pb2.Msg', 'sxmod.sub.proto_pb2.Msg.Inner', 'sxmod.sub.proto_pb2.Msg.Other', 'sxmod.sub.proto_pb2.Nope',
                             'sxmod.sub.nothere_pb2.Msg', 'sxmod.sub.proto.Msg', 'Msg', 'sxmod.nosub.x_pb2.Msg'])
  res, err = sxp.raised(ValueError, protopath.import_proto_class, name)
  want = {'sxmod.sub.proto_pb2.Msg': Msg, 'sxmod.sub.proto_pb2.Msg.Inner': Inner}.get(name)
  sxp.check((err is None) == (want is not None) and res is want, 'the class or an error')


ID = 'ab_'


@sxp.entry(bound='variable names of up to 2 characters')
def arrays():
  p = sxp.str_('prefix', 0, 2, ID)
  v = sxp.str_('value', 1, 2, ID)
  t = sxp.str_('type', 1, 1, 'TV')
  g = array_generator.create_generator('DenseArray', p)
  sq = lambda s: s.replace(' ', '').replace('\n', '')
  d = sq(g.define_array(t, 'n', 'f'))
  sxp.check('using' + p + 'result_type=::arolla::DenseArray<' + t + '>;' in d, 'result type')
  sxp.check('::arolla::Buffer<' + t + '>::Builder' + p + 'bldr(n,f);' in d, 'builder of the right size from the factory')
  sxp.check('int64_t' + p + 'id=0;' in d, 'counter from zero')
  sxp.check('AlmostFullBuilder' + p + 'bitmap_bldr(n,f);' in d, 'bitmap of the same size')
  add = sq(g.push_back_item(v))
  sxp.check(sxp.both(p + 'inserter.Add(' + v + ');' in add, p + 'id++;' in add, len(add) == len(p) * 2 + len(v) + 20), 'an item is added and counted')
  miss = sq(g.push_back_empty_item())
  sxp.check(p + 'bitmap_bldr.AddMissed(' + p + 'id++);' in miss and p + 'inserter.SkipN(1);' in miss, 'a missing item is marked, skipped and counted once')
  r = sq(g.return_array())
  sxp.check('return' + p + 'result_type{std::move(' + p + 'bldr).Build(),std::move(' + p + 'bitmap_bldr).Build()};' in r, 'values and presence')
  sxp.check(sq(g.create_shape(v)) == '::arolla::DenseArrayShape{' + v + '}', 'shape')
  incs = g.required_includes()
  for h in ['arolla/dense_array/dense_array.h', 'arolla/dense_array/qtype/types.h']:
    sxp.check(cpp.Include(h) in incs, 'headers')
  sxp.check(array_generator.create_generator('') is None, 'no array type, no generator')
  _, err = sxp.raised(NotImplementedError, array_generator.create_generator, v)
  sxp.check(err is not None, 'unknown array types are rejected')


@sxp.entry(shards=2, bound='texts of up to 5 characters')
def wrapping():
  n = 5 - sxp.shard()
  text = sxp.str_('text', n, n, '\na ')
  same = jinja_util.maybe_wrap_with_lambda(text, False)
  sxp.check(text.endswith(same) and not same.startswith('\n') and same == text.lstrip('\n'), 'only leading newlines go')
  w = jinja_util.maybe_wrap_with_lambda(text, True)
  lines = w.split('\n')
  sxp.check(lines[0] == '[&]() {' and lines[-1] == '}();', 'called in place')
  inner = same.split('\n')
  sxp.check(len(lines) == len(inner) + 2, 'all lines inside')
  for a, b in zip(lines[1:-1], inner):
    sxp.check(a == ('  ' + b if len(b) else b), 'indented unless empty')
