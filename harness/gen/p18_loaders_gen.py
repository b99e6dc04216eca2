"""Writes input loaders and slot listeners as the repository's generators produce them, and the list of what each has to serve."""
import os, subprocess, sys, types
out = sys.argv[1]
import arolla
from google.protobuf import descriptor_pb2, descriptor_pool, message_factory
root = os.path.dirname(list(arolla.__path__)[0])
raw = subprocess.run(['protoc', '-I' + root, '--include_imports', '--descriptor_set_out=/dev/stdout', 'arolla/proto/io.proto'], stdout=subprocess.PIPE, check=True).stdout
pool = descriptor_pool.DescriptorPool()
for fd in descriptor_pb2.FileDescriptorSet.FromString(raw).file:
  pool.Add(fd)
io_pb2 = types.ModuleType('arolla.proto.io_pb2')
for n, d in pool.FindFileByName('arolla/proto/io.proto').message_types_by_name.items():
  setattr(io_pb2, n, message_factory.GetMessageClass(d))
proto = types.ModuleType('arolla.proto')
proto.__path__ = []
proto.io_pb2 = io_pb2
sys.modules['arolla.proto'] = proto
sys.modules['arolla.proto.io_pb2'] = io_pb2
from absl import flags
from arolla.codegen.io import accessors, array_generator, cpp, input_loader_lib, protopath, slot_listener_main

flags.FLAGS(['gen', '--build_target=//p18:gen'])
gen = array_generator.create_generator('DenseArray')
TYPE = '::pk::Msg'
SINGLE = ['x', 'inner/x', 'inner/y', 'inner/inner/x', 'inner/count(ri[:])', 'count(rx[:])']
SINGLE2 = ['rx[1]', 'ri[0]/x', 'ri[0]/inner/u', 'mi["k"]/x', 'mi["k"]/count(rx[:])', 'Ext::pk.emsg/x', 'str', 'ri[1]/&::raw/x', 'y']
DEFAULTS = ['x', 'inner/x=3', 'inner/inner/x=4', 'inner/inner/u', 'inner/count(rx[:])', 'ri[0]/x=5', 'inner/inner/inner/x=6']
MULTI = ['rx[:]', 'ri[:]/x', 'ri[:]/inner/x', 'ri[:]/inner/y', 'ri[:]/rx[:]', 'ri[:]/count(rx[:])']
MULTI2 = ['inner/ri[:]/x', 'inner/ri[:]/ri[:]/x', 'inner/ri[:]/inner/ri[:]/inner/x', 'inner/ri[:]/inner/count(ri[:])', 'inner/rx[:]']
MULTI3 = ['mi[:]@key', 'mi[:]@value/x', 'mi[:]@value/inner/u', 'mi[:]@value/rx[:]', 'mx[:]@value', 'ri[0]/ri[:]/x', 'ri[0]/rx[:]', 'ri[:]/&::raw/x', 'ri[:]/str', 'ri[:]/rx[1]']
MIXED = ['x', 'inner/x', 'inner/y=7', 'inner/rx[:]', 'inner/count(rx[:])', 'ri[:]/x', 'ri[:]/count(ri[:])', '!x', '!y', "inner/mx['k']"]
WILDS = ["mx[*]", "inner/mx[*]", 'mi[*]/rx[:]']
LOADERS = {
    'Single': (SINGLE, [], 0), 'Single2': (SINGLE2, [], 0), 'Defaults': (DEFAULTS, [], 0), 'Multi': (MULTI, [], 0), 'Multi2': (MULTI2, [], 0), 'Multi3': (MULTI3, [], 0),
    'Mixed': (MIXED, [], 0), 'Sharded': (MIXED, WILDS, 3), 'OneShard': (SINGLE[:3], WILDS[:1], 1), 'Empty': ([], WILDS, 2),
}
LISTENERS = {
    'Single': (SINGLE[:4], 0), 'Single2': (['rx[1]', 'ri[0]/x', 'ri[0]/inner/u', 'mi["k"]/x', 'Ext::pk.emsg/x', 'str', 'y', "mx['l']"], 0),
    'Sizes': (['count(ri[:])', 'inner/count(ri[:])', 'inner/x', 'inner/inner/count(ri[:])'], 0),
    'Multi': (['ri[:]/x', 'ri[:]/inner/x', 'ri[:]/ri[0]/y', 'ri[:]/u'], 0),
    'Resize': (['count(ri[:])', 'ri[:]/count(ri[:])', 'ri[:]/ri[:]/x', 'ri[:]/x'], 0),
    'Sharded': (['x', 'inner/x', 'y', 'ri[:]/x', 'inner/ri[:]/x', 'u', '!x'], 3),
}


def item(p, mutable):
  """(name, path, default, accessor)"""
  if p[0] == '!':  # not a protopath: code of its own
    if mutable:
      code = '[](auto meta) constexpr { return [](const ::arolla::OptionalValue<int>& input, ::pk::Msg* output) { if (input.present) output->raw.z = input.value; }; }'
      return 'plain %s' % p[1:], '&::raw/&::z', '', accessors.Accessor(code, [])
    return 'plain %s' % p[1:], p[1:], '', accessors.Accessor(protopath.Protopath.parse(p[1:], TYPE).accessor(gen).lambda_str, [])
  path, _, default = p.partition('=')
  pp = protopath.Protopath.parse(path, TYPE)
  if mutable:
    a = pp.mutable_accessor(array_gen=gen)
  elif default:
    a = pp.scalar_accessor_with_default_value(cpp_type='int', default_value_cpp=default)
  else:
    a = pp.accessor(gen)
  return a.default_name, path, default, a


def table(f, name, items, get, shards):
  f.write('const std::vector<Leaf> k%sLeaves = {\n' % name)
  for n, p, d, _ in items:
    f.write('    {R"~(%s)~", R"~(%s)~", %s},\n' % (n, p, ('std::optional<int>(%s)' % d) if d else 'std::nullopt'))
  f.write('};\n')


with open(os.path.join(out, 'p18_loaders.inc'), 'w') as f:
  for name, (paths, wilds, shards) in LOADERS.items():
    items = [item(p, False) for p in paths]
    wild = []
    for p in wilds:
      a = protopath.Protopath.parse_wildcard(p, TYPE).accessor(gen)
      wild.append((a.default_name, p, '', a))
    spec = {'input_cls': TYPE, 'accessors': [(n, a) for n, _, _, a in items + wild], 'hdrs': []}
    if shards:
      spec['sharding'] = {'shard_count': shards}
    g = input_loader_lib.AccessorGenerator('//p18:%s_loader' % name.lower(), {'::gen::Get%sLoader' % name: spec})
    files = [('p18_%s_loader.h' % name.lower(), g.header_content())]
    for s in range(max(1, g.max_shard_count())):
      files.append(('p18_%s_loader_%d.cc' % (name.lower(), s), g.cpp_loader_content(s)))
    for n, text in files:
      open(os.path.join(out, n), 'w').write(text)
      f.write('#include "%s"\n' % n)
    table(f, name, items, None, shards)
    table(f, name + 'Wild', wild, None, shards)
  for name, (paths, shards) in LISTENERS.items():
    items = [item(p, True) for p in paths]
    spec = {'output_cls': TYPE, 'accessors': [(n, a) for n, _, _, a in items], 'hdrs': []}
    if shards:
      spec['sharding'] = {'shard_count': shards}
    g = slot_listener_main.AccessorGenerator('//p18:%s_listener' % name.lower(), {'::gen::Get%sListener' % name: spec})
    files = [('p18_%s_listener_%d.cc' % (name.lower(), s), g.cpp_content(s)) for s in range(max(1, g.max_shard_count()))]
    for n, text in files:
      open(os.path.join(out, n), 'w').write(text)
      f.write('#include "%s"\n' % n)
    table(f, name + 'Out', items, None, shards)
