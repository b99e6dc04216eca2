"""Writes the C++ the repository's generators produce for the protopaths P18's harnesses look at."""
import os, sys
out = sys.argv[1]
from arolla.codegen.io import array_generator, protopath

gen = array_generator.create_generator('DenseArray')
SINGLE = ['x', 'y', 'u', 'str', 'inner/x', 'inner/y', 'inner/inner/x', 'rx[0]', 'rx[1]', 'ri[0]/x', 'ri[1]/inner/x', 'inner/ri[1]/y', "mx['k']", 'mi["k"]/x',
          'mi["l"]/inner/u', 'inner/mi["k"]/ri[0]/x', 'Ext::pk.ext', 'inner/Ext::pk.ext', 'Ext::pk.emsg/x', 'inner/Ext::pk.emsg/inner/x', 'inner/&::raw/x', '&::raw/&::z',
          'ri[0]/rx[1]', 'inner/str']
SIZES = ['count(rx[:])', 'count(ri[:])', 'inner/count(rx[:])', 'ri[1]/count(ri[:])', 'mi["k"]/count(ri[:])', 'inner/inner/count(ri[:])', 'count(mx[:])']
MULTI = ['rx[:]', 'ri[:]/x', 'ri[:]/y', 'inner/rx[:]', 'inner/ri[:]/inner/x', 'ri[:]/rx[:]', 'ri[:]/ri[:]/x', 'ri[:]/inner/rx[:]', 'inner/ri[:]/inner/ri[:]/inner/x', 'ri[:]/count(rx[:])',
         'ri[:]/inner/count(ri[:])', 'ri[:]/ri[0]/x', 'ri[:]/mi["k"]/x', 'ri[:]/mx["l"]', 'mx[:]@key', 'mx[:]@value', 'mi[:]@key', 'mi[:]@value/x', 'mi[:]@value/inner/y', 'ri[:]/mx[:]@value',
         'inner/mi[:]@value/count(rx[:])', 'ri[:]/Ext::pk.ext', 'ri[:]/&::raw/&::z', 'ri[:]/u', 'ri[:]/str', 'ri[0]/rx[:]', 'mi["k"]/ri[:]/x', 'ri[:]/&::raw/x']
WILD = ['mx[*]', 'mi[*]/x', 'inner/mi[*]/inner/y', 'mi[*]/ri[:]/x', 'ri[:]/mx[*]', 'inner/mx[*]']
TYPE = '::pk::Msg'


def table(f, name, rows):
  for i, (_, lam) in enumerate(rows):
    f.write('constexpr auto %s_%d = %s;\n' % (name, i, lam))
  f.write('constexpr int k_%s = %d;\n' % (name, len(rows)))
  f.write('template <class F> void With_%s(int i, F f) {\n  switch (i) {\n' % name)
  for i, (p, _) in enumerate(rows):
    f.write('    case %d: return f(std::string(R"~(%s)~"), %s_%d);\n' % (i, p, name, i))
  f.write('  }\n}\n')


parse = lambda p: protopath.Protopath.parse(p, TYPE)
with open(os.path.join(out, 'p18_accessors.inc'), 'w') as f:
  table(f, 'single', [(p, parse(p).accessor().lambda_str) for p in SINGLE])
  table(f, 'single_text', [(p, parse(p).accessor(cpp_type='::arolla::Text').lambda_str) for p in ['str', 'inner/str']])
  table(f, 'size', [(p, parse(p).accessor(gen).lambda_str) for p in SIZES])
  table(f, 'multi', [(p, parse(p).accessor(gen).lambda_str) for p in MULTI])
  table(f, 'defaulted', [(p, parse(p).scalar_accessor_with_default_value(cpp_type='int', default_value_cpp='-7').lambda_str) for p in
                         ['x', 'inner/x', 'rx[1]', 'ri[0]/x', 'mi["k"]/x', 'Ext::pk.ext', 'inner/&::raw/x']])
  table(f, 'wild', [(p, protopath.Protopath.parse_wildcard(p, TYPE).accessor(gen).lambda_str) for p in WILD])
  def mutable(ps):
    return [(p, parse(p).mutable_accessor(array_gen=gen).lambda_str) for p in ps]
  table(f, 'msingle', mutable(SINGLE))
  table(f, 'mmulti', mutable(['ri[:]/x', 'ri[:]/y', 'inner/ri[:]/inner/x', 'ri[:]/ri[:]/x', 'ri[:]/inner/ri[:]/x', 'ri[:]/ri[0]/x', 'ri[:]/rx[1]', 'ri[:]/mi["k"]/x', 'ri[:]/mx["l"]',
                              'mi[:]@value/x', 'mi[:]@value/inner/y', 'ri[:]/count(ri[:])', 'ri[:]/inner/count(ri[:])', 'ri[:]/Ext::pk.ext', 'ri[:]/Ext::pk.emsg/x', 'ri[:]/&::raw/&::z', 'ri[:]/u',
                              'ri[:]/str', 'ri[0]/ri[:]/x']))
  batch = lambda p: protopath.Protopath.parse(p, '::pk::Batch')
  table(f, 'batch', [(p, batch(p).accessor(gen).lambda_str) for p in ['[:]/x', '[:]/inner/y', '[:]/ri[:]/x', '[:]/count(rx[:])', '[:]/rx[:]', '[:]/mx["k"]', 'count([:])']])
  table(f, 'mbatch', [(p, batch(p).mutable_accessor(array_gen=gen).lambda_str) for p in ['[:]/x', '[:]/inner/y', '[:]/ri[:]/x', '[:]/count(ri[:])']])
