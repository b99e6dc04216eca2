"""Accessor lists and the C++ names generated for them."""
import sxp
from arolla.codegen.io import accessors
from arolla.codegen.io import cpp

AB = 'ab'


def acc(i, default=None):
  return accessors.Accessor('[](const auto& x) { return x.f%d; }' % i, [cpp.Include('h%d.h' % i)], default)


def make_list(n, alphabet, fixed=()):
  """n (name, accessor) pairs with arbitrary short names; an empty name means the default one"""
  out = []
  for i in range(n):
    name = sxp.str_('name', 0, 2, alphabet)
    kind = fixed[i] if i < len(fixed) else sxp.pick('accessor', 0, 1)
    default = sxp.str_('default', 1, 1, alphabet) if sxp.concrete(name) == '' else None
    out.append((name, acc(kind, default)))
  return out


@sxp.entry(shards=6, bound='lists of up to 3 accessors, names of up to 2 characters')
def sorted_list():
  s = sxp.shard()
  inp = make_list([0, 2, 3, 3, 3, 3][s], AB, [s % 2, s // 2 % 2] if s > 1 else [])
  want = {}
  clash = False
  for name, a in inp:
    name = sxp.concrete(name or a.default_name)
    if name in want:
      # equal accessors: equal code, equal includes, equal default name
      if want[name] != a:
        clash = True
    else:
      want[name] = a
  res, err = sxp.raised(ValueError, accessors.sorted_accessor_list, inp)
  sxp.check((err is not None) == clash, 'fails exactly when one name stands for two different accessors')
  if err is None:
    names = [n for n, _ in res]
    sxp.check(names == sorted(want), 'all names, once each, sorted')
    sxp.check(all(a == want[n] for n, a in res), 'each name keeps its accessor')
    lst = accessors.AccessorsList(inp)
    sxp.check(lst.names == names and len(lst) == len(names), 'AccessorsList has the same names')
    sxp.check([a.lambda_str for a in lst.accessors] == [want[n].lambda_str for n in names], 'accessors in the order of names')
    sxp.check([n for n, _ in lst.named_accessors] == names, 'pairs in the order of names')
    incs = set()
    for n in names:
      incs |= want[n].required_includes
    sxp.check(lst.required_includes == sorted(incs), 'includes are the sorted union')
    sxp.obs(names)
    sxp.reach('sorted')
    if len(names) < len(inp):
      sxp.reach('duplicates merged')
  else:
    sxp.reach('clash')


@sxp.entry(bound='accessors differing in code, includes, default name')
def equality():
  def mk(p):
    incs = [cpp.Include('i%d.h' % i) for i in range(2) if sxp.bool_(p + 'inc')]
    code = sxp.str_(p + 'code', 0, 1, AB)
    d = sxp.str_(p + 'default', 0, 1, AB)
    return accessors.Accessor('x' + code, incs, d), code, d, incs
  a, c1, d1, i1 = mk('a')
  b, c2, d2, i2 = mk('b')
  sxp.check(sxp.iff(a == b, c1 == c2 and d1 == d2 and i1 == i2), 'accessors are equal exactly when all parts are')


@sxp.entry(shards=4, bound='lists of up to 12 accessors (24 in thorough), shard counts -1..15')
def shards():
  n = sxp.int_('n', 0, 24 if sxp.THOROUGH else 12)
  k = sxp.int_('shard_count', -1 + sxp.shard() * 4, 2 + sxp.shard() * 4)
  items = [('n%02d' % i, i) for i in range(int(n))]
  parts = list(accessors.split_accessors_into_shards(items, k))
  flat = []
  for p in parts:
    flat += p
  sxp.check(flat == items, 'nothing lost, repeated or reordered')
  if k <= 1:
    sxp.check(len(parts) == 1, 'one shard')
    sxp.reach('no sharding')
  else:
    sxp.check(len(parts) == (k if n >= k else max(n, 1)), 'as many shards as possible, none empty unless there is nothing')
    if parts:
      sizes = [len(p) for p in parts]
      sxp.check(max(sizes) - min(sizes) <= 1, 'balanced')
      sxp.reach('sharded')
  sxp.obs([len(p) for p in parts])


@sxp.entry(bound='lists of up to 7 accessors, shard sizes 1..9')
def shard_list():
  n = sxp.int_('n', 0, 7)
  size = sxp.int_('size', 1, 9)
  lst = accessors.AccessorsList([('n%d' % i, acc(i)) for i in range(int(n))])
  parts = lst.shards(size)
  flat = []
  for p in parts:
    sxp.check(len(p) <= size, 'no shard above the maximum size')
    flat += p.names
  sxp.check(flat == lst.names, 'nothing lost or reordered')
  for p in parts[:-1]:
    sxp.check(len(p) == size, 'all but the last are full')


@sxp.entry(bound='3 lines of up to 3 characters')
def prettify():
  text = ''
  for i in range(3):
    text += sxp.str_('line', 0, 1 if i == 1 else 2, ' a') + '\n'
  got = accessors.Accessor(text, []).lambda_str
  want = []
  for l in text.split('\n'):
    if l.strip():
      want.append(l.rstrip())
  sxp.check(got == '\n'.join(want), 'blank lines and trailing spaces are dropped, nothing else')
  path = sxp.str_('path', 0, 3, '.x()')
  sxp.check(accessors.path_accessor(path).lambda_str == '[](const auto& input) { return input' + path + '; }', 'a path is appended to the input')


@sxp.entry(bound='headers of up to 3 characters')
def includes():
  h = sxp.str_('h', 0, 3, '<>"a')
  g = sxp.str_('g', 0, 3, '<>"a')
  a, b = cpp.Include(h), cpp.Include(g)

  def want(x):
    wrapped = (x.startswith('<') and x.endswith('>')) or (x.startswith('"') and x.endswith('"'))
    return '#include ' + (x if wrapped else '"' + x + '"')
  sxp.check(a.include_str == want(h), 'quoted unless already quoted or bracketed')
  sxp.check(str(a) == a.include_str, 'str')
  sxp.check(sxp.iff(a == b, a.include_str == b.include_str), 'equality is equality of the directive')
  sxp.check(sxp.iff(a < b, a.include_str < b.include_str), 'order is that of the directive')
  if a == b:
    sxp.check(hash(a) == hash(b), 'equal includes hash equally')
    sxp.reach('equal')


@sxp.entry(bound='names of up to 2 namespaces of up to 1 characters')
def cpp_names():
  root = sxp.str_('root', 0, 2, ':')
  sxp.assume(len(root) != 1)
  parts = [sxp.str_('part', 1, 2, AB) for i in range(sxp.pick('namespaces', 0, 2))]
  name = sxp.str_('base', 1, 2, AB)
  full = root + ''.join([p + '::' for p in parts]) + name
  c = cpp.CppName.from_full_name(full)
  ns = '::'.join(parts)
  sxp.check(c.name == name, 'base name')
  sxp.check(c.namespace == ns, 'namespace without the leading ::')
  sxp.check(c.full_name == ('::' + ns + '::' if parts else '') + name, 'fully qualified name')
  sxp.check(c.open_namespace_str == ('namespace ' + ns + ' {' if parts else ''), 'opening')
  sxp.check(c.close_namespace_str == ('}  // namespace ' + ns if parts else ''), 'closing')
  d = cpp.CppName.from_full_name(c.full_name)
  sxp.check(sxp.both(d.name == c.name, d.namespace == c.namespace), 'round trip')
  _, err = sxp.raised(ValueError, cpp.CppName, ns, name + ':' + name)
  sxp.check(err is not None, 'a base name with a colon is rejected')
  sxp.obs(c.full_name)


@sxp.entry(bound='build targets of up to 4 characters after //')
def header_guard():
  t = sxp.str_('target', 1, 4, 'aZ/:_9')
  g = cpp.generate_header_guard('//' + t)
  sxp.check(len(g) == len(t) + 3, 'one character each')
  for i in range(len(t)):
    want = '_' if (t[i] == '/' or t[i] == ':') else t[i].upper()
    sxp.check(g[i] == want, 'separators become underscores, letters upper case')
  sxp.check(g[len(t):] == '_H_', 'suffix')


PRINTABLE = ''.join([chr(c) for c in range(32, 127)])


@sxp.entry(shards=8, bound='any printable ASCII character in any position')
def operator_name_chars():
  # an identifier: no character is lost, and different characters get different code
  a = sxp.str_('a', 1, 1, PRINTABLE[sxp.shard() * 12:sxp.shard() * 12 + 12])
  b = sxp.str_('b', 1, 1, PRINTABLE)
  loader = cpp.CppName.from_full_name('::ns::Loader')
  x = cpp.construct_operator_name(loader, a)
  y = cpp.construct_operator_name(loader, b)
  sxp.check(sxp.iff(x == y, a == b), 'operator names differ when accessor names differ')
  for c in x:
    sxp.check(c == '_' or c.isalnum(), 'a C++ identifier')
  sxp.check(not x[0].isdigit(), 'does not start with a digit')


@sxp.entry(shards=4, bound='accessor names of up to 3 characters of a 6 letter alphabet')
def operator_name_injective():
  # '!' mangles to '_1': mangled characters must not run into the ones that follow
  s = sxp.shard()
  a = sxp.str_('a', s // 2, 2 if s > 1 else 1, '!_1 "A')
  b = sxp.str_('b', 0, 3, '_12A' if s % 2 else '_1!"')
  loader = cpp.CppName.from_full_name('::ns::Loader')
  x = sxp.concrete(cpp.construct_operator_name(loader, a))
  y = sxp.concrete(cpp.construct_operator_name(loader, b))
  sxp.check((x == y) == (sxp.concrete(a) == sxp.concrete(b)), 'operator names differ when accessor names differ')


@sxp.entry(bound='loader names of up to 2 characters, in a namespace or not')
def operator_name_loader():
  ns = sxp.str_('ns', 0, 1, 'n')
  n1 = sxp.str_('n1', 1, 2, 'a1_')
  loader = cpp.CppName(ns, n1)
  x = cpp.construct_operator_name(loader, 'x')
  sxp.check(not x[0].isdigit(), 'does not start with a digit')
  for c in x:
    sxp.check(c == '_' or c.isalnum(), 'a C++ identifier')
  q = cpp.construct_input_qtype_operator_name(loader)
  sxp.check(q != x, 'the qtype operator has a name of its own')
