"""Protopath strings: what is parsed, what is rejected, names and C++ accesses derived from them."""
import sxp
from arolla.codegen.io import protopath
from arolla.codegen.io import table

ERRORS = (ValueError, AssertionError)
# C++ keywords (C++17) as protoc escapes them
KEYWORDS = ('alignas alignof and and_eq asm auto bitand bitor bool break case catch char char16_t char32_t class compl const const_cast constexpr continue decltype '
            'default delete do double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace new noexcept not '
            'not_eq nullptr operator or or_eq private protected public register reinterpret_cast return short signed sizeof static static_assert static_cast struct '
            'switch template this thread_local throw true try typedef typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq').split()


def squeeze(s):
  return s.replace(' ', '')


def canonical(path):
  """the path as the elements spell it: no leading slash, attributes glued to their element"""
  if path.startswith('/'):
    path = path[1:]
  return path.replace('/@', '@')


def elements(p):
  out = []
  for singles, multi in p.multi_elems:
    out += list(singles) + [multi]
  return out + list(p.last_path_list)


def text_of(p):
  return '/'.join([e.protopath_element() for e in elements(p)])


IDENT = 'aBz_'


def ident(hi=2):
  s = sxp.str_('id', 1, hi, IDENT)
  return s


REGULAR, INDEX, MAP, STRUCT, DEREF, ADDR, EXT, RANGE, KEYS, VALUES, SIZE, SIZE_ALL = range(12)
NAMES = ['regular', 'index', 'map', 'struct', 'deref', 'addr', 'ext', 'range', 'keys', 'values', 'size', 'size of the input']
MULTI = (RANGE, KEYS, VALUES)


def element(kind, hi=1):
  """(text, canonical text, name in the table path, name)"""
  if kind == DEREF:
    return '*', '*', '', ''
  if kind == ADDR:
    return '&', '&', '', ''
  if kind == SIZE_ALL:
    return 'count([:])', 'count([:])', '@size', ''
  n = ident(hi)
  if kind == REGULAR:
    return n, n, n, n
  if kind == INDEX:
    i = sxp.str_('idx', 1, 2, '019')
    sxp.assume(len(i) == 1 or i[0] != '0')
    return n + '[' + i + ']', n + '[' + i + ']', n + '[' + i + ']', n
  if kind == MAP:
    k = sxp.str_('key', 1, 2, 'k ].')
    q = sxp.choose('quote', ['"', "'"])
    return n + '[' + q + k + q + ']', n + '["' + k + '"]', n + '["' + k + '"]', n
  if kind == STRUCT:
    return '&::' + n, '&::' + n, n, n
  if kind == EXT:
    return 'Ext::' + n + '.x', 'Ext::' + n + '.x', 'Ext::' + n + '.x', n
  if kind == RANGE:
    return n + '[:]', n + '[:]', n, n
  sep = sxp.choose('attr', ['/@', '@'])
  if kind == KEYS:
    return n + '[:]' + sep + 'key', n + '[:]@key', n + '/@key', n
  if kind == VALUES:
    return n + '[:]' + sep + 'value', n + '[:]@value', n + '/@value', n
  return 'count(' + n + '[:])', 'count(' + n + '[:])', n + '/@size', n


@sxp.entry(shards=12, timeout=200, bound='paths of 1..3 elements of every kind, names of 1 or 2 characters')
def parse():
  last = sxp.shard()
  n = sxp.pick('elements', 1, 3 if sxp.THOROUGH else 2)
  kinds = [sxp.pick('kind', 0, 9) for i in range(n - 1)] + [last]
  els = [element(k, 2 if n == 1 else 1) for k in kinds]
  lead = sxp.choose('lead', ['', '/'])
  path = lead + '/'.join([e[0] for e in els])
  p = protopath.Protopath.parse(path)
  sxp.check(p.protopath == path, 'the original text is kept')
  sxp.check(text_of(p) == '/'.join([e[1] for e in els]), 'the elements are those spelled, in order')
  sxp.check(p.is_size == (last >= SIZE), 'is_size')
  multi = [k in MULTI for k in kinds]
  sxp.check(p.is_single_value == (not any(multi)), 'is_single_value')
  sxp.check(len(p.multi_elems) == sum(multi), 'one group per repeated access')
  k = 0
  while multi and not multi[-1 - k]:
    k += 1
    if k == n:
      break
  sxp.check(len(p.last_path_list) == k, 'what follows the last repeated access')
  names = [e[2] for e in els if e[2] != '']
  sxp.check(p.default_name == '/' + '/'.join(names), 'the default name is the table path')
  q = protopath.Protopath.parse(text_of(p))
  for a, b in zip(elements(p), elements(q)):
    sxp.check(a == b, 'the canonical text parses to equal elements')
  sxp.check(q.default_name == p.default_name, 'same name')
  sxp.reach('parsed')
  if p.is_size:
    sxp.reach('size')
  sxp.obs(text_of(p))
  sxp.obs(p.default_name)


@sxp.entry(shards=12, bound='all pairs of elements of every kind')
def equality():
  ka = sxp.shard()
  kb = sxp.pick('other', 0, 11)
  a = element(ka)
  b = element(kb)
  cont = ka < SIZE and kb < SIZE and sxp.pick('continued', 0, 1)
  x = elements(protopath.Protopath.parse('p/' + a[0]))[1]
  y = elements(protopath.Protopath.parse('p/' + b[0] + ('/q' if cont else '')))[1]
  if not cont:
    sxp.check(sxp.iff(x == y, a[1] == b[1]), 'elements are equal exactly when they spell the same access')
  if x == y:
    # equal elements share a node of the tree: they must be interchangeable
    sxp.check(a[1] == b[1], 'same spelling')
    if ka not in MULTI:
      sxp.check(x.access('v') == y.access('v') and x.has_access('v') == y.has_access('v'), 'equal elements are read alike')
      for m in (False, True):
        sxp.check(x.can_continue_on_miss(is_mutable=m) == y.can_continue_on_miss(is_mutable=m), 'and their presence is checked alike')
    else:
      sxp.check(x.iteration_container('v') == y.iteration_container('v') and x.access_for_size == y.access_for_size, 'equal elements are read alike')
    sxp.reach('equal')


@sxp.entry(shards=6, timeout=200, bound='every string of up to 4 characters (5 in thorough) over / a [ : ] @ * & 0 "')
def arbitrary():
  s = sxp.shard()
  n = 5 if sxp.THOROUGH else 4
  path = sxp.str_('path', s if s < n else n, s if s < n else n, ['/a[:]', '/a[:]@', '/a*&@', '/a[0]', 'a[]"*x', '/a[:]0'][s])
  p, err = sxp.raised(ERRORS, protopath.Protopath.parse, path)
  w, werr = sxp.raised(ERRORS, protopath.Protopath.parse_wildcard, path)
  if '//' in path or path.endswith('/') or path == '':
    sxp.check(err is not None and werr is not None, 'empty elements are rejected')
    sxp.reach('rejected')
  sxp.check(err is not None or werr is not None, 'a path has a wildcard or has none')
  if err is None:
    sxp.check(text_of(p) == canonical(path), 'nothing is lost or added')
    q = protopath.Protopath.parse(text_of(p))
    sxp.check(len(elements(q)) == len(elements(p)), 'the canonical text parses alike')
    sxp.reach('accepted')
  if werr is None:
    sxp.check(text_of(w) == canonical(path), 'nothing is lost or added')
    sxp.check('[*]' in path, 'has a wildcard')


@sxp.entry(bound='up to 3 elements, up to 3 wildcards, with and without count()')
def wildcards():
  n = sxp.pick('elements', 1, 3)
  kinds = [sxp.pick('kind', 0, 2) for i in range(n)]
  els = []
  for k in kinds:
    i = ident(1)
    els.append([i, i + '[*]', i + '[:]'][k])
  stars = sum([k == 1 for k in kinds])
  size = sxp.pick('size', 0, 1)
  if size:
    els.append('count(' + ident(1) + '[:])')
  path = '/'.join(els)
  p, err = sxp.raised(ERRORS, protopath.Protopath.parse, path)
  w, werr = sxp.raised(ERRORS, protopath.Protopath.parse_wildcard, path)
  sxp.check((err is None) == (stars == 0), 'parse takes paths without wildcards')
  sxp.check((werr is None) == (stars == 1 and not size), 'parse_wildcard takes exactly one wildcard and no count')
  if err is None:
    sxp.reach('plain')
  if werr is None:
    sxp.check(w.default_name.count('%s') == 1, 'the name is a pattern for the key')
    sxp.check(w.is_single_value == (2 not in kinds), 'is_single_value')
    code = w.accessor().lambda_str
    sxp.check('feature_key' in code and 'absl::string_view' in code, 'the key is an argument')
    _, e2 = sxp.raised(ERRORS, w.mutable_accessor)
    sxp.check(e2 is not None, 'wildcards cannot be mutated')
    sxp.reach('wildcard')


@sxp.entry(bound='count() in any but the last position')
def misplaced():
  n = sxp.pick('elements', 2, 3)
  pos = sxp.pick('pos', 0, n - 2)
  els = [ident(1) for i in range(n)]
  els[pos] = 'count(' + els[pos] + '[:])'
  _, err = sxp.raised(ValueError, protopath.Protopath.parse, '/'.join(els))
  sxp.check(err is not None, 'count only at the end')
  bad = sxp.choose('bad', ['a@size', 'a@', '@key', '-', 'a b', 'a.b', '&:a', '1a', 'a[b]', 'a[-1]', 'count(a)', 'count()', 'a@b[:]@key', 'a@[:]@value', 'Ext:a', 'a[0', 'a[""]'])
  _, err = sxp.raised(ERRORS, protopath.Protopath.parse, ident(1) + '/' + bad)
  sxp.check(err is not None, 'not an access')


LOW = 'abcdefghijklmnopqrstuvwxyz'


@sxp.entry(shards=16, bound='every name of 1..16 characters over letters, digits and _')
def getter_names():
  n = sxp.shard() + 1
  name = sxp.str_('field', n, n, LOW + LOW.upper() + '_0123456789')
  sxp.assume(name.isidentifier())
  low = name.lower()
  sames = [low == k for k in KEYWORDS if len(k) == n]
  kw = sxp.either(*sames) if sames else False
  e = elements(protopath.Protopath.parse(name))[0]
  code = e.access('x')
  if kw:
    sxp.check(code == 'x.' + low + '_()', 'keywords get an underscore')
    sxp.check(e.mutable_access('x') == '*x.mutable_' + low + '_()', 'mutable')
  else:
    sxp.check(code == 'x.' + low + '()', 'the getter is the name in lower case')
    sxp.check(e.set_value_access('x', 'v') == 'x.set_' + low + '(v)', 'setter')


def expect(kind, n, extra):
  """(access, set, mutable access, has, continues on a miss when reading, when writing)"""
  g = n.lower()
  if kind == REGULAR:
    return 'x.%s()' % g, 'x.set_%s(v)' % g, '*x.mutable_%s()' % g, 'AROLLA_PROTO3_COMPATIBLE_HAS(x,%s)' % g, False, True
  if kind == INDEX:
    return 'x.%s(%s)' % (g, extra), 'x.set_%s(%s,v)' % (g, extra), 'x.mutable_%s()->at(%s)' % (g, extra), 'x.%s().size()>%s' % (g, extra), False, False
  if kind == MAP:
    m = '(*x.mutable_%s())[%s]' % (g, extra)
    return 'x.%s().at(%s)' % (g, extra), m + '=v', m, 'x.%s().count(%s)>0' % (g, extra), False, True
  if kind == STRUCT:
    return 'x.' + g, 'x.' + g + '=v', 'x.' + g, 'true', True, True
  if kind == DEREF:
    return '(*(x))', '(*(x))=v', '(*(x))', 'x!=nullptr', False, False
  if kind == ADDR:
    return '(&(x))', None, None, 'true', True, True
  e = '::' + n + '::x'
  return 'x.GetExtension(%s)' % e, 'x.SetExtension(%s,v)' % e, '*x.MutableExtension(%s)' % e, 'x.HasExtension(%s)' % e, False, True


@sxp.entry(shards=7, bound='every kind of single value access, last or not, names of 1 or 2 characters')
def accesses():
  kind = sxp.shard()
  el = element(kind, 2)
  final = sxp.pick('final', 0, 1)
  p = protopath.Protopath.parse(el[0] if final else el[0] + '/y')
  e = elements(p)[0]
  n = el[3]
  extra = ''
  if kind == INDEX:
    extra = el[1][len(n) + 1:-1]
  if kind == MAP:
    extra = squeeze(el[1][len(n) + 1:-1])
  acc, st, mu, has, miss_r, miss_w = expect(kind, n, extra)
  sxp.check(squeeze(e.access('x')) == acc, 'access')
  sxp.check(squeeze(e.has_access('x')) == has, 'presence')
  if st is not None:
    sxp.check(squeeze(e.set_value_access('x', 'v')) == st, 'assignment')
    sxp.check(squeeze(e.mutable_access('x')) == mu, 'mutable access')
  if kind == EXT:
    miss_r = not final
  sxp.check(e.can_continue_on_miss(is_mutable=False) == miss_r, 'reading checks presence where a missing value cannot be read')
  sxp.check(e.can_continue_on_miss(is_mutable=True) == miss_w, 'writing creates what it can')
  sxp.check(not e.is_wildcard, 'not a wildcard')
  sxp.check(e.access_cost() > 0, 'has a cost')


@sxp.entry(shards=3, bound='every kind of repeated access, names of 1 or 2 characters')
def repeated_accesses():
  kind = RANGE + sxp.shard()
  el = element(kind, 2)
  p = protopath.Protopath.parse(el[0])
  e = elements(p)[0]
  g = el[3].lower()
  size = squeeze(e.access_for_size)
  sxp.check(size == '.' + g + '().size()', 'size')
  typ = squeeze(e.access_for_type('x'))
  cont = squeeze(e.iteration_container('x'))
  if kind == RANGE:
    sxp.check(typ == 'x.' + g + '(0)', 'element')
    sxp.check(cont == 'x.' + g + '()', 'container')
    sxp.check(squeeze(e.iteration_container('x', True)) == '*x.mutable_' + g + '()', 'mutable container')
    sxp.check(squeeze(e.resize('x', 'n')) == '::arolla::codegen::io::ResizeRepeatedProtoField(x.mutable_' + g + '(),n)', 'resize')
  else:
    sxp.check(typ == 'x.' + g + '().begin()->' + ('first' if kind == KEYS else 'second'), 'element')
    sxp.check(cont == '::arolla::SortedMapKeys(x.' + g + '())', 'map keys are visited in sorted order')
    _, err = sxp.raised(ValueError, e.resize, 'x', 'n')
    sxp.check(err is not None, 'maps are not resized')
  if kind == VALUES:
    sxp.check(squeeze(e.iteration_post_processing('x', 'k')) == 'x.' + g + '().at(k)', 'value of the key')
    sxp.check(squeeze(e.iteration_post_processing('x', 'k', True)) == 'x.mutable_' + g + '()->at(k)', 'mutable value')
  else:
    sxp.check(e.iteration_post_processing('x', 'k') == '', 'the loop variable is the element')
  sxp.check(e.support_mutable == (kind != KEYS), 'keys cannot be changed')
  sq = squeeze(e.open_loop('v', 'x'))
  sxp.check(cont in sq and '&v' in sq.replace('v_key', ''), 'the loop runs over the container and binds the variable')


@sxp.entry(bound='names of up to 5 characters')
def modifiers():
  x = '/' + sxp.str_('name', 1, 5, '/a_@')
  m = protopath.default_name_modifiers
  sxp.check(m['default'](x) == x, 'default')
  s = m['single_underscore'](x)
  d = m['double_underscore'](x)
  sxp.check(s.replace('_', '') == x.replace('/', '').replace('_', ''), 'only separators change')
  sxp.check('/' not in s and '/' not in d, 'no separators left')
  sxp.check(len(s) == len(x) - 1 and len(d) == len(x) - 1 + x[1:].count('/'), 'one or two underscores each')
  leaf = m['leaf_only'](x)
  sxp.check('/' not in leaf and x.endswith(leaf), 'the last component')
  cnt = sxp.str_('n', 1, 2, 'ab')
  sxp.check(m['leaf_only']('/a/' + cnt + '/@size') == '/a/' + cnt + '/@size', 'sizes keep their full name')


@sxp.entry(bound='names of up to 2 characters')
def tables():
  a = sxp.str_('a', 1, 2, 'ab')
  b = sxp.str_('b', 1, 2, 'ab')
  t = table.TablePath(a)
  sxp.check(str(table.TablePath()) == '/', 'root')
  sxp.check(str(t) == '/' + a, 'absolute')
  sxp.check(str(t.Child(b)) == '/' + a + '/' + b, 'child')
  sxp.check(str(t.Column(b)) == '/' + a + '/' + b, 'column')
  sxp.check(str(t.Size(b)) == '/' + a + '/' + b + '/@size', 'size')
  sxp.check(str(t.Size('')) == '/' + a + '/@size', 'size of the table itself')
  sxp.check(str(t.MapKeys()) == '/' + a + '/@key' and str(t.MapValues()) == '/' + a + '/@value', 'map tables')
  sxp.check(sxp.iff(table.TablePath(a) == table.TablePath(b), a == b), 'equality')
  sxp.check(sxp.iff(t.Column(a) == t.Column(b), a == b), 'equality of columns')


@sxp.entry(shards=7, bound='single value paths of 2 elements')
def accessor_objects():
  kind = sxp.shard()
  el = element(kind)
  path = ident(1) + '/' + el[0]
  p = protopath.Protopath.parse(path)
  a = p.accessor()
  sxp.check(a.protopath == path and a.default_name == p.default_name, 'path and name are kept')
  sxp.check(a.cpp_type is None and a.default_value_cpp is None, 'type from the proto')
  t = p.accessor(cpp_type='T')
  sxp.check(t.cpp_type == 'T', 'requested type')
  d = p.scalar_accessor_with_default_value(cpp_type='T', default_value_cpp='T(1)')
  sxp.check(d.cpp_type == 'T' and d.default_value_cpp == 'T(1)', 'default value')
  sxp.check(a == t, 'accessors of the same path')
  r = protopath.Protopath.parse(ident(1) + '[:]')
  _, err = sxp.raised(ValueError, r.accessor, None)
  sxp.check(err is not None, 'an array needs an array generator')
  _, err = sxp.raised(ValueError, r.mutable_accessor)
  sxp.check(err is not None, 'repeated primitive fields cannot be assigned')
  _, err = sxp.raised(ValueError, protopath.Protopath.parse(ident(1) + '[:]/y').mutable_accessor)
  sxp.check(err is not None, 'an array needs an array generator')
