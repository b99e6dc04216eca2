"""Trees of single value protopaths from which the generated loaders read many fields at once."""
import sxp
from arolla.codegen.io import accessors
from arolla.codegen.io import cpp
from arolla.codegen.io import multi_protopath as mp
from arolla.codegen.io import protopath


def canonical(path):
  return path[1:] if path.startswith('/') else path


def build(paths, names=None, defaults=None):
  """[(name, accessor)] for protopaths"""
  out = []
  for i, p in enumerate(paths):
    pp = protopath.Protopath.parse(p)
    if defaults and defaults[i]:
      a = pp.scalar_accessor_with_default_value(cpp_type='float', default_value_cpp='1.f')
    else:
      a = pp.accessor()
    out.append((names[i] if names else 'n%d' % i, a))
  return out


def all_nodes(node):
  out = [node]
  for c in node.children:
    out += all_nodes(c)
  return out


def check_tree(root, want, paths_only=True):
  """want: {name: (canonical path, accessor, is_size)}"""
  nodes = all_nodes(root)
  sxp.check(root.parent is None and not root.is_leaf() and not root.is_fictive(), 'the root is no leaf')
  for n in nodes:
    for c in n.children:
      sxp.check(c.parent is n, 'a child knows its parent')
    sxp.check(len(n.children) <= 8, 'no node has more than 8 children')
    if n.is_fictive():
      sxp.check(len(n.children) > 0, 'a fictive node has children')
  leaves = [n for n in nodes if n.is_leaf()]
  sxp.check(len(leaves) == len(want), 'one leaf per accessor')
  seen = set()
  for l in leaves:
    sxp.check(l.leaf_accessor_name in want and l.leaf_accessor_name not in seen, 'the leaf stands for one of the accessors')
    seen.add(l.leaf_accessor_name)
    path, acc, size = want[l.leaf_accessor_name]
    sxp.check(l.leaf_accessor is acc, 'and has its code')
    sxp.check(l.protopath() == path, 'and its path')
    sxp.check(l.is_size == size, 'and is a size only if the path is')
    sxp.check(l.depth_without_fictive() == path.count('/') + 1, 'depth')
  inner = {}
  for n in nodes:
    if n.is_leaf() or n.is_fictive():
      continue
    sxp.check(n.leaf_accessor_name == '' and n.leaf_accessor is None, 'intermediate nodes have no accessor')
    p = sxp.concrete(n.protopath())
    sxp.check(p not in inner, 'paths share their prefixes')
    inner[p] = n
  for path, _, _ in want.values():
    path = sxp.concrete(path)
    parts = path.split('/')
    for i in range(len(parts)):
      pre = '/'.join(parts[:i])
      sxp.check(pre in inner or not pre, 'every prefix has its node')
  # orders
  post = root.post_order_nodes()
  sxp.check(len(post) == len(nodes), 'every node once')
  pos = {}
  for i, n in enumerate(post):
    pos[n] = i
  for n in nodes:
    last = -1
    for c in n.children:
      sxp.check(last < pos[c] < pos[n], 'children in order before their parent')
      last = pos[c]
  sxp.check(root.leaves() == [n for n in post if n.is_leaf()], 'leaves in post order')
  return nodes, leaves, post


def check_numeration(root, post):
  num = mp.create_node_numeration(root)
  li = ii = 0
  for i, n in enumerate(post):
    sxp.check(num.node2id[n] == i, 'nodes are numbered in post order')
    if n.is_leaf():
      sxp.check(num.leaf2id[n] == li and n not in num.intermediate2id, 'leaves are numbered in post order')
      li += 1
    else:
      sxp.check(num.intermediate2id[n] == ii and n not in num.leaf2id, 'intermediate nodes are numbered in post order')
      ii += 1
  sxp.check(len(num.node2id) == len(post) and len(num.leaf2id) == li and len(num.intermediate2id) == ii, 'and nothing else')
  sxp.check(mp.size_leaf_ids(root, num) == [num.leaf2id[l] for l in post if l.is_leaf() and l.is_size], 'sizes')
  # the tree written as C++
  text = mp.define_protopath_tree(root, num).replace(' ', '').replace('\n', '')
  sxp.check('tree(%d);' % len(post) in text, 'size of the table')
  got = {}
  for part in text.split('tree[')[1:]:
    idx, rest = part.split(']={')
    body = rest.split('};')[0]
    got[int(idx)] = [int(x) for x in body.split(',')] if body else []
  for i, n in enumerate(post):
    sxp.check(got.get(i, []) == [num.node2id[c] for c in n.children], 'children of every node')
    sxp.check(i not in got or not n.is_leaf(), 'leaves have none')
  sxp.check(all([0 <= i < len(post) for i in got]), 'no other nodes')
  return num


def prefix_of(a, b):
  return len(a) < len(b) and b[:len(a)] == a and b[len(a)] == '/'


ELS = ['a', 'b', 'a[0]', 'count(a[:])']


def spath(maxdepth, sizes=True):
  n = sxp.pick('depth', 1, maxdepth)
  els = [sxp.str_('el', 1, 1, 'ab') for i in range(n)]
  if sizes and sxp.pick('last', 0, 1):
    els[-1] = 'count(' + els[-1] + '[:])'
  return '/'.join(els)


@sxp.entry(shards=4, timeout=200, bound='3 single value paths of depth up to 2 (3 in thorough) over two names, sizes among them')
def extract():
  s = sxp.shard()
  d = 3 if sxp.THOROUGH else 2
  paths = [['a', 'a/b', 'b/b', 'a/count(b[:])'][s], spath(d), spath(d)]
  lead = ['', '/', '']
  paths = [l + p for l, p in zip(lead, paths)]
  lst = build(paths)
  res, err = sxp.raised(ValueError, mp.extract_single_value_protopath_accessors, lst)
  can = [canonical(p) for p in paths]
  prefix = any([prefix_of(can[i], can[j]) for j in range(3) for i in range(j)])
  if err is not None:
    sxp.check(prefix, 'fails only when an earlier path is a prefix of a later one')
    sxp.reach('prefix')
    return
  rest, root = res
  sxp.check(rest == [], 'all are taken')
  want = {n: (canonical(a.protopath), a, 'count(' in a.protopath) for n, a in lst}
  nodes, leaves, post = check_tree(root, want)
  check_numeration(root, post)
  for l in leaves:
    x = 'in'
    for e in protopath.Protopath.parse(l.protopath()).last_path_list:
      x = e.access(x)
    sxp.check(l.access_for_type('in') == x, 'the access of a leaf is that of its path')
  sxp.check(root.has_size_leaf() == any(['count(' in p for p in can]), 'has_size_leaf')
  sxp.check(root.has_optional_leaf() == any(['count(' not in p for p in can]), 'has_optional_leaf')
  sxp.reach('tree')
  sxp.obs([l.leaf_accessor_name for l in leaves])


@sxp.entry(shards=3, bound='4 accessors of four kinds in any order, with and without names')
def mixed():
  lst = []
  want = {}
  rest = []
  for i in range(4):
    kind = sxp.pick('kind', 0, 3) if i else sxp.shard()
    el = sxp.str_('el', 1, 1, 'ab')
    if kind == 0:
      x = ('', accessors.Accessor('[]() {}', [], 'other%d' % i))
      rest.append(x)
    elif kind == 1:
      x = ('m%d' % i, protopath.Protopath.parse(el + '[:]').accessor())
      rest.append(x)
    else:
      p = 'f%d/' % i + el
      a = protopath.Protopath.parse(p).accessor()
      name = '' if kind == 2 else 's%d' % i
      x = (name, a)
      want[name or '/' + p] = (p, a, False)
    lst.append(x)
  before = list(lst)
  got, root = mp.extract_single_value_protopath_accessors(lst)
  sxp.check(len(got) == len(rest) and all([g[0] == r[0] and g[1] is r[1] for g, r in zip(got, rest)]), 'other accessors stay, in order')
  sxp.check(len(lst) == 4 and all([x is y for x, y in zip(lst, before)]), 'the input is not modified')
  check_tree(root, want)


@sxp.entry(shards=5, timeout=150, bound='nodes with 0 to 64 children')
def big_nodes():
  s = sxp.shard()
  n = sxp.pick('fields', [0, 14, 27, 40, 53][s], [13, 26, 39, 52, 64][s])
  deep = sxp.pick('deep', 0, 1)
  pre = 'r/' if deep else ''
  paths = [pre + 'f%d' % i for i in range(n)]
  lst = build(paths)
  rest, root = mp.extract_single_value_protopath_accessors(lst)
  sxp.check(rest == [], 'all are taken')
  nodes, leaves, post = check_tree(root, {a[0]: (p, a[1], False) for a, p in zip(lst, paths)})
  check_numeration(root, post)
  sxp.check([l.leaf_accessor_name for l in leaves] == [a[0] for a in lst], 'fields keep their order')
  fict = [x for x in nodes if x.is_fictive()]
  sxp.check(len(fict) == (0 if n <= 8 else (n + 7) // 8), 'as few groups as possible')
  for f in fict:
    sxp.check(f.non_fictive_ancestor() is f.parent and f.protopath() == f.parent.protopath(), 'a fictive node stands for its parent')
    sxp.check(f.access_for_type('x') == f.parent.access_for_type('x'), 'and is accessed as it is')


@sxp.entry(bound='2 leaves, with and without default values, sizes; 2 headers')
def leaf_kinds():
  d = [sxp.pick('default', 0, 2) for i in range(2)]
  paths = ['x/a', 'x/b']
  paths = [p.replace('/', '/count(') + '[:])' if k == 2 else p for p, k in zip(paths, d)]
  lst = build(paths, None, [k == 1 for k in d])
  rest, root = mp.extract_single_value_protopath_accessors(lst)
  for n in [root, root.children[0]]:
    sxp.check(n.has_leaf_with_default_value() == (1 in d), 'has_leaf_with_default_value')
    sxp.check(n.has_optional_leaf() == (0 in d), 'has_optional_leaf')
    sxp.check(n.has_size_leaf() == (2 in d), 'has_size_leaf')
  incs = root.required_includes
  sxp.check(cpp.Include('arolla/codegen/io/multi_loader.h') in incs, 'the loader header')
  sxp.check((cpp.Include('arolla/dense_array/qtype/types.h') in incs) == (2 in d), 'the array header for sizes')
  for _, a in lst:
    sxp.check(all([i in incs for i in a.required_includes]), 'headers of the accessors')
  empty = mp.extract_single_value_protopath_accessors([])[1]
  sxp.check(empty.required_includes == set() and not empty.leaves() and empty.post_order_nodes() == [empty], 'nothing for no accessors')


@sxp.entry(bound='8 children in or out of a set, three values')
def counting():
  lst = build(['r/f%d' % i for i in range(6)])
  _, root = mp.extract_single_value_protopath_accessors(lst)
  node = root.children[0]
  inset = [sxp.pick('in', 0, 1) for i in range(4)] + [1, 0]
  vals = {c: 'v' if i else 'w' for c, i in zip(node.children, inset)}
  s = {c for c, i in zip(node.children, inset) if i}
  sxp.check(node.count_children_in_set(s) == sum(inset), 'children in the set')
  sxp.check(node.count_children_in_dict(vals, 'v') == sum(inset), 'children with the value')
  sxp.check(node.count_children_in_dict({}, 'v') == 0, 'children without a value')
  sxp.check(root.count_children_in_set(s) == 0, 'children only')
