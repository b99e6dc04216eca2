"""Trees of repeated protopaths and the choice of the intermediate results to collect."""
import sxp
from arolla.codegen.io import accessors
from arolla.codegen.io import multi_protopath as mp
from arolla.codegen.io import protopath

CV = mp.IntermediateCollectionInfo.COLLECT_VALUES
CS = mp.IntermediateCollectionInfo.COLLECT_PARENT_VALUES_AND_SIZES


def build(paths):
  return [('n%d' % i, protopath.Protopath.parse(p).accessor()) for i, p in enumerate(paths)]


def all_nodes(node):
  out = [node]
  for c in node.children:
    out += all_nodes(c)
  return out


def up(n):
  out = []
  while n is not None:
    out.append(n)
    n = n.parent
  return out


def nrep(path):
  """repeated accesses of a path, count() not being one"""
  return len([e for e in path.split('/') if '[:]' in e and 'count' not in e])


def check_tree(root, lst):
  nodes = all_nodes(root)
  want = {n: a for n, a in lst}
  for n in nodes:
    for c in n.children:
      sxp.check(c.parent is n, 'a child knows its parent')
    sxp.check(len(n.children) <= 8, 'no node has more than 8 children')
    sxp.check((n.path_from_parent_single is None) or (n.path_from_parent_multi is None), 'one access per edge')
  leaves = [n for n in nodes if n.is_leaf()]
  sxp.check(sorted([l.leaf_accessor_name for l in leaves]) == sorted(want), 'one leaf per accessor')
  inner = {}
  for n in nodes:
    sxp.check(n.repeated_depth() == nrep(n.protopath()), 'repeated_depth counts the repeated accesses')
    sxp.check(n.is_repeated() == (nrep(n.protopath()) > 0), 'is_repeated')
    if n.is_leaf():
      a = want[n.leaf_accessor_name]
      sxp.check(n.leaf_accessor is a, 'the leaf has the code')
      sxp.check(n.protopath() == a.protopath, 'and the path')
      sxp.check(n.is_size == ('count(' in a.protopath), 'is_size')
    else:
      sxp.check(n.leaf_accessor is None and n.leaf_accessor_name == '', 'intermediate nodes have no accessor')
      if not n.is_fictive():
        p = sxp.concrete(n.protopath())
        sxp.check(p not in inner, 'paths share their prefixes')
        inner[p] = n
  for _, a in lst:
    parts = sxp.concrete(a.protopath).split('/')
    for i in range(1, len(parts)):
      sxp.check('/'.join(parts[:i]) in inner, 'every prefix has its node')
  for l in leaves:
    p = protopath.Protopath.parse(l.protopath())
    x = 'in'
    for singles, multi in p.multi_elems:
      for e in singles:
        x = e.access(x)
      x = multi.access_for_type(x)
    for e in p.last_path_list:
      x = e.access(x)
    sxp.check(l.access_for_type('in') == x, 'the access of a leaf is that of its path')
  return nodes, leaves


def check_intermediate(root, nodes, leaves):
  chosen = mp.nodes_for_intermediate_collection(root)
  allowed = {}
  for l in leaves:
    start, kind = l.intermediate_start_node()
    sxp.check(start in up(l), 'the start is on the way to the root')
    sxp.check(not start.is_fictive(), 'and a real node')
    rep = [n for n in up(l) if n.path_from_parent_multi is not None][0]
    if kind == CV:
      sxp.check(start is not l, 'an ancestor')
      sxp.check(start.repeated_depth() == l.repeated_depth(), 'collected values are one per element of the result')
      sxp.check(start is root or chosen.get(start) == CV, 'the values are collected')
      allowed[start] = CV
      sxp.reach('values')
    else:
      sxp.check(start is rep, 'sizes are those of the innermost repeated access')
      parent = start.parent.non_fictive_ancestor()
      sxp.check(parent is root or chosen.get(parent) == CV, 'the values of the parent are collected')
      if parent.is_repeated():
        sxp.check(start in chosen, 'and the sizes')
        allowed.setdefault(start, CS)
      allowed[parent] = CV
      sxp.reach('sizes')
  sxp.check(root not in chosen, 'the root is there anyway')
  for n, k in chosen.items():
    sxp.check(n in allowed and (k == allowed[n]), 'nothing is collected without need')
  post = root.post_order_nodes()
  sxp.check(list(chosen) == [n for n in post if n in chosen], 'in post order')
  desc = mp.nodes_with_descendant_for_intermediate_collection(root, chosen)
  for n in nodes:
    below = [chosen[m] for m in all_nodes(n) if m in chosen]
    if not below:
      sxp.check(n not in desc, 'only nodes with something to collect below')
    else:
      sxp.check(desc.get(n) == (CV if CV in below else CS), 'values if some node below collects values')
  return chosen


def path(shape):
  """shape: r repeated, s single, c count, v map values, k map keys"""
  els = []
  for c in shape:
    e = sxp.str_('el', 1, 1, 'ab')
    els.append({'r': e + '[:]', 's': e, 'c': 'count(' + e + '[:])', 'v': e + '[:]@value', 'i': e + '[0]'}[c])
  return '/'.join(els)


SHAPES = ['r', 'rs', 'sr', 'rc', 'rr', 'rss', 'srs', 'rsr', 'rrs', 'src', 'rsc', 'vs', 'vr', 'rrc', 'ssr', 'ris']


@sxp.entry(shards=16, timeout=200, bound='3 repeated paths of depth up to 3 over two names, every mix of single, repeated, map and size accesses')
def extract():
  hi = 15 if sxp.THOROUGH else 8
  paths = [path(SHAPES[sxp.shard()]), path(SHAPES[sxp.pick('shape', 0, hi)]), 'a[:]/b[:]/a' if sxp.pick('third', 0, 1) else 'a[:]/b/a/b']
  lst = build(paths)
  res, err = sxp.raised(ValueError, mp.extract_multi_value_protopath_accessors, lst)
  if err is not None:
    pre = any([len(paths[i]) < len(paths[j]) and paths[j].startswith(paths[i] + '/') for j in range(3) for i in range(j)])
    sxp.check(pre, 'fails only when an earlier path is a prefix of a later one')
    sxp.reach('prefix')
    return
  rest, root = res
  sxp.check(rest == [], 'all are taken')
  nodes, leaves = check_tree(root, lst)
  c = check_intermediate(root, nodes, leaves)
  sxp.obs([sxp.concrete(n.protopath()) for n in c])


@sxp.entry(shards=4, bound='the same path under 2 or 3 names, next to another path')
def duplicates():
  shape = SHAPES[sxp.shard() * 4 + sxp.pick('shape', 0, 3)]
  p = path(shape)
  paths = [p, p]
  where = sxp.pick('where', 0, 3)
  if where:
    paths.insert(where - 1, ['z[:]', p, 'a[:]/b[:]/z'][sxp.pick('other', 0, 2)])
  lst = build(paths)
  res, err = sxp.raised(ValueError, mp.extract_multi_value_protopath_accessors, lst)
  if err is not None:
    sxp.check(any([len(paths[i]) < len(paths[j]) and paths[j].startswith(paths[i] + '/') for j in range(3) for i in range(j)]), 'fails only when an earlier path is a prefix of a later one')
    return
  nodes, leaves = check_tree(res[1], lst)
  check_intermediate(res[1], nodes, leaves)


@sxp.entry(shards=6, timeout=200, bound='up to 20 leaves below one or two branches, chains of up to 4 single accesses')
def wide():
  # the cost of repeating accesses decides where to start: many leaves below short and long chains
  n = sxp.pick('leaves', 1, 20) if sxp.THOROUGH else sxp.choose('leaves', [1, 2, 3, 4, 5, 8, 9, 17])
  chain = sxp.pick('chain', 0, 4)
  kind = sxp.shard()
  pre = ['i[:]', 'i[:]/j[:]', 's/i[:]', 'i[:]', 'i[:]', 'i[:]@value'][kind]
  el = ['x', 'x', 'x', 'x["k"]', 'Ext::x', 'x'][kind]
  paths = []
  for i in range(n):
    paths.append('/'.join([pre] + [el] * chain + ['f%d' % i]))
  if sxp.pick('branch', 0, 1):
    paths.append(pre + '/q')
  if sxp.pick('deeper', 0, 1):
    paths.append(pre + '/z[:]')
    paths.append(pre + '/count(w[:])')
  lst = build(paths)
  rest, root = mp.extract_multi_value_protopath_accessors(lst)
  nodes, leaves = check_tree(root, lst)
  check_intermediate(root, nodes, leaves)


@sxp.entry(shards=4, bound='4 accessors of four kinds in any order')
def mixed():
  lst = []
  rest = []
  want = {}
  for i in range(4):
    kind = sxp.pick('kind', 0, 3) if i else sxp.shard()
    el = sxp.str_('el', 1, 1, 'ab')
    if kind == 0:
      x = ('', accessors.Accessor('[]() {}', [], 'other%d' % i))
      rest.append(x)
    elif kind == 1:
      x = ('s%d' % i, protopath.Protopath.parse('f%d/' % i + el).accessor())
      rest.append(x)
    else:
      p = 'f%d[:]/' % i + el
      x = ('' if kind == 2 else 'm%d' % i, protopath.Protopath.parse(p).accessor())
      want['/f%d/' % i + el if kind == 2 else 'm%d' % i] = x[1]
    lst.append(x)
  got, root = mp.extract_multi_value_protopath_accessors(lst)
  sxp.check(len(got) == len(rest) and all([g[0] == r[0] and g[1] is r[1] for g, r in zip(got, rest)]), 'other accessors stay, in order')
  check_tree(root, list(want.items()))


@sxp.entry(bound='paths of up to 4 accesses of every kind')
def presence():
  # is_repeated_always_present: nothing after the first repeated access can be missing
  n = sxp.pick('len', 1, 3)
  ks = [sxp.pick('kind', 0, 5) for i in range(n)]
  els = [['a', '&::b', 'c[0]', 'd["k"]', 'Ext::e', 'r[:]'][k] for k in ks]
  lead = sxp.pick('lead', 0, 1)
  p = ('a/' if lead else '') + 'i[:]/' + '/'.join(els) + '/z'
  mut = sxp.bool_('mutable')
  _, root = mp.extract_multi_value_protopath_accessors(build([p, p]))
  leaf = root.leaves()[0]
  node = leaf.parent
  can = all([k in (1, 4, 5) if not mut else k != 2 for k in ks])
  sxp.check(node.is_repeated_always_present(is_mutable=mut) == can, 'present unless an access can miss')
  anc = up(node)
  for a in anc:
    sxp.check(a.is_ancestor_of(node) and (a is node or not node.is_ancestor_of(a)), 'is_ancestor_of')
    w = node.path_from_ancestor(a)
    sxp.check(w[0] is a and w[-1] is node and all([y.parent is x for x, y in zip(w, w[1:])]), 'path_from_ancestor is the way down')
  sxp.check(leaf.repeated_access_ancestor() is [x for x in up(leaf) if x.path_from_parent_multi is not None][0], 'repeated_access_ancestor is the innermost')
  b = leaf.ancestor_with_branch()
  sxp.check(b is node, 'the branch')
  sxp.check(b.ancestor_with_branch() is root, 'no branch above')


@sxp.entry(shards=4, timeout=150, bound='2 to 40 repeated fields of one node')
def big_nodes():
  s = sxp.shard()
  n = sxp.pick('fields', 2 + s * 10, 11 + s * 10)
  kind = sxp.pick('kind', 0, 2)
  paths = [['f%d[:]', 'r[:]/f%d', 'r[:]/f%d[:]'][kind] % i for i in range(n)]
  lst = build(paths)
  _, root = mp.extract_multi_value_protopath_accessors(lst)
  nodes, leaves = check_tree(root, lst)
  check_intermediate(root, nodes, leaves)
  sxp.check([l.leaf_accessor_name for l in root.leaves()] == [x[0] for x in lst], 'fields keep their order')


@sxp.entry(bound='every choice of nodes to collect in two trees of 7 nodes')
def descendants():
  tree = sxp.choose('tree', [['a[:]/b[:]/c', 'a[:]/b[:]/d', 'a[:]/e[:]'], ['a[:]/b[:]/c[:]', 'a[:]/b[:]/d/x', 'e[:]']])
  _, root = mp.extract_multi_value_protopath_accessors(build(tree))
  nodes = all_nodes(root)
  chosen = {}
  for n in nodes:
    if n is not root and not (n.is_leaf() and n.path_from_parent_multi is None):
      k = sxp.pick('collect', 0, 2)
      if k:
        chosen[n] = CV if k == 1 else CS
  desc = mp.nodes_with_descendant_for_intermediate_collection(root, chosen)
  for n in nodes:
    below = [chosen[m] for m in all_nodes(n) if m in chosen]
    sxp.check((n in desc) == (len(below) > 0), 'nodes with something to collect below')
    if below:
      sxp.check(desc[n] == (CV if CV in below else CS), 'values if some node below collects values')


@sxp.entry(bound='accessors with default values')
def defaults():
  a = protopath.Protopath.parse('a/' + sxp.str_('el', 1, 1, 'ab')).scalar_accessor_with_default_value(cpp_type='int', default_value_cpp='1')
  _, err = sxp.raised(NotImplementedError, mp.extract_multi_value_protopath_accessors, [('x', a)])
  sxp.check(err is not None, 'default values of repeated accesses are rejected')
