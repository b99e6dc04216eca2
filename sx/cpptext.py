"""Reading generated C++ without depending on how it is laid out."""
import re


def norm(text):
  """without comments and without white space that means nothing"""
  text = re.sub(r'(^|\n)\s*//[^\n]*', '', re.sub(r'/\*.*?\*/', '', text, flags=re.S))
  text = re.sub(r'\s+', ' ', text)
  return re.sub(r' ?([(){}\[\]<>;,=:&*+.]) ?', r'\1', text)


def close(text, i):
  """position of the brace that closes the one at i"""
  depth = 0
  for m in re.compile('[{}]').finditer(text, i):
    depth += 1 if m.group() == '{' else -1
    if depth == 0:
      return m.start()
  return len(text)


def braces(text, i):
  """from i to the end of the braces that follow"""
  return text[i:close(text, text.find('{', i))]


def scopes(text, path=()):
  """{namespaces: text without what is inside braces that are no namespace}"""
  out = {}
  stack = [path]
  i = 0
  for m in re.finditer(r'(?<![\w:=])(?:inline )?namespace ?([\w:]*)\{|[{}]', text):
    if m.start() < i:
      continue
    out[stack[-1]] = out.get(stack[-1], '') + text[i:m.start()]
    i = m.end()
    if m.group() == '}':
      stack.pop()
    elif m.group() == '{':
      out[stack[-1]] += '{}'
      i = close(text, m.start()) + 1
    else:
      stack.append(stack[-1] + tuple(x for x in m.group(1).split('::') if x))
  out[stack[-1]] = out.get(stack[-1], '') + text[i:]
  return out


def bodies(text):
  """{namespaces + (name,): body} of the functions without parameters"""
  text = norm('\n'.join(x for x in text.split('\n') if not x.startswith('#')))
  out = {}
  stack = [()]
  i = 0
  for m in re.finditer(r'(?<![\w:=])(?:inline )?namespace ?([\w:]*)\{|[{}]', text):
    if m.start() < i:
      continue
    i = m.end()
    if m.group() == '}':
      stack.pop()
    elif m.group() == '{':
      i = close(text, m.start()) + 1
      f = re.search(r'\b(\w+)\(\)$', text[:m.start()])
      if f:
        out[stack[-1] + (f.group(1),)] = text[m.start():i]
    else:
      stack.append(stack[-1] + tuple(x for x in m.group(1).split('::') if x))
  return out
