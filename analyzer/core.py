"""Abstract interpreter for the Python subset used by google/jaxite.

It walks /repo's syntax trees (stdlib `ast`), never imports or executes the
repository.  Values are either constants (constant propagation) or abstract
values supplied by a domain (see poly.py, sarr.py, iv.py).  A branch whose
condition the domain cannot decide partitions the traces (both sides are
analysed; no solver is involved).
"""
import ast
import math
import os
import itertools
import functools
import sys

sys.setrecursionlimit(20000)

REPO = os.environ.get('VERIF_REPO', '/repo')

# python package prefix -> directory (the package is laid out like this by
# the project's own import alias: jaxite.jaxite_ec lives in /repo/jaxite_ec).
PKG_ROOTS = [
    ('jaxite.jaxite_ec', 'jaxite_ec'),
    ('jaxite_ec', 'jaxite_ec'),
    ('jaxite', 'jaxite'),
]


class AnalysisError(Exception):
  """The analyser cannot interpret a construct (an undecided obligation)."""

  def __init__(self, msg, node=None, mod=None):
    loc = ''
    if node is not None and hasattr(node, 'lineno'):
      loc = f' at {getattr(mod, "relpath", "?")}:{node.lineno}'
    super().__init__(msg + loc)
    self.loc = loc


class AbsRaise(Exception):
  """A Python exception raised by the analysed program."""

  def __init__(self, exc_type, args=(), node=None, mod=None):
    super().__init__(exc_type)
    self.exc_type = exc_type
    self.exc_args = args
    self.node = node
    self.mod = mod

  @property
  def where(self):
    return f'{getattr(self.mod, "relpath", "?")}:{getattr(self.node, "lineno", 0)}'


class ReturnEx(Exception):

  def __init__(self, value):
    self.value = value


class BreakEx(Exception):
  pass


class ContinueEx(Exception):
  pass


class NeedFork(Exception):
  pass


class Unk:
  """Top."""

  def __init__(self, why='', tags=()):
    self.why = why
    self.tags = tags

  def __repr__(self):
    return f'Unk({self.why})'


class Ext:
  """Reference to something outside the repository, by canonical path."""

  __slots__ = ('path',)

  def __init__(self, path):
    self.path = path

  def __repr__(self):
    return f'Ext({self.path})'

  def __eq__(self, o):
    return isinstance(o, Ext) and o.path == self.path

  def __hash__(self):
    return hash(('Ext', self.path))


class Module:

  def __init__(self, name, relpath, tree, src):
    self.name = name
    self.relpath = relpath
    self.tree = tree
    self.src = src
    self.env = {}
    self.pending = {}
    self.bind = {}
    self.effects = {}
    self.loading = set()
    for i, st in enumerate(tree.body):
      for n in bound_names(st):
        self.bind.setdefault(n, []).append(st)
    self.loaded = False
    self.sequential = any(
        len([s for s in sts if isinstance(s, (ast.Assign, ast.AugAssign, ast.For,
                                              ast.AnnAssign))]) > 1
        for sts in self.bind.values())

  def __repr__(self):
    return f'<module {self.name}>'


def bound_names(st):
  out = []
  if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
    out.append(st.name)
  elif isinstance(st, ast.Import):
    for a in st.names:
      out.append(a.asname or a.name.split('.')[0])
  elif isinstance(st, ast.ImportFrom):
    for a in st.names:
      out.append(a.asname or a.name)
  elif isinstance(st, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.For)):
    tg = st.targets if isinstance(st, ast.Assign) else [st.target]
    for t in tg:
      for n in ast.walk(t):
        if isinstance(n, ast.Name):
          out.append(n.id)
        # X[i] = v / X.attr = v at module level is an effect on X
    if isinstance(st, ast.For):
      for s in st.body:
        out.extend(bound_names(s))
  elif isinstance(st, (ast.If, ast.Try, ast.With, ast.While)):
    for s in ast.iter_child_nodes(st):
      if isinstance(s, ast.stmt):
        out.extend(bound_names(s))
      elif isinstance(s, ast.ExceptHandler):
        for q in s.body:
          out.extend(bound_names(q))
  elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
    # X.append(...) at module level
    f = st.value.func
    while isinstance(f, ast.Attribute):
      f = f.value
      if isinstance(f, ast.Name):
        out.append(f.id)
  return out


class Func:

  def __init__(self, node, module, closure, qualname, cls=None):
    self.node = node
    self.module = module
    self.closure = closure
    self.qualname = qualname
    self.cls = cls
    self.defaults = []
    self.kw_defaults = {}
    self.attrs = {}
    self.marks = []  # decorators that do not change meaning (jit, ...)

  def __repr__(self):
    return f'<func {self.qualname}>'


class Bound:

  def __init__(self, func, self_obj):
    self.func = func
    self.self_obj = self_obj

  def __repr__(self):
    return f'<bound {self.func} of {self.self_obj}>'


class Partial:

  def __init__(self, func, args, kwargs):
    self.func = func
    self.args = list(args)
    self.kwargs = dict(kwargs)

  def __repr__(self):
    return f'<partial {self.func}>'


class Wrapped:
  """jit/vmap/pmap/... applied to a callable."""

  def __init__(self, kind, func, args=(), kwargs=None):
    self.kind = kind
    self.func = func
    self.args = tuple(args)
    self.kwargs = dict(kwargs or {})

  def __repr__(self):
    return f'<{self.kind} {self.func}>'


class Native:
  """A python callable implemented by the analyser."""

  def __init__(self, name, fn):
    self.name = name
    self.fn = fn

  def __repr__(self):
    return f'<native {self.name}>'


class Cls:

  def __init__(self, node, module, closure, qualname):
    self.node = node
    self.module = module
    self.closure = closure
    self.qualname = qualname
    self.name = node.name
    self.ns = {}
    self.bases = []
    self.dataclass = None  # None or dict of options
    self.fields = []  # [(name, default-thunk or None)]
    self.field_defaults = {}
    self.marks = []
    self.is_namedtuple = False
    self.is_enum = False

  def mro(self):
    out = [self]
    for b in self.bases:
      if isinstance(b, Cls):
        for c in b.mro():
          if c not in out:
            out.append(c)
    return out

  def lookup(self, name):
    for c in self.mro():
      if name in c.ns:
        return c.ns[name], c
    return None, None

  def __repr__(self):
    return f'<class {self.qualname}>'


class Inst:
  _n = 0

  def __init__(self, cls, attrs=None):
    self.cls = cls
    self.attrs = attrs or {}
    Inst._n += 1
    self.oid = Inst._n

  def __repr__(self):
    return f'<{self.cls.name}#{self.oid}>'


class Property:

  def __init__(self, fget, cached=False):
    self.fget = fget
    self.cached = cached


class ClassMethod:

  def __init__(self, func):
    self.func = func


class StaticMethod:

  def __init__(self, func):
    self.func = func


class VList:
  """Mutable list with identity."""
  __slots__ = ('items', 'tag', '__weakref__')

  def __init__(self, items=()):
    self.items = list(items)
    self.tag = None

  def __repr__(self):
    return f'VList({self.items!r})'


class VDict:

  def __init__(self, d=None):
    self.d = dict(d or {})

  def __repr__(self):
    return f'VDict({self.d!r})'


class VSet:

  def __init__(self, s=()):
    self.s = list(s)


class SuperProxy:

  def __init__(self, cls, obj):
    self.cls = cls
    self.obj = obj


class BoundNative:
  """method `name` of a builtin container / abstract value."""

  def __init__(self, obj, name):
    self.obj = obj
    self.name = name

  def __repr__(self):
    return f'<method {self.name} of {self.obj!r}>'


class AbsVal:
  """Base class of abstract values.  Domains override these hooks."""

  def abs_truth(self):
    return None

  def abs_key(self):
    return id(self)

  def abs_getattr(self, interp, name, node):
    raise AnalysisError(f'attribute {name} of {type(self).__name__}', node)

  def abs_method(self, interp, name, args, kwargs, node):
    raise AnalysisError(f'method {name} of {type(self).__name__}', node)

  def abs_getitem(self, interp, key, node):
    raise AnalysisError(f'subscript of {type(self).__name__}', node)

  def abs_setitem(self, interp, key, value, node):
    raise AnalysisError(f'item store on {type(self).__name__}', node)

  def abs_setattr(self, interp, name, value, node):
    raise AnalysisError(f'attribute store on {type(self).__name__}', node)

  def abs_iter(self, interp, node):
    raise AnalysisError(f'iteration over {type(self).__name__}', node)

  def abs_len(self, interp, node):
    raise AnalysisError(f'len of {type(self).__name__}', node)

  def abs_call(self, interp, args, kwargs, node):
    raise AnalysisError(f'call of {type(self).__name__}', node)


class Undefined:

  def __repr__(self):
    return '<undefined>'


UNDEF = Undefined()

_BIN = {
    ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
    ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**', ast.LShift: '<<',
    ast.RShift: '>>', ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^',
    ast.MatMult: '@',
}
_CMP = {
    ast.Eq: '==', ast.NotEq: '!=', ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>',
    ast.GtE: '>=', ast.Is: 'is', ast.IsNot: 'is not', ast.In: 'in',
    ast.NotIn: 'not in',
}

PYOPS = {
    '+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
    '/': lambda a, b: a / b, '//': lambda a, b: a // b,
    '%': lambda a, b: a % b, '**': lambda a, b: a**b,
    '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b,
    '|': lambda a, b: a | b, '&': lambda a, b: a & b, '^': lambda a, b: a ^ b,
    '@': lambda a, b: a @ b,
    '==': lambda a, b: a == b, '!=': lambda a, b: a != b,
    '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
    '>': lambda a, b: a > b, '>=': lambda a, b: a >= b,
}

PRIMS = (int, float, str, bool, type(None), bytes, complex, range)


def is_prim(v):
  return isinstance(v, PRIMS) or v is Ellipsis


def is_concrete(v):
  if is_prim(v):
    return True
  if isinstance(v, tuple):
    return all(is_concrete(x) for x in v)
  if isinstance(v, VList):
    return all(is_concrete(x) for x in v.items)
  if isinstance(v, slice):
    return all(is_concrete(x) for x in (v.start, v.stop, v.step))
  return False


class Frame:
  __slots__ = ('env', 'module', 'func', 'closure', 'globals_', 'nonlocals_',
               'self_cls')

  def __init__(self, env, module, func, closure):
    self.env = env
    self.module = module
    self.func = func
    self.closure = closure  # list of env dicts, innermost first
    self.globals_ = set()
    self.nonlocals_ = set()


BUILTIN_EXC = {
    'ValueError', 'TypeError', 'RuntimeError', 'KeyError', 'IndexError',
    'AssertionError', 'NotImplementedError', 'Exception', 'AttributeError',
    'ZeroDivisionError', 'OverflowError', 'ArithmeticError', 'ImportError',
    'ModuleNotFoundError', 'StopIteration', 'LookupError',
}


class Repo:
  """Parsed repository; shared across interpreters."""

  def __init__(self, root=None):
    self.root = root or REPO
    self.trees = {}

  def path_of(self, modname):
    for prefix, d in PKG_ROOTS:
      if modname == prefix or modname.startswith(prefix + '.'):
        rest = modname[len(prefix):].strip('.')
        p = os.path.join(d, *rest.split('.')) if rest else d
        for cand in (p + '.py', os.path.join(p, '__init__.py')):
          if os.path.isfile(os.path.join(self.root, cand)):
            return cand
        return None
    return None

  def is_repo(self, modname):
    return any(
        modname == p or modname.startswith(p + '.') for p, _ in PKG_ROOTS)

  def canonical(self, modname):
    if modname == 'jaxite_ec' or modname.startswith('jaxite_ec.'):
      return 'jaxite.' + modname
    return modname

  def parse(self, modname):
    modname = self.canonical(modname)
    if modname in self.trees:
      return self.trees[modname]
    rel = self.path_of(modname)
    if rel is None:
      return None
    with open(os.path.join(self.root, rel)) as f:
      src = f.read()
    tree = ast.parse(src, rel)
    self.trees[modname] = (rel, tree, src)
    return self.trees[modname]

  def source_files(self):
    out = []
    for d in ('jaxite', 'jaxite_ec'):
      for base, dirs, files in os.walk(os.path.join(self.root, d)):
        dirs[:] = [x for x in dirs if x != '__pycache__']
        for f in sorted(files):
          if f.endswith('.py') and not f.endswith('_test.py'):
            out.append(os.path.relpath(os.path.join(base, f), self.root))
    return sorted(out)

  def modname_of(self, rel):
    m = rel[:-3].replace(os.sep, '.')
    if m.endswith('.__init__'):
      m = m[:-9]
    return self.canonical(m)


class Interp:
  """One abstract interpreter; `domain` supplies summaries and externals."""

  MAX_STEPS = 3_000_000
  instances = []

  def __init__(self, repo, domain):
    Interp.instances.append(self)
    self.repo = repo
    self.domain = domain
    domain.interp = self
    self.modules = {}
    self.steps = 0
    self.depth = 0
    self.decisions = []  # preset decision list for current trace
    self.dpos = 0
    self.taken = []  # [(key, bool, repr, where)]
    self.inlined = set()  # qualnames of analysed functions
    self.callstack = []

  # ------------------------------------------------------------ modules
  def module(self, name):
    name = self.repo.canonical(name)
    if name in self.modules:
      return self.modules[name]
    parsed = self.repo.parse(name)
    if parsed is None:
      return None
    rel, tree, src = parsed
    m = Module(name, rel, tree, src)
    self.modules[name] = m
    return m

  def global_get(self, mod, name, node=None):
    q = f'{mod.name}.{name}'
    if q in self.domain.globals_override:
      return self.domain.globals_override[q]
    if name in mod.env and name not in mod.pending:
      return mod.env[name]
    if name not in mod.bind:
      return UNDEF
    if name in mod.loading or '*' in mod.loading:
      return mod.env.get(name, UNDEF)
    if mod.sequential:
      self.load_all(mod)
      return mod.env.get(name, UNDEF)
    mod.loading.add(name)
    try:
      frame = Frame(mod.env, mod, None, [])
      done = mod.effects
      for st in mod.bind[name]:
        if id(st) in done:
          continue
        done[id(st)] = True
        # function/class/assign statements, evaluated on demand
        try:
          self.exec_stmt(st, frame)
        except (AnalysisError, AbsRaise) as e:
          for n in bound_names(st):
            if n not in mod.env:
              mod.env[n] = Unk(f'module-level {n}: {e}')
    finally:
      mod.loading.discard(name)
    return mod.env.get(name, UNDEF)

  def load_all(self, mod):
    """Execute the module body in order (names are bound more than once)."""
    if mod.loaded:
      return
    mod.loaded = True
    mod.loading.add('*')
    frame = Frame(mod.env, mod, None, [])
    try:
      for st in mod.tree.body:
        try:
          self.exec_stmt(st, frame)
        except (AnalysisError, AbsRaise) as e:
          for n in bound_names(st):
            mod.env[n] = Unk(f'module-level {n}: {e}')
    finally:
      mod.loading.discard('*')

  def get(self, qual):
    """Resolve 'jaxite.jaxite_bool.lut.LookUpTable.method' to a value."""
    parts = qual.split('.')
    for i in range(len(parts), 0, -1):
      mn = '.'.join(parts[:i])
      if self.repo.path_of(mn):
        mod = self.module(mn)
        v = mod
        for p in parts[i:]:
          v = self.getattr_(v, p, None, raw=True)
        return v
    raise AnalysisError(f'cannot resolve {qual}')

  # ------------------------------------------------------------ exploration
  def explore(self, thunk, max_paths=512):
    """Run thunk on every partition of undecided branches.

    Yields (outcome, value, taken) with outcome 'return' | 'raise' | 'undecided'.
    """
    out = []
    work = [[]]
    while work:
      pre = work.pop()
      if len(out) > max_paths:
        raise AnalysisError('too many trace partitions')
      self.decisions = pre
      self.dpos = 0
      self.taken = []
      self.depth = 0
      self.steps = 0
      self.callstack = []
      self.domain.begin_trace()
      try:
        v = thunk()
        out.append(('return', v, list(self.taken)))
      except AbsRaise as e:
        out.append(('raise', e, list(self.taken)))
      except AnalysisError as e:
        out.append(('undecided', e, list(self.taken)))
      except (KeyboardInterrupt, SystemExit, MemoryError):
        raise
      except Exception as e:  # analyser limitation: never a verdict
        import os
        import traceback
        if os.environ.get('VERIF_DEBUG') and not getattr(self, '_dbg', False):
          self._dbg = True
          traceback.print_exc()
        tb = traceback.extract_tb(e.__traceback__)[-1]
        out.append(('undecided', AnalysisError(
            f'analyser: {type(e).__name__} {e} at {tb.filename}:{tb.lineno}'),
                    list(self.taken)))
      # schedule alternatives
      for i in range(len(pre), len(self.taken)):
        alt = [t[1] for t in self.taken[:i]] + [not self.taken[i][1]]
        work.append(alt)
    self.decisions = []
    self.dpos = 0
    return out

  def decide(self, cond, node, mod):
    t = self.truth(cond)
    if t is not None:
      return t
    key = self.cond_key(cond)
    neg = False
    for k, v, *_ in self.taken:
      if k == key:
        return v
    # negation of an already decided condition
    nk = self.domain.negate_key(key)
    if nk is not None:
      for k, v, *_ in self.taken:
        if k == nk:
          return not v
    if self.dpos < len(self.decisions):
      v = self.decisions[self.dpos]
    else:
      v = True
    self.dpos += 1
    where = f'{getattr(mod, "relpath", "?")}:{getattr(node, "lineno", 0)}'
    self.taken.append((key, v, repr(cond), where, cond))
    return v

  def cond_key(self, cond):
    if isinstance(cond, AbsVal):
      return cond.abs_key()
    return ('id', id(cond))

  def truth(self, v):
    if is_prim(v):
      return bool(v)
    if isinstance(v, tuple):
      return bool(v)
    if isinstance(v, VList):
      return bool(v.items)
    if isinstance(v, VDict):
      return bool(v.d)
    if isinstance(v, VSet):
      return bool(v.s)
    if isinstance(v, (Func, Bound, Partial, Wrapped, Cls, Native, Ext, Module)):
      return True
    if isinstance(v, Inst):
      m, _ = v.cls.lookup('__bool__')
      if m is not None:
        return self.truth(self.call(Bound(m, v), [], {}))
      return True
    if isinstance(v, AbsVal):
      return v.abs_truth()
    return None

  # ------------------------------------------------------------ statements
  def exec_block(self, stmts, fr):
    for s in stmts:
      self.exec_stmt(s, fr)

  def exec_stmt(self, s, fr):
    self.steps += 1
    if self.steps > self.MAX_STEPS:
      raise AnalysisError('step budget exhausted', s, fr.module)
    m = getattr(self, 'st_' + type(s).__name__, None)
    if m is None:
      raise AnalysisError(f'statement {type(s).__name__}', s, fr.module)
    return m(s, fr)

  def st_Expr(self, s, fr):
    if isinstance(s.value, ast.Constant):
      return
    self.ev(s.value, fr)

  def st_Pass(self, s, fr):
    pass

  def st_Return(self, s, fr):
    raise ReturnEx(self.ev(s.value, fr) if s.value is not None else None)

  def st_Break(self, s, fr):
    raise BreakEx()

  def st_Continue(self, s, fr):
    raise ContinueEx()

  def st_Global(self, s, fr):
    fr.globals_.update(s.names)

  def st_Nonlocal(self, s, fr):
    fr.nonlocals_.update(s.names)

  def st_Assert(self, s, fr):
    c = self.ev(s.test, fr)
    if not self.decide(c, s, fr.module):
      raise AbsRaise('AssertionError', (), s, fr.module)

  def st_Raise(self, s, fr):
    if s.exc is None:
      raise AbsRaise('reraise', (), s, fr.module)
    v = self.ev_exc(s.exc, fr)
    raise AbsRaise(v, (), s, fr.module)

  def ev_exc(self, node, fr):
    if isinstance(node, ast.Call):
      f = node.func
    else:
      f = node
    if isinstance(f, ast.Name):
      return f.id
    if isinstance(f, ast.Attribute):
      return f.attr
    return 'Exception'

  def st_Delete(self, s, fr):
    for t in s.targets:
      if isinstance(t, ast.Name):
        fr.env.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = self.ev(t.value, fr)
        k = self.ev(t.slice, fr)
        if isinstance(o, VList) and isinstance(k, (int, slice)):
          del o.items[k]
        elif isinstance(o, VDict):
          o.d.pop(k, None)

  def st_Import(self, s, fr):
    for a in s.names:
      self.do_import(a.name, a.asname, fr)

  def do_import(self, name, asname, fr):
    if asname:
      fr.env[asname] = self.import_module(name)
    else:
      top = name.split('.')[0]
      fr.env[top] = self.import_module(top)

  def import_module(self, name):
    if self.repo.is_repo(name):
      m = self.module(name)
      if m is not None:
        return m
    return Ext(canon_ext(name))

  def st_ImportFrom(self, s, fr):
    base = s.module or ''
    if s.level:
      parts = fr.module.name.split('.')
      parts = parts[:len(parts) - s.level]
      base = '.'.join(parts + ([base] if base else []))
    for a in s.names:
      full = f'{base}.{a.name}'
      if self.repo.is_repo(base):
        if self.repo.path_of(full):
          v = self.module(full)
        else:
          m = self.module(base)
          v = self.global_get(m, a.name) if m else Ext(full)
      else:
        v = Ext(canon_ext(full))
      fr.env[a.asname or a.name] = v

  def st_FunctionDef(self, s, fr):
    v = self.make_func(s, fr)
    fr.env[s.name] = v

  def make_func(self, s, fr, cls=None):
    prefix = fr.func.qualname if fr.func else fr.module.name
    if cls is not None:
      prefix = cls.qualname
    f = Func(s, fr.module, self.closure_of(fr), f'{prefix}.{s.name}', cls)
    f.defaults = [self.ev(d, fr) for d in s.args.defaults]
    f.kw_defaults = {
        a.arg: self.ev(d, fr)
        for a, d in zip(s.args.kwonlyargs, s.args.kw_defaults)
        if d is not None
    }
    v = f
    for d in reversed(s.decorator_list):
      v = self.decorate(d, v, fr)
    return v

  def closure_of(self, fr):
    if fr.func is None and fr.env is fr.module.env:
      return []
    return [fr.env] + fr.closure

  def decorate(self, d, v, fr):
    if isinstance(d, ast.Name):
      if d.id == 'property':
        return Property(v)
      if d.id == 'classmethod':
        return ClassMethod(v)
      if d.id == 'staticmethod':
        return StaticMethod(v)
    if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
      return v
    dv = self.ev(d, fr)
    if isinstance(dv, Ext):
      p = dv.path
      if p in ('functools.cached_property',):
        return Property(v, cached=True)
      if p in IDENT_DECOS:
        if isinstance(v, (Func, Cls)):
          v.marks.append(p)
        return v
    if isinstance(dv, Native) and dv.name == 'property':
      return Property(v)
    return self.call(dv, [v], {}, d, fr.module)

  def st_ClassDef(self, s, fr):
    prefix = fr.func.qualname if fr.func else fr.module.name
    c = Cls(s, fr.module, self.closure_of(fr), f'{prefix}.{s.name}')
    c.bases = []
    for b in s.bases:
      try:
        bv = self.ev(b, fr)
      except AnalysisError:
        bv = Unk('base')
      if isinstance(bv, Ext):
        if bv.path.endswith('NamedTuple'):
          c.is_namedtuple = True
        if bv.path in ('enum.Enum', 'enum.IntEnum'):
          c.is_enum = True
      c.bases.append(bv)
    cfr = Frame(c.ns, fr.module, None, self.closure_of(fr))
    ann = []
    for st in s.body:
      if isinstance(st, ast.FunctionDef):
        prev = c.ns.get(st.name)
        v = self.make_func_in_class(st, c, cfr, fr)
        c.ns[st.name] = v
      elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        ann.append(st)
        if st.value is not None:
          c.ns[st.target.id] = self.ev(st.value, cfr)
      elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
        continue
      else:
        self.exec_stmt(st, cfr)
    c.fields = []
    for b in reversed(c.mro()[1:]):
      for fdef in b.fields:
        if fdef not in c.fields:
          c.fields.append(fdef)
    for st in ann:
      if st.target.id not in c.fields:
        a = ast.unparse(st.annotation)
        if 'ClassVar' in a:
          continue
        c.fields.append(st.target.id)
    if c.is_namedtuple:
      c.dataclass = {'frozen': True}
    if c.is_enum:
      for k, v in list(c.ns.items()):
        if is_prim(v) and not k.startswith('_'):
          i = Inst(c, {'name': k, 'value': v})
          c.ns[k] = i
    v = c
    for d in reversed(s.decorator_list):
      v = self.decorate_class(d, v, fr)
    fr.env[s.name] = v

  def make_func_in_class(self, st, c, cfr, fr):
    # class scope is not visible from method bodies
    f = Func(st, fr.module, self.closure_of(fr), f'{c.qualname}.{st.name}', c)
    f.defaults = [self.ev(d, cfr) for d in st.args.defaults]
    f.kw_defaults = {
        a.arg: self.ev(d, cfr)
        for a, d in zip(st.args.kwonlyargs, st.args.kw_defaults)
        if d is not None
    }
    v = f
    for d in reversed(st.decorator_list):
      v = self.decorate(d, v, cfr)
    return v

  def decorate_class(self, d, c, fr):
    call = isinstance(d, ast.Call)
    dv = self.ev(d.func if call else d, fr)
    if isinstance(dv, Ext) and dv.path == 'dataclasses.dataclass':
      opts = {}
      if call:
        for k in d.keywords:
          opts[k.arg] = self.ev(k.value, fr)
      c.dataclass = opts
      return c
    if isinstance(dv, Ext):
      c.marks.append(dv.path)
      return c
    if call:
      dv = self.ev(d, fr)
    return self.call(dv, [c], {}, d, fr.module)

  def st_Assign(self, s, fr):
    v = self.ev(s.value, fr)
    for t in s.targets:
      self.assign(t, v, fr)

  def st_AnnAssign(self, s, fr):
    if s.value is not None:
      self.assign(s.target, self.ev(s.value, fr), fr)

  def st_AugAssign(self, s, fr):
    op = _BIN[type(s.op)]
    t = s.target
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, fr, t)
      rhs = self.ev(s.value, fr)
      self.assign(t, self.aug(op, cur, rhs, s, fr), fr)
    elif isinstance(t, ast.Attribute):
      o = self.ev(t.value, fr)
      cur = self.getattr_(o, t.attr, t, fr.module)
      rhs = self.ev(s.value, fr)
      self.setattr_(o, t.attr, self.aug(op, cur, rhs, s, fr), t, fr.module)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, fr)
      k = self.ev(t.slice, fr)
      cur = self.getitem(o, k, t, fr.module)
      rhs = self.ev(s.value, fr)
      self.setitem(o, k, self.aug(op, cur, rhs, s, fr), t, fr.module)
    else:
      raise AnalysisError('augassign target', s, fr.module)

  def aug(self, op, cur, rhs, s, fr):
    if isinstance(cur, VList) and op == '+':
      self.domain.on_mutate(cur, 'list +=', s, fr.module)
      cur.items.extend(self.iterate(rhs, s, fr.module))
      return cur
    h = getattr(cur, 'abs_inplace', None)
    if h is not None:
      r = h(self, op, rhs, s)
      if r is not None:
        return r
    return self.binop(op, cur, rhs, s, fr.module)

  def assign(self, t, v, fr):
    if isinstance(t, ast.Name):
      if t.id in fr.globals_:
        fr.module.env[t.id] = v
      elif t.id in fr.nonlocals_:
        for e in fr.closure:
          if t.id in e:
            e[t.id] = v
            break
      else:
        fr.env[t.id] = v
    elif isinstance(t, (ast.Tuple, ast.List)):
      star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
      items = self.iterate(v, t, fr.module)
      items = list(items)
      if star:
        i = star[0]
        n_after = len(t.elts) - i - 1
        for e, x in zip(t.elts[:i], items[:i]):
          self.assign(e, x, fr)
        self.assign(t.elts[i].value,
                    VList(items[i:len(items) - n_after]), fr)
        for e, x in zip(t.elts[i + 1:], items[len(items) - n_after:]):
          self.assign(e, x, fr)
      else:
        if len(items) != len(t.elts):
          raise AbsRaise('ValueError', (), t, fr.module)
        for e, x in zip(t.elts, items):
          self.assign(e, x, fr)
    elif isinstance(t, ast.Attribute):
      self.setattr_(self.ev(t.value, fr), t.attr, v, t, fr.module)
    elif isinstance(t, ast.Subscript):
      o = self.ev(t.value, fr)
      k = self.ev(t.slice, fr)
      self.setitem(o, k, v, t, fr.module)
    elif isinstance(t, ast.Starred):
      self.assign(t.value, v, fr)
    else:
      raise AnalysisError('assign target', t, fr.module)

  def st_If(self, s, fr):
    c = self.ev(s.test, fr)
    if self.decide(c, s, fr.module):
      self.exec_block(s.body, fr)
    else:
      self.exec_block(s.orelse, fr)

  def st_For(self, s, fr):
    it = self.ev(s.iter, fr)
    broke = False
    for x in self.iterate(it, s, fr.module):
      self.assign(s.target, x, fr)
      try:
        self.exec_block(s.body, fr)
      except BreakEx:
        broke = True
        break
      except ContinueEx:
        continue
    if not broke:
      self.exec_block(s.orelse, fr)

  def st_While(self, s, fr):
    n = 0
    while True:
      c = self.ev(s.test, fr)
      if not self.decide(c, s, fr.module):
        self.exec_block(s.orelse, fr)
        return
      n += 1
      if n > 100000:
        raise AnalysisError('unbounded while', s, fr.module)
      try:
        self.exec_block(s.body, fr)
      except BreakEx:
        return
      except ContinueEx:
        continue

  def st_With(self, s, fr):
    for it in s.items:
      v = self.ev(it.context_expr, fr)
      if it.optional_vars is not None:
        self.assign(it.optional_vars, v, fr)
    self.exec_block(s.body, fr)

  def st_Try(self, s, fr):
    try:
      self.exec_block(s.body, fr)
    except AbsRaise as e:
      for h in s.handlers:
        names = []
        if h.type is None:
          names = None
        elif isinstance(h.type, ast.Tuple):
          names = [self.ev_exc(x, fr) for x in h.type.elts]
        else:
          names = [self.ev_exc(h.type, fr)]
        if names is None or e.exc_type in names or 'Exception' in names:
          if h.name:
            fr.env[h.name] = Unk('exception')
          try:
            self.exec_block(h.body, fr)
          except AbsRaise as e2:
            if e2.exc_type == 'reraise':
              raise e
            raise
          break
      else:
        self.exec_block(s.finalbody, fr)
        raise
    else:
      self.exec_block(s.orelse, fr)
    self.exec_block(s.finalbody, fr)

  # ------------------------------------------------------------ expressions
  def ev(self, e, fr):
    self.steps += 1
    m = getattr(self, 'ex_' + type(e).__name__, None)
    if m is None:
      raise AnalysisError(f'expression {type(e).__name__}', e, fr.module)
    return m(e, fr)

  def ex_Constant(self, e, fr):
    return e.value

  def lookup(self, name, fr, node):
    if name not in fr.globals_:
      if name in fr.env and not (fr.env is fr.module.env):
        return fr.env[name]
      for c in fr.closure:
        if name in c:
          return c[name]
    v = self.global_get(fr.module, name, node)
    if v is not UNDEF:
      return v
    b = self.domain.builtin(name)
    if b is not None:
      return b
    if name in BUILTIN_EXC:
      return Ext('builtins.' + name)
    raise AbsRaise('NameError', (name,), node, fr.module)

  def ex_Name(self, e, fr):
    return self.lookup(e.id, fr, e)

  def ex_Attribute(self, e, fr):
    return self.getattr_(self.ev(e.value, fr), e.attr, e, fr.module)

  def ex_Tuple(self, e, fr):
    return tuple(self.ev_list(e.elts, fr))

  def ex_List(self, e, fr):
    return VList(self.ev_list(e.elts, fr))

  def ex_Set(self, e, fr):
    return VSet(self.ev_list(e.elts, fr))

  def ev_list(self, elts, fr):
    out = []
    for x in elts:
      if isinstance(x, ast.Starred):
        out.extend(self.iterate(self.ev(x.value, fr), x, fr.module))
      else:
        out.append(self.ev(x, fr))
    return out

  def ex_Dict(self, e, fr):
    d = {}
    for k, v in zip(e.keys, e.values):
      if k is None:
        o = self.ev(v, fr)
        d.update(o.d)
      else:
        d[self.hashable(self.ev(k, fr))] = self.ev(v, fr)
    return VDict(d)

  def hashable(self, k):
    return k

  def ex_JoinedStr(self, e, fr):
    out = ''
    ok = True
    for p in e.values:
      if isinstance(p, ast.Constant):
        out += p.value
      else:
        try:
          v = self.ev(p.value, fr)
        except AnalysisError:
          ok = False
          continue
        self.domain.on_format(v, p, fr.module)
        if is_prim(v) and p.format_spec is None and p.conversion == -1:
          out += str(v)
        elif is_prim(v) and p.format_spec is not None:
          try:
            spec = self.ex_JoinedStr(p.format_spec, fr)
            out += format(v, spec)
          except Exception:
            ok = False
        else:
          ok = False
    return out if ok else Unk('fstring')

  def ex_FormattedValue(self, e, fr):
    v = self.ev(e.value, fr)
    return str(v) if is_prim(v) else Unk('fmt')

  def ex_BinOp(self, e, fr):
    return self.binop(_BIN[type(e.op)], self.ev(e.left, fr),
                      self.ev(e.right, fr), e, fr.module)

  def ex_UnaryOp(self, e, fr):
    v = self.ev(e.operand, fr)
    if isinstance(e.op, ast.Not):
      t = self.truth(v)
      if t is not None:
        return not t
      return self.domain.not_(v, e)
    if isinstance(e.op, ast.USub):
      return self.unop('-', v, e, fr.module)
    if isinstance(e.op, ast.UAdd):
      return v
    return self.unop('~', v, e, fr.module)

  def unop(self, op, v, node, mod):
    if isinstance(v, (int, float, complex)):
      return -v if op == '-' else ~v
    if isinstance(v, Inst):
      m, _ = v.cls.lookup('__neg__' if op == '-' else '__invert__')
      if m is not None:
        return self.call(Bound(m, v), [], {}, node, mod)
    return self.domain.unop(op, v, node, mod)

  def ex_BoolOp(self, e, fr):
    is_and = isinstance(e.op, ast.And)
    v = None
    for i, x in enumerate(e.values):
      v = self.ev(x, fr)
      if i == len(e.values) - 1:
        return v
      t = self.decide(v, x, fr.module)
      if is_and and not t:
        return v if self.truth(v) is not None else False
      if not is_and and t:
        return v if self.truth(v) is not None else True
    return v

  def ex_IfExp(self, e, fr):
    c = self.ev(e.test, fr)
    return self.ev(e.body if self.decide(c, e, fr.module) else e.orelse, fr)

  def ex_NamedExpr(self, e, fr):
    v = self.ev(e.value, fr)
    self.assign(e.target, v, fr)
    return v

  def ex_Lambda(self, e, fr):
    fd = ast.FunctionDef(
        name='<lambda>', args=e.args,
        body=[ast.copy_location(ast.Return(value=e.body), e.body)],
        decorator_list=[], returns=None, type_comment=None)
    ast.copy_location(fd, e)
    prefix = fr.func.qualname if fr.func else fr.module.name
    f = Func(fd, fr.module, self.closure_of(fr),
             f'{prefix}.<lambda>', None)
    f.defaults = [self.ev(d, fr) for d in e.args.defaults]
    f.kw_defaults = {
        a.arg: self.ev(d, fr)
        for a, d in zip(e.args.kwonlyargs, e.args.kw_defaults)
        if d is not None
    }
    return f

  def ex_Compare(self, e, fr):
    left = self.ev(e.left, fr)
    res = True
    for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
      right = self.ev(r, fr)
      c = self.compare(_CMP[type(op)], left, right, e, fr.module)
      if i == len(e.ops) - 1:
        return c
      if not self.decide(c, e, fr.module):
        return False
      left = right
    return res

  def ex_Call(self, e, fr):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
      f = fr.func
      cls = f.cls
      return SuperProxy(cls, fr.env.get('self', fr.env.get('cls')))
    f = self.ev(e.func, fr)
    args = []
    for a in e.args:
      if isinstance(a, ast.Starred):
        args.extend(self.iterate(self.ev(a.value, fr), a, fr.module))
      else:
        args.append(self.ev(a, fr))
    kwargs = {}
    for k in e.keywords:
      v = self.ev(k.value, fr)
      if k.arg is None:
        if isinstance(v, VDict):
          kwargs.update(v.d)
        else:
          raise AnalysisError('** of abstract', e, fr.module)
      else:
        kwargs[k.arg] = v
    return self.call(f, args, kwargs, e, fr.module)

  def ex_Subscript(self, e, fr):
    o = self.ev(e.value, fr)
    k = self.ev(e.slice, fr)
    return self.getitem(o, k, e, fr.module)

  def ex_Slice(self, e, fr):
    return slice(
        self.ev(e.lower, fr) if e.lower else None,
        self.ev(e.upper, fr) if e.upper else None,
        self.ev(e.step, fr) if e.step else None)

  def ex_Starred(self, e, fr):
    raise AnalysisError('starred', e, fr.module)

  def comp(self, gens, fr, emit, i=0):
    if i == len(gens):
      emit(fr)
      return
    g = gens[i]
    for x in self.iterate(self.ev(g.iter, fr), g.iter, fr.module):
      self.assign(g.target, x, fr)
      ok = True
      for c in g.ifs:
        if not self.decide(self.ev(c, fr), c, fr.module):
          ok = False
          break
      if ok:
        self.comp(gens, fr, emit, i + 1)

  def comp_frame(self, fr):
    f2 = Frame({}, fr.module, fr.func,
               [] if (fr.env is fr.module.env) else [fr.env] + fr.closure)
    return f2

  def ex_ListComp(self, e, fr):
    out = []
    f2 = self.comp_frame(fr)
    self.comp(e.generators, f2, lambda f: out.append(self.ev(e.elt, f)))
    return VList(out)

  def ex_GeneratorExp(self, e, fr):
    return VList(self.ex_ListComp(e, fr).items)

  def ex_SetComp(self, e, fr):
    return VSet(self.ex_ListComp(e, fr).items)

  def ex_DictComp(self, e, fr):
    d = {}
    f2 = self.comp_frame(fr)

    def emit(f):
      k = self.ev(e.key, f)
      d[k] = self.ev(e.value, f)

    self.comp(e.generators, f2, emit)
    return VDict(d)

  # ------------------------------------------------------------ operations
  def iterate(self, v, node=None, mod=None):
    if isinstance(v, VList):
      return list(v.items)
    if isinstance(v, (tuple, range, str, bytes)):
      return v if isinstance(v, range) and len(v) > 4096 else list(v)
    if isinstance(v, VSet):
      return list(v.s)
    if isinstance(v, VDict):
      return list(v.d.keys())
    if isinstance(v, AbsVal):
      return v.abs_iter(self, node)
    if isinstance(v, Inst):
      if v.cls.is_namedtuple:
        return [v.attrs[f] for f in v.cls.fields]
      m, _ = v.cls.lookup('__iter__')
      if m is not None:
        return self.iterate(self.call(Bound(m, v), [], {}, node, mod))
      m, _ = v.cls.lookup('__getitem__')
      if m is not None:
        out = []
        while len(out) < 100000:
          try:
            out.append(self.call(Bound(m, v), [len(out)], {}, node, mod))
          except AbsRaise as e:
            if e.exc_type == 'IndexError':
              return out
            raise
    if isinstance(v, itertools.count):
      raise AnalysisError('infinite iterator', node, mod)
    if v is None or isinstance(v, (int, float, complex)):
      raise AbsRaise('TypeError', ('not iterable',), node, mod)
    raise AnalysisError(f'iteration over {v!r}', node, mod)

  DUNDER = {
      '+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '//': 'floordiv',
      '%': 'mod', '**': 'pow', '<<': 'lshift', '>>': 'rshift', '|': 'or',
      '&': 'and', '^': 'xor', '@': 'matmul',
  }

  def binop(self, op, a, b, node=None, mod=None):
    r = self.domain.pre_binop(op, a, b, node, mod)
    if r is not None:
      return r
    if is_prim(a) and is_prim(b):
      try:
        if op == '<<' and isinstance(b, int) and b > 200000:
          raise AnalysisError('huge shift', node, mod)
        return PYOPS[op](a, b)
      except ZeroDivisionError:
        raise AbsRaise('ZeroDivisionError', (), node, mod)
      except TypeError:
        raise AbsRaise('TypeError', (), node, mod)
      except (ValueError, OverflowError) as ex:
        raise AbsRaise(type(ex).__name__, (), node, mod)
    if isinstance(a, VList) and isinstance(b, VList) and op == '+':
      return VList(a.items + b.items)
    if isinstance(a, tuple) and isinstance(b, tuple) and op == '+':
      return a + b
    if op == '*' and isinstance(a, VList) and isinstance(b, int):
      return VList(a.items * b)
    if op == '*' and isinstance(b, VList) and isinstance(a, int):
      return VList(b.items * a)
    if op == '*' and isinstance(a, tuple) and isinstance(b, int):
      return a * b
    if op == '*' and isinstance(b, tuple) and isinstance(a, int):
      return b * a
    if op == '%' and isinstance(a, str):
      return Unk('strformat')
    if isinstance(a, Inst):
      m, _ = a.cls.lookup(f'__{self.DUNDER[op]}__')
      if m is not None:
        return self.call(Bound(m, a), [b], {}, node, mod)
    if isinstance(b, Inst):
      m, _ = b.cls.lookup(f'__r{self.DUNDER[op]}__')
      if m is not None:
        return self.call(Bound(m, b), [a], {}, node, mod)
    if op == '|' and (isinstance(a, (Cls, Ext)) or isinstance(b, (Cls, Ext))):
      return Unk('type union')
    return self.domain.binop(op, a, b, node, mod)

  def compare(self, op, a, b, node=None, mod=None):
    if op in ('is', 'is not'):
      r = self.is_(a, b)
      if r is None:
        return self.domain.compare(op, a, b, node, mod)
      return r if op == 'is' else not r
    if op in ('in', 'not in'):
      r = self.contains(a, b, node, mod)
      if r is None:
        return self.domain.compare(op, a, b, node, mod)
      return r if op == 'in' else not r
    if is_prim(a) and is_prim(b):
      try:
        return PYOPS[op](a, b)
      except TypeError:
        raise AbsRaise('TypeError', (), node, mod)
    if isinstance(a, Inst) or isinstance(b, Inst):
      names = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__',
               '>': '__gt__', '>=': '__ge__'}
      if isinstance(a, Inst):
        m, _ = a.cls.lookup(names[op])
        if m is not None:
          return self.call(Bound(m, a), [b], {}, node, mod)
        if op == '!=':
          m, _ = a.cls.lookup('__eq__')
          if m is not None:
            r = self.call(Bound(m, a), [b], {}, node, mod)
            t = self.truth(r)
            return (not t) if t is not None else self.domain.not_(r, node)
      if op in ('==', '!='):
        if a is b:
          return op == '=='
        if (isinstance(a, Inst) and isinstance(b, Inst) and a.cls is b.cls
            and a.cls.dataclass is not None):
          if a.cls.dataclass.get('eq', True) is False:
            return op != '=='
          rs = [self.compare('==', a.attrs.get(f), b.attrs.get(f), node, mod)
                for f in compared_fields(a.cls)]
          return self.all_(rs, op)
        if isinstance(a, Inst) and isinstance(b, Inst):
          return op != '=='
        if is_prim(a) or is_prim(b):
          return op != '=='
    if op in ('==', '!=') and (isinstance(a, Ext) or isinstance(b, Ext)):
      da, db = self.domain.dtype_of(a), self.domain.dtype_of(b)
      if da is not None and db is not None:
        return (da == db) == (op == '==')
    if op in ('==', '!='):
      la = self.seq_items(a)
      lb = self.seq_items(b)
      if la is not None and lb is not None:
        if type(a) is not type(b) and not (
            isinstance(a, AbsVal) or isinstance(b, AbsVal)):
          return op != '=='
        if len(la) != len(lb):
          return op != '=='
        rs = [self.compare('==', x, y, node, mod) for x, y in zip(la, lb)]
        return self.all_(rs, op)
      if isinstance(a, (Ext, Cls, Func)) or isinstance(b, (Ext, Cls, Func)):
        return (a == b) == (op == '==')
      if a is None or b is None:
        if not isinstance(a, Unk) and not isinstance(b, Unk):
          return (a is b) == (op == '==')
    return self.domain.compare(op, a, b, node, mod)

  def all_(self, rs, op):
    unk = None
    for r in rs:
      t = self.truth(r)
      if t is False:
        return op != '=='
      if t is None:
        unk = r if unk is None else self.domain.and_(unk, r)
    if unk is not None:
      return unk if op == '==' else self.domain.not_(unk, None)
    return op == '=='

  def seq_items(self, v):
    if isinstance(v, VList):
      return v.items
    if isinstance(v, tuple):
      return list(v)
    return None

  def is_(self, a, b):
    if a is b:
      return True
    if is_prim(a) and is_prim(b):
      return a is b or (type(a) == type(b) and a == b)
    if a is None or b is None:
      o = b if a is None else a
      if isinstance(o, Unk):
        return None
      if isinstance(o, AbsVal) and getattr(o, 'maybe_none', False):
        return None
      return False
    if isinstance(a, (Ext,)) and isinstance(b, Ext):
      return a == b
    if isinstance(a, Unk) or isinstance(b, Unk):
      return None
    return False

  def contains(self, a, b, node, mod):
    if isinstance(b, VDict):
      try:
        return a in b.d
      except TypeError:
        return None
    if isinstance(b, (VList, tuple, VSet, range, str)):
      if isinstance(b, str) or isinstance(b, range):
        if is_prim(a):
          return a in b
        return None
      items = b.items if isinstance(b, VList) else (
          b.s if isinstance(b, VSet) else b)
      unk = False
      for x in items:
        t = self.truth(self.compare('==', a, x, node, mod))
        if t is True:
          return True
        if t is None:
          unk = True
      return None if unk else False
    return None

  # ------------------------------------------------------------ attributes
  def getattr_(self, o, name, node=None, mod=None, raw=False):
    if isinstance(o, Module):
      v = self.global_get(o, name, node)
      if v is UNDEF:
        sub = self.module(o.name + '.' + name)
        if sub is not None:
          return sub
        raise AbsRaise('AttributeError', (o.name, name), node, mod)
      return v
    if isinstance(o, Ext):
      h = self.domain.ext_attr(o.path, name)
      if h is not None:
        return h
      return Ext(canon_ext(f'{o.path}.{name}'))
    if isinstance(o, Inst):
      m, c = o.cls.lookup(name)
      if isinstance(m, Property) and not (m.cached and name in o.attrs):
        q = m.fget.qualname if isinstance(m.fget, Func) else None
        v = self.call(Bound(m.fget, o), [], {}, node, mod)
        if m.cached:
          o.attrs[name] = v
        return v
      if name in o.attrs:
        return o.attrs[name]
      if m is not None:
        return self.bind(m, o, o.cls)
      if name == '__class__':
        return o.cls
      if name == '__dict__':
        return VDict(o.attrs)
      if name == '_replace' and o.cls.is_namedtuple:
        return Native('_replace', lambda it, a, k, n: Inst(
            o.cls, {**o.attrs, **k}))
      r = self.domain.inst_attr(o, name, node)
      if r is not None:
        return r
      raise AbsRaise('AttributeError', (o.cls.name, name), node, mod)
    if isinstance(o, Cls):
      m, c = o.lookup(name)
      if m is not None:
        if isinstance(m, ClassMethod):
          return Bound(m.func, o)
        if isinstance(m, StaticMethod):
          return m.func
        return m
      if name == '__name__':
        return o.name
      raise AbsRaise('AttributeError', (o.name, name), node, mod)
    if isinstance(o, SuperProxy):
      obj = o.obj
      cls = obj.cls if isinstance(obj, Inst) else obj
      mro = cls.mro()
      i = mro.index(o.cls)
      for c in mro[i + 1:]:
        if name in c.ns:
          return self.bind(c.ns[name], obj, cls)
      if name == '__init__':
        return Native('object.__init__', lambda it, a, k, n: None)
      raise AbsRaise('AttributeError', ('super', name), node, mod)
    if isinstance(o, (VList, VDict, VSet, tuple, str, bytes)):
      return BoundNative(o, name)
    if isinstance(o, (int, float)) and not isinstance(o, bool):
      if name in ('bit_length', 'item', 'astype', 'is_integer', 'to_bytes'):
        return BoundNative(o, name)
      if name in ('real',):
        return o.real
      if name == 'imag':
        return o.imag
      if name == 'shape':
        return ()
    if isinstance(o, complex) and name in ('real', 'imag'):
      return getattr(o, name)
    if isinstance(o, slice):
      return getattr(o, name)
    if isinstance(o, AbsVal):
      return o.abs_getattr(self, name, node)
    if isinstance(o, Func):
      if name in o.attrs:
        return o.attrs[name]
      if name in ('__name__', '__qualname__'):
        return o.node.name
    if isinstance(o, (Wrapped, Partial, Bound)):
      r = self.domain.wrapped_attr(o, name)
      if r is not None:
        return r
      if name == '__name__':
        return 'fn'
      if name == 'func' and isinstance(o, Partial):
        return o.func
    r = self.domain.getattr_unknown(o, name, node)
    if r is not None:
      return r
    raise AnalysisError(f'attribute {name} of {o!r}', node, mod)

  def bind(self, m, obj, cls):
    if isinstance(m, ClassMethod):
      return Bound(m.func, cls)
    if isinstance(m, StaticMethod):
      return m.func
    if isinstance(m, Property):
      return self.call(Bound(m.fget, obj), [], {})
    if isinstance(m, (Func, Wrapped, Partial)):
      return Bound(m, obj)
    return m

  def setattr_(self, o, name, v, node, mod):
    if isinstance(o, Inst):
      if o.cls.dataclass is not None and o.cls.dataclass.get('frozen'):
        raise AbsRaise('FrozenInstanceError', (), node, mod)
      self.domain.on_setattr(o, name, v, node, mod)
      o.attrs[name] = v
      return
    if isinstance(o, Cls):
      o.ns[name] = v
      return
    if isinstance(o, Func):
      o.attrs[name] = v
      return
    if isinstance(o, AbsVal):
      return o.abs_setattr(self, name, v, node)
    raise AnalysisError(f'attribute store on {o!r}', node, mod)

  def getitem(self, o, k, node=None, mod=None):
    if isinstance(o, (VList, tuple, str, bytes, range)):
      seq = o.items if isinstance(o, VList) else o
      if isinstance(k, bool) or isinstance(k, int):
        try:
          return seq[k]
        except IndexError:
          raise AbsRaise('IndexError', (), node, mod)
      if isinstance(k, slice) and is_concrete(k):
        r = seq[k]
        return VList(r) if isinstance(o, VList) else r
      if isinstance(k, (VList,)):
        raise AbsRaise('TypeError', (), node, mod)
      r = self.domain.seq_index(o, k, node, mod)
      if r is not None:
        return r
      raise AnalysisError(f'abstract index {k!r}', node, mod)
    if isinstance(o, VDict):
      try:
        if k in o.d:
          return o.d[k]
      except TypeError:
        pass
      r = self.domain.dict_index(o, k, node, mod)
      if r is not None:
        return r
      if is_prim(k):
        raise AbsRaise('KeyError', (k,), node, mod)
      raise AnalysisError('abstract dict key', node, mod)
    if isinstance(o, Inst):
      if o.cls.is_namedtuple and isinstance(k, int):
        return o.attrs[o.cls.fields[k]]
      m, _ = o.cls.lookup('__getitem__')
      if m is not None:
        return self.call(Bound(m, o), [k], {}, node, mod)
    if isinstance(o, Cls) and o.is_enum and k in o.ns:
      return o.ns[k]
    if isinstance(o, (Ext, Cls)):
      return o  # typing subscripts
    if isinstance(o, AbsVal):
      return o.abs_getitem(self, k, node)
    if isinstance(o, Unk):
      return self.domain.unk_getitem(o, k, node)
    r = self.domain.getitem_unknown(o, k, node, mod)
    if r is not None:
      return r
    raise AnalysisError(f'subscript of {o!r}', node, mod)

  def setitem(self, o, k, v, node, mod):
    if isinstance(o, VList):
      self.domain.on_mutate(o, 'list item store', node, mod)
      if isinstance(k, int):
        try:
          o.items[k] = v
        except IndexError:
          raise AbsRaise('IndexError', (), node, mod)
        return
      if isinstance(k, slice) and is_concrete(k):
        o.items[k] = self.iterate(v, node, mod)
        return
      raise AnalysisError('abstract list store', node, mod)
    if isinstance(o, VDict):
      o.d[k] = v
      return
    if isinstance(o, Inst):
      m, _ = o.cls.lookup('__setitem__')
      if m is not None:
        return self.call(Bound(m, o), [k, v], {}, node, mod)
    if isinstance(o, AbsVal):
      return o.abs_setitem(self, k, v, node)
    raise AnalysisError(f'item store on {o!r}', node, mod)

  # ------------------------------------------------------------ calls
  def call(self, f, args, kwargs, node=None, mod=None):
    r = self.domain.pre_call(f, args, kwargs, node, mod)
    if r is not NotImplemented:
      return r
    if isinstance(f, Bound):
      if isinstance(f.func, Func):
        return self.call_func(f.func, [f.self_obj] + list(args), kwargs, node,
                              mod)
      return self.call(f.func, [f.self_obj] + list(args), kwargs, node, mod)
    if isinstance(f, Func):
      return self.call_func(f, args, kwargs, node, mod)
    if isinstance(f, Partial):
      return self.call(f.func, f.args + list(args), {**f.kwargs, **kwargs},
                       node, mod)
    if isinstance(f, Native):
      return f.fn(self, list(args), kwargs, node)
    if isinstance(f, Cls):
      return self.instantiate(f, args, kwargs, node, mod)
    if isinstance(f, Wrapped):
      return self.domain.call_wrapped(f, args, kwargs, node, mod)
    if isinstance(f, Ext):
      return self.domain.call_ext(f.path, list(args), kwargs, node, mod)
    if isinstance(f, BoundNative):
      return self.call_native_method(f, args, kwargs, node, mod)
    if isinstance(f, AbsVal):
      return f.abs_call(self, args, kwargs, node)
    if isinstance(f, Inst):
      m, _ = f.cls.lookup('__call__')
      if m is not None:
        return self.call(Bound(m, f), args, kwargs, node, mod)
    if isinstance(f, StaticMethod):
      return self.call(f.func, args, kwargs, node, mod)
    r = self.domain.call_unknown(f, args, kwargs, node, mod)
    if r is not None:
      return r
    raise AnalysisError(f'call of {f!r}', node, mod)

  def call_func(self, f, args, kwargs, node=None, mod=None):
    s = self.domain.summary(f.qualname)
    if s is not None:
      bound = self.bind_args(f, args, kwargs, node, mod)
      r = s(self, bound, node, mod)
      if r is not NotImplemented:
        return r
    env = self.bind_args(f, args, kwargs, node, mod)
    if self.domain.stage_jit and f.marks:
      st = self.domain.stage(f, env)
      if st is not None:
        env, undo = st
        try:
          return self.run_func(f, env, node, mod)
        finally:
          undo()
    return self.run_func(f, env, node, mod)

  def run_func(self, f, env, node, mod):
    fr = Frame(env, f.module, f, f.closure)
    self.inlined.add(f.qualname)
    self.depth += 1
    if self.depth > 400:
      raise AnalysisError('recursion too deep', node, mod)
    self.callstack.append((f.qualname, getattr(node, 'lineno', 0),
                           getattr(mod, 'relpath', '?')))
    try:
      self.exec_block(f.node.body, fr)
      r = None
    except ReturnEx as e:
      r = e.value
    finally:
      self.depth -= 1
      self.callstack.pop()
    return self.domain.post_call(f, env, r, node, mod)

  def bind_args(self, f, args, kwargs, node, mod):
    a = f.node.args
    env = {}
    pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
    args = list(args)
    if len(args) > len(pos) and a.vararg is None:
      raise AbsRaise('TypeError', ('too many positional args', f.qualname),
                     node, mod)
    for n, v in zip(pos, args):
      env[n] = v
    if a.vararg is not None:
      env[a.vararg.arg] = tuple(args[len(pos):])
    extra = {}
    kwonly = [x.arg for x in a.kwonlyargs]
    for k, v in kwargs.items():
      if k in pos or k in kwonly:
        if k in env:
          raise AbsRaise('TypeError', ('duplicate arg ' + k, f.qualname), node,
                         mod)
        env[k] = v
      elif a.kwarg is not None:
        extra[k] = v
      else:
        raise AbsRaise('TypeError', ('unexpected kwarg ' + k, f.qualname),
                       node, mod)
    if a.kwarg is not None:
      env[a.kwarg.arg] = VDict(extra)
    nd = len(f.defaults)
    for n, d in zip(pos[len(pos) - nd:], f.defaults):
      if n not in env:
        env[n] = d
    for n in kwonly:
      if n not in env and n in f.kw_defaults:
        env[n] = f.kw_defaults[n]
    for n in pos + kwonly:
      if n not in env:
        raise AbsRaise('TypeError', ('missing arg ' + n, f.qualname), node, mod)
    return env

  def instantiate(self, c, args, kwargs, node, mod):
    s = self.domain.summary(c.qualname)
    if s is not None:
      r = s(self, {'args': args, 'kwargs': kwargs, 'cls': c}, node, mod)
      if r is not NotImplemented:
        return r
    if c.is_enum and args:
      for v in c.ns.values():
        if isinstance(v, Inst) and v.attrs.get('value') == args[0]:
          return v
    o = Inst(c)
    m, mc = c.lookup('__init__')
    if m is not None:
      self.call(Bound(m, o), args, kwargs, node, mod)
      return o
    if c.dataclass is not None:
      names = [f for f in c.fields if not (
          isinstance(c.lookup(f)[0], FieldSpec) and not c.lookup(f)[0].init)]
      if len(args) > len(names):
        raise AbsRaise('TypeError', ('dataclass args', c.qualname), node, mod)
      for n, v in zip(names, args):
        o.attrs[n] = v
      for k, v in kwargs.items():
        if k not in names or k in o.attrs:
          raise AbsRaise('TypeError', ('dataclass kwarg ' + k, c.qualname),
                         node, mod)
        o.attrs[k] = v
      for n in c.fields:
        if n not in o.attrs:
          d, _ = c.lookup(n)
          if isinstance(d, FieldSpec):
            if not d.init and not d.has_default and d.factory is None:
              continue
            if d.factory is not None:
              o.attrs[n] = self.call(d.factory, [], {}, node, mod)
            elif d.has_default:
              o.attrs[n] = d.default
            else:
              raise AbsRaise('TypeError', ('missing field ' + n, c.qualname),
                             node, mod)
          elif n in c.ns or any(n in b.ns for b in c.mro()):
            o.attrs[n] = d
          else:
            raise AbsRaise('TypeError', ('missing field ' + n, c.qualname),
                           node, mod)
      m, _ = c.lookup('__post_init__')
      if m is not None:
        frozen = c.dataclass.get('frozen')
        self.call(Bound(m, o), [], {}, node, mod)
      return o
    if args or kwargs:
      # no __init__ found (external base): keep args
      o.attrs['__args__'] = tuple(args)
      o.attrs['__kwargs__'] = dict(kwargs)
    return o

  def call_native_method(self, f, args, kwargs, node, mod):
    o, n = f.obj, f.name
    if isinstance(o, VList):
      if n == 'append':
        self.domain.on_mutate(o, 'append', node, mod)
        o.items.append(args[0])
        return None
      if n == 'extend':
        self.domain.on_mutate(o, 'extend', node, mod)
        o.items.extend(self.iterate(args[0], node, mod))
        return None
      if n == 'insert':
        self.domain.on_mutate(o, 'insert', node, mod)
        o.items.insert(args[0], args[1])
        return None
      if n == 'pop':
        self.domain.on_mutate(o, 'pop', node, mod)
        try:
          return o.items.pop(*args)
        except IndexError:
          raise AbsRaise('IndexError', (), node, mod)
      if n == 'copy':
        return VList(o.items)
      if n == 'reverse':
        self.domain.on_mutate(o, 'reverse', node, mod)
        o.items.reverse()
        return None
      if n == 'clear':
        self.domain.on_mutate(o, 'clear', node, mod)
        o.items.clear()
        return None
      if n == 'index':
        for i, x in enumerate(o.items):
          if self.truth(self.compare('==', x, args[0], node, mod)):
            return i
        raise AbsRaise('ValueError', (), node, mod)
      if n == 'count' and is_concrete(o):
        return o.items.count(args[0])
      if n == 'sort' and is_concrete(o):
        o.items.sort()
        return None
    if isinstance(o, tuple):
      if n == 'index':
        for i, x in enumerate(o):
          if self.truth(self.compare('==', x, args[0], node, mod)):
            return i
        raise AbsRaise('ValueError', (), node, mod)
      if n == 'count':
        return o.count(args[0])
    if isinstance(o, VDict):
      if n == 'items':
        return VList([(k, v) for k, v in o.d.items()])
      if n == 'keys':
        return VList(o.d.keys())
      if n == 'values':
        return VList(o.d.values())
      if n == 'get':
        if args[0] in o.d:
          return o.d[args[0]]
        return args[1] if len(args) > 1 else None
      if n == 'update':
        if args:
          o.d.update(args[0].d)
        o.d.update(kwargs)
        return None
      if n == 'setdefault':
        return o.d.setdefault(args[0], args[1] if len(args) > 1 else None)
      if n == 'pop':
        if args[0] in o.d:
          return o.d.pop(args[0])
        return args[1]
      if n == 'copy':
        return VDict(o.d)
    if isinstance(o, VSet):
      if n == 'add':
        o.s.append(args[0])
        return None
    if isinstance(o, (str, bytes)):
      if all(is_concrete(a) for a in args) and not kwargs:
        if n == 'join':
          return o.join(self.iterate(args[0]))
        try:
          r = getattr(o, n)(*args)
        except Exception as ex:
          raise AbsRaise(type(ex).__name__, (), node, mod)
        return VList(r) if isinstance(r, list) else r
      return Unk('str')
    if isinstance(o, (int, float)):
      if n == 'bit_length':
        return o.bit_length()
      if n == 'item':
        return o
      if n == 'astype':
        return o
      if n == 'is_integer':
        return float(o).is_integer()
      if n == 'to_bytes':
        a = list(args)
        try:
          return o.to_bytes(*a, **kwargs)
        except OverflowError:
          raise AbsRaise('OverflowError', (), node, mod)
    raise AnalysisError(f'method {n} of {type(o).__name__}', node, mod)


def compared_fields(c):
  return [f for f in c.fields if not (
      isinstance(c.lookup(f)[0], FieldSpec) and not c.lookup(f)[0].compare)]


class FieldSpec:

  def __init__(self, has_default=False, default=None, factory=None, init=True,
               compare=True):
    self.init = init
    self.compare = compare
    self.has_default = has_default
    self.default = default
    self.factory = factory


IDENT_DECOS = {
    'jax.named_call', 'jax.jit',
    'abc.abstractmethod', 'typing.overload', 'functools.wraps',
    'typing_extensions.override', 'typing.override', 'jax.named_scope',
}

_CANON = [
    ('jax.numpy', 'jnp'),
    ('numpy', 'np'),
    ('jax._src', 'jax'),
]


def canon_ext(path):
  for a, b in _CANON:
    if path == a:
      return b
    if path.startswith(a + '.'):
      return b + path[len(a):]
  return path
