"""Polynomial value-numbering domain.

A value is a polynomial with rational coefficients over interned atoms; ring
operations are normalised, every other operation becomes an atom keyed by the
normal forms of its operands.  Two values with equal normal form are equal for
every valuation of the atoms.
"""
from fractions import Fraction
import core


class Atom:
  __slots__ = ('op', 'args', 'idx', 'meta')

  def __init__(self, op, args, idx):
    self.op = op
    self.args = args
    self.idx = idx
    self.meta = None

  def __repr__(self):
    if not self.args:
      return str(self.op)
    return f'{self.op}({", ".join(map(repr, self.args))})'

  def __lt__(self, o):
    return self.idx < o.idx


_TAB = {}


def _k(x):
  if isinstance(x, Poly):
    return ('P', x.key())
  if isinstance(x, (list, tuple)):
    return ('T',) + tuple(_k(y) for y in x)
  if isinstance(x, core.VList):
    return ('L',) + tuple(_k(y) for y in x.items)
  if isinstance(x, core.AbsVal):
    return ('A', x.abs_key())
  if isinstance(x, (int, str, float, bool, Fraction, type(None), core.Ext)):
    return (type(x).__name__, x)
  if isinstance(x, slice):
    return ('slice', _k(x.start), _k(x.stop), _k(x.step))
  return ('id', id(x))


def atom(op, *args):
  key = (op,) + tuple(_k(a) for a in args)
  a = _TAB.get(key)
  if a is None:
    a = Atom(op, args, len(_TAB))
    _TAB[key] = a
  return a


def term(op, *args):
  return Poly({((atom(op, *args), 1),): 1})


PIN = {}  # symbols fixed while a counterexample path is being confirmed


def sym(name):
  if PIN and name in PIN:
    return const(PIN[name])
  return term(name)


def const(c):
  return Poly({(): c} if c else {})


class Cond(core.AbsVal):
  """An undecided comparison / boolean."""

  def __init__(self, op, *args):
    self.op = op
    self.args = args

  def abs_key(self):
    return (self.op,) + tuple(_k(a) for a in self.args)

  def __repr__(self):
    return f'{self.op}({", ".join(map(repr, self.args))})'

  def abs_method(self, interp, name, args, kwargs, node):
    if name in ('all', 'any', 'item'):
      return self
    if name == 'astype':
      return term('bool2int', self)
    return super().abs_method(interp, name, args, kwargs, node)

  def abs_getattr(self, interp, name, node):
    return core.Native(
        name, lambda it, a, k, n: self.abs_method(it, name, a, k, n))


def _mulmono(a, b):
  if not a:
    return b
  if not b:
    return a
  d = dict(a)
  for k, e in b:
    d[k] = d.get(k, 0) + e
  return tuple(sorted(((k, e) for k, e in d.items() if e), key=lambda t: t[0].idx))


class Poly(core.AbsVal):
  __slots__ = ('t', '_key', 'rng')

  def __init__(self, t):
    self.t = t
    self._key = None
    self.rng = None  # a proven (lo, hi), for domains that track one

  def abs_iter(self, interp, node):
    raise core.AbsRaise('TypeError', ('not iterable',), node)

  def key(self):
    if self._key is None:
      self._key = frozenset(
          (tuple((a.idx, e) for a, e in m), c) for m, c in self.t.items())
    return self._key

  def abs_key(self):
    return self.key()

  def __eq__(self, o):
    if isinstance(o, Poly):
      return self.key() == o.key()
    if isinstance(o, (int, Fraction)):
      return self.t == ({(): o} if o else {})
    return NotImplemented

  def __hash__(self):
    return hash(self.key())

  @property
  def is_const(self):
    return not self.t or (len(self.t) == 1 and () in self.t)

  @property
  def cval(self):
    return self.t.get((), 0)

  def abs_truth(self):
    if self.is_const:
      return bool(self.cval)
    return None

  @staticmethod
  def lift(x):
    if isinstance(x, Poly):
      return x
    if isinstance(x, bool):
      return const(int(x))
    if isinstance(x, (int, Fraction)):
      return const(x)
    if isinstance(x, float) and x.is_integer():
      return const(int(x))
    if isinstance(x, Cond):
      return term('bool2int', x)
    if isinstance(x, core.Unk):
      return term('unk', id(x))
    return None

  def _bin(self, o, f):
    o = Poly.lift(o)
    if o is None:
      return NotImplemented
    return f(self, o)

  def __add__(self, o):
    o = Poly.lift(o)
    if o is None:
      return NotImplemented
    t = dict(self.t)
    for m, c in o.t.items():
      n = t.get(m, 0) + c
      if n:
        t[m] = n
      else:
        t.pop(m, None)
    return Poly(t)

  __radd__ = __add__

  def __neg__(self):
    return Poly({m: -c for m, c in self.t.items()})

  def __sub__(self, o):
    o = Poly.lift(o)
    if o is None:
      return NotImplemented
    return self + (-o)

  def __rsub__(self, o):
    o = Poly.lift(o)
    if o is None:
      return NotImplemented
    return o + (-self)

  def __mul__(self, o):
    o = Poly.lift(o)
    if o is None:
      return NotImplemented
    a, b = self.t, o.t
    if len(a) * len(b) > 400000:
      raise core.AnalysisError('polynomial too large')
    t = {}
    for m1, c1 in a.items():
      for m2, c2 in b.items():
        m = _mulmono(m1, m2)
        n = t.get(m, 0) + c1 * c2
        if n:
          t[m] = n
        else:
          t.pop(m, None)
    return Poly(t)

  __rmul__ = __mul__

  def __pow__(self, n):
    if isinstance(n, Poly) and n.is_const:
      n = n.cval
    if not isinstance(n, int) or n < 0:
      return term('**', self, n)
    r = const(1)
    for _ in range(n):
      r = r * self
    return r

  def subst(self, mp):
    """mp: Atom -> Poly."""
    r = const(0)
    cache = {}
    for m, c in self.t.items():
      p = const(c)
      for a, e in m:
        if a in mp:
          k = (a, e)
          if k not in cache:
            cache[k] = mp[a]**e
          p = p * cache[k]
        else:
          p = p * Poly({((a, e),): 1})
      r = r + p
    return r

  def atoms(self):
    s = set()
    for m in self.t:
      for a, e in m:
        s.add(a)
    return s

  def all_atoms(self):
    out = set()

    def go(x):
      if isinstance(x, Poly):
        for a in x.atoms():
          if a not in out:
            out.add(a)
            for y in a.args:
              go(y)
      elif isinstance(x, Cond):
        for y in x.args:
          go(y)
      elif isinstance(x, (list, tuple)):
        for y in x:
          go(y)
      elif isinstance(x, core.VList):
        for y in x.items:
          go(y)

    go(self)
    return out

  def degree_in(self, a):
    return max((dict(m).get(a, 0) for m in self.t), default=0)

  def coeff(self, a, e):
    t = {}
    for m, c in self.t.items():
      d = dict(m)
      if d.get(a, 0) == e:
        d.pop(a, None)
        mm = tuple(sorted(d.items(), key=lambda q: q[0].idx))
        t[mm] = t.get(mm, 0) + c
    return Poly({m: c for m, c in t.items() if c})

  def linear(self):
    """{atom: coeff}, constant -- or None if not linear."""
    out = {}
    c0 = 0
    for m, c in self.t.items():
      if not m:
        c0 = c
      elif len(m) == 1 and m[0][1] == 1:
        out[m[0][0]] = c
      else:
        return None
    return out, c0

  def __repr__(self):
    if not self.t:
      return '0'
    parts = []
    for m, c in sorted(self.t.items(), key=lambda mc: [(a.idx, e) for a, e in mc[0]]):
      s = '*'.join(repr(a) + (f'^{e}' if e > 1 else '') for a, e in m)
      if not s:
        parts.append(str(c))
      elif c == 1:
        parts.append(s)
      elif c == -1:
        parts.append('-' + s)
      else:
        parts.append(f'{c}*{s}')
    r = ' + '.join(parts).replace('+ -', '- ')
    return r if len(r) < 2000 else r[:2000] + '...'

  def abs_getattr(self, interp, name, node):
    if name in ('astype', 'item', 'bit_length', 'copy', 'block_until_ready'):
      return core.Native(
          name, lambda it, a, k, n: self if name != 'bit_length' else term(
              'bit_length', self))
    if name == 'shape':
      return ()
    if name == 'ndim':
      return 0
    if name == 'size':
      return 1
    if name == 'dtype':
      return core.Unk('dtype')
    raise core.AnalysisError(f'attribute {name} of scalar {self!r}', node)


def binop(op, a, b):
  """Ring ops normalised, others become atoms; None if not liftable."""
  if isinstance(a, core.Unk) or isinstance(b, core.Unk):
    return core.Unk('op on unknown')
  pa, pb = Poly.lift(a), Poly.lift(b)
  if pa is None or pb is None:
    if isinstance(a, float) or isinstance(b, float):
      return term(op, a, b)
    return None
  if pa.is_const and pb.is_const and isinstance(pa.cval, int) and isinstance(
      pb.cval, int):
    try:
      r = core.PYOPS[op](pa.cval, pb.cval)
    except ZeroDivisionError:
      raise core.AbsRaise('ZeroDivisionError')
    return const(r) if isinstance(r, int) else r
  if op == '+':
    return pa + pb
  if op == '-':
    return pa - pb
  if op == '*':
    return pa * pb
  if op == '**' and pb.is_const:
    return pa**pb.cval
  if op == '<<' and pb.is_const:
    return pa * const(2**pb.cval)
  if op == '<<':
    return pa * term('**', 2, pb)
  if op == '/' and pb.is_const and pb.cval:
    return pa * const(Fraction(1, pb.cval))
  if op in ('|', '&', '^'):
    x, y = sorted([pa, pb], key=lambda p: sorted(map(repr, p.key())))
    return term(op, x, y)
  if op == '**' and pa.is_const:
    return term('**', pa.cval, pb)
  if pb.is_const and op in ('>>', '//', '%'):
    return term(op, pa, pb.cval)
  return term(op, pa, pb)


def compare(op, a, b):
  if isinstance(a, core.Unk) or isinstance(b, core.Unk):
    return Cond(op, a, b)
  pa, pb = Poly.lift(a), Poly.lift(b)
  if pa is None or pb is None:
    return Cond(op, a, b)
  d = pa - pb
  if d.is_const:
    return core.PYOPS[op](d.cval, 0)
  if op == '==':
    return Cond('==0', _norm(d))
  if op == '!=':
    return Cond('!=0', _norm(d))
  if op == '<':
    return Cond('<0', d)
  if op == '>':
    return Cond('<0', -d)
  if op == '<=':
    return Cond('<=0', d)
  if op == '>=':
    return Cond('<=0', -d)
  return Cond(op, pa, pb)


def _norm(d):
  # sign-normalise for ==/!=
  m = min(d.t, key=lambda m: [(a.idx, e) for a, e in m])
  return -d if d.t[m] < 0 else d


def negate(c):
  if isinstance(c, Cond):
    if c.op == '==0':
      return Cond('!=0', *c.args)
    if c.op == '!=0':
      return Cond('==0', *c.args)
    if c.op == '<0':
      return Cond('<=0', -c.args[0])
    if c.op == '<=0':
      return Cond('<0', -c.args[0])
    if c.op == 'not':
      return c.args[0]
  return Cond('not', c)


def negate_key(key):
  if not isinstance(key, tuple) or not key:
    return None
  if key[0] == '==0':
    return ('!=0',) + key[1:]
  if key[0] == '!=0':
    return ('==0',) + key[1:]
  return None
