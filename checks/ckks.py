"""Exact integer domain for the RNS arithmetic of jaxite_ckks.

A cell is an exact integer expression: a polynomial with rational
coefficients over input symbols and atoms
    rem(P, c)          the canonical residue of the integer P modulo c
    where(cond, P, Q)  a data-dependent selection
so a shift is (P - rem(P, 2^k)) / 2^k, a mask is rem(P, 2^k) and % q is
rem(P, q).  An expression stored in a fixed-width dtype stands for its class
modulo 2^w; it is brought back into the range of the dtype only where its
value is observed (shift, comparison, remainder, widening), so an overflow
that matters appears as a rem(P, 2^w) that does not cancel.

Every expression carries a proven value range.  canon(P, q) is the residue
polynomial of P modulo q over the inputs: equal canonical forms are congruent
for all inputs.
"""
import ast
from fractions import Fraction
import math
import random as rnd_

import numpy as np

import core
import poly
import sarr
from common import NoEval
from core import AbsRaise, AnalysisError, Inst, Native, Unk, VList, is_prim
from domain import Domain
from moddom import W, wrap
from poly import Cond, Poly, term
from sarr import SArr


def ilo(x):
  return math.ceil(x)


def ihi(x):
  return math.floor(x)


def import_closure(interp, mods):
  """the repository modules loaded by importing mods, in order."""
  seen, todo = [], [interp.repo.canonical(m) for m in mods]
  while todo:
    m = todo.pop(0)
    if m in seen or not interp.repo.path_of(m):
      continue
    seen.append(m)
    mod = interp.module(m)
    pk = m.split('.')[:-1]
    for st in ast.walk(mod.tree):
      names = []
      if isinstance(st, ast.Import):
        names = [a.name for a in st.names]
      elif isinstance(st, ast.ImportFrom):
        base = '.'.join(([] if not st.level else pk[:len(pk) - st.level + 1]) +
                        ([st.module] if st.module else []))
        names = [base] + [f'{base}.{a.name}' for a in st.names]
      todo += [interp.repo.canonical(n) for n in names
               if interp.repo.path_of(interp.repo.canonical(n))]
  return seen


def x64_after(interp, mods):
  for m in import_closure(interp, mods):
    tree = interp.module(m).tree
    off = set()
    for n in ast.walk(tree):
      if isinstance(n, ast.Call) and len(n.args) == 2 and isinstance(
          n.args[1], ast.Constant) and not n.args[1].value:
        off.add(id(n.args[0]))
    for n in ast.walk(tree):
      if id(n) in off:
        continue
      if (isinstance(n, ast.Constant) and n.value in (
          'jax_enable_x64', 'JAX_ENABLE_X64')) or (
              isinstance(n, ast.Attribute) and n.attr in (
                  'jax_enable_x64', 'enable_x64')):
        return True
  return False


class CkksDomain(Domain):

  def __init__(self):
    super().__init__()
    self.ranges = {}
    self.x64 = False
    self._canon = {}
    sarr.PER_LIB = True

  def importing(self, interp, *mods):
    """64-bit mode as left by importing just these modules."""
    self.x64 = x64_after(interp, mods)
    sarr.X64 = self.x64

  def ext_hook(self, path, args, kwargs, node, mod):
    if path.endswith('config.update') and args and args[0] == 'jax_enable_x64':
      return None
    return super().ext_hook(path, args, kwargs, node, mod)

  # ------------------------------------------------------------------ symbols
  def sym(self, name, lo, hi):
    if lo == hi:
      return poly.const(lo)
    # expressions are interned with their ranges: one name per range
    name = f'{name}<{hi}' if lo == 0 else f'{name}<{lo}:{hi}'
    self.ranges[name] = (lo, hi)
    p = poly.sym(name)
    p.rng = (lo, hi)
    return p

  # ------------------------------------------------------------------- ranges
  def atom_rng(self, a):
    if not a.args:
      return self.ranges.get(a.op)
    if a.op == 'rem':
      return (0, a.args[1] - 1)
    if a.op == 'where':
      return a.meta
    if a.op == 'ind':
      return (0, 1)
    return None

  def poly_range(self, p):
    lo = hi = 0
    for mono, c in p.t.items():
      if not isinstance(c, (int, Fraction)):
        return None
      mlo = mhi = 1
      for a, e in mono:
        r = self.atom_rng(a)
        if r is None:
          return None
        for _ in range(e):
          q = (mlo * r[0], mlo * r[1], mhi * r[0], mhi * r[1])
          mlo, mhi = min(q), max(q)
      if c >= 0:
        lo, hi = lo + c * mlo, hi + c * mhi
      else:
        lo, hi = lo + c * mhi, hi + c * mlo
    return lo, hi

  def rng(self, p, deep=True):
    """A proven integer range of p (every cell is integer valued) or None."""
    if isinstance(p, bool):
      return (int(p), int(p))
    if isinstance(p, int):
      return (p, p)
    if not isinstance(p, Poly):
      return None
    if p.rng is not None:
      return p.rng
    r = self.poly_range(p)
    if deep and p.t:
      for d in self.parts(p):
        m0 = next(iter(d.t))
        if m0 == () and len(d.t) > 1:
          m0 = next(m for m in d.t if m)
        c0 = p.t.get(m0)
        if c0 is None:
          continue
        al = Fraction(c0) / d.t[m0]
        rest = p - d * poly.const(al)
        rr = self.poly_range(rest)
        if rr is None:
          continue
        dl, dh = d.rng
        x, y = al * dl, al * dh
        if x > y:
          x, y = y, x
        cand = (rr[0] + x, rr[1] + y)
        r = cand if r is None else (max(r[0], cand[0]), min(r[1], cand[1]))
    if r is None:
      return None
    p.rng = (ilo(r[0]), ihi(r[1]))
    return p.rng

  def parts(self, p):
    """ranged sub-expressions named inside the rem atoms of p."""
    seen = {}
    for mono in p.t:
      for a, _ in mono:
        if a.op == 'rem':
          d = a.args[0]
          if isinstance(d, Poly) and d.rng is not None and len(d.t) > 1:
            seen[d.key()] = d
    return list(seen.values())[:8]

  @staticmethod
  def norm(p):
    if isinstance(p, Poly) and p.is_const:
      c = p.cval
      return int(c) if isinstance(c, Fraction) and c.denominator == 1 else c
    return p

  def put(self, p, r):
    """p with the range r known for it (intersected with what p says)."""
    p = self.norm(p)
    if not isinstance(p, Poly):
      return p
    if r is not None:
      s = p.rng
      if s is None and len(p.t) <= 3:
        s = self.poly_range(p)
      if s is not None:
        r = (max(ilo(s[0]), r[0]), min(ihi(s[1]), r[1]))
      p.rng = r
    return p

  # ------------------------------------------------------------------ residues
  def rem(self, p, c):
    p = self.norm(p)
    if isinstance(p, int):
      return p % c
    if c == 1:
      return 0
    r = self.rng(p)
    if r is not None and r[0] // c == r[1] // c:
      return self.put(p - poly.const(c * (r[0] // c)),
                      (r[0] - c * (r[0] // c), r[1] - c * (r[0] // c)))
    if len(p.t) == 1:
      (mono, k), = p.t.items()
      if k == 1 and len(mono) == 1 and mono[0][1] == 1:
        a = mono[0][0]
        if a.op == 'rem' and a.args[1] % c == 0:
          return self.rem(a.args[0], c)
    # rem((X - rem(X, a)) / a, c) = (rem(X, a c) - rem(X, a)) / a
    for mono, k in p.t.items():
      if isinstance(k, Fraction) and k.numerator == -1 and len(mono) == 1 and (
          mono[0][1] == 1 and mono[0][0].op == 'rem'):
        at = mono[0][0]
        x, a = at.args
        if a == k.denominator and p * poly.const(a) + term('rem', x, a) == x:
          big = self.rem(x, a * c)
          q = (Poly.lift(big) - term('rem', x, a)) * poly.const(Fraction(1, a))
          return self.put(q, (0, c - 1))
    if c % 2:
      p2 = self.canon(p, c)
      p2 = self.norm(p2)
      if isinstance(p2, int):
        return p2 % c
      if len(p2.t) == 1:
        (mono, k), = p2.t.items()
        if k == 1 and len(mono) == 1 and mono[0][1] == 1:
          rr = self.atom_rng(mono[0][0])
          if rr is not None and rr[0] >= 0 and rr[1] < c:
            return self.put(p2, rr)
      p = p2
    return self.put(term('rem', p, c), (0, c - 1))

  def fdiv(self, p, c):
    p = self.norm(p)
    if isinstance(p, int):
      return p // c
    r = self.rng(p)
    m = self.rem(p, c)
    q = (p - Poly.lift(m)) * poly.const(Fraction(1, c))
    return self.put(q, None if r is None else (r[0] // c, r[1] // c))

  def canon(self, p, q):
    """The class of p modulo the odd number q, over inputs."""
    if isinstance(p, bool):
      p = int(p)
    if isinstance(p, int):
      return poly.const(p % q)
    if not isinstance(p, Poly):
      raise AnalysisError(f'not an integer: {p!r}')
    key = (p.key(), q)
    h = self._canon.get(key)
    if h is not None:
      return h
    out = {}

    def add(mono, c):
      v = (out.get(mono, 0) + c) % q
      if v:
        out[mono] = v
      else:
        out.pop(mono, None)

    for mono, c in p.t.items():
      if isinstance(c, Fraction):
        if math.gcd(c.denominator, q) != 1:
          raise AnalysisError(f'class modulo {q} of a quotient by '
                              f'{c.denominator}')
        c = c.numerator * pow(c.denominator, -1, q)
      if not isinstance(c, int):
        raise AnalysisError('not an integer polynomial')
      c %= q
      if not c:
        continue
      subs, keep = [], []
      for a, e in mono:
        s = self.atom_class(a, q)
        if s is None:
          keep.append((a, e))
        else:
          subs += [s] * e
      if not subs:
        add(mono, c)
        continue
      t = Poly({tuple(keep): c})
      for s in subs:
        t = t * s
        t = Poly({m: v % q for m, v in t.t.items() if v % q})
      for m, v in t.t.items():
        add(m, v)
    r = Poly(out)
    self._canon[key] = r
    return r

  def atom_class(self, a, q):
    if a.op == 'rem' and a.args and a.args[1] % q == 0:
      return self.canon(a.args[0], q)
    if a.op == 'where':
      x, y = self.canon(a.args[1], q), self.canon(a.args[2], q)
      if x == y:
        return x
      i = self.indicator(a.args[0])
      if i is not None:
        return self.canon(y + (x - y) * i, q)
    return None

  @staticmethod
  def indicator(c):
    """The condition as a 0/1 polynomial in one atom of a fixed form."""
    if not isinstance(c, Cond) or c.op not in ('<0', '<=0'):
      return None
    d = c.args[0]
    if any(isinstance(k, Fraction) for k in d.t.values()):
      return None
    if c.op == '<=0':
      d = d - poly.const(1)
    lead = min((m for m in d.t if m), default=None,
               key=lambda m: [(a.idx, e) for a, e in m])
    if lead is not None and d.t[lead] < 0:
      return poly.const(1) - term('ind', -d - poly.const(1))
    return term('ind', d)

  # ---------------------------------------------------------------- fixed width
  def obs(self, x, dt):
    """The value of the class x in dtype dt."""
    if dt not in W:
      return x
    if isinstance(x, (bool, float, complex)):
      return x
    if isinstance(x, int):
      return wrap(x, dt)
    if not isinstance(x, Poly):
      return x
    w, s = W[dt]
    off = 1 << (w - 1) if s else 0
    r = self.rng(x)
    if r is not None and r[0] + off >= 0 and r[1] + off < (1 << w):
      return x
    y = self.rem(x + poly.const(off) if off else x, 1 << w)
    if off:
      y = self.norm(Poly.lift(y) - poly.const(off))
      if isinstance(y, Poly) and y.rng is None:
        y.rng = (-off, off - 1)
    return y

  def cell_binop(self, op, a, b, dtype=None):
    a, b = self.norm(a), self.norm(b)
    if isinstance(a, bool) and not is_prim(b):
      a = int(a)
    if isinstance(b, bool) and not is_prim(a):
      b = int(b)
    if isinstance(a, Cond):
      a = self.b2i(a)
    if isinstance(b, Cond):
      b = self.b2i(b)
    if is_prim(a) and is_prim(b):
      if isinstance(a, int) and isinstance(b, int) and dtype in W:
        if op in ('<<', '>>') and (b >= W[dtype][0] or b < 0):
          return 0 if op == '<<' or a >= 0 else -1
        if op in ('//', '%') and b == 0:
          return Unk('div by zero')
        return wrap(super().cell_binop(op, a, b, dtype), dtype)
      return super().cell_binop(op, a, b, dtype)
    if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)):
      r = self.intop(op, a, b, dtype)
      if r is not None:
        return r
    return super().cell_binop(op, a, b, dtype)

  def b2i(self, c):
    return self.cell_where(c, 1, 0)

  def intop(self, op, a, b, dtype):
    if op in ('+', '-', '*'):
      ra, rb = self.rng(a), self.rng(b)
      pa, pb = Poly.lift(a), Poly.lift(b)
      r = pa + pb if op == '+' else pa - pb if op == '-' else pa * pb
      if ra is None or rb is None:
        return self.norm(r)
      if op == '+':
        iv = (ra[0] + rb[0], ra[1] + rb[1])
      elif op == '-':
        iv = (ra[0] - rb[1], ra[1] - rb[0])
      else:
        q = [x * y for x in ra for y in rb]
        iv = (min(q), max(q))
      if op == '-' and len(r.t) > 3:
        r2 = self.rng(Poly(r.t))
        if r2 is not None:
          iv = (max(iv[0], r2[0]), min(iv[1], r2[1]))
      return self.put(r, iv)
    if op == '**' and isinstance(b, int) and b >= 0:
      r = 1
      for _ in range(b):
        r = self.cell_binop('*', r, a, dtype)
      return r
    if op == '<<' and isinstance(b, int):
      if dtype in W and b >= W[dtype][0]:
        return 0
      return self.cell_binop('*', a, 1 << b, dtype)
    a = self.obs(a, dtype)
    b = self.obs(b, dtype)
    if op == '>>' and isinstance(b, int):
      if dtype in W and b >= W[dtype][0] and not W[dtype][1]:
        return 0
      return self.fdiv(a, 1 << b)
    if op == '//' and isinstance(b, int) and b > 0:
      return self.fdiv(a, b)
    if op == '%' and isinstance(b, int) and b > 0:
      return self.rem(a, b)
    if op == '&':
      if isinstance(a, int):
        a, b = b, a
      if isinstance(b, int) and b >= 0:
        if b == 0:
          return 0
        s = (b & -b).bit_length() - 1
        m = b >> s
        if m & (m + 1) == 0:
          lo = self.rem(self.fdiv(a, 1 << s), m + 1)
          return self.cell_binop('*', lo, 1 << s, None)
    if op in ('|', '^'):
      for x, y in ((a, b), (b, a)):
        ry = self.rng(y)
        if ry is None or ry[0] < 0:
          continue
        k = ry[1].bit_length()
        if self.rem(x, 1 << k) == 0:
          return self.cell_binop('+', x, y, None)
      for x, y in ((a, b), (b, a)):
        if isinstance(y, int) and y > 0 and not isinstance(x, int):
          lo = self.cell_binop('&', x, y, dtype)
          if isinstance(lo, int) or not any(
              '&' in str(z.op) for z in Poly.lift(lo).all_atoms()):
            s = self.cell_binop('+', x, y, None)
            return self.cell_binop('-', s, self.cell_binop(
                '*', lo, 1 if op == '|' else 2, None), None)
    return None

  def powmod(self, b, e, m):
    if isinstance(b, Poly) and isinstance(e, int) and isinstance(m, int) and (
        0 <= e <= 64):
      r = 1
      for _ in range(e):
        r = self.rem(self.cell_binop('*', r, b), m)
      return r
    return super().powmod(b, e, m)

  def cell_cast(self, c, from_dtype, to_dtype):
    if isinstance(c, Cond) and to_dtype in W:
      return self.b2i(c)
    if isinstance(c, bool) and to_dtype in W:
      return int(c)
    if isinstance(c, int) and not isinstance(c, bool) and to_dtype in W:
      return wrap(c, to_dtype)
    if isinstance(c, Poly) and (to_dtype in W or to_dtype in (None, 'object')):
      if from_dtype != to_dtype:
        c = self.obs(c, from_dtype)
        if to_dtype in W and isinstance(c, Poly):
          c = self.obs(c, to_dtype)
      return c
    if isinstance(c, Poly):
      raise AnalysisError(f'integer to {to_dtype}')
    return super().cell_cast(c, from_dtype, to_dtype)

  def typed_compare(self, op, a, b, dt, da, db):
    return self.cell_compare(op, self.obs(a, da), self.obs(b, db))

  def cell_compare(self, op, a, b):
    a, b = self.norm(a), self.norm(b)
    if is_prim(a) and is_prim(b):
      return core.PYOPS[op](a, b)
    if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)):
      d = self.cell_binop('-', a, b)
      if isinstance(d, int):
        return core.PYOPS[op](d, 0)
      r = self.rng(d)
      if r is not None:
        lo, hi = r
        t = {'<': (hi < 0, lo >= 0), '<=': (hi <= 0, lo > 0),
             '>': (lo > 0, hi <= 0), '>=': (lo >= 0, hi < 0),
             '==': (lo == hi == 0, lo > 0 or hi < 0),
             '!=': (lo > 0 or hi < 0, lo == hi == 0)}[op]
        if t[0]:
          return True
        if t[1]:
          return False
    return super().cell_compare(op, a, b)

  def given(self, p, c, val):
    """range of p when the condition c has truth value val."""
    r = self.rng(p)
    if r is None or not isinstance(c, Cond) or c.op not in ('<0', '<=0'):
      return r
    d = c.args[0]
    # the condition says d <= m (or d >= m)
    m, upper = {('<0', True): (-1, True), ('<0', False): (0, False),
                ('<=0', True): (0, True), ('<=0', False): (1, False)}[c.op, val]
    lo, hi = r
    for sg in (1, -1):
      # p = sg * d + k with k in [k0, k1]
      e = Poly.lift(p) - d * poly.const(sg)
      kr = self.rng(Poly(e.t))
      if kr is None:
        continue
      if upper == (sg > 0):
        hi = min(hi, sg * m + kr[1])
      else:
        lo = max(lo, sg * m + kr[0])
    return lo, hi

  def cell_where(self, c, a, b):
    if isinstance(c, bool) or is_prim(c):
      return a if c else b
    a, b = self.norm(a), self.norm(b)
    if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)) and (
        isinstance(c, Cond)):
      pa, pb = Poly.lift(a), Poly.lift(b)
      if pa == pb:
        return a
      ra, rb = self.given(a, c, True), self.given(b, c, False)
      if ra is None or rb is None:
        return super().cell_where(c, a, b)
      if ra[0] > ra[1]:
        return self.put(Poly(pb.t), rb)
      if rb[0] > rb[1]:
        return self.put(Poly(pa.t), ra)
      h = (min(ra[0], rb[0]), max(ra[1], rb[1]))
      k = self.norm(pa - pb)
      if isinstance(k, int) and h[0] >= 0 and h[1] < abs(k):
        # both branches are congruent modulo |k| and the result is in range
        return self.rem(b, abs(k))
      t = term('where', c, pa, pb)
      at = next(iter(t.t))[0][0]
      m = at.meta
      at.meta = h if m is None else (max(m[0], h[0]), min(m[1], h[1]))
      return self.put(t, h)
    return super().cell_where(c, a, b)

  def x_where(self, lib, a, k, n):
    return super().x_where(lib, a, k, n)

  # -------------------------------------------------------------------- bytes
  def bitcast(self, x, dt, n):
    if x.dtype not in W or dt not in W:
      raise AnalysisError('bitcast', n)
    fw, tw = W[x.dtype][0], W[dt][0]
    if fw == tw:
      return x.map(lambda c: self.cell_cast(c, x.dtype, dt), dt)
    if fw > tw:
      k = fw // tw
      d = sarr.obj(x.data.shape + (k,))
      for idx in np.ndindex(*x.data.shape):
        v = self.obs(x.data[idx], x.dtype)
        for i in range(k):
          d[idx + (i,)] = self.rem(self.fdiv(v, 1 << (tw * i)), 1 << tw)
      return SArr(tuple(x.axes) + (k,), d, dt, x.lib)
    k = tw // fw
    if not x.axes or x.axes[-1] != k:
      raise AbsRaise('ValueError', ('bitcast shape',), n)
    d = sarr.obj(x.data.shape[:-1])
    for idx in np.ndindex(*x.data.shape[:-1]):
      acc = 0
      for i in range(k):
        v = self.obs(x.data[idx + (i,)], x.dtype)
        acc = self.cell_binop('+', acc, self.cell_binop('*', v, 1 << (fw * i)))
      d[idx] = acc
    return SArr(tuple(x.axes[:-1]), d, dt, x.lib)


# ---------------------------------------------------------------------- oracle
def ev(x, val):
  """The integer an expression has under a valuation of the inputs."""
  if isinstance(x, (bool, int)):
    return int(x)
  if isinstance(x, Fraction):
    return x
  if isinstance(x, Poly):
    t = 0
    for mono, c in x.t.items():
      for a, e in mono:
        c = c * ev_atom(a, val)**e
      t += c
    if isinstance(t, Fraction):
      if t.denominator != 1:
        raise NoEval
      t = int(t)
    return t
  if isinstance(x, Cond):
    if x.op in ('==0', '!=0', '<0', '<=0'):
      v = ev(x.args[0], val)
      return {'==0': v == 0, '!=0': v != 0, '<0': v < 0, '<=0': v <= 0}[x.op]
    if x.op == 'not':
      return not ev(x.args[0], val)
    if x.op in ('or', 'and'):
      vs = [bool(ev(y, val)) for y in x.args]
      return any(vs) if x.op == 'or' else all(vs)
  raise NoEval


def ev_atom(a, val):
  if not a.args:
    if a.op in val:
      return val[a.op]
    raise NoEval
  memo = val.setdefault('__memo__', {})
  if a not in memo:
    if a.op == 'rem':
      memo[a] = ev(a.args[0], val) % a.args[1]
    elif a.op == 'ind':
      memo[a] = int(ev(a.args[0], val) < 0)
    elif a.op == 'where':
      memo[a] = ev(a.args[1] if ev(a.args[0], val) else a.args[2], val)
    elif len(a.args) == 2 and str(a.op).split('@')[0] in (
        '&', '|', '^', '%', '//', '>>', '<<'):
      op, _, dt = str(a.op).partition('@')
      x, y = ev(a.args[0], val), ev(a.args[1], val)
      if dt:
        x, y = wrap(x, dt), wrap(y, dt)
      try:
        r = core.PYOPS[op](x, y)
      except Exception:
        raise NoEval
      memo[a] = wrap(r, dt) if dt else r
    else:
      raise NoEval
  return memo[a]


def valuations(dom, names, tries=24, extra=()):
  """corner, structured and random values of the named inputs."""
  rnd = rnd_.Random(7)
  for e in extra:
    v = {n: dom.ranges[n][0] for n in names}
    v.update({n: e[n.split('<')[0]] for n in names if n.split('<')[0] in e})
    yield v
  yield {n: dom.ranges[n][1] for n in names}
  yield {n: dom.ranges[n][0] for n in names}
  for i in range(tries):
    v = {}
    for n in names:
      lo, hi = dom.ranges[n]
      v[n] = rnd.choice((lo, hi, min(hi, lo + 1), rnd.randint(lo, hi),
                         rnd.randint(lo, hi), rnd.randint(lo, hi)))
    yield v


def inputs_of(x, acc):
  if isinstance(x, Poly):
    for a in x.all_atoms():
      if not a.args:
        acc.add(a.op)
  elif isinstance(x, Cond):
    for y in x.args:
      inputs_of(y, acc)


def congruent(dom, got, want, q, dt=None, canonical=True, extra=()):
  """None when got is (the canonical residue) congruent to want modulo q.

  A string describes a difference with the inputs that show it;
  AnalysisError when neither a proof nor a difference is found.
  """
  got = dom.obs(dom.norm(got), dt)
  why = None
  try:
    if dom.canon(got, q) == dom.canon(want, q):
      if not canonical:
        return None
      r = dom.rng(got)
      if r is not None and r[0] >= 0 and r[1] < q:
        return None
      why = f'range {r} not shown inside [0, {q})'
  except AnalysisError as e:
    why = str(e)
  names = set()
  inputs_of(got, names)
  inputs_of(want, names)
  names = sorted(names)
  for val in valuations(dom, names, extra=extra):
    try:
      g, w = ev(got, val), ev(want, val)
    except NoEval:
      break
    bad = (g - w) % q if not canonical else g != w % q
    if bad:
      val.pop('__memo__', None)
      show = {n.split('<')[0]: val[n] for n in list(val)[:6]}
      return (f'{g} where the residue is {w % q} modulo {q} '
              f'(inputs {show}{" ..." if len(val) > 6 else ""})')
  raise AnalysisError(f'congruence modulo {q} not established'
                      + (f': {why}' if why else ''))


def equal(dom, got, want, dt=None):
  """None when the integers are equal for all inputs; a string otherwise."""
  got = dom.obs(dom.norm(got), dt)
  want = dom.norm(want)
  if Poly.lift(got) == Poly.lift(want):
    return None
  names = set()
  inputs_of(got, names)
  inputs_of(want, names)
  names = sorted(names)
  for val in valuations(dom, names):
    try:
      g, w = ev(got, val), ev(want, val)
    except NoEval:
      break
    if g != w:
      val.pop('__memo__', None)
      show = {n.split('<')[0]: val[n] for n in list(val)[:6]}
      return f'{g} instead of {w} (inputs {show}{" ..." if len(val) > 6 else ""})'
  raise AnalysisError('equality not established')


def sym_tower(dom, name, shape, moduli, dtype='uint32', hi=None, lib='jnp'):
  """residues of shape + (len(moduli),), one input per cell."""
  d = sarr.obj(tuple(shape) + (len(moduli),))
  for idx in np.ndindex(*d.shape):
    q = moduli[idx[-1]]
    d[idx] = dom.sym(name + '_' + '_'.join(map(str, idx)), 0,
                     (q - 1) if hi is None else hi(q))
  return SArr(d.shape, d, dtype, lib)
