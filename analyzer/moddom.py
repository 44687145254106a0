"""Fixed-width integer domain.

Cells are integers or polynomials over interned atoms.  A polynomial of dtype
(u)intW is an element of Z/2^W[atoms]; ring operations are exact there.
Shifts, masks and remainders by powers of two are resolved by bit-field
splitting when every atom involved has a declared value range; otherwise they
become opaque atoms (two syntactically equal opaque atoms are equal values).
"""
import core
import poly
import sarr
from core import AbsRaise, AnalysisError, Unk, is_prim
from domain import Domain
from poly import Cond, Poly, term

W = {'uint8': (8, 0), 'uint16': (16, 0), 'uint32': (32, 0), 'uint64': (64, 0),
     'int8': (8, 1), 'int16': (16, 1), 'int32': (32, 1), 'int64': (64, 1)}


def wrap(c, dt):
  if dt not in W or isinstance(c, (bool, float, complex)):
    return c
  w, s = W[dt]
  if isinstance(c, int):
    c &= (1 << w) - 1
    if s and c >> (w - 1):
      c -= 1 << w
    return c
  if isinstance(c, Poly):
    m = 1 << w
    out = {}
    for k, v in c.t.items():
      if isinstance(v, int):
        v %= m
        if v >= m // 2:
          v -= m
      if v:
        out[k] = v
    return Poly(out)
  return c


class ModDomain(Domain):
  """ranges: atom -> (lo, hi) for atoms with declared value range."""

  def __init__(self):
    super().__init__()
    self.x64 = False
    self.ranges = {}
    self.nonneg_polys = True

  # -- ranges ---------------------------------------------------------------
  def sym(self, name, lo=None, hi=None):
    p = poly.sym(name)
    if lo is not None:
      self.ranges[name] = (lo, hi)
      if lo == hi:
        return poly.const(lo)
    return p

  def atom_range(self, a):
    r = self.ranges.get(a.op)
    if r is not None and not a.args:
      return r
    if a.op == 'bit':
      return (0, 1)
    if a.op == 'byte':
      return (0, 255)
    if a.op == 'val':
      w, s = W[a.args[1]]
      return (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
    if a.op == 'where':
      x, y = self.prange(a.args[1]), self.prange(a.args[2])
      return None if x is None or y is None else (min(x[0], y[0]), max(x[1], y[1]))
    if a.op == 'modp':
      return (0, a.args[1] - 1)
    if a.op == 'shr':
      r = self.prange(a.args[0])
      return None if r is None else (r[0] >> a.args[1], r[1] >> a.args[1])
    return None

  def canon_shr(self, p):
    """2^k (a >> k) -> a - (a mod 2^k), wherever the coefficient allows."""
    for _ in range(40):
      for mono, c in p.t.items():
        if len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'shr':
          a, k = mono[0][0].args
          if c % (1 << k) == 0:
            t = dict(p.t)
            del t[mono]
            p = Poly(t) + (a - term('modp', a, 1 << k)) * poly.const(c >> k)
            break
      else:
        return p
    return p

  def prange(self, p):
    """integer range of a polynomial over ranged atoms, or None."""
    if isinstance(p, bool):
      return (int(p), int(p))
    if isinstance(p, int):
      return (p, p)
    if not isinstance(p, Poly):
      return None
    lo = hi = 0
    for mono, c in p.t.items():
      if not isinstance(c, int):
        return None
      mlo = mhi = 1
      for a, e in mono:
        r = self.atom_range(a)
        if r is None:
          return None
        for _ in range(e):
          c4 = [mlo * r[0], mlo * r[1], mhi * r[0], mhi * r[1]]
          mlo, mhi = min(c4), max(c4)
      if c >= 0:
        lo += c * mlo
        hi += c * mhi
      else:
        lo += c * mhi
        hi += c * mlo
    return lo, hi

  def split(self, p, k):
    """p = hi*2^k + lo with lo provably in [0, 2^k); None if not splittable."""
    m = 1 << k
    if isinstance(p, int):
      return p >> k, p & (m - 1)
    hi, lo = {}, {}
    for mono, c in p.t.items():
      if not isinstance(c, int):
        return None
      if c % m == 0:
        hi[mono] = c // m
      elif mono == ():
        lo[mono] = c % m
        if c - c % m:
          hi[mono] = (c - c % m) // m
      else:
        lo[mono] = c
    lop = Poly(lo)
    r = self.prange(lop)
    if r is None or r[0] // m != r[1] // m:
      return None
    o = r[0] // m
    hip = Poly(hi)
    if o:
      lop = lop - poly.const(o * m)
      hip = hip + poly.const(o)
    return self.norm(hip), self.norm(lop)

  @staticmethod
  def norm(p):
    return p.cval if isinstance(p, Poly) and p.is_const else p

  def shr(self, p, k):
    r = self.split(p, k)
    if r is None:
      return None
    return r[0]

  def mask_low(self, p, k):
    r = self.split(p, k)
    if r is None:
      return None
    return r[1]

  def fits(self, p, dt):
    """p as an integer is representable in dt without wrapping."""
    if dt not in W:
      return True
    r = self.prange(p)
    if r is None:
      return False
    w, s = W[dt]
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
    return r[0] >= lo and r[1] <= hi

  def refit(self, p, dt):
    """The representative of p (mod 2^w) whose range fits dt, or None."""
    if dt not in W or isinstance(p, int):
      return p
    r = self.prange(p)
    if r is None:
      return None
    w, s = W[dt]
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
    if r[0] >= lo and r[1] <= hi:
      return p
    k = -((r[0] - lo) >> w)
    if r[0] + (k << w) >= lo and r[1] + (k << w) <= hi:
      return self.norm(p + poly.const(k << w))
    if not s:
      p2 = Poly({m: c % (1 << w) for m, c in p.t.items()})
      r = self.prange(p2)
      if r is not None and r[0] >= 0 and r[1] <= hi:
        return p2
    return None

  # -- operations -----------------------------------------------------------
  def cell_binop(self, op, a, b, dtype=None):
    if isinstance(a, Poly) and a.is_const:
      a = a.cval
    if isinstance(b, Poly) and b.is_const:
      b = b.cval
    if is_prim(a) and is_prim(b):
      if isinstance(a, int) and isinstance(b, int) and dtype in W:
        if op in ('<<', '>>') and (b >= W[dtype][0] or b < 0):
          return 0 if op == '<<' or a >= 0 else -1
        if op in ('//', '%') and b == 0:
          return Unk('div by zero')
      r = super().cell_binop(op, a, b, dtype)
      return wrap(r, dtype) if isinstance(r, int) else r
    if op in ('>>', '&', '|', '%', '//', '^') and (
        isinstance(a, (Poly, int)) and isinstance(b, (Poly, int))):
      r = self.bitop(op, a, b, dtype)
      if r is not None:
        return r
      if dtype in W:
        # opaque, tagged with the width: operands are classes mod 2^w
        if op in ('&', '|', '^'):
          a, b = sorted([Poly.lift(a), Poly.lift(b)],
                        key=lambda p: sorted(map(repr, p.key())))
        elif isinstance(b, Poly) and not b.is_const:
          a = Poly.lift(a)
        else:
          a, b = Poly.lift(a), b if isinstance(b, int) else b.cval
        return term(f'{op}@{dtype}', a, b)
    if op == '<<' and isinstance(b, int) and dtype in W and b >= W[dtype][0]:
      return 0
    r = super().cell_binop(op, a, b, dtype)
    if isinstance(r, (Poly, int)):
      r = wrap(self.norm(wrap(r, dtype)), dtype)
    return r

  def bitop(self, op, a, b, dtype):
    def pow2(x):
      return isinstance(x, int) and x > 0 and x & (x - 1) == 0

    if isinstance(a, int) and op in ('&', '|', '^'):
      a, b = b, a
    if op == '%' and pow2(b) and isinstance(a, Poly) and (
        dtype not in W or (1 << W[dtype][0]) % b == 0):
      r = self.mod_pow2(a, b)
      if r is not None:
        return r
    if dtype in W:
      r = self.refit(a, dtype)
      if r is None and W[dtype][1] and isinstance(b, int) and (
          op == '&' and 0 <= b < 1 << W[dtype][0] - 1 or op == '%' and pow2(b)):
        # the low bits do not depend on the representative
        r = self.refit(a, 'u' + dtype)
      a = r
      if a is None:
        return None
      if isinstance(b, Poly):
        b = self.refit(b, dtype)
        if b is None:
          return None
    if (op == '>>' and isinstance(b, int)) or (op == '//' and pow2(b)):
      k = b if op == '>>' else b.bit_length() - 1
      r = self.shr(a, k)
      if r is None and isinstance(a, Poly) and self.prange(a) is not None:
        r = term('shr', a, k)
      return r
    if op == '%' and pow2(b):
      r = self.mask_low(a, b.bit_length() - 1)
      if r is None and isinstance(a, Poly) and self.prange(a) is not None:
        r = term('modp', a, b)
      return r
    if op in ('//', '%') and isinstance(b, int) and b > 0:
      r = self.prange(a)
      if r and 0 <= r[0] and r[1] < b:
        return 0 if op == '//' else a
      return None
    if op == '&' and isinstance(b, int):
      if b == 0:
        return 0
      if b < 0:
        return None
      s = (b & -b).bit_length() - 1
      m = b >> s
      if m & (m + 1):
        return None
      h = self.shr(a, s)
      if h is None:
        if isinstance(a, Poly) and self.prange(a) is not None:
          h = term('shr', a, s)
        else:
          return None
      k = m.bit_length()
      lo = self.mask_low(h, k)
      if lo is None:
        if k == 1:
          lo = term('bit', h if isinstance(h, Poly) else Poly.lift(h))
        elif isinstance(h, Poly):
          lo = term('modp', h, 1 << k)
        else:
          return None
      return self.norm(self._mul(lo, 1 << s))
    if op == '|':
      if isinstance(b, int) and b == 0:
        return a
      for x, y in ((a, b), (b, a)):
        ry = self.prange(y)
        if ry is None or ry[0] < 0:
          continue
        k = ry[1].bit_length()
        s = self.split(x, k)
        if s is not None and s[1] == 0:
          rx = self.prange(x)
          if rx is not None and rx[0] >= 0:
            return self.norm(Poly.lift(x) + Poly.lift(y))
    return None

  def mod_pow2(self, p, b):
    """p mod b (a power of two) when inner reductions modulo multiples of b
    can be dropped and what is left provably lies in [0, b)."""
    if not all(isinstance(c, int) for c in p.t.values()):
      return None
    for _ in range(8):
      mp = {}
      for m in p.t:
        for a, e in m:
          o = str(a.op)
          if (o == 'modp' or o.startswith('%@')) and isinstance(
              a.args[1], int) and a.args[1] > 0 and a.args[1] % b == 0 and (
                  a.args[1] & (a.args[1] - 1) == 0):
            mp[a] = Poly.lift(a.args[0])
      if not mp:
        break
      if any(v is None for v in mp.values()):
        return None
      p = p.subst(mp)
      if not all(isinstance(c, int) for c in p.t.values()):
        return None
    for f in (lambda c: c % b, lambda c: (c + b // 2) % b - b // 2):
      q = Poly({m: f(c) for m, c in p.t.items() if f(c)})
      if q.is_const:
        return q.cval % b
      r = self.prange(q)
      if r is not None and 0 <= r[0] and r[1] < b:
        return self.norm(q)
    return None

  def _mul(self, p, c):
    return p * c if isinstance(p, int) else p * poly.const(c)

  def cell_cast(self, c, from_dtype, to_dtype):
    if isinstance(c, bool) and to_dtype in W:
      return int(c)
    if isinstance(c, int) and not isinstance(c, bool) and to_dtype in W:
      return wrap(c, to_dtype)
    if isinstance(c, Poly):
      if c.is_const and isinstance(c.cval, int):
        return wrap(c.cval, to_dtype)
      if to_dtype in W:
        fw = W.get(from_dtype, (None, None))
        tw = W[to_dtype]
        if fw[0] is not None and tw[0] > fw[0]:
          c2 = self.refit(c, from_dtype)
          if c2 is None:
            return term('ext', c, from_dtype, to_dtype)
          c = c2 if isinstance(c2, Poly) else poly.const(c2)
        if fw[0] is not None and tw[0] < fw[0]:
          # truncation: what is extended again above the kept bits is irrelevant
          mp = {a: Poly.lift(a.args[0]) for m in c.t for a, _ in m
                if a.op == 'ext' and W[a.args[1]][0] >= tw[0]}
          if mp:
            c = c.subst(mp)
            if c.is_const and isinstance(c.cval, int):
              return wrap(c.cval, to_dtype)
        return wrap(self.norm(wrap(c, to_dtype)), to_dtype)
      return c
    if isinstance(c, Cond) and to_dtype in W:
      return term('bool2int', c)
    return super().cell_cast(c, from_dtype, to_dtype)

  def typed_compare(self, op, a, b, dt, da, db):
    def fit(x, d):
      if not isinstance(x, Poly) or x.is_const or d not in W:
        return x
      y = self.refit(x, d)
      if y is None:
        # the value is some representative of the class x: opaque
        y = term('val', x, d)
      if y is not None and dt != d:
        y2 = self.refit(Poly.lift(y), dt) if dt in W else y
        y = y2 if y2 is not None else term('val', Poly.lift(y), dt)
      return y
    if op in ('==', '!=') and da == db and da in W and (
        isinstance(a, Poly) or isinstance(b, Poly)) and isinstance(
            a, (Poly, int)) and isinstance(b, (Poly, int)):
      d = wrap(Poly.lift(a) - Poly.lift(b), da)
      if d.is_const:
        return (d.cval == 0) == (op == '==')
    return self.cell_compare(op, fit(a, da), fit(b, db))

  def cell_compare(self, op, a, b):
    if isinstance(a, (Poly, int)) and isinstance(b, (Poly, int)) and not (
        isinstance(a, int) and isinstance(b, int)):
      d = Poly.lift(a) - Poly.lift(b)
      r = self.prange(d)
      if r is not None:
        lo, hi = r
        if op == '<':
          return True if hi < 0 else (False if lo >= 0 else poly.compare(op, a, b))
        if op == '<=':
          return True if hi <= 0 else (False if lo > 0 else poly.compare(op, a, b))
        if op == '>':
          return True if lo > 0 else (False if hi <= 0 else poly.compare(op, a, b))
        if op == '>=':
          return True if lo >= 0 else (False if hi < 0 else poly.compare(op, a, b))
        if op in ('==', '!=') and (lo > 0 or hi < 0):
          return op == '!='
    return super().cell_compare(op, a, b)

  # -- bytes ----------------------------------------------------------------
  def bytes_of(self, c, w):
    if isinstance(c, int):
      return [(c >> (8 * i)) & 255 for i in range(w // 8)]
    out = []
    for i in range(w // 8):
      h = self.shr(c, 8 * i)
      lo = None if h is None else (
          h & 255 if isinstance(h, int) else self.mask_low(h, 8))
      out.append(lo if lo is not None else term('byte', c, w, i))
    return out

  def bitcast(self, x, dt, n):
    if x.dtype not in W or dt not in W:
      raise AnalysisError('bitcast', n)
    fw, tw = W[x.dtype][0], W[dt][0]
    if fw == tw:
      return x.map(lambda c: self.cell_cast(c, x.dtype, dt), dt)
    if tw == 8 and fw > 8:
      d = sarr.obj(x.data.shape + (fw // 8,))
      import numpy as np
      for idx in np.ndindex(*x.data.shape):
        for i, b in enumerate(self.bytes_of(x.data[idx], fw)):
          d[idx + (i,)] = b
      return sarr.SArr(tuple(x.axes) + (fw // 8,), d, dt, x.lib)
    if fw > tw or tw > fw > 8:
      if fw > tw:
        b = self.bitcast(x, 'uint8', n)
        r = sarr.reshape(b, list(x.axes) + [fw // tw, tw // 8])
        return self.bitcast(r, dt, n)
      b = self.bitcast(x, 'uint8', n)
      return self.bitcast(sarr.reshape(b, list(x.axes[:-1]) + [tw // 8]), dt, n)
    if fw == 8 and tw > 8:
      import numpy as np
      if x.axes[-1] != tw // 8:
        raise AbsRaise('ValueError', ('bitcast shape',), n)
      d = sarr.obj(x.data.shape[:-1])
      for idx in np.ndindex(*x.data.shape[:-1]):
        d[idx] = self.from_bytes([x.data[idx + (i,)] for i in range(tw // 8)], dt)
      return sarr.SArr(tuple(x.axes[:-1]), d, dt, x.lib)
    raise AnalysisError('bitcast', n)

  def from_bytes(self, bs, dt):
    r = poly.const(0)
    src = None
    for i, b in enumerate(bs):
      r = r + Poly.lift(b) * poly.const(1 << (8 * i))
    return wrap(self.norm(wrap(self.recombine(r), dt)), dt)

  def recombine(self, p):
    """replace byte_0(x) by x - sum 2^(8i) byte_i(x)."""
    if not isinstance(p, Poly):
      return p
    for _ in range(6):
      mp = {}
      for mono in p.t:
        for a, e in mono:
          if a.op == 'byte' and a.args[2] == 0:
            x, w, _i = a.args
            q = x
            for i in range(1, w // 8):
              q = q - term('byte', x, w, i) * poly.const(1 << (8 * i))
            mp[a] = q
      if not mp:
        return p
      p = p.subst(mp)
    return p
