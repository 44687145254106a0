"""Limb domain: multi-precision integers held in arrays of 16-bit limbs.

Every cell is a polynomial over byte atoms dig(V, i, n): byte i of the integer
V, which is itself a polynomial over the operand symbols and over quotient
atoms q(V, k) = V >> k.  Carry-propagation loops are summarised after their
body has been analysed once: they keep the weighted sum of the cells and leave
its base-2^w digits.
"""
from fractions import Fraction
from common import *
from moddom import ModDomain, W as WW, wrap
from ec import PRIME, centre

UT = 'jaxite.jaxite_ec.util.'
FF = 'jaxite.jaxite_ec.finite_field.'


class LD(ModDomain):

  def __init__(self):
    super().__init__()
    self.x64 = True
    self.vr = {}     # V key -> extra range of V
    self.low = {}    # V key -> (upper bound of the lower cells' sum, top weight)
    self.teles = {}
    self.loops = {}
    self.trace_begin_hooks.append(self.teles.clear)

  # ------------------------------------------------------------- ranges
  def atom_range(self, a):
    if a.op == 'dig':
      return (0, 255)
    if a.op == 'q':
      r = self.base_range(a.args[0])
      return None if r is None else (r[0] >> a.args[1], r[1] >> a.args[1])
    if a.op == 'lowb':
      return (0, (1 << a.args[1]) - 1)
    if a.op == 'sign':
      return (-1, 1)
    if a.op == 'frac':
      return (0, 1 - Fraction(1, 1 << a.args[1]))
    return super().atom_range(a)

  def base_range(self, V):
    r = self.prange(V)
    e = self.vr.get(V.key()) if isinstance(V, Poly) else None
    if r is None or e is None:
      return r or e
    return max(r[0], e[0]), min(r[1], e[1])

  def facts(self):
    out = []
    for t in self.interp.taken:
      c, v = t[4], t[1]
      if isinstance(c, poly.Cond) and c.op in ('<0', '<=0') and isinstance(c.args[0], Poly):
        d = c.args[0]
        if c.op == '<0':
          out.append(-d - 1 if v else d)
        else:
          out.append(-d if v else d - 1)
    return out

  def qsub(self, p):
    """q(Y, k) -> Y / 2^k - f with f in [0, 1)."""
    for _ in range(4):
      mp = {}
      for a in p.atoms():
        if a.op == 'q':
          mp[a] = (a.args[0] * poly.const(Fraction(1, 1 << a.args[1])) -
                   poly.term('frac', a.args[0], a.args[1]))
      if not mp:
        return p
      p = p.subst(mp)
    return p

  def frange(self, p):
    lo = hi = Fraction(0)
    for mono, c in p.t.items():
      mlo = mhi = Fraction(1)
      for a, e in mono:
        r = self.atom_range(a)
        if r is None:
          return None
        for _ in range(e):
          c4 = [mlo * r[0], mlo * r[1], mhi * r[0], mhi * r[1]]
          mlo, mhi = min(c4), max(c4)
      lo += c * (mlo if c >= 0 else mhi)
      hi += c * (mhi if c >= 0 else mlo)
    return lo, hi

  def vrange(self, V):
    """best known integer range of V under the path's facts."""
    if isinstance(V, int):
      return V, V
    key = V.key()
    rs = []
    b = self.base_range(V)
    if b is not None:
      rs.append(b)

    def both(p):
      out = []
      r = self.frange(p)
      if r is not None:
        out.append(r)
      if any(a.op == 'q' for a in p.atoms()):
        r = self.frange(self.qsub(p))
        if r is not None:
          out.append(r)
      return out
    rs += both(V)
    import math
    lo = max([math.ceil(r[0]) for r in rs], default=None)
    hi = min([math.floor(r[1]) for r in rs], default=None)
    for f in self.facts():
      f = self.tele(f)
      scale = {1} | {abs(Fraction(c, f.t[m])) for m, c in V.t.items() if m and m in f.t}
      for s in scale:
        g = f if s == 1 else f * poly.const(s if s.denominator > 1 else int(s))
        for r in both(V - g):
          x = math.ceil(r[0])
          lo = x if lo is None else max(lo, x)
        for r in both(V + g):
          x = math.floor(r[1])
          hi = x if hi is None else min(hi, x)
    if lo is None or hi is None:
      raise AnalysisError('range unknown')
    return lo, hi

  # ------------------------------------------------------------ digits
  def digits(self, V, n):
    """bytes 0..n-1 of V as cells."""
    V = Poly.lift(V)
    if V.is_const:
      v = V.cval
      return [(v >> 8 * i) & 255 for i in range(n)]
    return [poly.term('dig', V, i, n) for i in range(n)]

  def valid(self, V, n):
    lo, hi = self.vrange(V)
    if lo < 0 or hi >= 256**n:
      raise AnalysisError(
          f'value in [2^{lo.bit_length()}*{1 if lo >= 0 else -1}, 2^{hi.bit_length()}] does not fit {n} bytes')
    t = self.low.get((V.key(), n))
    if t is not None:
      lower_hi, topw = t
      if lo - lower_hi <= -topw:
        raise AnalysisError('top limb may be negative')

  def q(self, V, k):
    """V >> k, normalised."""
    if k == 0:
      return V
    if len(V.t) == 1:
      (mono, c), = V.t.items()
      if c == 1 and len(mono) == 1 and mono[0][1] == 1 and mono[0][0].op == 'q':
        Y, k0 = mono[0][0].args
        return self.q(Y, k0 + k)
    m = 1 << k
    hi, rest = {}, {}
    for mono, c in V.t.items():
      if c % m == 0:
        hi[mono] = c // m
      elif mono == ():
        hi[mono] = c // m
        rest[mono] = c % m
      else:
        rest[mono] = c
    h, r = Poly({a: b for a, b in hi.items() if b}), Poly(rest)
    if not r.t:
      return h
    try:
      rr = self.base_range(r) if len(r.t) == 1 else None
      lo, up = rr if rr is not None else self.vrange(r)
      if lo // m == up // m:
        return h + poly.const(lo // m)
    except AnalysisError:
      pass
    return h + poly.term('q', r, k)

  def tele(self, p):
    """Eliminate byte atoms: dig(V, i) = q(V, i) - 256 q(V, i+1)."""
    p = Poly.lift(p)
    if p is None:
      raise AnalysisError('not an integer')
    for _ in range(6):
      mp = {}
      for a in p.atoms():
        if a.op == 'dig':
          mp[a] = self.dig_form(a)
        elif a.op == 'lowb':
          V, k = a.args
          mp[a] = V - self.q(V, k) * poly.const(1 << k)
      if not mp:
        return p
      p = p.subst(mp)
    return p

  def dig_form(self, a):
    if a in self.teles:
      return self.teles[a]
    V, i, n = a.args
    self.valid(V, n)
    r = self.q(V, 8 * i)
    if i + 1 < n:
      r = r - self.q(V, 8 * i + 8) * poly.const(256)
    self.teles[a] = r
    return r

  def value(self, cells, w=16):
    v = poly.const(0)
    for i, c in enumerate(cells):
      p = Poly.lift(c)
      if p is None:
        raise AnalysisError('not an integer cell')
      v = v + p * poly.const(1 << (w * i))
    return v

  # -------------------------------------------------------------- operations
  def cell_binop(self, op, a, b, dtype=None):
    if dtype is None and isinstance(a, Poly) and not a.is_const:
      k = None
      bb = b.cval if isinstance(b, Poly) and b.is_const else b
      if isinstance(bb, int) and bb > 0:
        if op in ('%', '//') and bb & (bb - 1) == 0:
          k = bb.bit_length() - 1
        elif op == '&' and bb & (bb + 1) == 0:
          k = bb.bit_length()
        elif op == '>>':
          k = bb
      if k is not None:
        V = self.tele(a)
        r = self.prange(a)
        if r is not None:
          o = self.vr.get(V.key())
          self.vr[V.key()] = r if o is None else (max(o[0], r[0]), min(o[1], r[1]))
          r = self.vr[V.key()]
        if op in ('>>', '//'):
          return self.norm(self.q(V, k))
        if r is not None and r[0] >= 0 and r[1] < 1 << k:
          return a
        if V.is_const:
          return V.cval & ((1 << k) - 1)
        return poly.term('lowb', V, k)
    return super().cell_binop(op, a, b, dtype)

  def cell_unary(self, op, a):
    if op == 'sign' and isinstance(a, Poly) and not a.is_const:
      r = self.prange(a)
      if r is None:
        raise AnalysisError('sign')
      if r[0] > 0:
        return 1
      if r[1] < 0:
        return -1
      return poly.term('sign', a)
    return super().cell_unary(op, a)

  def cell_where(self, c, a, b):
    if isinstance(c, poly.Cond):
      return a if self.interp.decide(c, getattr(self, 'cur_node', None), getattr(self, 'cur_mod', None)) else b
    return super().cell_where(c, a, b)

  def typed_compare(self, op, a, b, dt, da, db):
    r = self.sign_sum(op, a, b)
    if r is not None:
      return r
    return super().typed_compare(op, a, b, dt, da, db)

  def cell_compare(self, op, a, b):
    r = self.sign_sum(op, a, b)
    if r is not None:
      return r
    return super().cell_compare(op, a, b)

  def sign_sum(self, op, a, b):
    """sum w_i sign(d_i) (op) 0 with superincreasing w: sign of sum d_i 2^16i."""
    for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op))):
      y0 = sarr.concrete_cell(y) if not isinstance(y, SArr) else None
      if y0 != 0 or not isinstance(x, Poly) or not x.t:
        continue
      lin = x.linear()
      if lin is None or lin[1] or not lin[0] or any(q.op != 'sign' for q in lin[0]):
        continue
      ws = sorted(((c, q) for q, c in lin[0].items()), key=lambda t: t[0])
      tot = 0
      D = poly.const(0)
      for i, (c, q) in enumerate(ws):
        if c <= tot:
          return None
        tot += c
        d = q.args[0]
        r = self.prange(d)
        if r is None or r[0] <= -65536 or r[1] >= 65536:
          return None
        D = D + d * poly.const(65536**i)
      # limbs that are equal drop out of the sum: their place must be kept
      D = self.align(ws)
      if D is None:
        return None
      D = self.tele(D)
      try:
        lo, hi = self.vrange(D)
        for v, nm in ((lo >= 0, '>='), (hi < 0, '<')):
          if v:
            s = 1 if nm == '>=' and lo > 0 else (-1 if nm == '<' else None)
            if nm == '>=' and o == '>=':
              return True
            if nm == '>=' and o == '<':
              return False
            if nm == '<' and o in ('<', '<='):
              return True
            if nm == '<' and o in ('>', '>='):
              return False
      except AnalysisError:
        pass
      return poly.compare(o, D, 0)
    return None

  def align(self, ws):
    """limb position from the weight 2^i."""
    D = poly.const(0)
    for c, q in ws:
      if c & (c - 1):
        return None
      D = D + q.args[0] * poly.const(65536**(c.bit_length() - 1))
    return D

  # -------------------------------------------------------------- carry loops
  def lax_while_loop(self, lib, a, k, n):
    kw = dict(zip(['cond_fun', 'body_fun', 'init_val'], a))
    kw.update(k)
    x = kw['init_val']
    if not isinstance(x, SArr) or all(sarr.concrete_cell(c) is not None for c in x.data.flat):
      return super().lax_while_loop(lib, a, k, n)
    if x.dtype not in WW or not x.axes or any(isinstance(q, Pay) for q in x.axes):
      raise AnalysisError('while_loop', n)
    m = x.axes[-1]
    ranges = []
    for idx in np.ndindex(*x.data.shape):
      r = self.prange(Poly.lift(x.data[idx]))
      if r is None:
        raise AnalysisError('while_loop cell range', n)
      ranges.append(r)
    w = self.carry_width(kw['cond_fun'], kw['body_fun'], x, m, max(r[1] for r in ranges), n)
    tw = WW[x.dtype][0]
    out = sarr.obj(x.data.shape)
    for idx in np.ndindex(*x.data.shape[:-1]):
      cells, lows = [], 0
      for i in range(m):
        c = Poly.lift(x.data[idx + (i,)])
        r = self.prange(c)
        if r[1] >= 1 << tw or (r[0] < 0 and i < m - 1):
          c2 = self.refit(c, x.dtype)
          if c2 is None:
            raise AnalysisError(f'limb {i} may wrap around ({r[0]}..{r[1]} in {x.dtype})', n)
          c = Poly.lift(c2)
          r = self.prange(c)
        cells.append(c)
        if i < m - 1:
          lows += r[1] << (w * i)
      raw = self.value(cells, w)
      V = self.tele(raw)
      rr = self.prange(raw)
      if rr is not None:
        o = self.vr.get(V.key())
        self.vr[V.key()] = rr if o is None else (max(o[0], rr[0]), min(o[1], rr[1]))
      nb = m * w // 8
      if r[0] < 0:
        r = self.vrange(self.tele(c))
      if r[0] < 0:
        self.low[(V.key(), nb)] = (lows, 1 << (w * (m - 1)))
      ds = self.digits(V, nb)
      for i in range(m):
        p = poly.const(0)
        for j in range(w // 8):
          p = p + Poly.lift(ds[i * (w // 8) + j]) * poly.const(256**j)
        out[idx + (i,)] = self.norm(p)
    return SArr(x.axes, out, x.dtype, x.lib)

  def carry_width(self, cond, body, x, m, hi, n):
    """Check that body keeps sum c_i 2^(w i) (no carry out of the top) and
    that cond holds until all cells are below 2^w; returns w."""
    sym = sarr.obj((1, m) if x.ndim > 1 else (m,))
    bound = max(hi, 1)
    key = (id(cond), m, x.dtype)
    names = []
    for i in range(m):
      nm = f'carry{i}_{bound.bit_length()}'
      self.ranges[nm] = (0, (1 << bound.bit_length()) - 1)
      sym[(0, i) if x.ndim > 1 else (i,)] = poly.sym(nm)
      names.append(poly.sym(nm))
    y = self.interp.call(body, [SArr(sym.shape, sym, x.dtype, x.lib)], {}, n)
    if not isinstance(y, SArr) or y.data.shape != sym.shape or y.dtype != x.dtype:
      raise AnalysisError('carry loop changes shape or type', n)
    out = [Poly.lift(c) for c in y.data.reshape(-1)]
    for w in (16, 32, 8):
      ok = True
      for i in range(m):
        c, pr = names[i], names[i - 1]
        lo = self.cell_binop('%', c, 1 << w, x.dtype)
        h = self.cell_binop('>>', pr, w, x.dtype)
        want = Poly.lift(lo) + Poly.lift(h)
        if out[i] is None or (out[i] - want).t:
          ok = False
          break
      if ok:
        break
    else:
      raise AnalysisError('carry loop body is not low + shifted high', n)
    # the loop condition: some cell >= 2^w
    for i, val in ((0, (1 << w)), (m - 1, 1 << w), (m // 2, (1 << w) + 5), (None, None)):
      t = sarr.obj(sym.shape)
      t.fill((1 << w) - 1)
      if i is not None:
        t[(0, i) if x.ndim > 1 else (i,)] = val
      c = self.interp.call(cond, [SArr(t.shape, t, x.dtype, x.lib)], {}, n)
      tr = self.interp.truth(c)
      if tr is None or tr != (i is not None):
        raise AnalysisError('carry loop condition is not "some cell >= 2^w"', n)
    return w

  def bytes_of(self, c, w):
    out = super().bytes_of(c, w)
    return out
