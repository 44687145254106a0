"""Shared set-up of the elliptic-curve checks.

FD: a field element is an integer polynomial over coordinate symbols with an
integer range; an array of limbs (or residues) carries it as limb atoms.  The
field primitives are replaced by their contracts (decided by C11): the result
modulo the base prime, the range of the result, and the range the operands
must have.
"""
from common import *
from domain import Domain
import random

F = 'jaxite.jaxite_ec.finite_field.'
U = 'jaxite.jaxite_ec.util.'
E = 'jaxite.jaxite_ec.elliptic_curve.'
PRIME = 258664426012969094010652733694893533536393512754914660539884262666720468348340822774968888139573360124440321458177
# MODULUS_377: the base field of BLS12-377 (y^2 = x^3 + 1)
TWIST_D = 122268283598675559488486339158635529096981886914877139579534153582033676785385790730042363341236035746924960903179


def centre(p, m=PRIME):
  t = {}
  for k, c in p.t.items():
    if not isinstance(c, int):
      c = c.numerator * pow(c.denominator, -1, m)
    c %= m
    if c > m // 2:
      c -= m
    if c:
      t[k] = c
  return Poly(t)


class El:
  """field element: value (mod PRIME) and integer range of its carrier."""

  def __init__(self, v, lo, hi):
    self.v, self.lo, self.hi = centre(v), lo, hi


class FD(Domain):
  """mode: 'limb' (base 2^16 limbs) or 'rns'."""

  def __init__(self):
    super().__init__()
    self.needs = []  # (where, text) unmet range requirements
    self.ranges = {}
    s = self.summaries
    for n in ('mod_mul_barrett_2u16', 'mod_mul_lazy_2u16', 'mod_mul_rns_2u16'):
      s[F + n] = self.mk(n, self.s_mul)
    for n in ('add_2u16', 'add_3u16'):
      s[F + n] = self.mk(n, self.s_add)
    for n in ('add_rns_2u16', 'add_rns_3u16', 'add_sub_rns_var'):
      s[F + n] = self.mk(n, self.s_addrns)
    for n in ('negate_rns_for_var_add', 'negate_rns_for_var_add_zero_check'):
      s[F + n] = self.mk(n, self.s_neg)
    s[F + 'sub_2u16'] = self.mk('sub_2u16', self.s_sub)
    s[F + 'cond_sub_2u16'] = self.mk('cond_sub_2u16', self.s_csub)
    s[F + 'cond_sub_mod_u16'] = self.mk('cond_sub_mod_u16', self.s_cmod)
    self.moduli = None
    self.trace_begin_hooks.append(lambda: self.needs.clear())

  # -- elements in arrays ----------------------------------------------------
  def get_moduli(self):
    if self.moduli is None:
      m = self.interp.get(U + 'MODULI')
      self.moduli = [int(x) for x in self.interp.iterate(m)]
      t = 1
      for x in self.moduli:
        t *= x
      self.M = t
    return self.moduli

  def limbs(self, e, n):
    return [poly.term('limb', e.v, e.lo, e.hi, i, n) for i in range(n)]

  def enc(self, shape, els, n, dtype='uint16'):
    d = sarr.obj(tuple(shape) + (n,))
    for idx, e in zip(np.ndindex(*shape), els):
      for i, c in enumerate(self.limbs(e, n)):
        d[idx + (i,)] = c
    return SArr(tuple(shape) + (n,), d, dtype, 'jnp')

  def dec_row(self, row, rns):
    n = len(row)
    cs = [sarr.concrete_cell(c) for c in row]
    if all(c is not None for c in cs):
      if rns:
        ms = self.get_moduli()
        if len(ms) != n:
          raise AbsRaise('ValueError', ('number of residues',))
        if all(c == cs[0] for c in cs):
          v = int(cs[0])
        else:
          v = 0
          for c, m in zip(cs, ms):
            r = self.M // m
            v += c * r * pow(r % m, -1, m)
          v %= self.M
      else:
        v = sum(int(c) << (16 * i) for i, c in enumerate(cs))
      return El(poly.const(v), v, v)
    p0 = None
    for i, c in enumerate(row):
      if not isinstance(c, Poly) or len(c.t) != 1:
        raise AnalysisError(f'not a field element: {c!r:.100}')
      (mono, k), = c.t.items()
      if k != 1 or len(mono) != 1 or mono[0][1] != 1 or mono[0][0].op != 'limb':
        raise AnalysisError(f'not a field element: {c!r:.100}')
      v, lo, hi, j, nn = mono[0][0].args
      if j != i or nn != n:
        raise AnalysisError('limbs out of order')
      if p0 is None:
        p0 = (v, lo, hi)
      elif p0[0] != v or p0[1:] != (lo, hi):
        raise AnalysisError('limbs of different elements')
    return El(*p0)

  def dec(self, a, rns=False):
    a = self._arr(a)
    if a.ndim < 1 or any(isinstance(x, Pay) for x in a.axes):
      raise AnalysisError('field array')
    sh = a.axes[:-1]
    return sh, [self.dec_row(list(a.data[i]), rns) for i in np.ndindex(*sh)], a.axes[-1]

  def pair(self, xs, rns=False):
    """broadcast the leading axes of several element arrays."""
    ds = [self.dec(x, rns) for x in xs]
    n = ds[0][2]
    if any(d[2] != n for d in ds):
      raise AbsRaise('TypeError', ('limb counts differ', [d[2] for d in ds]))
    try:
      sh = np.broadcast_shapes(*[d[0] for d in ds])
    except ValueError:
      raise AbsRaise('TypeError', ('shapes differ', [d[0] for d in ds]))
    out = []
    for d in ds:
      o = sarr.obj(d[0])
      for i, e in zip(np.ndindex(*d[0]), d[1]):
        o[i] = e
      out.append([np.broadcast_to(o, sh)[i] for i in np.ndindex(*sh)])
    return sh, list(zip(*out)), n

  def mk(self, name, f):
    def go(it, b, node, mod):
      return f(name, dict(b), node, mod)
    return go

  def need(self, ok, node, mod, text):
    if not ok:
      rel = getattr(mod, 'relpath', '?')
      self.needs.append(f'{rel}:{getattr(node, "lineno", 0)}: {text}')

  def const_of(self, v, what):
    v = self.interp_list(v)
    return sum(int(c) << (16 * i) for i, c in enumerate(v)), len(v)

  def interp_list(self, v):
    if isinstance(v, SArr):
      v = list(v.data.flat)
    r = [sarr.concrete_cell(x) for x in self.interp.iterate(v)] if not isinstance(
        v, list) else [sarr.concrete_cell(x) for x in v]
    if any(x is None for x in r):
      raise AnalysisError('abstract constant')
    return r

  # -- contracts ------------------------------------------------------------
  def s_mul(self, name, b, node, mod):
    rns = 'rns' in name
    a, c = b.pop('value_a'), b.pop('value_b')
    sh, prs, n = self.pair([a, c], rns)
    out = []
    if 'barrett' in name:
      q, _ = self.const_of(b['modulus_377_int_chunk'], 'modulus')
      if q % PRIME:
        raise AnalysisError('modulus')
      if n != 24:
        raise AbsRaise('TypeError', ('barrett operands have 24 limbs', n))
    elif 'lazy' in name and n != 25:
      raise AbsRaise('TypeError', ('lazy operands have 25 limbs', n))
    elif rns:
      ms = self.get_moduli()
      if len(ms) != n:
        raise AbsRaise('TypeError', ('residue count', n))
    for x, y in prs:
      ends = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]
      lo, hi = min(ends), max(ends)
      if 'barrett' in name:
        self.need(lo >= 0 and hi < 2**760, node, mod,
                  f'{name}: product up to 2^{hi.bit_length()} (Barrett needs < 2^760)')
        r = (0, PRIME - 1)
      elif 'lazy' in name:
        self.need(lo >= 0 and hi < 2**800, node, mod,
                  f'{name}: product up to 2^{hi.bit_length()} (needs < 2^800)')
        r = (0, 2**384 - 1 + 52 * 255 * (PRIME - 1))
      else:
        # quotient estimate: exact while -M/8 <= product < (1 - 100*255/2^16) M
        self.need(hi < self.M * 61 // 100 and lo >= -self.M // 8, node, mod,
                  f'{name}: product range [{lo / self.M:.3f}, {hi / self.M:.3f}] '
                  'times the RNS modulus leaves the exact range [-0.125, 0.61)')
        nb = 255 * 2 * n
        r = (0, 2 * nb * (PRIME - 1))
      out.append(El(x.v * y.v, *r))
    return self.enc(sh, out, n)

  def s_add(self, name, b, node, mod):
    vs = list(b.values())
    sh, rows, n = self.pair(vs)
    out = []
    for es in rows:
      v = poly.const(0)
      lo = hi = 0
      for e in es:
        v, lo, hi = v + e.v, lo + e.lo, hi + e.hi
      self.need(lo >= 0 and hi < 2**(16 * n), node, mod,
                f'{name}: sum up to 2^{hi.bit_length()} in {16 * n} bits')
      out.append(El(v, lo, hi))
    return self.enc(sh, out, n)

  def s_addrns(self, name, b, node, mod):
    b.pop('moduli_t', None)
    vs = []
    for v in b.values():
      vs.extend(v if isinstance(v, tuple) else v.items if isinstance(v, VList) else [v])
    if not vs:
      raise AbsRaise('AssertionError')
    sh, rows, n = self.pair(vs, True)
    out = []
    for es in rows:
      v = poly.const(0)
      lo = hi = 0
      for e in es:
        v, lo, hi = v + e.v, lo + e.lo, hi + e.hi
      self.need(len(es) < 64, node, mod, f'{name}: {len(es)} terms')
      out.append(El(v, lo, hi))
    return self.enc(sh, out, n)

  def s_neg(self, name, b, node, mod):
    sh, es, n = self.dec(b['value_a'], True)
    self.get_moduli()
    k = 512 * n * PRIME * 4
    out = [El(-e.v, k - e.hi, k - e.lo) for e in es]
    return self.enc(sh, out, n, 'uint32')

  def s_sub(self, name, b, node, mod):
    n0 = b.get('chunk_num_u16', 24)
    sh, rows, n = self.pair([b['value_a'], b['value_b']])
    if sarr.concrete_cell(n0) != n:
      raise AbsRaise('TypeError', ('chunk_num', n0, n))
    out = []
    for x, y in rows:
      self.need(x.lo - y.hi >= 0 or self.wide(x, y), node, mod,
                f'{name}: difference can be negative')
      out.append(El(x.v - y.v, max(0, x.lo - y.hi), max(0, x.hi - y.lo)))
    return self.enc(sh, out, n)

  def wide(self, x, y):
    # m - y with y in [0, m): allow the closed upper end
    return False

  def s_csub(self, name, b, node, mod):
    q, qn = self.const_of(b['modulus_377_int_chunk'], 'modulus')
    sh, rows, n = self.pair([b['value_a'], b['value_b']])
    if sarr.concrete_cell(b['chunk_num_u16']) != n or qn != n:
      raise AbsRaise('TypeError', ('chunk_num', b['chunk_num_u16'], n))
    if q % PRIME:
      raise AnalysisError('modulus')
    out = []
    for x, y in rows:
      # a >= b: a - b in [0, ahi - blo];  a < b: a + q - b
      lo2 = max(x.lo - y.hi, -(y.hi)) + q
      self.need(lo2 >= 0, node, mod,
                f'{name}: subtrahend up to {y.hi / q:.2f} moduli: a + q - b can be negative')
      out.append(El(x.v - y.v, 0, max(max(0, x.hi - y.lo), q - 1)))
    return self.enc(sh, out, n)

  def s_cmod(self, name, b, node, mod):
    q, qn = self.const_of(b['modulus_377_int_chunk'], 'modulus')
    sh, es, n = self.dec(b['value_a'])
    if sarr.concrete_cell(b['chunk_num_u16']) != n or qn != n:
      raise AbsRaise('TypeError', ('chunk_num', b['chunk_num_u16'], n))
    if q % PRIME:
      raise AnalysisError('modulus')
    out = [El(e.v, min(e.lo, q), e.hi if e.hi < q else max(q - 1, e.hi - q))
           for e in es]
    return self.enc(sh, out, n)


# ------------------------------------------------------------------ curves
def sqrt_mod(a, p=PRIME):
  a %= p
  if a == 0:
    return 0
  if pow(a, (p - 1) // 2, p) != 1:
    return None
  q, s = p - 1, 0
  while q % 2 == 0:
    q, s = q // 2, s + 1
  z = 2
  while pow(z, (p - 1) // 2, p) == 1:
    z += 1
  m, c, t, r = s, pow(z, q, p), pow(a, q, p), pow(a, (q + 1) // 2, p)
  while t != 1:
    i, u = 0, t
    while u != 1:
      u = u * u % p
      i += 1
    b = pow(c, 1 << (m - i - 1), p)
    m, c, t, r = i, b * b % p, t * b * b % p, r * b % p
  return r


def sw_point(rnd):
  while True:
    x = rnd.randrange(PRIME)
    y = sqrt_mod(x**3 + 1)
    if y:
      return x, y


def te_point(rnd):
  while True:
    x = rnd.randrange(2, PRIME)
    y = sqrt_mod((1 + x * x) * pow(1 - TWIST_D * x * x, -1, PRIME))
    if y:
      return x, y


def evmod(p, val):
  t = 0
  for mono, c in p.t.items():
    for a, e in mono:
      if a.args or a.op not in val:
        raise NoEval
      c = c * pow(val[a.op], e, PRIME) % PRIME
    t += c
  return t % PRIME


def zero_on(p, names, point, tries=6):
  """p vanishes (mod PRIME) for all curve points: True by normal form, else by
  evaluation at fixed curve points (False: the point shows it does not)."""
  p = centre(p)
  if not p.t:
    return True, None
  rnd = random.Random(5)
  for _ in range(tries):
    val = {}
    for i in names:
      x, y = point(rnd)
      val.update({f'x{i}': x, f'y{i}': y, f'z{i}': rnd.randrange(1, PRIME)})
    try:
      if evmod(p, val):
        return False, val
    except NoEval:
      return None, None
  return True, None


# ------------------------------------------------- reference implementation
AF = 'jaxite.jaxite_ec.algorithm.finite_field.FiniteFieldElement.'
AE = 'jaxite.jaxite_ec.algorithm.elliptic_curve.'
AC = 'jaxite.jaxite_ec.algorithm.config_file.'


class RD(Domain):
  """Reference classes: field elements are polynomials modulo the prime."""

  def __init__(self):
    super().__init__()
    self.ranges = {}
    s = self.summaries
    for n, f in (('__add__', lambda a, b: a + b), ('__sub__', lambda a, b: a - b),
                 ('__mul__', lambda a, b: a * b),
                 ('__truediv__', lambda a, b: a * self.inv(b))):
      s[AF + n] = self.mk2(f)
    s[AF + '__init__'] = self.s_init
    s[AF + 'copy'] = self.s_copy
    s[AF + '__eq__'] = self.s_eq

  def inv(self, p):
    p = centre(p)
    if p.is_const:
      return poly.const(pow(p.cval, -1, PRIME)) if p.cval else poly.const(0)
    return poly.term('inv', p)

  def val(self, o):
    if not isinstance(o, Inst) or 'value' not in o.attrs:
      raise AbsRaise('AttributeError', ('not a field element',))
    v = o.attrs['value']
    if not isinstance(v, Poly):
      raise AnalysisError(f'field value {v!r}')
    return v

  def new(self, o, v):
    r = Inst(o.cls)
    r.attrs = dict(o.attrs)
    r.attrs['value'] = centre(v)
    return r

  def mk2(self, f):
    def go(it, b, node, mod):
      x, y = list(b.values())[:2]
      return self.new(x, f(self.val(x), self.val(y)))
    return go

  def num(self, v):
    p = Poly.lift(v)
    if p is None and isinstance(v, Inst) and 'value' in v.attrs:
      p = Poly.lift(v.attrs['value'])
    if p is None:
      raise AnalysisError(f'field value {v!r}')
    return p

  def s_init(self, it, b, node, mod):
    vs = list(b.values())
    vs[0].attrs['value'] = centre(self.num(vs[1]))
    vs[0].attrs['prime'] = vs[2]
    return None

  def s_copy(self, it, b, node, mod):
    o = b['self']
    v = b.get('value')
    if v is None or (isinstance(v, int) and v == 0):
      return self.new(o, self.val(o) if v is None else poly.const(0))
    return self.new(o, self.num(v))

  def s_eq(self, it, b, node, mod):
    x, y = list(b.values())[:2]
    d = centre(self.val(x) - self.val(y))
    return not d.t  # generic points: different normal forms differ


def evr(p, val):
  t = 0
  for mono, c in p.t.items():
    if not isinstance(c, int):
      c = c.numerator * pow(c.denominator, -1, PRIME)
    for a, e in mono:
      if a.op == 'inv':
        x = pow(evr(a.args[0], val), PRIME - 2, PRIME)
      elif not a.args and a.op in val:
        x = val[a.op]
      else:
        raise NoEval
      c = c * pow(x, e, PRIME) % PRIME
    t += c
  return t % PRIME
