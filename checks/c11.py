"""C11: field arithmetic is exact and stays in range in every representation."""
import c10
from ec import FD, El, sw_point, te_point
from limb import *
import random

W = 'jaxite_ec/finite_field.py::'
WU = 'jaxite_ec/util.py::'
WA = 'jaxite_ec/algorithm/finite_field.py::'
WE = 'jaxite_ec/elliptic_curve.py::'
RULE = (
    'Limb routines: abstract interpretation over symbolic operands; limbs are '
    'byte digits of integer polynomials, carry loops are summarised after '
    'their body is checked to keep the weighted sum, and the result must be '
    'the specified polynomial modulo the prime inside the specified range on '
    'every path. RNS routines: the same per modulus, plus the CRT identities '
    'of the extracted reduction matrix and the quotient-estimate error. Range '
    'discipline: an interval analysis of every point routine shows each field '
    'operation is called inside the range where it is exact and the results '
    'stay inside the assumed ranges. A violation is reported only with '
    'operands on which the interpreted code gives a wrong value.')


def enc(dom, els, n):
  d = sarr.obj((len(els), n))
  for b, e in enumerate(els):
    ds = dom.digits(e, 2 * n)
    for i in range(n):
      d[b, i] = dom.norm(Poly.lift(ds[2 * i]) + Poly.lift(ds[2 * i + 1]) * poly.const(256))
  return SArr((len(els), n), d, 'uint16', 'jnp')


def corners(lo, hi, rnd, k=14):
  out = {lo, hi, lo + 1 if lo < hi else lo, max(lo, hi - 1), (lo + hi) // 2}
  for m in (PRIME, PRIME - 1, PRIME + 1, 2 * PRIME - 1):
    out.add(m)
  b = hi.bit_length()
  for s in (16, 32, 8 * (b // 16), b - 1, 64, 128):
    out |= {(1 << s) - 1, 1 << s}
  ff = 0
  for i in range(0, b, 32):
    ff |= 0xffff << i
  out.add(ff)
  while len(out) < k + 24:
    out.add(rnd.randint(lo, hi))
  return sorted(v for v in out if lo <= v <= hi)


def row_value(dom, cells, w=16):
  return dom.tele(dom.value(list(cells), w))


class Spec:

  def __init__(self, rep, it, dom):
    self.rep, self.it, self.dom = rep, it, dom

  def judge(self, v, vals, want, n, rng, mod, tk):
    dom = self.dom
    if not isinstance(v, SArr) or v.ndim != 2 or v.dtype != 'uint16':
      raise AnalysisError(f'result {v!r:.80}')
    if v.axes[-1] != n or v.axes[0] != len(vals):
      raise AnalysisError(f'result has shape {v.axes}')
    dom.teles.clear()
    self.it.taken = tk
    for b, vs in enumerate(vals):
      V = row_value(dom, v.data[b])
      d = V - Poly.lift(want(*vs))
      d = centre(d, mod) if mod else d
      if d.t:
        raise AnalysisError(f'row {b} not shown to be the specified value')
      lo, hi = dom.vrange(V)
      if lo < rng[0] or hi > rng[1]:
        raise AnalysisError(f'row {b} not shown to lie in the specified range')

  def refute(self, call, syms, want, n, rng, mod, pre):
    rnd = random.Random(7)
    cs = [corners(lo, hi, rnd) for _, lo, hi in syms]
    rows = []
    for i in range(400):
      t = tuple(rnd.choice(c) for c in cs)
      if pre is None or pre(*t):
        rows.append(t)
    rows = list(dict.fromkeys(rows))[:160]
    for i in range(0, len(rows), 32):
      blk = rows[i:i + 32]
      for o, v, tk in self.it.explore(lambda: call(blk), 2):
        if tk:
          return None
        if o == 'raise':
          return f'raises {v.exc_type}{v.exc_args!r:.100} for operands {str(blk[0])[:200]}'
        if o != 'return':
          return None
        if not isinstance(v, SArr) or tuple(v.axes) != (len(blk), n):
          return f'result has shape {getattr(v, "axes", v)}, expected {(len(blk), n)}'
        for b, t in enumerate(blk):
          cells = [sarr.concrete_cell(c) for c in v.data[b]]
          if any(c is None for c in cells):
            return None
          V = sum(int(c) << (16 * j) for j, c in enumerate(cells))
          w = want(*t)
          if (V - w) % mod if mod else V != w:
            return f'wrong value for operands {", ".join(map(hex, t))}: got {hex(V)}'
          if not rng[0] <= V <= rng[1]:
            return f'result {hex(V)} out of range for operands {", ".join(map(hex, t))}'
    return None

  def run(self, fn, call, syms, want, n, rng, mod=None, pre=None, rel=None, rows=2):
    """rel(row symbols) -> operand polynomials (relations between operands)."""
    rep, it, dom = self.rep, self.it, self.dom
    vals = []
    for b in range(rows):
      ps = [dom.sym(f'{nm}{b}', lo, hi) for nm, lo, hi in syms]
      vals.append(tuple(rel(*ps) if rel else ps))
    why = None
    try:
      for o, v, tk in it.explore(lambda: call(vals), 64):
        rep.count('paths')
        if o != 'return':
          raise AnalysisError(f'{o}: {v}')
        self.judge(v, vals, want, n, rng, mod, tk)
    except AnalysisError as e:
      why = e
    if why is None:
      rep.ok('limb', W + fn)
      return
    try:
      if rel is None:
        d = self.refute(call, syms, want, n, rng, mod, pre)
      else:
        rnd = random.Random(9)
        d = self.refute(lambda blk: call([rel(*t) for t in blk]), syms,
                        lambda *t: want(*rel(*t)), n, rng, mod, pre)
    except AnalysisError as e:
      d = None
      why = f'{why}; {e}'
    if d:
      rep.viol('limb', W + fn, d)
    else:
      rep.undecided('limb', W + fn, why)


def limbs(rep, it, dom):
  sp = Spec(rep, it, dom)
  p = PRIME

  def two(fn, n, **kw):
    f = it.get(FF + fn)
    return lambda vals: it.call(f, [enc(dom, [v[0] for v in vals], n), enc(dom, [v[1] for v in vals], n)], kw)

  big = 2**16 * p
  for n, h in ((24, p - 1), (25, big)):
    sp.run('add_2u16', two('add_2u16', n), [('A', 0, h), ('B', 0, h)], lambda a, b: a + b, n, (0, 2 * h))
  f3 = it.get(FF + 'add_3u16')
  sp.run('add_3u16', lambda vals: it.call(f3, [enc(dom, [v[i] for v in vals], 25) for i in range(3)], {}),
         [('A', 0, big), ('B', 0, big), ('C', 0, big)], lambda a, b, c: a + b + c, 25, (0, 3 * big))
  # a >= b: a = b + d
  for n, h in ((24, p - 1), (25, big), (48, p * p)):
    sp.run('sub_2u16', two('sub_2u16', n, chunk_num_u16=n), [('D', 0, h), ('B', 0, h)],
           lambda a, b: a - b, n, (0, h), rel=lambda d, b: (b + d, b))
  fm = it.get(FF + 'cond_sub_mod_u16')
  sp.run('cond_sub_mod_u16', lambda vals: it.call(fm, [enc(dom, [v[0] for v in vals], 24)], {}),
         [('A', 0, 2 * p - 1)], lambda a: a, 24, (0, p - 1), p)
  sp.run('cond_sub_2u16', two('cond_sub_2u16', 24), [('A', 0, p - 1), ('B', 0, p - 1)],
         lambda a, b: a - b, 24, (0, p - 1), p)
  ch = it.get(UT + 'MODULUS_377_S16_INT_CHUNK')
  sp.run('cond_sub_2u16', two('cond_sub_2u16', 25, modulus_377_int_chunk=ch, chunk_num_u16=25),
         [('A', 0, big), ('B', 0, big)], lambda a, b: a - b, 25, (0, big), p)
  sp.run('mul_2u16', two('mul_2u16', 24), [('A', 0, 2**384 - 1), ('B', 0, 2**384 - 1)],
         lambda a, b: a * b, 48, (0, 2**768))
  sp.run('mod_mul_barrett_2u16', two('mod_mul_barrett_2u16', 24), [('A', 0, p - 1), ('B', 0, p - 1)],
         lambda a, b: a * b, 24, (0, p - 1), p)
  fb = it.get(FF + 'barrett_reduction_u16x2')
  sp.run('barrett_reduction_u16x2', lambda vals: it.call(fb, [enc(dom, [v[0] for v in vals], 48)], {}),
         [('X', 0, p * p)], lambda x: x, 24, (0, p - 1), p)
  sp.run('mod_mul_lazy_2u16', two('mod_mul_lazy_2u16', 25), [('A', 0, big), ('B', 0, big)],
         lambda a, b: a * b, 25, (0, big), p)


# ------------------------------------------------------------------ RNS
class RV(ModDomain):
  """One residue: exact integers; an operation that may leave its type forks
  on whether it does."""

  def __init__(self):
    super().__init__()
    self.x64 = True

  def atom_range(self, a):
    if a.op == 'byte':
      x, w, i = a.args
      r = self.prange(x)
      if r is not None and r[0] >= 0 and r[1] < 1 << w:
        return (0, min(255, r[1] >> 8 * i))
    return super().atom_range(a)

  def xrange(self, p):
    """range of p, splitting on one small top byte."""
    best = self.prange(p)
    if not isinstance(p, Poly) or best is None:
      return best
    p = self.expand(p)
    for u in p.atoms():
      if u.op != 'byte':
        continue
      x, w, i = u.args
      xr = self.prange(x)
      if xr is None or xr[0] < 0 or xr[1] >> 8 * i > 64 or xr[1] >= 1 << w:
        continue
      # p = c x + d u + rest
      lead = next(iter(k for k in x.t if k), None)
      if lead is None or lead not in p.t:
        continue
      c = p.t[lead]
      if c % x.t[lead]:
        continue
      c //= x.t[lead]
      rest = p - x * poly.const(c)
      lin = {m: v for m, v in rest.t.items()}
      d = lin.pop(((u, 1),), 0)
      if any(a is u for m in lin for a, _ in m):
        continue
      rr = self.prange(Poly(lin))
      if rr is None:
        continue
      los, his = [], []
      for k in range((xr[1] >> 8 * i) + 1):
        xl, xh = max(xr[0], k << 8 * i), min(xr[1], ((k + 1) << 8 * i) - 1)
        if xl > xh:
          continue
        e = sorted((c * xl, c * xh))
        los.append(e[0] + d * k + rr[0])
        his.append(e[1] + d * k + rr[1])
      best = (max(best[0], min(los)), min(best[1], max(his)))
    return best

  def xfit(self, p, dt):
    r = self.xrange(p)
    if r is None or dt not in WW:
      return r is not None
    w, s = WW[dt]
    lo, hi = (-(1 << w - 1), (1 << w - 1) - 1) if s else (0, (1 << w) - 1)
    return lo <= r[0] and r[1] <= hi

  def into(self, p, dt):
    """the value of p stored in type dt."""
    p = Poly.lift(p)
    if dt not in WW or self.xfit(p, dt):
      return self.norm(p)
    w, s = WW[dt]
    r = self.xrange(p)
    if r is None or s:
      raise AnalysisError('may wrap around')
    lo, hi = r[0] >> w, r[1] >> w
    if hi - lo > 3:
      raise AnalysisError(f'may wrap around in {dt}')
    for k in range(hi, lo, -1):
      c = self.typed_fork(p - poly.const(k << w))
      if c:
        return self.norm(p - poly.const(k << w))
    return self.norm(p - poly.const(lo << w))

  def typed_fork(self, d):
    """d >= 0?"""
    c = poly.compare('>=', d, 0)
    if isinstance(c, bool):
      return c
    r = self.xrange(d)
    if r is not None and (r[0] >= 0 or r[1] < 0):
      return r[0] >= 0
    return self.interp.decide(c, None, None)

  def cell_binop(self, op, a, b, dtype=None):
    if op in ('+', '-', '*') and isinstance(a, (int, Poly)) and isinstance(b, (int, Poly)) and dtype in WW:
      x, y = Poly.lift(a), Poly.lift(b)
      if not (x.is_const and y.is_const):
        return self.into(x + y if op == '+' else x - y if op == '-' else x * y, dtype)
    return super().cell_binop(op, a, b, dtype)

  def cell_unary(self, op, a):
    return super().cell_unary(op, a)

  def cell_cast(self, c, f, t):
    if isinstance(c, Poly) and not c.is_const and t in WW:
      if self.xfit(c, t):
        return c
      w, s = WW[t]
      r = self.xrange(c)
      if r is not None and not s and r[0] >= 0 and w % 8 == 0 and f in WW:
        return self.from_bytes(self.bytes_of(c, WW[f][0])[:w // 8], t)
      return self.into(c, t)
    return super().cell_cast(c, f, t)

  def from_bytes(self, bs, dt):
    r = poly.const(0)
    for i, b in enumerate(bs):
      r = r + Poly.lift(b) * poly.const(1 << (8 * i))
    return self.norm(r)

  def expand(self, p, all_=False):
    """byte_0(x) -> x minus the other bytes of x (once, or to the bottom)."""
    p = Poly.lift(p)
    for _ in range(12 if all_ else 1):
      mp = {}
      for a in p.atoms():
        if a.op == 'byte' and a.args[2] == 0:
          x, w, _ = a.args
          q = x
          for i, b in enumerate(self.bytes_of(x, w)):
            if i:
              q = q - Poly.lift(b) * poly.const(1 << 8 * i)
          mp[a] = q
      if not mp:
        return p
      p = p.subst(mp)
    return p

  def cell_where(self, c, a, b):
    if isinstance(c, poly.Cond):
      return a if self.interp.decide(c, None, None) else b
    return super().cell_where(c, a, b)


def residues(rep, it, dom):
  """Per-modulus routines: residue kept, result fits, for every word."""
  mods = [int(x) for x in it.iterate(it.get(UT + 'MODULI'))]
  ts = [int(x) for x in it.iterate(it.get(UT + 'RNS_MODULI_T'))]
  subs = [int(x) for x in it.iterate(it.get(UT + 'MODULI_SUB'))]
  if len(ts) != len(mods) or len(subs) != len(mods):
    rep.viol('rns', WU + 'MODULI', 'MODULI, RNS_MODULI_T and MODULI_SUB differ in length')
    return

  def cell(v, dt):
    d = sarr.obj((1, 1))
    d[0, 0] = v
    return SArr((1, 1), d, dt, 'jnp')

  def row(vs, dt):
    d = sarr.obj((1, len(vs)))
    for i, v in enumerate(vs):
      d[0, i] = v
    return SArr((1, len(vs)), d, dt, 'jnp')

  def one(fn, mk, syms, want, kw, m, out='uint16'):
    f = it.get(FF + fn)
    ps = [dom.sym(nm, lo, hi) for nm, lo, hi in syms]
    why = None
    try:
      for o, v, tk in it.explore(lambda: it.call(f, mk(*ps), dict(kw)), 32):
        rep.count('paths')
        if o != 'return':
          raise AnalysisError(f'{o}: {v}')
        if v.dtype != out:
          raise AnalysisError(f'result type {v.dtype}')
        g = Poly.lift(v.data.reshape(-1)[0])
        d = dom.expand(g, True) - want(*ps)
        if any(c % m for c in d.t.values()):
          # a path condition x = c may close the gap
          raise AnalysisError('residue not shown to be kept')
      return True
    except AnalysisError as e:
      why = e
    rnd = random.Random(3)
    for i in range(160):
      t = []
      for _, lo, hi in syms:
        cs = [lo, hi, hi - 1, lo + 1, m, m - 1, m + 1, 2 * m, 65535, 65536, 65535 * 65535,
              rnd.randint(lo, hi), rnd.randint(lo, hi)]
        cs = [c for c in cs if lo <= c <= hi]
        t.append(cs[0] if i == 0 else cs[1] if i == 1 else rnd.choice(cs))
      try:
        for o, v, tk in it.explore(lambda: it.call(f, mk(*t), dict(kw)), 2):
          if tk or o == 'undecided':
            continue
          if o == 'raise':
            return f'raises {v.exc_type} for {t}'
          g = sarr.concrete_cell(v.data.reshape(-1)[0])
          if g is None:
            continue
          if (g - want(*t)) % m:
            return f'modulus {m}: operands {t} give {g}, not congruent to {want(*t) % m}'
          if v.dtype != out:
            return f'result has type {v.dtype}, expected {out}'
      except AnalysisError as e:
        why = f'{why}; {e}'
        break
    return why

  u16 = 65535
  cases = {
      'moduli_rns_red_internal_2u16': lambda t, m, s: (
          lambda v: [cell(v, 'uint32')], [('v', 0, 2**32 - 1)], lambda v: v, {'moduli_t': (t,)}, 'uint16'),
      'mul_unreduced_rns_2u16': lambda t, m, s: (
          lambda a, b: [cell(a, 'uint16'), cell(b, 'uint16')], [('a', 0, u16), ('b', 0, u16)],
          lambda a, b: a * b, {'moduli_t': (t,)}, 'uint16'),
      'add_rns_2u16': lambda t, m, s: (
          lambda a, b: [cell(a, 'uint16'), cell(b, 'uint16')], [('a', 0, u16), ('b', 0, u16)],
          lambda a, b: a + b, {'moduli_t': (t,)}, 'uint16'),
      'add_rns_3u16': lambda t, m, s: (
          lambda a, b, c: [cell(a, 'uint16'), cell(b, 'uint16'), cell(c, 'uint16')],
          [('a', 0, u16), ('b', 0, u16), ('c', 0, u16)], lambda a, b, c: a + b + c, {'moduli_t': (t,)}, 'uint16'),
      # operands of a sum: residues (16 bits) and negated residues (17 bits)
      'add_sub_rns_var': lambda t, m, s: (
          lambda a, b, c, d, e: [cell(a, 'uint16'), cell(b, 'uint16'), cell(c, 'uint32'), cell(d, 'uint32'), cell(e, 'uint32')],
          [('a', 0, u16), ('b', 0, u16)] + [(x, 0, 2**17 - 1) for x in 'cde'],
          lambda a, b, c, d, e: a + b + c + d + e, {'moduli_t': (t,)}, 'uint16'),
  }
  K = 512 * len(mods) * PRIME * 4
  for nm in ('negate_rns_for_var_add', 'negate_rns_for_var_add_zero_check'):
    cases[nm] = lambda t, m, s: (
        lambda a, b: [row([a, b], 'uint16')], [('a', 0, u16), ('b', 1, u16)], lambda a, b: K % m - a,
        {'moduli_sub': (s, subs[1])}, 'uint32')
  for fn, mk in cases.items():
    bad = None
    und = []
    for t, m, s in zip(ts, mods, subs):
      args, syms, want, kw, out = mk(t, m, s)
      r = one(fn, args, syms, want, kw, m, out)
      if r is True:
        rep.ok('rns', W + fn)
      elif isinstance(r, str):
        bad = bad or r
      else:
        und.append(f'modulus {m}: {r}')
    if bad:
      rep.viol('rns', W + fn, bad)
    for u in und:
      rep.undecided('rns', W + fn, u)


def crt(rs, ms):
  M = 1
  for m in ms:
    M *= m
  v = 0
  for r, m in zip(rs, ms):
    q = M // m
    v += r * q * pow(q % m, -1, m)
  return v % M


def rns_reduction(rep, it, dom):
  """mod_red_rns_2u16: the extracted linear maps satisfy the CRT identities."""
  mods = [int(x) for x in it.iterate(it.get(UT + 'MODULI'))]
  n = len(mods)
  M = 1
  for m in mods:
    M *= m
  for i in range(n):
    for j in range(i):
      if np.gcd(mods[i], mods[j]) != 1:
        rep.viol('rns-moduli', WU + 'MODULI', f'moduli {mods[j]} and {mods[i]} are not coprime')
        return
  ts = [int(x) for x in it.iterate(it.get(UT + 'RNS_MODULI_T'))]
  for m, t in zip(mods, ts):
    if (2**16 - t) % m:
      rep.viol('rns-moduli', WU + 'RNS_MODULI_T', f'2^16 - {t} is not a multiple of {m}')
      return
  rep.ok('rns-moduli', WU + 'MODULI')
  seen = []

  def red(itp, b, node, mod):
    v = b['vals']
    seen.append(v)
    return v.map(lambda c: poly.term('res', Poly.lift(c)), 'uint16')
  dom.summaries[FF + 'moduli_rns_red_internal_2u16'] = red
  def operand(name):
    d = sarr.obj((1, n))
    for j in range(n):
      lo, hi = dom.sym(f'{name}{j}.0', 0, 255), dom.sym(f'{name}{j}.1', 0, 255)
      d[0, j] = lo + hi * poly.const(256)
    return SArr((1, n), d, 'uint16', 'jnp')

  prod = operand('c')
  syms = [dom.sym(f'c{j}.{i}', 0, 255) for j in range(n) for i in (0, 1)]
  calls = []

  def mul(itp, b, node, mod):
    vs = [v for v in b.values() if isinstance(v, SArr)]
    calls.append(vs)
    return prod

  def one(fn, args, where):
    calls.clear()
    try:
      kw = {}
      if where.endswith('construct_rns_matrix'):
        kw['rns_mat'] = it.call(it.get(UT + 'construct_rns_matrix'), [PRIME], {})
      outs = it.explore(lambda: it.call(it.get(FF + fn), args, dict(kw)), 4)
      (o, v, tk), = outs
      if o != 'return' or tk:
        raise AnalysisError(f'{o}: {v}')
      if fn == 'mod_mul_rns_2u16':
        if len(calls) != 1 or len(calls[0]) != 2:
          raise AnalysisError('product not found')
        ks = sorted(str(x.abs_key()) for x in calls[0])
        if ks != sorted(str(x.abs_key()) for x in args):
          if all(any(str(x.abs_key()) == str(y.abs_key()) for y in args) for x in calls[0]):
            rep.viol('rns-reduce', where, 'the product of the operands is not what is reduced')
            return
          raise AnalysisError('operands changed before the product')
      d = judge_red(dom, v, syms, mods, M)
      if d:
        rep.viol('rns-reduce', where, d)
      else:
        rep.ok('rns-reduce', where,
               'coefficients of all residues, quotient estimate and correction checked')
    except (AnalysisError, AbsRaise) as e:
      rep.undecided('rns-reduce', where, e)

  try:
    one('mod_red_rns_2u16', [prod], W + 'mod_red_rns_2u16')
    one('mod_red_rns_2u16', [prod], WU + 'construct_rns_matrix')
    dom.summaries[FF + 'mul_unreduced_rns_2u16'] = mul
    one('mod_mul_rns_2u16', [operand('a'), operand('b')], W + 'mod_mul_rns_2u16')
  finally:
    dom.summaries.pop(FF + 'mul_unreduced_rns_2u16', None)
    del dom.summaries[FF + 'moduli_rns_red_internal_2u16']


def judge_red(dom, v, syms, mods, M):
  n = len(mods)
  names = {a: i for i, s in enumerate(syms) for a in s.atoms()}
  if not isinstance(v, SArr) or tuple(v.axes) != (1, n):
    return f'result has shape {getattr(v, "axes", v)}, expected (1, {n})'
  R = [[0] * n for _ in syms]
  C = [0] * n
  kat = None
  for j in range(n):
    c = v.data[0, j]
    a, = [x for x in c.atoms()]
    if a.op != 'res':
      raise AnalysisError('residue not reduced last')
    p = a.args[0]
    r = dom.prange(p)
    if r is None or r[0] < 0 or r[1] >= 2**32:
      raise AnalysisError('accumulator may wrap around')
    for mono, co in p.t.items():
      if len(mono) != 1 or mono[0][1] != 1:
        raise AnalysisError('not linear')
      x = mono[0][0]
      if x in names:
        R[names[x]][j] = co
      elif x.op == 'shr' or x.op == 'byte':
        if kat is None:
          kat = x
        elif kat is not x:
          raise AnalysisError('several quotient estimates')
        C[j] = co
      else:
        raise AnalysisError(f'unknown term {x.op}')
  if kat is None or kat.op != 'shr':
    raise AnalysisError('no quotient estimate')
  qe, sh = kat.args
  sq = [0] * len(syms)
  for mono, co in qe.t.items():
    if mono == ():
      raise AnalysisError('quotient estimate has a constant')
    sq[names[mono[0][0]]] = co
  # weights of the CRT reconstruction
  err = Fraction(0)
  tot = 0
  down = False
  for j, m in enumerate(mods):
    rest = M // m
    icrt = rest * pow(rest % m, -1, m) % M
    for i in range(2):
      b = 2 * j + i
      Wb = (icrt << 8 * i) % M
      w = crt([R[b][k] % mods[k] for k in range(n)], mods)
      if (w - Wb) % PRIME:
        k = next((k for k in range(n) if R[b][k] % mods[k] != Wb % PRIME % mods[k]), 0)
        return (f'weight of byte {i} of residue {j} is not its CRT weight modulo the prime '
                f'(residue {k}: {R[b][k]}, expected {Wb % PRIME % mods[k]})')
      if w >= 2 * PRIME:
        raise AnalysisError('weight not reduced')
      e = Fraction(sq[b], 1 << sh) - Fraction(Wb, M)
      down = down or e < 0
      err += 255 * max(e, 0)
      tot += 255 * w
  cc = crt([C[k] % mods[k] for k in range(n)], mods)
  if (cc + M) % PRIME:
    return 'the correction is not -M modulo the prime'
  if down:
    rnd = random.Random(3)
    for x in list(range(400)) + [rnd.randrange(M * 61 // 100) for _ in range(200)]:
      bs = [b for m in mods for b in (x % m & 255, x % m >> 8)]
      est = sum(a * b for a, b in zip(sq, bs)) >> sh
      got = crt([(sum(R[b][k] * bs[b] for b in range(len(bs))) + C[k] * est) % mods[k]
                 for k in range(n)], mods)
      if (got - x) % PRIME:
        return (f'the quotient estimate is rounded down: {x:#x} reduces to a value that is '
                f'{got % PRIME:#x} modulo the prime')
    raise AnalysisError('quotient estimate rounds down')
  if err > Fraction(39, 100):
    return (f'the quotient estimate can be off for products above {float(1 - err):.3f} of the RNS '
            'modulus, below the 0.61 the point formulas rely on')
  kmax = dom.prange(Poly.lift(qe))[1] >> sh
  if tot + kmax * cc > 510 * n * 2 * PRIME:
    raise AnalysisError('result bound')
  return None


# -------------------------------------------------------------- range discipline
def ranges(rep, tier):
  dom = FD()
  it = Interp(Repo(), dom)
  for fn, kind, op, back, form in c10.cases():
    where = WE + fn
    try:
      kw = {'transpose': (0, 1, 2)} if form == 'first' else None
      for o, v, tk in it.explore(lambda: c10.call_case(it, dom, fn, kind, op, back, form, 1, kw)):
        if o != 'return':
          raise AnalysisError(f'{o}: {v}')
        u = c10.unpack(dom, v, back, 1, False)
        if isinstance(u, str):
          raise AnalysisError(u)
        bad = list(dom.needs)
        for j, (e, r) in enumerate(zip(u[0], c10.RANGES[back])):
          if e.lo < r[0] or e.hi > r[1]:
            bad.append(f'coordinate {j} reaches [{e.lo / PRIME:.1f}, {e.hi / PRIME:.1f}] times the prime, '
                       f'beyond the range [{r[0] / PRIME:.1f}, {r[1] / PRIME:.1f}] its users allow')
        if bad:
          d = confirm_range(fn, kind, op, back, form, kw)
          if d:
            rep.viol('range', where, d + '; ' + bad[0])
          else:
            rep.undecided('range', where, bad[0])
        else:
          rep.ok('range', where)
    except AnalysisError as e:
      rep.undecided('range', where, e)
  rep.functions |= it.inlined


def confirm_range(fn, kind, op, back, form, kw):
  """Interpret the routine on fixed coordinates (repeatedly, feeding results
  back) and compare with the group law; a description of the failure or None."""
  dom = LD()
  it = Interp(Repo(), dom)
  tw = kind == 'tw'
  add = c10.te_add if tw else c10.sw_add
  rnd = random.Random(23)
  n = c10.LIMBS[back]
  rns = back.startswith('rns')
  rg = c10.RANGES[back]
  mods = [int(x) for x in it.iterate(it.get(UT + 'MODULI'))] if rns else None
  f = it.get(c10.E + fn)

  def coords(P):
    x, y = P
    z = rnd.randrange(1, PRIME)
    c = [x * z, y * z, z, x * y * z] if tw else [x * z * z, y * z**3, z * z, z**3]
    return [v % PRIME for v in c]

  def lift(c, mode):
    out = []
    for v, (lo, hi) in zip(c, rg):
      k = (hi - v) // PRIME
      out.append(v + PRIME * (k if mode == 'max' else rnd.randrange(k + 1) if mode == 'rand' else 0))
    return out

  def array(rows):
    """rows: batch of 4 integers -> (4, batch, n)."""
    d = sarr.obj((4, len(rows), n))
    for b, r in enumerate(rows):
      for j, v in enumerate(r):
        for i in range(n):
          d[j, b, i] = v % mods[i] if rns else (v >> 16 * i) & 65535
    return SArr((4, len(rows), n), d, 'uint16', 'jnp')

  def affine(c):
    X, Y, Z, T = [v % PRIME for v in c]
    if tw:
      if Z == 0 or (T * Z - X * Y) % PRIME:
        return None
      return X * pow(Z, -1, PRIME) % PRIME, Y * pow(Z, -1, PRIME) % PRIME
    if not Z or not T or (Z**3 - T * T) % PRIME:
      return None
    return X * pow(Z, -1, PRIME) % PRIME, Y * pow(T, -1, PRIME) % PRIME

  pt = (te_point if tw else sw_point)
  pts = [[pt(rnd), pt(rnd)] for _ in range(6)]
  A = array([lift(coords(p[0]), m) for p, m in zip(pts, ('max', 'zero', 'rand') * 2)])
  B = array([lift(coords(p[1]), m) for p, m in zip(pts, ('max', 'max', 'rand', 'rand', 'zero', 'max'))])
  for step in range(4):
    ops = [A] + ([B] if op == 'add' else [])
    args = [o.index((j,)) for o in ops for j in range(4)] if form == 'split' else ops
    outs = it.explore(lambda: it.call(f, args, dict(kw or {})), 2)
    if len(outs) != 1 or outs[0][0] == 'undecided' or outs[0][2]:
      return None
    o, v, _ = outs[0]
    if o == 'raise':
      return f'raises {v.exc_type}'
    if isinstance(v, (tuple, VList)):
      v = sarr.stack([x for x in it.iterate(v)]) if hasattr(sarr, 'stack') else None
    if not isinstance(v, SArr) or tuple(v.axes) != (4, len(pts), n):
      return None
    for b, (P, Q) in enumerate(pts):
      c = []
      for j in range(4):
        row = [sarr.concrete_cell(x) for x in v.data[j, b]]
        if any(x is None for x in row):
          return None
        if rns:
          M = 1
          for m in mods:
            M *= m
          x = crt([r % m for r, m in zip(row, mods)], mods)
          # representatives of a bounded (possibly negative) integer
          x = x - M if x > M // 2 else x
        else:
          x = sum(r << 16 * i for i, r in enumerate(row))
          if not rg[j][0] <= x <= rg[j][1]:
            return (f'coordinate {j} of the result is {x / PRIME:.2f} times the prime after {step + 1} '
                    f'operations on coordinates within [0, {rg[j][1] / PRIME:.2f}] times the prime')
        c.append(x)
      if op == 'add':
        R = add(P, Q)
      elif op == 'dbl':
        R = add(P, P)
      else:
        R = (-P[0] % PRIME, P[1])
      if affine(c) != R:
        return f'wrong point after {step + 1} operations on coordinates within the allowed range'
      pts[b] = [R, Q]
    A = v
  return None


# ------------------------------------------------------------ conversions
def conversions(rep, repo):
  dom = LD()
  it = Interp(repo, dom)

  def run_(kind, fn, thunk, judge, refute):
    where = WU + fn
    why = None
    try:
      for o, v, tk in it.explore(thunk, 64):
        rep.count('paths')
        if o != 'return':
          raise AnalysisError(f'{o}: {v}')
        dom.teles.clear()
        it.taken = tk
        judge(v)
      rep.ok(kind, where)
      return
    except AnalysisError as e:
      why = e
    try:
      d = refute()
    except AnalysisError as e:
      d, why = None, f'{why}; {e}'
    if d:
      rep.viol(kind, where, d)
    else:
      rep.undecided(kind, where, why)

  def concrete(thunk):
    outs = it.explore(thunk, 2)
    if len(outs) != 1 or outs[0][2] or outs[0][0] == 'undecided':
      raise AnalysisError('not concrete')
    if outs[0][0] == 'raise':
      return f'raises {outs[0][1].exc_type}'
    return outs[0][1]

  rnd = random.Random(12)
  for fn in ('int_to_array', 'int_to_precomputed_array'):
    f = it.get(UT + fn)
    for base, n, dt in ((16, 24, 'uint16'), (16, 25, 'uint16'), (8, 48, 'uint16')):
      hi = (1 << base * n) - 1

      def judge(v):
        cells = list(v.data) if isinstance(v, SArr) else list(it.iterate(v))
        if len(cells) != n:
          raise AnalysisError('length')
        V = dom.tele(dom.value(cells, base))
        d = V - dom.sym('X', 0, hi)
        if dom.vrange(d) != (0, 0):
          raise AnalysisError('value')
        for c in cells:
          r = dom.prange(Poly.lift(c))
          if r is None or r[0] < 0 or r[1] >= 1 << base:
            raise AnalysisError('digit range')

      def refute():
        for x in corners(0, hi, rnd):
          v = concrete(lambda: it.call(f, [x, base], {'array_size': n}))
          if isinstance(v, str):
            return f'{v} for {hex(x)}'
          cells = [sarr.concrete_cell(c) for c in (v.data if isinstance(v, SArr) else it.iterate(v))]
          if len(cells) != n or sum(c << base * i for i, c in enumerate(cells)) != x or any(
              not 0 <= c < 1 << base for c in cells):
            return f'{hex(x)} becomes {cells}'
      run_('conversion', fn, lambda: it.call(f, [dom.sym('X', 0, hi), base], {'array_size': n}), judge, refute)
  f = it.get(UT + 'array_to_int')
  for n in (24, 25):
    def judge(v):
      if (dom.tele(Poly.lift(v)) - dom.sym('X', 0, 2**(16 * n) - 1)).t:
        raise AnalysisError('value')

    def refute():
      for x in corners(0, 2**(16 * n) - 1, rnd):
        v = concrete(lambda: it.call(f, [enc(dom, [x], n).index((0,)), 16], {}))
        if isinstance(v, str) or sarr.concrete_cell(v) != x:
          return f'the limbs of {hex(x)} give {v!r:.60}'
    run_('conversion', 'array_to_int',
         lambda: it.call(f, [enc(dom, [dom.sym('X', 0, 2**(16 * n) - 1)], n).index((0,)), 16], {}), judge, refute)

  # residues
  mods = [int(x) for x in it.iterate(it.get(UT + 'MODULI'))]
  M = 1
  for m in mods:
    M *= m
  xs = [0, 1, PRIME - 1, PRIME, M - 1, M // 2, 65536, 2**400] + [rnd.randrange(M) for _ in range(8)]

  def rns_round():
    for x in xs:
      r = concrete(lambda: it.call(it.get(UT + 'int_to_array_rns'), [x], {}))
      rs = [sarr.concrete_cell(c) for c in it.iterate(r)] if not isinstance(r, str) else None
      if rs != [x % m for m in mods]:
        return f'residues of {hex(x)} are wrong'
      v = concrete(lambda: it.call(it.get(UT + 'array_rns_to_int'), [VList(list(rs))], {}))
      if sarr.concrete_cell(v) != x:
        return f'the residues of {hex(x)} reconstruct to {v!r:.60}'
    return None

  def thunk():
    rs = it.call(it.get(UT + 'int_to_array_rns'), [dom.sym('X', 0, M - 1)], {})
    v = it.call(it.get(UT + 'array_rns_to_int'), [VList([dom.sym(f'r{j}', 0, m - 1) for j, m in enumerate(mods)])], {})
    return rs, v

  def judge(v):
    rs, x = v
    cells = list(it.iterate(rs))
    X = dom.sym('X', 0, M - 1)
    for c, m in zip(cells, mods):
      w = dom.cell_binop('%', X, m, None)
      if (Poly.lift(c) - Poly.lift(w)).t:
        raise AnalysisError('residue form')
    if len(cells) != len(mods):
      raise AnalysisError('length')
    a, = list(Poly.lift(x).atoms())
    if a.op != '%' or not Poly.lift(a.args[1]).is_const or Poly.lift(a.args[1]).cval != M:
      raise AnalysisError('reconstruction form')
    lin = a.args[0].linear()
    if lin is None or lin[1] % M:
      raise AnalysisError('reconstruction form')
    for j, m in enumerate(mods):
      t, = dom.sym(f'r{j}', 0, m - 1).atoms()
      c = lin[0].get(t, 0)
      if any(c % k != int(k == m) for k in mods):
        raise AnalysisError(f'CRT weight of residue {j}')
  run_('conversion', 'array_rns_to_int', thunk, judge, rns_round)

  # point packs: coordinate-major, batch next, limbs last; and back
  def to_arr(itp, b, node, mod):
    n = sarr.concrete_cell(b.get('array_size', 24))
    if sarr.concrete_cell(b.get('base', 16)) != 16 or n is None:
      raise AnalysisError('base')
    return enc(dom, [Poly.lift(b['python_int'])], n).index((0,))

  def from_arr(itp, b, node, mod):
    a = dom._arr(b['jax_array'])
    if sarr.concrete_cell(b['base']) != 16:
      raise AnalysisError('base')
    return dom.norm(dom.tele(dom.value(list(a.data))))
  dom.summaries[UT + 'int_to_array'] = to_arr
  dom.summaries[UT + 'array_to_int'] = from_arr
  dom.summaries[UT + 'rns_precompute'] = lambda itp, b, node, mod: VList([0] * len(mods))

  def rns_back(itp, b, node, mod):
    cells = list(dom._arr(b['residues']).data.flat)
    base = None
    for c, m in zip(cells, mods):
      p = Poly.lift(c)
      a = list(p.atoms()) if p is not None else []
      if len(a) != 1 or a[0].op not in ('%', 'lowb') or (p - poly.term(a[0].op, *a[0].args)).t:
        raise AnalysisError('residues')
      y, k = a[0].args
      k = sarr.concrete_cell(dom.norm(Poly.lift(k)))
      if (1 << k if a[0].op == 'lowb' else k) != m or (base is not None and (base - y).t):
        raise AnalysisError('residues')
      base = y
    return base
  dom.summaries[UT + 'rns_reconstruct'] = rns_back

  def S(b, j):
    return dom.sym(f'p{b}c{j}', 0, PRIME - 1)

  def rows(nb, nc):
    return VList([VList([S(b, j) for j in range(nc)]) for b in range(nb)])

  def flat(v):
    return [list(it.iterate(r)) for r in it.iterate(v)]

  for to, back in (('int_point_batch_to_jax_point_pack', 'jax_point_pack_to_int_point_batch'),
                   ('int_point_batch_to_jax_rns_point_pack', 'jax_rns_point_pack_to_int_point_batch')):
    for nb, nc in ((1, 4), (2, 4), (3, 4)):
      rns = 'rns' in to

      def th():
        a = it.call(it.get(UT + to), [rows(nb, nc)], {})
        return a, it.call(it.get(UT + back), [a], {})

      def judge(v, tk):
        a, r = v
        if not isinstance(a, SArr) or tuple(a.axes[:2]) != (nc, nb):
          return f'{to} gives shape {a.axes} for {nb} points of {nc} coordinates'
        for b in range(nb):
          for j in range(nc):
            if rns:
              ok = all(
                  not (Poly.lift(a.data[j, b, i]) - Poly.lift(dom.cell_binop('%', S(b, j), m, None))).t
                  for i, m in enumerate(mods)) if a.axes[2] == len(mods) else False
            else:
              ok = not (dom.tele(dom.value(list(a.data[j, b]))) - S(b, j)).t
            if not ok:
              return f'{to}: entry ({j}, {b}) is not coordinate {j} of point {b}'
        g = flat(r)
        if len(g) != nb or any(len(x) != nc for x in g):
          return f'{back} gives {len(g)} points'
        for b in range(nb):
          for j in range(nc):
            if (Poly.lift(g[b][j]) - S(b, j)).t:
              return f'{back}: coordinate {j} of point {b} is not recovered'
      explore(rep, it, 'conversion', WU + to, th, judge)
  for to, back in (('int_list_to_array', 'array_to_int_list'), ('int_list_to_array_rns', 'array_rns_to_int_list'),
                   ('int_point_to_jax_point_pack', 'jax_point_pack_to_int_point'),
                   ('int_point_to_jax_rns_point_pack', 'jax_rns_point_pack_to_int_point')):
    def th():
      a = it.call(it.get(UT + to), [VList([S(0, j) for j in range(3)])], {})
      return it.call(it.get(UT + back), [a] + ([16] if back == 'array_to_int_list' else []), {})

    def judge(v, tk):
      g = list(it.iterate(v))
      if len(g) != 3 or any((Poly.lift(x) - S(0, j)).t for j, x in enumerate(g)):
        return f'{back}({to}(values)) does not return the values'
    explore(rep, it, 'conversion', WU + to, th, judge)
  rep.functions |= it.inlined


# ------------------------------------------------------ reference classes
RFP = 'jaxite.jaxite_ec.algorithm.finite_field.'


class RF(LD):

  def ext_hook(self, path, args, kw, node, mod):
    if path == 'gmpy2.mpz':
      v = args[0]
      if isinstance(v, float):
        v = int(v)
      if not isinstance(v, (int, Poly)):
        raise AnalysisError(f'mpz({v!r:.60})')
      return v
    if path == 'gmpy2.powmod':
      x, e, m = args
      if isinstance(x, Poly) and x.is_const:
        x = x.cval
      if all(isinstance(v, int) for v in (x, e, m)):
        return pow(x, e, m)
      if isinstance(e, int) and isinstance(m, int):
        return poly.term('powm', Poly.lift(x), e, m)
      raise AnalysisError('powmod')
    if path in ('gmpy2.log2', 'gmpy2.ceil'):
      v = args[0]
      if not isinstance(v, (int, float)):
        raise AnalysisError(path)
      import math
      return math.log2(v) if path.endswith('log2') else float(math.ceil(v))
    return super().ext_hook(path, args, kw, node, mod)

  def atom_range(self, a):
    if a.op == 'powm':
      return (0, a.args[2] - 1)
    if a.op == '%':
      m = a.args[1]
      m = m.cval if isinstance(m, Poly) and m.is_const else m
      return (0, m - 1) if isinstance(m, int) else None
    return super().atom_range(a)

  def cell_binop(self, op, a, b, dtype=None):
    bb = b.cval if isinstance(b, Poly) and b.is_const else b
    if op == '%' and dtype is None and isinstance(a, Poly) and not a.is_const and isinstance(bb, int):
      r = self.prange(a)
      if r is not None and 0 <= r[0] and r[1] < bb:
        return a
      if bb & (bb - 1):
        return poly.term('%', a, bb)
    return super().cell_binop(op, a, b, dtype)


def unmod(p, q):
  """x % q -> x (as residues modulo q)."""
  for _ in range(8):
    mp = {a: a.args[0] for a in p.atoms() if a.op == '%' and a.args[1] == q}
    if not mp:
      return p
    p = p.subst(mp)
  return p


def reference_field(rep, repo, tier):
  dom = RF()
  it = Interp(repo, dom)
  p = PRIME

  def mk(cls, v, pr=p):
    """an element whose stored representation is v."""
    e = it.call(it.get(RFP + cls), [0, pr], {})
    bi = it.getattr_(e, 'value')
    n = Inst(bi.cls)
    n.attrs = dict(bi.attrs)
    n.attrs['value'] = v
    e.attrs['value'] = n
    return e

  def val(e):
    v = it.getattr_(e, 'value')
    while isinstance(v, Inst):
      v = it.getattr_(v, 'value')
    return v

  R = 1 << 377
  Ri = pow(R, -1, p)

  def spec(cls, what, thunk, syms, want, expect_inv=None):
    where = WA + f'{cls}.{what}'
    ps = [dom.sym(nm, 0, p - 1) for nm in syms]
    why = None
    try:
      for o, v, tk in it.explore(lambda: thunk(*ps), 64):
        rep.count('paths')
        if o != 'return':
          raise AnalysisError(f'{o}: {v}')
        dom.teles.clear()
        it.taken = tk
        g = Poly.lift(val(v))
        if g is None:
          raise AnalysisError('value')
        V = dom.tele(g)
        if expect_inv is not None:
          W_ = centre(unmod(V, p), p)
          if len(W_.t) != 1:
            raise AnalysisError('quotient form')
          (mono, c), = W_.t.items()
          inv = [a for a, e in mono if a.op == 'powm' and e == 1]
          rest = [a for a, e in mono if a.op != 'powm']
          if c % p != 1 or len(mono) != 2 or len(inv) != 1 or rest[0].op != syms[0] or inv[0].args[1:] != (p - 2, p):
            raise AnalysisError('quotient form')
          if centre(unmod(dom.tele(inv[0].args[0]), p) - expect_inv * ps[1], p).t:
            raise AnalysisError('quotient form')
        elif centre(unmod(V, p) - Poly.lift(want(*ps)), p).t:
          raise AnalysisError('value not shown to be the specified one')
        rs = [dom.vrange(V), dom.prange(g) or (-1, p)]
        lo, hi = max(r[0] for r in rs), min(r[1] for r in rs)
        if lo < 0 or hi >= p:
          raise AnalysisError('result not shown to be canonical')
      rep.ok('reference', where)
      return
    except AnalysisError as e:
      why = e
    rnd = random.Random(4)
    cs = [0, 1, 2, p - 1, p - 2, (p - 1) // 2, (p + 1) // 2, rnd.randrange(p), rnd.randrange(p)]
    for t in itertools.product(cs, repeat=len(syms)):
      if expect_inv is not None and t[1] == 0:
        continue
      try:
        for o, v, tk in it.explore(lambda: thunk(*t), 2):
          if o == 'undecided' or tk:
            why = f'{why}; {v}'
            continue
          if o == 'raise':
            rep.viol('reference', where, f'raises {v.exc_type} for {t}')
            return
          g = val(v)
          g = g.cval if isinstance(g, Poly) and g.is_const else g
          if not isinstance(g, int):
            continue
          w = want(*t) % p
          if g != w:
            rep.viol('reference', where, f'operands {t} give {g}, expected {w}')
            return
      except AnalysisError as e:
        why = f'{why}; {e}'
    rep.undecided('reference', where, why)

  for cls in ('FiniteFieldElement', 'FiniteFieldElementBarrett', 'FiniteFieldElementMontgomery'):
    mont = 'Mont' in cls
    sc = Ri if mont else 1
    for op, f in (('+', lambda a, b: a + b), ('-', lambda a, b: a - b), ('*', lambda a, b: a * b * sc)):
      spec(cls, f'({op})', lambda a, b: it.binop(op, mk(cls, a), mk(cls, b)), ['A', 'B'], f)
    spec(cls, '(/)', lambda a, b: it.binop('/', mk(cls, a), mk(cls, b)), ['A', 'B'],
         lambda a, b: a * pow(b, -1, p) * (R if mont else 1), expect_inv=sc)
    spec(cls, 'copy', lambda a: it.call(it.getattr_(mk(cls, a), 'copy'), [], {}), ['A'], lambda a: a)
    for c in (0, 1, 5):
      spec(cls, f'copy({c})', lambda a: it.call(it.getattr_(mk(cls, a), 'copy'), [c], {}), ['A'], lambda a: c)
    if mont:
      spec(cls, 'copy(transform)', lambda a: it.call(it.getattr_(mk(cls, 3), 'copy'), [a], {'transform': True}),
           ['A'], lambda a: a * R)
      spec(cls, 'change_montgomery_form',
           lambda a: it.call(it.getattr_(mk(cls, a), 'change_montgomery_form'), [], {}), ['A'], lambda a: a * Ri)
    if cls == 'FiniteFieldElement':
      spec(cls, '__init__', lambda a: it.call(it.get(RFP + cls), [a, p], {}), ['A'], lambda a: a)
  # rejection of values out of range
  for v in (-1, p, p + 1):
    try:
      for o, r, tk in it.explore(lambda: it.call(it.get(RFP + 'FiniteFieldElement'), [v, p], {}), 2):
        if o == 'return':
          rep.viol('reference', WA + 'FiniteFieldElement.__init__', f'accepts the value {v} outside [0, {p})')
        elif o == 'raise':
          rep.ok('reference', WA + 'FiniteFieldElement.__init__')
        else:
          rep.undecided('reference', WA + 'FiniteFieldElement.__init__', r)
    except AnalysisError as e:
      rep.undecided('reference', WA + 'FiniteFieldElement.__init__', e)
  rep.functions |= it.inlined


def run(tier):
  rep = Report('C11', RULE, tier)
  repo = Repo()
  dom = LD()
  it = Interp(repo, dom)
  limbs(rep, it, dom)
  rep.functions |= it.inlined
  dv = RV()
  iv = Interp(repo, dv)
  residues(rep, iv, dv)
  rep.functions |= iv.inlined
  dm = ModDomain()
  dm.x64 = True
  im = Interp(repo, dm)
  rns_reduction(rep, im, dm)
  rep.functions |= im.inlined
  ranges(rep, tier)
  conversions(rep, repo)
  reference_field(rep, repo, tier)
  return finish(rep, it, 1)
