"""C18: CKKS encoding is the canonical embedding and decoding inverts it.

Complex numbers are exact elements of Q(w)[slots], w = exp(2 pi i / M): `np.pi`
is a symbol, `exp(c*pi)` a power of w, and every slot a pair of real symbols.
The transforms are then compared, coefficient by coefficient, with the
evaluation matrix w^(5^j k) of the message polynomial at the primitive roots.
"""
import random
from fractions import Fraction
from common import *
from moddom import ModDomain
from core import is_prim

K = 'jaxite.jaxite_ckks.'
F = 'jaxite/jaxite_ckks/encode.py::'
RULE = (
    'encode.py analysed with exact cyclotomic arithmetic: fft_special(y)_j = '
    'sum_k y_k w^(5^j k) at every listed size, fft_special_inv is its inverse; '
    'encode rounds scale * coefficient to the nearest integer, reduces it modulo '
    'every modulus and hands coefficient order and moduli to the NTT; decode '
    'centres the CRT value, divides by the scale and evaluates at the slots')
M = 1 << 12  # order of w
PI, I, Wr = 'pi', 'I', 'w'


def cyc(p):
  """normal form: powers of w reduced with w^(M/2) = -1, I = w^(M/4)."""
  p = lift(p)
  if p is None:
    raise AnalysisError('value outside the cyclotomic domain')
  out = {}
  for m, c in p.t.items():
    e, rest = 0, []
    for a, k in m:
      if a.op == I and not a.args:
        e += k * (M // 4)
      elif a.op == Wr and not a.args:
        e += k
      else:
        rest.append((a, k))
    e %= M
    if e >= M // 2:
      e -= M // 2
      c = -c
    rest = tuple(rest)
    key = (e, rest)
    out[key] = out.get(key, 0) + c
    if not out[key]:
      del out[key]
  # rebuild
  r = poly.const(0)
  for (e, rest), c in out.items():
    t = Poly({rest: c})
    if e == M // 4:
      t = t * poly.sym(I)
    elif e:
      t = t * wpow(e)
    r = r + t
  return r


def wpow(e):
  e %= M
  s = 1
  if e >= M // 2:
    e, s = e - M // 2, -1
  if e == 0:
    return poly.const(s)
  a = poly.sym(Wr)
  (m, _), = a.t.items()
  return Poly({((m[0][0], e),): s})


def conj(p):
  p = cyc(p)
  out = poly.const(0)
  for m, c in p.t.items():
    t = poly.const(c)
    rest = []
    for a, k in m:
      if a.op == I and not a.args:
        t = t * (-poly.sym(I))**k
      elif a.op == Wr and not a.args:
        t = t * wpow(-k)
      else:
        rest.append((a, k))
    out = out + t * Poly({tuple(rest): 1})
  return cyc(out)


def lift(x):
  if isinstance(x, Poly):
    return x
  if isinstance(x, bool):
    return poly.const(int(x))
  if isinstance(x, (int, Fraction)):
    return poly.const(x)
  if isinstance(x, float):
    if x != x or x in (float('inf'), float('-inf')):
      return None
    f = Fraction(x)
    return poly.const(int(f) if f.denominator == 1 else f)
  if isinstance(x, complex):
    return lift(x.real) + lift(x.imag) * poly.sym(I)
  return Poly.lift(x)


def bound(dom, p):
  """largest modulus of a cyclotomic value over the symbol ranges."""
  t = Fraction(0)
  for m, c in cyc(p).t.items():
    v = abs(Fraction(c))
    for a, k in m:
      if not a.args and a.op in (I, Wr):
        continue
      r = dom.atom_range(a)
      if r is None:
        return None
      v *= max(abs(r[0]), abs(r[1]))**k
    t += v
  return t


FLOATS = ('float64', 'weakfloat', 'complex128', None)


class ED(ModDomain):
  """ModDomain with exact real / complex cells for the float dtypes."""

  def __init__(self):
    super().__init__()
    self.defs = {}
    for k in ('np.pi', 'jnp.pi', 'math.pi'):
      self.const_override[k] = poly.sym(PI)

  def b_float(self, it, a, k, n):
    a = [x.data[()] if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    if len(a) == 1 and isinstance(a[0], Poly):
      return self.cell_cast(a[0], 'int64', 'float64')
    return super().b_float(it, a, k, n)

  def b_complex(self, it, a, k, n):
    a = [x.data[()] if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    if any(isinstance(x, Poly) for x in a):
      ps = [lift(x) for x in a] + [poly.const(0)]
      return self.norm(ps[0] + ps[1] * poly.sym(I))
    return super().b_complex(it, a, k, n)

  def b_round(self, it, a, k, n):
    a = [x.data[()] if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    if len(a) == 1 and isinstance(a[0], Poly):
      return self.cell_unary('rint', a[0])
    return super().b_round(it, a, k, n)

  def b_int(self, it, a, k, n):
    a = [x.data[()] if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    if len(a) == 1 and isinstance(a[0], Poly) and not self.integral(a[0]):
      return self.rounded('trunc', cyc(a[0]))
    return super().b_int(it, a, k, n)

  def is_float(self, dt):
    return dt is not None and dt.startswith(('float', 'complex', 'weak'))

  def cell_binop(self, op, a, b, dtype=None):
    fl = self.is_float(dtype) or any(isinstance(x, (float, complex)) for x in (a, b)) or any(
        isinstance(x, Poly) and self.realish(x) for x in (a, b)) or op == '/'
    if not fl or (is_prim(a) and is_prim(b)):
      if op == '%' and isinstance(a, Poly) and isinstance(b, int) and b > 0 and (
          dtype is None or self.fits(a, dtype)):
        return self.rem(a, b)
      return super().cell_binop(op, a, b, dtype)
    x, y = lift(a), lift(b)
    if x is None or y is None:
      return super().cell_binop(op, a, b, dtype)
    if op == '+':
      return self.norm(x + y)
    if op == '-':
      return self.norm(x - y)
    if op == '*':
      return self.norm(x * y)
    if op == '/' and y.is_const and y.cval:
      return self.norm(x * poly.const(1 / Fraction(y.cval)))
    if op == '**' and y.is_const and isinstance(y.cval, int):
      return self.norm(x**y.cval)
    if op == '%' and y.is_const and y.cval:
      return self.rem(x, y.cval)
    raise AnalysisError(f'float operation {op} on {a!r:.80}, {b!r:.80}')

  def rem(self, x, q):
    if not self.integral(x):
      raise AnalysisError(f'remainder of a value that is not rounded: {x!r:.80}')
    r = self.prange(x)
    if r and 0 <= r[0] and r[1] < q:
      return x
    t = term_('modq', x, q)
    return t

  def realish(self, p):
    return any(not isinstance(c, int) for c in p.t.values()) or any(
        not a.args and a.op in (PI, I, Wr) for a in p.atoms())

  def integral(self, p):
    return not any(not isinstance(c, int) for c in p.t.values()) and all(
        a.args or a.op in self.ranges for a in p.atoms()) and all(
            not (not a.args and str(a.op).startswith(('re', 'im'))) for a in p.atoms())

  def atom_range(self, a):
    if a.op == 'modq':
      return (0, a.args[1] - 1)
    if a.op == 'fl':
      r = self.prange(a.args[0])
      return None if r is None else (int(float(r[0])), int(float(r[1])))
    return super().atom_range(a)

  def cell_unary(self, op, a):
    if op == '-' and isinstance(a, Poly):
      return -a
    if not isinstance(a, Poly):
      if op in ('real', 'imag') and not isinstance(a, complex) and is_prim(a):
        return a if op == 'real' else 0
      return super().cell_unary(op, a)
    if op in ('exp', 'cos', 'sin'):
      p = cyc(a)
      if op == 'exp':
        p = cyc(p * (-poly.sym(I)))
      k = None
      if not p.t:
        k = Fraction(0)
      elif len(p.t) == 1:
        (m, c), = p.t.items()
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == PI:
          k = Fraction(c) * M / 2
      if k is None or k.denominator != 1:
        raise AnalysisError(f'{op} of {a!r:.80}')
      k = int(k)
      if op == 'exp':
        return wpow(k)
      if op == 'cos':
        return cyc((wpow(k) + wpow(-k)) * poly.const(Fraction(1, 2)))
      return cyc((wpow(k) - wpow(-k)) * (-poly.sym(I)) * poly.const(Fraction(1, 2)))
    if op == 'real':
      return self.norm(cyc((cyc(a) + conj(a)) * poly.const(Fraction(1, 2))))
    if op == 'imag':
      return self.norm(cyc((cyc(a) - conj(a)) * (-poly.sym(I)) * poly.const(Fraction(1, 2))))
    if op == 'conj':
      return self.norm(conj(a))
    if op in ('rint', 'floor', 'ceil', 'trunc'):
      if self.integral(a):
        return a
      return self.rounded(op, cyc(a))
    return super().cell_unary(op, a)

  def rounded(self, op, p):
    """a fresh integer symbol standing for the rounded real p."""
    h = poly.const(Fraction(1, 2))
    for sh, o2 in ((h, 'floor'), (-h, 'ceil')):
      if op == o2:
        q = p - sh
        # floor(x + 1/2): only read as nearest when the constant is there
        if p.t.get((), 0) == (Fraction(1, 2) if o2 == 'floor' else -Fraction(1, 2)):
          op, p = 'rint', q
          break
    key = (op, p)
    for s, k in self.defs.items():
      if k == key:
        return poly.sym(s)
    b = bound(self, p)
    if b is None:
      raise AnalysisError(f'unbounded value rounded: {p!r:.80}')
    s = f'{op}#{len(self.defs)}'
    self.defs[s] = key
    b = int(b) + 1
    return self.sym(s, -b, b)

  def cell_cast(self, c, f, t):
    if t is None or t == 'object':
      return c
    if self.is_float(t):
      if isinstance(c, (int, Poly)) and not isinstance(c, bool):
        p = Poly.lift(c)
        r = (c, c) if isinstance(c, int) else (
            None if self.realish(p) else self.prange(p))
        if r is not None and max(abs(r[0]), abs(r[1])) > 2**53 and not is_float_exact(c):
          return term_('fl', p, 0)
        return c
      return c
    if isinstance(c, Poly) and self.is_float(f):
      if not self.integral(c):
        c = self.rounded('trunc', cyc(c))
      return super().cell_cast(c, 'int64', t)
    if isinstance(c, Poly) and self.realish(c):
      raise AnalysisError(f'cast of {c!r:.60} to {t}')
    return super().cell_cast(c, f, t)


def is_float_exact(c):
  return isinstance(c, int) and int(float(c)) == c


def term_(op, *a):
  return poly.term(op, *a)


def cslots(dom, n, name=''):
  d = sarr.obj((n,))
  for i in range(n):
    d[i] = dom.sym(f're{name}{i}', -1, 1) + dom.sym(f'im{name}{i}', -1, 1) * poly.sym(I)
  return SArr((n,), d, 'complex128', 'np')


def embed(ys, n):
  """slot_j = sum_k y_k exp(2 pi i 5^j k / 2N), N = 2n."""
  m = 4 * n
  u = M // m
  return [cyc(sum((y * wpow(u * (pow(5, j, m) * k % m)) for k, y in enumerate(ys)),
                  poly.const(0))) for j in range(n)]


def setup():
  dom = ED()
  dom.x64 = False
  sarr.X64 = sarr.PER_LIB = True
  sarr.SCALAR_DTYPE = lambda v: None if not (
      isinstance(v, Poly) and dom.realish(v)) else (
          'complex128' if any(a.op in (I, Wr) for a in v.atoms()) else 'weakfloat')
  it = Interp(Repo(), dom)
  return dom, it


def run(tier):
  rep = Report('C18', RULE, tier)
  dom, it = setup()
  st = {}

  sizes = (1, 2, 4, 8, 16, 32, 64) + ((128,) if tier != 'quick' else ())
  for n in sizes:
    for inv in (0, 1):
      nm = 'fft_special_inv' if inv else 'fft_special'

      def th():
        v = st['v'] = cslots(dom, n)
        st['in'] = [lift(x) for x in v.data]
        it.call(it.get(K + 'encode.' + nm), [v, 4 * n], {})
        return v

      def judge(r, tk):
        out = [lift(x) for x in v_of(r)]
        a, b = (st['in'], out) if not inv else (out, st['in'])
        w = embed(a, n)
        for j in range(n):
          d = cyc(w[j] - b[j])
          if d.t:
            return (f'n={n}: slot {j} is not the value at exp(2 pi i 5^{j}/{4 * n}); '
                    f'difference {d!r:.160}')
        return None
      explore(rep, it, 'embedding', F + nm, th, judge)

  # ------------------------------------------------------------------ encode
  def ntt(kind):
    def f(itp, b, node, mod):
      vs = list(b.values())
      if len(vs) != 2 or not isinstance(vs[0], SArr) or vs[0].ndim != 2:
        return NotImplemented
      a = vs[0]
      st.setdefault(kind, []).append((a, [as_int(x) for x in it.iterate(vs[1])]))
      d = sarr.obj(tuple(a.axes))
      tag = f'{kind}{len(st[kind])}_'
      for i in np.ndindex(*d.shape):
        d[i] = dom.sym(tag + '_'.join(map(str, i)), 0, st[kind][-1][1][i[1]] - 1)
      return SArr(tuple(a.axes), d, 'uint64', 'np')
    return f
  dom.summaries[K + 'ntt_cpu.ntt_negacyclic_poly'] = ntt('ntt')
  dom.summaries[K + 'ntt_cpu.intt_negacyclic_poly'] = ntt('intt')

  MODS = ([97], [268369921, 268361729], [193, 97, 257])
  for N, mods, sc, ns in itertools.product((4, 8), MODS, (2.0**5, 2.0**40), (1, 2, 4)):
    if ns > N // 2:
      continue

    def th():
      dom.defs.clear()
      st['ntt'] = []
      sl = cslots(dom, ns)
      st['sl'] = [lift(x) for x in sl.data]
      e = it.call(it.get(K + 'encode.Encode'), [N, VList(list(mods)), sc], {})
      return it.call(it.getattr_(e, 'encode'), [VList(list(sl.data))], {})

    def judge(v, tk):
      nh = N // 2
      data, ms = it.getattr_(v, 'data'), it.getattr_(v, 'moduli')
      if [as_int(x) for x in it.iterate(ms)] != list(mods):
        return f'plaintext records moduli {ms!r:.80}, the encoder has {mods}'
      if len(st['ntt']) != 1:
        raise AnalysisError(f'{len(st["ntt"])} NTT calls')
      a, am = st['ntt'][0]
      if am != list(mods):
        return f'coefficients are transformed with moduli {am}, not {mods}'
      if tuple(data.axes) != (N, len(mods)) or tuple(a.axes) != (N, len(mods)):
        return f'plaintext has shape {data.shape}, coefficients {a.shape}'
      for i, l in np.ndindex(N, len(mods)):
        q = Poly.lift(data.data[i, l])
        if q != poly.sym(f'ntt1_{i}_{l}'):
          if q is not None and len(q.t) == 1 and any(
              str(x.op).startswith('ntt1_') and not x.args for x in q.atoms()):
            return f'plaintext entry ({i}, {l}) is {q!r:.80}, not the transformed value there'
          raise AnalysisError(f'plaintext entry {q!r:.80}')
      # coefficient i must be the nearest integer to scale * c_i, modulo q_l
      # c: embed(c[:nh] + i c[nh:]) = slots, padded with zeros
      slots = st['sl'] + [poly.const(0)] * (nh - ns)
      z = unembed(slots, nh)
      for i in range(N):
        c = dom.cell_unary('real' if i < nh else 'imag', z[i % nh])
        c = cyc(lift(c) * poly.const(int(sc)))
        for l, q in enumerate(mods):
          m = coeff(dom, a.data[i, l], c, q)
          if m:
            return f'N={N}, {ns} slots, scale 2^{int(sc).bit_length() - 1}: coefficient {i} mod {q} {m}'
      return None
    explore(rep, it, 'encode', F + 'Encode.encode', th, judge)

  # ------------------------------------------------------------------ decode
  CR = K + 'rns_utils.reconstruct_crt'

  def crt(itp, b, node, mod):
    vs = list(b.values())
    if len(vs) != 2:
      return NotImplemented
    rows = [list(it.iterate(r)) for r in it.iterate(vs[0])]
    st.setdefault('crt', []).append((rows, [as_int(x) for x in it.iterate(vs[1])]))
    Q = int(np.prod([int(x) for x in st['crt'][-1][1]], dtype=object))
    st['Q'] = Q
    w = min(2**40, Q // 2)
    out = []
    for i in range(len(rows[0])):
      if st['hi'](i):
        out.append(dom.sym(f'c{i}', 1, w) * poly.const(-1) + poly.const(Q))
      else:
        out.append(dom.sym(f'c{i}', 0, w))
    return VList(out)
  for N, mods, sc, form in itertools.product(
      (4, 8), MODS, (2.0**5, 2.0**40), (False, True)):
    for ns, hi in ((N // 2, 'none'), (1, 'all'), (N // 2, 'odd'), (1, 'low'), (N // 2, 'all')):
      st['hi'] = {'none': lambda i: False, 'all': lambda i: True,
                  'odd': lambda i: i % 2, 'low': lambda i: i < N // 2}[hi]

      def th():
        st['intt'], st['crt'] = [], []
        dom.summaries[CR] = crt
        d = sarr.obj((N, len(mods)))
        for i in np.ndindex(*d.shape):
          d[i] = dom.sym(f'p{i[0]}_{i[1]}', 0, mods[i[1]] - 1)
        pt = it.call(it.get(K + 'types.Plaintext'), [
            SArr((N, len(mods)), d, 'uint32', 'jnp'), arr(list(mods), 'uint32')], {})
        dec = it.call(it.get(K + 'encode.Decode'), [sc, ns], {})
        return it.call(it.getattr_(dec, 'decode'), [pt], {'is_slot_form': form})

      def judge(v, tk):
        if len(st['crt']) != 1:
          raise AnalysisError(f'{len(st["crt"])} CRT calls')
        rows, cm = st['crt'][0]
        if cm != list(mods):
          return f'CRT over {cm}, plaintext has {mods}'
        if len(rows) != len(mods) or any(len(r) != N for r in rows):
          return f'CRT input has {len(rows)} rows of {[len(r) for r in rows]}'
        src = 'p'
        if form:
          if len(st['intt']) != 1:
            raise AnalysisError(f'{len(st["intt"])} inverse NTT calls')
          a, am = st['intt'][0]
          if am != list(mods):
            return f'inverse NTT over {am}, plaintext has {mods}'
          for i in np.ndindex(*a.data.shape):
            m = must(dom, a.data[i], poly.sym(f'p{i[0]}_{i[1]}'), f'inverse NTT input {i} is changed')
            if m:
              return m
          src = 'intt1_'
        elif st['intt']:
          return 'coefficients that are not in slot form are inverse-transformed'
        for l, r in enumerate(rows):
          for i, x in enumerate(r):
            m = must(dom, x, poly.sym(f'{src}{i}_{l}'), f'CRT input ({l}, {i}) is changed')
            if m:
              return m
        nh = N // 2
        cs = [poly.sym(f'c{i}') * poly.const(Fraction(-1 if st['hi'](i) else 1, int(sc)))
              for i in range(N)]
        want = embed([cs[k] + cs[k + nh] * poly.sym(I) for k in range(nh)], nh)[:ns]
        got = [lift(x) for x in it.iterate(v)]
        if len(got) != ns:
          return f'{len(got)} slots are returned, {ns} were asked for'
        for j, (g, w) in enumerate(zip(got, want)):
          if g is None:
            raise AnalysisError('slot outside the domain')
          d = cyc(g - w)
          if any(a.args for a in d.all_atoms()):
            m = refute(dom, d)
            if m:
              return f'N={N}, moduli {mods}: slot {j}: {m}'
            raise AnalysisError(f'slot {j}: residual {d!r:.160}')
          if d.t:
            return f'N={N}, scale {sc}: slot {j} decodes with difference {d!r:.160}'
        return None
      explore(rep, it, 'decode', F + 'Decode.decode', th, judge)
      dom.summaries.pop(CR, None)
  return finish(rep, it, 1)


def v_of(r):
  return list(r.data.flat)


def as_int(x):
  if isinstance(x, SArr) and x.ndim == 0:
    x = x.data[()]
  if isinstance(x, Poly) and x.is_const:
    x = x.cval
  if isinstance(x, float) and x.is_integer():
    x = int(x)
  if not isinstance(x, int):
    raise AnalysisError(f'not an integer constant: {x!r:.60}')
  return x


def unembed(ys, n):
  """inverse of embed: y_k = (1/n) sum_j slot_j w^(-5^j k)."""
  m = 4 * n
  u = M // m
  return [cyc(sum((y * wpow(-u * (pow(5, j, m) * k % m)) for j, y in enumerate(ys)),
                  poly.const(0)) * poly.const(Fraction(1, n))) for k in range(n)]


def coeff(dom, x, c, q):
  """message unless x is (nearest integer to c) mod q."""
  x = Poly.lift(x)
  if x is None:
    raise AnalysisError('coefficient outside the domain')
  if not c.t:
    return None if not x.t else f'is {x!r:.100}, expected 0'
  at = {a.op for a in x.all_atoms() if not a.args and a.op in dom.defs}
  if not at and x.is_const:
    return f'is the constant {x!r}, expected round({c!r:.100})'
  if len(at) != 1:
    raise AnalysisError(f'coefficient {x!r:.100}')
  s, = at
  op, p = dom.defs[s]
  d = cyc(p - c)
  if d.t:
    return f'rounds {p!r:.120} instead of {c!r:.120}'
  if op != 'rint':
    return f'is {op} of the scaled value, not the nearest integer'
  # x as a function of s must be s mod q on the whole range
  lo, hi = dom.ranges[s]
  if x == poly.term('modq', poly.sym(s), q):
    return None
  rnd = random.Random(3)
  pts = [lo, hi, 0, 1, -1, q, -q, q - 1, 2**31, -2**31, 2**31 - 1, 2**32, q // 2] + [
      rnd.randint(lo, hi) for _ in range(40)]
  for v in pts:
    if lo <= v <= hi:
      try:
        g = ev(x, {s: v})
      except NoEval:
        raise AnalysisError(f'coefficient {x!r:.100}')
      if g != v % q:
        return f'is {g} for the rounded value {v}, expected {v % q}'
  raise AnalysisError(f'coefficient {x!r:.100} not shown to be its residue')


def ev(p, val):
  """evaluate with the real-valued atoms of this check (exact, fl = binary64)."""
  t = 0
  for m, c in Poly.lift(p).t.items():
    for a, e in m:
      if a.op == 'modq':
        v = ev(a.args[0], val) % a.args[1]
      elif a.op == 'fl':
        v = int(float(ev(a.args[0], val)))
      else:
        v = ev_atom(a, val)
      c = c * v**e
    t += c
  return t


def refute(dom, d):
  """a valuation on which a difference containing rounded atoms is nonzero.

  Coefficients of distinct powers of w are compared separately (they are
  linearly independent over Q)."""
  parts = {}
  for m, c in d.t.items():
    e = tuple((a.op, k) for a, k in m if not a.args and a.op in (I, Wr))
    rest = tuple((a, k) for a, k in m if a.args or a.op not in (I, Wr))
    parts.setdefault(e, []).append((rest, c))
  names = {a.op for a in d.all_atoms() if not a.args and a.op not in (I, Wr)}
  if any(n not in dom.ranges for n in names):
    return None
  rnd = random.Random(5)
  for i in range(20):
    val = {n: dom.ranges[n][0] if i == 0 else dom.ranges[n][1] if i == 1 else
           rnd.randint(*dom.ranges[n]) for n in names}
    for e, ms in parts.items():
      try:
        v = ev(Poly(dict(ms)), val)
      except (NoEval, OverflowError):
        return None
      if abs(v) > Fraction(1, 2**20):
        return f'off by {float(v)} for {dict(list((k, x) for k, x in val.items() if k != "__memo__")[:4])}'
  return None
