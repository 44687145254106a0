"""C05: gadget decomposition, external product, CMUX."""
from cggi import *
from moddom import wrap

RULE = (
    'Abstract interpretation over Z/2^32 with bit-field splitting. Words are '
    'sums of digit symbols; carries are shift atoms with derived intervals. '
    'Each digit must equal the specified field / lie in [-B/2, B/2), weighted '
    'digits must sum to the word as polynomials, and the phase of the external '
    'product / CMUX (key symbols are bits, error symbols zero, digits opaque) '
    'must equal the specified phase identically.')
D = 'jaxite/jaxite_cggi/decomposition.py::'
B = 'jaxite/jaxite_cggi/bootstrap.py::'


def fields(dom, nm, b, T=32, top=None):
  """x = sum f_i 2^(T-(i+1)b) + rest, f_0 most significant."""
  n = T // b
  fs = [dom.sym(f'{nm}{i}', 0, 2**b - 1) for i in range(n)]
  x = poly.const(0)
  for i, f in enumerate(fs):
    x = x + f * poly.const(2**(T - (i + 1) * b))
  r = T - n * b
  rest = poly.const(0)
  if r:
    rest = dom.sym(f'{nm}r', 0, 2**r - 1)
    x = x + rest
  return x, fs, rest


def signed(dom, p):
  """Interval of a uint32 cell read as a signed number; None if unknown."""
  p = Poly.lift(p)
  q = dom.canon_shr(Poly({m: (c + 2**31) % 2**32 - 2**31 for m, c in p.t.items()}))
  r = dom.prange(q)
  if r is None:
    return None, q
  if r[0] >= -2**31 and r[1] < 2**31:
    return r, q
  return None, q


def find(dom, p, bad, tries=600):
  import random
  rnd = random.Random(3)
  names = sorted({a.op for a in p.all_atoms() if not a.args}, key=str)
  if any(n not in dom.ranges for n in names):
    return None
  for i in range(tries):
    val = {}
    for n in names:
      lo, hi = dom.ranges[n]
      val[n] = rnd.choice([lo, hi, (lo + hi) // 2, (lo + hi + 1) // 2, rnd.randint(lo, hi)])
    try:
      v = (evaluate(p, val) + 2**31) % 2**32 - 2**31
    except NoEval:
      return None
    if bad(v):
      return val, v
  return None


def run(tier):
  rep = Report('C05', RULE, tier)
  dom = ModDomain()
  it = Interp(Repo(), dom)
  st = {}

  # unsigned decomposition: the top digits, most significant first
  for T in (32, 16):
    for b, L in ((4, 3), (4, 8), (8, 2), (8, 4), (16, 2), (16, 1), (5, 3), (1, 4), (3, 5)):
      if b * L > T:
        continue
      def th():
        x, st['f'], st['r'] = fields(dom, f'd{b}_', b, T)
        st['x'] = x
        ds = it.call(it.get(P + 'decomposition.decompose'), [sc(x), b, L, T], {})
        return ds, it.call(it.get(P + 'decomposition.recompose'), [ds, b, T], {})

      def judge(v, tk):
        ds, re = v
        e = cmp_arr(dom, ds, st['f'][:L], f'base 2^{b}, {L} levels, {T} bits:')
        if e:
          return e
        w = sum((f * poly.const(2**(T - (i + 1) * b))
                 for i, f in enumerate(st['f'][:L])), poly.const(0))
        return cmp_arr(dom, re, w, f'recomposition (base 2^{b}, {L} levels, {T} bits):')
      explore(rep, it, 'digits', D + 'decompose', th, judge)

      def th():
        return it.call(it.get(P + 'decomposition.recomposition_summands'),
                       [sc(dom.sym('y', 0, 2**32 - 1)), b, L, T], {})
      explore(rep, it, 'summands', D + 'recomposition_summands', th,
              lambda v, tk: cmp_arr(dom, v, [poly.sym('y') * poly.const(2**(T - (i + 1) * b))
                                             for i in range(L)], f'base 2^{b}'))

  # signed decomposition
  for b in (1, 2, 4, 8, 16):
    if b == 1:
      continue
    n = 32 // b
    Ls = sorted({1, 2, 3, n - 1, n} & set(range(1, n + 1)))
    for L in Ls:
      def th():
        x, st['f'], _ = fields(dom, f's{b}_', b)
        st['x'] = x
        full = it.call(it.get(P + 'decomposition.signed_decomposition'), [sc(x), b, n], {})
        part = it.call(it.get(P + 'decomposition.signed_decomposition'),
                       [sc(x), b, L] + ([32] if L % 2 else []), {})
        return full, part

      def judge(v, tk):
        full, part = v
        what = f'base 2^{b}, {L} of {n} levels:'
        if tuple(full.axes) != (n,) or tuple(part.axes) != (L,):
          return f'{what} result shapes {full.shape}, {part.shape}'
        e = cmp_arr(dom, part, list(full.data[:L]), what + ' leading digits')
        if e:
          return e
        tot = poly.const(0)
        for i in range(n):
          tot = tot + cell(full.data[i]) * poly.const(2**(32 - (i + 1) * b))
        s = same(dom, tot, st['x'])
        if s is False:
          return f'{what} weighted digits sum to {tot!r:.200}'
        if s is None:
          raise AnalysisError(f'sum not decided: {(tot - st["x"])!r:.200}')
        h = 2**(b - 1)
        for i in range(n):
          r, q = signed(dom, full.data[i])
          if r is not None and r[0] >= -h and r[1] < h:
            continue
          w = find(dom, cell(full.data[i]), lambda v: not -h <= v < h)
          if w:
            return (f'{what} digit {i + 1} can be {w[1]}, outside [-{h}, {h})')
          raise AnalysisError(f'digit range not decided {q!r:.200}')
        return None
      explore(rep, it, 'signed-digits', D + 'signed_decomposition', th, judge)

  # the decomposition of a whole ciphertext
  for k, N, b, L in ((1, 2, 4, 3), (2, 4, 8, 2), (0, 1, 16, 2), (3, 2, 8, 4)):
    def th():
      ct = arr([[dom.sym(f'c{i}_{j}', 0, 2**32 - 1) for j in range(N)]
                for i in range(k + 1)], 'uint32')
      dp = it.call(it.get(P + 'decomposition.DecompositionParameters'), [],
                   dict(log_base=b, level_count=L))
      one = {(i, j): it.call(it.get(P + 'decomposition.signed_decomposition'),
                             [sc(ct.data[i, j]), b, L], {})
             for i in range(k + 1) for j in range(N)}
      return one, it.call(it.get(P + 'decomposition.decompose_rlwe_ciphertext'), [ct, dp], {})

    def judge(v, tk):
      one, m = v
      return cmp_arr(dom, m, [[one[i, j].data[l] for j in range(N)]
                              for i in range(k + 1) for l in range(L)],
                     'decomposed ciphertext, row (polynomial, level):')
    explore(rep, it, 'ciphertext-digits', D + 'decompose_rlwe_ciphertext', th, judge)

  # external product and CMUX: exact phases, zero error
  cd = CD()
  ic = Interp(Repo(), cd)
  confs = [(2, 1, 16, 2), (4, 1, 8, 4), (2, 2, 16, 2)]
  if tier != 'quick':
    confs += [(4, 2, 8, 4), (1, 1, 16, 2), (2, 3, 16, 2), (8, 1, 8, 4), (2, 1, 4, 8)]
  for N, k, b, L in confs:
    what = f'[degree {N}, dimension {k}, base 2^{b}, {L} levels]'

    def setup(msgs):
      e = st['e'] = Env(ic, cd, N=N, k=k, lb=b, lv=L, err=0)
      gk = ic.call(ic.get(P + 'rgsw.key_from_rlwe'), [e.rlwe_sk], {})
      out = []
      for m in msgs:
        pt = ic.call(ic.get(P + 'rgsw.RgswPlaintext'), [], dict(
            modulus_degree=N, message=sc(m)))
        out.append(ic.call(ic.get(P + 'rgsw.encrypt'), [pt, gk, e.dp, e.rng], {}))
      return e, out

    def phase_is(v, want):
      if isinstance(v, Inst):
        for f, w in (('modulus_degree', N), ('log_coefficient_modulus', 32)):
          if ic.getattr_(v, f) != w:
            return f'{what} result records {f} = {ic.getattr_(v, f)!r}'
        v = ic.getattr_(v, 'message')
      e = st['e']
      try:
        ph = rlwe_phase(v, e.z)
      except ValueError as ex:
        return str(ex)
      for j in range(N):
        q = eq_bits(ph[j], want[j], e.bits | {'cbit'})
        if q is None:
          raise AnalysisError(f'phase not decided {(ph[j] - want[j])!r:.300}')
        if not q:
          d = bit_reduce(strip_mod(ph[j] - want[j], 32), e.bits | {'cbit'})
          return f'{what} coefficient {j} of the phase is off by {d!r:.200}'
      return None

    for mod in ('wrapper', 'jit'):
      def th():
        e, (g,) = setup([cd.sym('m', 0, 2**32 - 1)])
        c = e.rlwe_ct('c')
        st['c'] = ic.getattr_(c, 'message')
        if mod == 'wrapper':
          return ic.call(ic.get(P + 'bootstrap.external_product'), [g, c, e.dp], {})
        return ic.call(ic.get(P + 'bootstrap.jit_external_product'),
                       [ic.getattr_(g, 'message'), st['c'], e.dp], {})
      explore(rep, ic, 'external-product', B + 'external_product', th, lambda v, tk: phase_is(
          v, [p * poly.sym('m') for p in rlwe_phase(st['c'], st['e'].z)]))

    for bit in (0, 1, None):
      def th():
        m = poly.const(bit) if bit is not None else cd.sym('cbit', 0, 1)
        e, (g,) = setup([m])
        c, d = e.rlwe_ct('c'), e.rlwe_ct('d')
        st['c'], st['d'] = ic.getattr_(c, 'message'), ic.getattr_(d, 'message')
        return ic.call(ic.get(P + 'bootstrap.cmux'), [g, c, d, e.dp], {})

      def judge(v, tk):
        pc, pd = rlwe_phase(st['c'], st['e'].z), rlwe_phase(st['d'], st['e'].z)
        m = poly.sym('cbit') if bit is None else poly.const(bit)
        return phase_is(v, [a + m * (b2 - a) for a, b2 in zip(pc, pd)])
      explore(rep, ic, 'cmux', B + 'cmux', th, judge)

  def mk(e, lm, deg):
    m = arr([[cd.sym(f'q{i}_{j}', 0, 2**32 - 1) for j in range(deg)] for i in range(2)], 'uint32')
    return ic.call(ic.get(P + 'rlwe.RlweCiphertext'), [], dict(
        log_coefficient_modulus=lm, modulus_degree=deg, message=m))
  for a, b in (((32, 2), (31, 2)), ((32, 2), (32, 4)), ((32, 4), (32, 2))):
    def th():
      e = Env(ic, cd, N=2, k=1, lb=16, lv=2, err=0)
      gk = ic.call(ic.get(P + 'rgsw.key_from_rlwe'), [e.rlwe_sk], {})
      pt = ic.call(ic.get(P + 'rgsw.RgswPlaintext'), [], dict(
          modulus_degree=2, message=sc(1)))
      g = ic.call(ic.get(P + 'rgsw.encrypt'), [pt, gk, e.dp, e.rng], {})
      return ic.call(ic.get(P + 'bootstrap.cmux'), [g, mk(e, *a), mk(e, *b), e.dp], {})
    explore(rep, ic, 'cmux-reject', B + 'cmux', th,
            lambda v, tk: f'accepts ciphertexts of different parameters {a}, {b}',
            raises_ok=lambda ex, tk: ex.exc_type in ('ValueError', 'TypeError'))
  rep.functions |= ic.inlined
  return finish(rep, it, 1)
