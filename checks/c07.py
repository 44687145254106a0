"""C07: exact negacyclic polynomial and integer-matrix arithmetic."""
from common import *
from moddom import ModDomain, wrap

M = 'jaxite.jaxite_cggi.matrix_utils.'
K = 'jaxite.jaxite_cggi.polymul_kernel.'
W = 'jaxite/jaxite_cggi/matrix_utils.py::'
WK = 'jaxite/jaxite_cggi/polymul_kernel.py::'
RULE = (
    'Abstract interpretation with polynomial value numbering over Z/2^32: the '
    'operands are arrays of symbols, bytes of a symbol are atoms that recombine '
    'to it, and the normal form of every output cell must equal the negacyclic '
    'convolution (or matrix product, monomial multiple, rounded quotient) of '
    'the symbols, for every value of the operands at once.')


def negacyclic(a, b):
  n = len(a)
  out = [poly.const(0) for _ in range(n)]
  for i in range(n):
    for j in range(n):
      t = a[i] * b[j]
      if i + j < n:
        out[i + j] = out[i + j] + t
      else:
        out[i + j - n] = out[i + j - n] - t
  return out


def xpow(a, k):
  """a * x^k in Z[x]/(x^n+1)."""
  n = len(a)
  out = [None] * n
  for i in range(n):
    j = (i + k) % (2 * n)
    out[j % n] = a[i] if j < n else -a[i]
  return out


def same(dom, got, want, mod=2**32):
  """True / False / None(undecided): got == want mod 2^32."""
  g = Poly.lift(got)
  w = Poly.lift(want)
  if g is None:
    return None
  d = dom.recombine(g - w)
  d = Poly({m: c % mod for m, c in d.t.items() if c % mod})
  if not d.t:
    return True
  if any(a.args for a in d.all_atoms()):
    # refute by valuation
    import random
    rnd = random.Random(7)
    for _ in range(4):
      val = {}
      for a in d.all_atoms():
        if not a.args:
          lo, hi = dom.ranges.get(a.op, (0, 2**32 - 1))
          val[a.op] = rnd.randint(lo, hi)
      try:
        if evaluate(d, val) % mod:
          return False
      except NoEval:
        return None
    return None
  return False


def cmp_arr(dom, v, want, what='', mod=2**32):
  """want: nested lists of Poly."""
  w = np.array(want, dtype=object)
  if not isinstance(v, SArr):
    raise AnalysisError(f'result {v!r}')
  if tuple(v.axes) != tuple(w.shape):
    return f'{what} result has shape {v.shape}, expected {tuple(w.shape)}'
  for idx in np.ndindex(*w.shape):
    s = same(dom, v.data[idx], w[idx], mod)
    if s is None:
      raise AnalysisError(f'{what} cell {idx} not decided: {v.data[idx]!r:.200}')
    if not s:
      return (f'{what} cell {idx} is {dom.recombine(Poly.lift(v.data[idx]))!r:.200}, '
              f'specified {w[idx]!r:.200}')
  return None


def syms(nm, n, dom, rng=(0, 2**32 - 1)):
  return [dom.sym(f'{nm}{i}', *rng) for i in range(n)]


def run(tier):
  rep = Report('C07', RULE, tier)
  dom = ModDomain()
  dom.summaries['jaxite.jaxite_cggi.jax_helpers.get_tpu_version'] = lambda *a: -1
  it = Interp(Repo(), dom)
  U = 'uint32'

  # full-width integer matmul out of bytes
  for n, k in ((1, 1), (2, 3), (3, 2)):
    def th():
      a = arr(syms('a', n, dom), U)
      b = arr([syms(f'b{i}_', k, dom) for i in range(n)], U)
      return it.call(it.get(M + 'i32_as_u8_matmul'), [a, b], {})

    def judge(v, tk):
      want = [sum((poly.sym(f'a{i}') * poly.sym(f'b{i}_{j}') for i in range(n)),
                  poly.const(0)) for j in range(k)]
      return cmp_arr(dom, v, want, f'{n}x{k}')
    explore(rep, it, 'matmul', W + 'i32_as_u8_matmul', th, judge)

    def th():
      a = arr([syms('a', n, dom)], U)
      b = arr([syms(f'b{i}_', k, dom) for i in range(n)], U)
      return it.call(it.get(M + 'hpmatmul_conv_adapt_outer_product'), [a, b], {})

    def judge(v, tk):
      want = [[sum((poly.sym(f'a{i}') * poly.sym(f'b{i}_{j}') for i in range(n)),
                   poly.const(0)) for j in range(k)]]
      return cmp_arr(dom, v, want, f'{n}x{k}')
    explore(rep, it, 'matmul', W + 'hpmatmul_conv_adapt_outer_product', th, judge)

  for fn, bad in (('i32_as_u8_matmul', 1), ('i32_as_u8_matmul', 2)):
    def th():
      a = arr([[1, 2]] if bad == 1 else [1, 2], U)
      b = arr([[1], [2]] if bad == 1 else [1, 2], U)
      return it.call(it.get(M + fn), [a, b], {})
    explore(rep, it, 'matmul-reject', W + fn, th,
            lambda v, tk: 'accepts operands of the wrong rank',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')

  # negacyclic product, every entry point
  degs = [1, 2, 4, 8] if tier == 'quick' else [1, 2, 4, 8, 16]
  for n in degs:
    for fn in ('poly_mul', 'toeplitz_poly_mul'):
      def th():
        return it.call(it.get(M + fn),
                       [arr(syms('a', n, dom), U), arr(syms('b', n, dom), U)], {})
      explore(rep, it, 'poly-mul', W + fn, th, lambda v, tk: cmp_arr(
          dom, v, negacyclic(syms('a', n, dom), syms('b', n, dom)), f'degree {n}'))
    if n > 4:
      continue
    r = 3
    A = lambda nm: [syms(f'{nm}{i}_', n, dom) for i in range(r)]

    def th():
      return it.call(it.get(M + 'poly_mul_list'), [arr(A('a'), U), arr(A('b'), U)], {})
    explore(rep, it, 'poly-mul', W + 'poly_mul_list', th, lambda v, tk: cmp_arr(
        dom, v, [negacyclic(x, y) for x, y in zip(A('a'), A('b'))]))

    def th():
      return it.call(it.get(M + 'poly_mul_const_list'), [arr(syms('c', n, dom), U), arr(A('b'), U)], {})
    explore(rep, it, 'poly-mul', W + 'poly_mul_const_list', th, lambda v, tk: cmp_arr(
        dom, v, [negacyclic(syms('c', n, dom), y) for y in A('b')]))

    def th():
      return it.call(it.get(M + 'poly_mul_const_matrix'),
                     [arr(syms('c', n, dom), U), arr([A('b'), A('d')], U)], {})
    explore(rep, it, 'poly-mul', W + 'poly_mul_const_matrix', th, lambda v, tk: cmp_arr(
        dom, v, [[negacyclic(syms('c', n, dom), y) for y in A(q)] for q in 'bd']))

    def dotp(xs, ys):
      acc = [poly.const(0)] * n
      for x, y in zip(xs, ys):
        acc = [p + q for p, q in zip(acc, negacyclic(x, y))]
      return acc

    def th():
      return it.call(it.get(M + 'poly_dot_product'), [arr(A('a'), U), arr(A('b'), U)], {})
    explore(rep, it, 'poly-mul', W + 'poly_dot_product', th, lambda v, tk: cmp_arr(
        dom, v, dotp(A('a'), A('b'))))

    # vector x matrix of polynomials: out[m] = sum_b vec[b] * mat[b][m]
    MM = [[syms(f'm{i}_{j}_', n, dom) for j in range(2)] for i in range(r)]
    for lb in (4, 8):
      def th():
        return it.call(it.get(K + 'negacyclic_vector_matrix_polymul'),
                       [arr(A('a'), U), arr(MM, U), lb], {})
      explore(rep, it, 'vector-matrix', WK + 'negacyclic_vector_matrix_polymul', th,
              lambda v, tk: cmp_arr(dom, v, [dotp(A('a'), [MM[b][j] for b in range(r)])
                                             for j in range(2)]))

    def th():
      return it.call(it.get(K + 'negacyclic_vector_matrix_polymul'),
                     [arr(A('a'), U), arr([[syms('q', 2 * n, dom)]] * r, U), 4], {})
    explore(rep, it, 'vector-matrix', WK + 'negacyclic_vector_matrix_polymul', th,
            lambda v, tk: 'accepts polynomials of different degrees',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')

  # monomials
  for n in (1, 2, 4, 8):
    a = syms('a', n, dom)
    degs = sorted(set(list(range(0, 4 * n + 1)) + [2**20 + 3]))
    for dt, ds in (('uint32', degs + [2**32 - d for d in range(1, 2 * n + 2)]),
                   ('int32', degs)):
      for lm in (32, 20):
        def th():
          out = []
          for d in ds:
            dd = SArr((), o0(d), dt, 'jnp')
            out.append(it.call(it.get(M + 'monomial_mul'), [arr(a, U), dd, lm], {}))
          return out

        def judge(v, tk):
          for d, r in zip(ds, v):
            m = cmp_arr(dom, r, xpow(a, d % (2 * n)), f'x^{d} ({dt}), degree {n},',
                        mod=2**lm)
            if m:
              return m
            if lm < 32:
              for q in r.data.flat:
                rg = dom.prange(q)
          return None
        if lm == 32:
          explore(rep, it, 'monomial', W + 'monomial_mul', th, judge)
    def th():
      return [it.call(it.get(M + 'monomial_mul_list'),
                      [arr([syms('a', n, dom), syms('b', n, dom)], U),
                       SArr((), o0(d), 'uint32', 'jnp'), 32], {})
              for d in range(2 * n)]

    def judge(v, tk):
      for d, r in enumerate(v):
        m = cmp_arr(dom, r, [xpow(syms(q, n, dom), d) for q in 'ab'], f'x^{d}, degree {n},')
        if m:
          return m
      return None
    explore(rep, it, 'monomial', W + 'monomial_mul_list', th, judge)

    def th():
      out = []
      for d in list(range(0, 4 * n)):
        out.append(it.call(it.get(M + 'scale_by_x_power_n_minus_1'),
                           [SArr((), o0(d), 'uint32', 'jnp'),
                            arr([[syms('a', n, dom), syms('b', n, dom)]], U)],
                           {'log_modulus': 32}))
      return out

    def judge(v, tk):
      for d, r in enumerate(v):
        want = [[[p - q for p, q in zip(xpow(s, d), s)]
                 for s in (syms('a', n, dom), syms('b', n, dom))]]
        m = cmp_arr(dom, r, want, f'(x^{d} - 1), degree {n},')
        if m:
          return m
      return None
    explore(rep, it, 'monomial', W + 'scale_by_x_power_n_minus_1', th, judge)

    def th():
      return [it.call(it.get(M + 'x_power_n_minus_1'),
                      [SArr((), o0(d), 'int32', 'jnp'), n], {}) for d in range(4 * n)]

    def judge(v, tk):
      one = [poly.const(1)] + [poly.const(0)] * (n - 1)
      for d, r in enumerate(v):
        m = cmp_arr(dom, r, [p - q for p, q in zip(xpow(one, d), one)],
                    f'x^{d} - 1, degree {n},')
        if m:
          return m
      return None
    explore(rep, it, 'monomial', W + 'x_power_n_minus_1', th, judge)

  # reduced coefficient moduli: the result is the canonical residue
  for lm in (20, 8):
    n = 4
    def th():
      a = [dom.sym(f'r{i}', 1, 2**lm - 1) for i in range(n)]
      return [it.call(it.get(M + 'monomial_mul'),
                      [arr(a, U), SArr((), o0(d), 'uint32', 'jnp'), lm], {})
              for d in range(2 * n)]

    def judge(v, tk):
      a = [poly.sym(f'r{i}') for i in range(n)]
      for d, r in enumerate(v):
        m = cmp_arr(dom, r, xpow(a, d), f'x^{d} mod 2^{lm}', mod=2**lm)
        if m:
          return m
        for q in r.data.flat:
          rg = dom.prange(q)
          if rg is not None and (rg[0] < 0 or rg[1] >= 2**lm):
            return f'x^{d}: coefficient {q!r} is not reduced modulo 2^{lm}'
      return None
    explore(rep, it, 'monomial', W + 'monomial_mul(reduced modulus)', th, judge)

  # rounded division and modulus switching
  for D in (2, 8, 2**22):
    for up in (0, 1):
      def th():
        lo = dom.sym('lo', 0, D // 2 - 1) + poly.const(up * (D // 2))
        v = dom.sym('hi', 0, 2**32 // D - 1) * poly.const(D) + lo
        return it.call(it.get(M + 'integer_div'),
                       [arr([v], U), SArr((), o0(D), U, 'jnp')], {})

      def judge(v, tk):
        return must(dom, v.data.flat[0], poly.sym('hi') + poly.const(up),
                    f'value in the {"upper" if up else "lower"} half is rounded')
      explore(rep, it, 'round', W + 'integer_div', th, judge)
  for li, lo_ in ((32, 10), (32, 5), (20, 8)):
    for up in (0, 1):
      D = 2**(li - lo_)
      def th():
        l = dom.sym('lo', 0, D // 2 - 1) + poly.const(up * (D // 2))
        v = dom.sym('hi', 0, 2**lo_ - 2) * poly.const(D) + l
        top = poly.const((2**lo_ - 1) * D) + l
        return it.call(it.get('jaxite.jaxite_cggi.lwe.switch_modulus'),
                       [arr([v, top], U), SArr((), o0(li), U, 'jnp'),
                        SArr((), o0(lo_), U, 'jnp')], {})

      def judge(v, tk):
        q, t = v.data.flat
        return must(dom, q, poly.sym('hi') + poly.const(up),
                    f'2^{li} -> 2^{lo_}: component is switched') or must(
                        dom, t, poly.const((2**lo_ - 1 + up) % 2**lo_),
                        f'2^{li} -> 2^{lo_}: top component is switched')
      explore(rep, it, 'round', 'jaxite/jaxite_cggi/lwe.py::switch_modulus', th, judge)
  section(rep, 'kernels', kernels, rep, tier)
  return finish(rep, it, 1)


def kernels(rep, tier):
  """The accelerator kernels (analysed as on a TPU) against the same products."""
  from pallas import PallasDomain
  dom = PallasDomain()
  dom.x64 = True
  dom.summaries['jaxite.jaxite_cggi.jax_helpers.get_tpu_version'] = lambda *a: 5
  it = Interp(Repo(), dom)
  K = 'jaxite.jaxite_cggi.polymul_kernel.'
  KW = 'jaxite/jaxite_cggi/polymul_kernel.py::'

  def mm(a, b, m, k, n):
    return [[sum((a[i][l] * b[l][j] for l in range(k)), poly.const(0))
             for j in range(n)] for i in range(m)]

  def word(nm):
    return sum((dom.sym(f'{nm}.{b}', 0, 255) * poly.const(256**b) for b in range(4)),
               poly.const(0))

  def mat(nm, m, n):
    return [[word(f'{nm}{i}_{j}') for j in range(n)] for i in range(m)]

  for m, k, n in ((1, 1, 1), (2, 3, 2), (3, 2, 1)):
    for fn in ('_i32_matmul_unreduced', 'i32_matmul'):
      def th():
        r = it.call(it.get(K + fn), [arr(mat('a', m, k), 'int32'),
                                     arr(mat('b', k, n), 'int32')], {})
        return r

      def judge(v, tk):
        if fn != 'i32_matmul':
          if tuple(v.axes) != (4 * m, n):
            return f'result has shape {v.shape}'
          d = sarr.obj((m, n))
          for i, j in np.ndindex(m, n):
            d[i, j] = sum((Poly.lift(v.data[b * m + i, j]) for b in range(4)), poly.const(0))
          v = SArr((m, n), d, 'uint32')
        return cmp_arr(dom, v, mm(mat('a', m, k), mat('b', k, n), m, k, n),
                       f'{m}x{k}x{n}')
      explore(rep, it, 'kernel-matmul', KW + fn, th, judge)

  # the stacked kernel of the bootstrap: the operand is given twice, each half
  # contributing two of the four bytes
  for m, k, n in ((1, 2, 2), (2, 3, 1)):
    def th():
      a = mat('a', m, k)
      return it.call(it.get(K + '_i32_matmul_unreduced_cggi'), [
          arr(a + a, 'int32'), arr([syms(f'd{i}_', n, dom, (-64, 64)) for i in range(k)], 'int32')],
                     {})

    def judge(v, tk):
      d = [syms(f'd{i}_', n, dom, (-64, 64)) for i in range(k)]
      return cmp_arr(dom, v, mm(mat('a', m, k), d, m, k, n), f'{m}x{k}x{n}')
    explore(rep, it, 'kernel-matmul', KW + '_i32_matmul_unreduced_cggi', th, judge)

  # negacyclic matrix by rolling
  for n in (128, 256) if tier == 'quick' else (128, 256, 512):
    def th():
      return it.call(it.get(M + 'toeplitz_kernelized'), [
          arr(syms('t', n, dom, (-2**20, 2**20)), 'int32')], {})

    def judge(v, tk):
      if tuple(v.axes) != (n, n):
        return f'matrix of shape {v.shape}'
      for i, j in np.ndindex(n, n):
        w = poly.sym(f't{(j - i) % n}')
        m = must(dom, v.data[i, j], w if j >= i else -w, f'degree {n}: entry ({i}, {j}) is set')
        if m:
          return m
      return None
    explore(rep, it, 'kernel-toeplitz', W + 'toeplitz_kernelized', th, judge)

  # vector-matrix polynomial product on the accelerator path; all entries of the
  # vector, and a few coefficients of every matrix polynomial, are symbols
  n = 128
  picks = (0, 1, 77, 127)
  for b, m in ((1, 2), (2, 3)):
    def entry(i, j, c):
      return word(f'M{i}_{j}_{c}') if c in picks else poly.const(0)

    def th():
      vec = arr([[dom.sym(f'v{i}_{c}', -64, 64) for c in range(n)] for i in range(b)], 'int32')
      mt = arr([[[entry(i, j, c) for c in range(n)] for j in range(m)] for i in range(b)],
               'int32')
      return it.call(it.get(K + 'negacyclic_vector_matrix_polymul'), [vec, mt, 6], {})

    def judge(v, tk):
      want = []
      for j in range(m):
        row = [poly.const(0)] * n
        for i in range(b):
          for c in picks:
            for d in range(n):
              t = entry(i, j, c) * poly.sym(f'v{i}_{d}')
              e = c + d
              row[e % n] = row[e % n] + (t if e < n else -t)
        want.append(row)
      return cmp_arr(dom, v, want, f'{b} polynomials by {m} columns')
    explore(rep, it, 'kernel-polymul', KW + 'negacyclic_vector_matrix_polymul', th, judge)

  # byte-aligned products
  for c, m, n_, k in ((1, 1, 1, 1), (2, 2, 2, 1)):
    def th():
      lhs = sarr.obj((c, m, n_, 4, 4))
      for i in np.ndindex(*lhs.shape):
        lhs[i] = dom.sym('L' + '_'.join(map(str, i)), 0, 255)
      y = [[[word(f'y{a}_{b}_{d}') for d in range(k)] for b in range(n_)] for a in range(c)]
      return it.call(it.get(K + 'bat_matmul'), [SArr(lhs.shape, lhs, 'uint8', 'jnp'),
                                                arr(y, 'uint32')], {})

    def judge(v, tk):
      want = [[sum((poly.sym(f'L{a}_{i}_{b}_{p_}_{q}') * poly.sym(f'y{a}_{b}_{j}.{q}')
                    * poly.const(256**p_) for a in range(c) for b in range(n_)
                    for p_ in range(4) for q in range(4)), poly.const(0))
               for j in range(k)] for i in range(m)]
      return cmp_arr(dom, v, want, 'byte-aligned product', mod=2**32)
    explore(rep, it, 'kernel-bat', KW + 'bat_matmul', th, judge)

    def th():
      lhs = sarr.obj((m, n_, 4, 4))
      for i in np.ndindex(*lhs.shape):
        lhs[i] = dom.sym('L' + '_'.join(map(str, i)), 0, 255)
      y = [[word(f'y{b}_{d}') for d in range(k)] for b in range(n_)]
      return it.call(it.get(M + 'hpmatmul_bat_adapt'), [SArr(lhs.shape, lhs, 'uint16', 'jnp'),
                                                        arr(y, 'uint32')], {})

    def judge(v, tk):
      want = [[sum((poly.sym(f'L{i}_{b}_{p_}_{q}') * poly.sym(f'y{b}_{j}.{q}')
                    * poly.const(256**p_) for b in range(n_)
                    for p_ in range(4) for q in range(4)), poly.const(0))
               for j in range(k)] for i in range(m)]
      return cmp_arr(dom, v, want, 'byte-aligned product', mod=2**64)
    explore(rep, it, 'kernel-bat', W + 'hpmatmul_bat_adapt', th, judge)

  # offline compilation: column j of the compiled block is x * 256^j modulo q
  for q in (4294967291, 268369921, 2**32):
    for x in (0, 1, 255, 256, 65535, 65536, 2**24 - 1, 2**24, 2**28 - 1, 0xDEADBEEF,
              2**31, 2**32 - 1, 0x01020304, 4294967290):
      for fn in ('smul_as_dense_gemv_bat', 'smul_as_dense_gemv_bat_jax'):
        def th():
          return it.call(it.get(M + fn), [SArr((), o0(x), 'uint32', 'jnp')], {'q': q})

        def judge(v, tk):
          if tuple(v.axes) != (4, 4):
            return f'block of shape {v.shape}'
          for j in range(4):
            col = [v.data[i, j] for i in range(4)]
            if not all(isinstance(e, int) for e in col):
              raise AnalysisError('compiled block is not constant')
            if not all(0 <= e <= 255 for e in col):
              return f'x={x}, q={q}: column {j} holds {col}'
            if (sum(e << (8 * i) for i, e in enumerate(col)) - (x << (8 * j))) % q:
              return f'x={x}, q={q}: column {j} stands for {col}, not x*256^{j}'
          return None
        explore(rep, it, 'bat-compile', W + fn, th, judge)


def o0(x):
  d = sarr.obj(())
  d[()] = x
  return d
