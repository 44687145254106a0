"""C15: number-theoretic transforms and RNS polynomial arithmetic."""
from ckks import *
from c09 import F, P, cells, fresh
from common import *
from report import Report

RULE = (
    'Abstract interpretation of every transform over symbolic coefficients '
    '(exact integer expressions with canonical-residue atoms): the analysis '
    'reads the evaluation points off the transform of X, checks that they are '
    'the odd powers of a primitive 2N-th root of unity in bit-reversed order, '
    'that every output is the canonical residue of the polynomial at its '
    'point for all coefficients, that the CPU and the accelerator layouts use '
    'the same points, that the inverse returns the coefficients, and that '
    'products of transforms are negacyclic products.')

TOWERS = {4: [998244353, 12289], 8: [2013265921, 469762049],
          16: [998244353, 2113929217], 2: [65537, 167772161]}


def brev(k, bits):
  r = 0
  for _ in range(bits):
    r, k = r << 1 | k & 1, k >> 1
  return r


def lin(dom, cs, xs):
  acc = 0
  for c, x in zip(cs, xs):
    acc = dom.cell_binop('+', acc, dom.cell_binop('*', x, c))
  return acc


def points_of(dom, out, a, q):
  """evaluation points, from the coefficient of a_1 in every output."""
  pts = []
  for v in out:
    c = dom.canon(v, q)
    m = next(iter(Poly.lift(a[1]).t))
    pts.append(c.t.get(m, 0))
  return pts


def check_points(pts, n, q):
  bits = n.bit_length() - 1
  psi = pts[0]
  if pow(psi, n, q) != q - 1:
    return f'the first point {psi} is no primitive {2 * n}-th root of unity'
  for k, p in enumerate(pts):
    if p != pow(psi, 2 * brev(k, bits) + 1, q):
      return (f'output {k} is taken at {p} instead of the root to the power '
              f'{2 * brev(k, bits) + 1}')


def judge_forward(dom, out, a, q, dt, ref=None):
  """out, a: lists of N cells."""
  n = len(a)
  out = [dom.obs(dom.norm(v), dt) for v in out]
  pts = points_of(dom, out, a, q) if n > 1 else None
  psi = pts[0] if pts else None
  if ref is not None:
    pts = ref
  e = check_points(pts, n, q) if ref is None else None
  if e:
    # a wrong transform, unless the outputs depend on the inputs otherwise
    for k in range(n):
      g = dom.canon(out[k], q)
      if any(len(m) != 1 or m[0][1] != 1 or m[0][0].args for m in g.t):
        raise AnalysisError('outputs are not linear in the coefficients')
    return e
  for k in range(n):
    want = lin(dom, [pow(pts[k], j, q) for j in range(n)], a)
    d = congruent(dom, out[k], want, q, dt)
    if d:
      return f'output {k}: {d}'


def cpu_checks(rep, tier):
  dom, it = fresh('ntt_cpu')
  fwd = it.get(P + 'ntt_cpu.ntt_negacyclic_poly')
  inv = it.get(P + 'ntt_cpu.intt_negacyclic_poly')
  ref = {}
  for n in (2, 4, 8, 16):
    mods = TOWERS[n]

    def sym(dt, n=n, mods=mods, lo=0):
      d = sarr.obj((n, len(mods)))
      for i, j in np.ndindex(n, len(mods)):
        d[i, j] = dom.sym(f'x_{i}_{j}', -(mods[j] - 1) if lo else 0, mods[j] - 1)
      return SArr(d.shape, d, dt, 'np')

    for dt, lo in (('uint64', 0), ('object', 1), ('int64', 1)):
      def th(n=n, mods=mods, dt=dt, lo=lo, sym=sym):
        x = sym(dt, lo=lo)
        return it.call(fwd, [x, VList(list(mods))], {}), x

      def judge(v, tk, n=n, mods=mods):
        r, x = v
        r, e = cells(r, (n, len(mods)), 'uint64')
        if e:
          return e
        for j, q in enumerate(mods):
          out, a = list(r.data[:, j]), list(x.data[:, j])
          d = judge_forward(dom, out, a, q, 'uint64')
          if d:
            return f'degree {n}, modulus {q}: {d}'
          ref[n, q] = points_of(dom, out, a, q)
      explore(rep, it, 'ntt-cpu', F + 'ntt_cpu.py:ntt_negacyclic_poly', th, judge)

    def back(n=n, mods=mods, sym=sym):
      x = sym('uint64')
      return it.call(inv, [it.call(fwd, [x, VList(list(mods))], {}),
                           VList(list(mods))], {}), x

    def jback(v, tk, n=n, mods=mods):
      r, x = v
      r, e = cells(r, (n, len(mods)), 'uint64')
      if e:
        return e
      for i, j in np.ndindex(n, len(mods)):
        d = congruent(dom, r.data[i, j], x.data[i, j], mods[j], 'uint64')
        if d:
          return f'degree {n}: coefficient {i} comes back as {d}'
    explore(rep, it, 'intt-cpu', F + 'ntt_cpu.py:intt_negacyclic_poly', back, jback)

  # cyclic helpers, with an explicit root, in natural order
  cyc = it.get(P + 'ntt_cpu.ntt_cyclic_bit_reverse')
  icyc = it.get(P + 'ntt_cpu.intt_cyclic_bit_reverse')
  neg = it.get(P + 'ntt_cpu.ntt_negacyclic_bit_reverse')
  ineg = it.get(P + 'ntt_cpu.intt_negacyclic_bit_reverse')
  for n, q, g in ((4, 12289, 11), (8, 998244353, 3), (16, 7340033, 3)):
    w = pow(g, (q - 1) // n, q)
    psi = pow(g, (q - 1) // (2 * n), q)
    for name, f, root, pt in (
        ('ntt_cyclic_bit_reverse', cyc, w, lambda k: pow(w, k, q)),
        ('ntt_negacyclic_bit_reverse', neg, psi, lambda k: pow(psi, 2 * k + 1, q))):
      def th(n=n, q=q, f=f, root=root):
        x = arr([dom.sym(f'x{i}', 0, q - 1) for i in range(n)], 'object', 'np')
        return it.call(f, [x, q, root], {}), x

      def judge(v, tk, n=n, q=q, pt=pt):
        r, x = v
        r, e = cells(r, (n,))
        if e:
          return e
        for k in range(n):
          want = lin(dom, [pow(pt(k), j, q) for j in range(n)], list(x.data))
          d = congruent(dom, r.data[k], want, q)
          if d:
            return f'degree {n}, modulus {q}, output {k}: {d}'
      explore(rep, it, 'ntt-cpu', f'{F}ntt_cpu.py:{name}', th, judge)
    for name, f, g2, root in (('intt_cyclic_bit_reverse', icyc, cyc, w),
                              ('intt_negacyclic_bit_reverse', ineg, neg, psi)):
      def th(n=n, q=q, f=f, g2=g2, root=root):
        x = arr([dom.sym(f'x{i}', 0, q - 1) for i in range(n)], 'object', 'np')
        return it.call(f, [it.call(g2, [x, q, root], {}), q, root], {}), x

      def judge(v, tk, n=n, q=q):
        r, x = v
        r, e = cells(r, (n,))
        if e:
          return e
        for k in range(n):
          d = congruent(dom, r.data[k], x.data[k], q)
          if d:
            return f'degree {n}, modulus {q}, coefficient {k}: {d}'
      explore(rep, it, 'intt-cpu', f'{F}ntt_cpu.py:{name}', th, judge)
  return it, ref


def tpu_checks(rep, tier, ref):
  dom, it = fresh('ntt')
  C = it.get(P + 'ntt.NTTBarrett')
  shapes = [(2, 2), (2, 4), (4, 2), (4, 4), (2, 8), (8, 2), (1, 4), (4, 1)]
  for r, c in shapes:
    n = r * c
    mods = TOWERS[n]
    M = len(mods)

    def kern(r=r, c=c, mods=mods):
      k = it.call(C, [], {})
      it.call(it.getattr_(k, 'precompute_constants'), [VList(list(mods)), r, c], {})
      return k

    variants = [('full', None, list(range(M)), ())]
    if r == 2:
      variants += [('slice', slice(1, 2), [1], ()),
                   ('index', arr([1, 0], 'int64', 'np'), [1, 0], ()),
                   ('batch', None, list(range(M)), (2,))]
    for vn, sl, cols, lead in variants:
      for dirn in ('ntt', 'intt'):
        def th(kern=kern, r=r, c=c, sl=sl, cols=cols, lead=lead, dirn=dirn, mods=mods):
          k = kern()
          if sl is not None:
            cs = it.getattr_(k, 'constants')
            k2 = it.call(C, [], {})
            it.setattr_(k2, 'constants',
                        it.call(it.getattr_(cs, 'slice_moduli'), [sl], {}), None, None)
            k = k2
          x = sym_tower(dom, 'x', lead + (r, c), [mods[j] for j in cols])
          y = it.call(it.getattr_(k, 'ntt'), [x], {})
          if dirn == 'intt':
            y = it.call(it.getattr_(k, 'intt'), [y], {})
          return y, x

        def judge(v, tk, r=r, c=c, n=n, cols=cols, lead=lead, dirn=dirn, mods=mods,
                  vn=vn):
          y, x = v
          y, e = cells(y, lead + (r, c, len(cols)), 'uint32')
          if e:
            return e
          yd = y.data.reshape(lead + (n, len(cols)))
          xd = x.data.reshape(lead + (n, len(cols)))
          for b in np.ndindex(*lead):
            for j, cj in enumerate(cols):
              q = mods[cj]
              out, a = list(yd[b + (slice(None), j)]), list(xd[b + (slice(None), j)])
              if dirn == 'ntt':
                d = judge_forward(dom, out, a, q, 'uint32', ref.get((n, q)))
                if d:
                  return f'{r}x{c} ({vn}), modulus {q}: {d}'
              else:
                for i in range(n):
                  d = congruent(dom, out[i], a[i], q, 'uint32')
                  if d:
                    return f'{r}x{c} ({vn}), modulus {q}, coefficient {i}: {d}'
        explore(rep, it, 'ntt-accel' if dirn == 'ntt' else 'intt-accel',
                f'{F}ntt.py:NTTBarrett.{dirn}', th, judge)

    # the inverse alone, on values that are no transform the code produced
    def only(kern=kern, r=r, c=c, mods=mods):
      x = sym_tower(dom, 'x', (r, c), mods)
      return it.call(it.getattr_(kern(), 'intt'), [x], {}), x

    def jonly(v, tk, r=r, c=c, n=n, mods=mods):
      y, x = v
      y, e = cells(y, (r, c, len(mods)), 'uint32')
      if e:
        return e
      for j, q in enumerate(mods):
        pts = ref.get((n, q))
        if pts is None:
          raise AnalysisError('no reference points')
        co = list(y.data.reshape(n, -1)[:, j])
        for k in range(n):
          d = congruent(dom, lin(dom, [pow(pts[k], i, q) for i in range(n)], co),
                        x.data.reshape(n, -1)[k, j], q, canonical=False)
          if d:
            return f'{r}x{c}, modulus {q}: value {k} of the inverse: {d}'
        for i in range(n):
          d = congruent(dom, co[i], co[i], q, 'uint32')
          if d:
            return f'{r}x{c}, modulus {q}: coefficient {i} not canonical: {d}'
    explore(rep, it, 'intt-accel', F + 'ntt.py:NTTBarrett.intt', only, jonly)
  return it


def rns_checks(rep, ref):
  dom, it = fresh('rns')
  where = F + 'rns.py:'
  RP = it.get(P + 'rns.RnsParams')
  gen = it.get(P + 'rns.gen_rns_polynomial')
  B = dom.cell_binop

  def poly_(name, n, mods, lo=None):
    Q = math.prod(mods)
    xs = [dom.sym(f'{name}{i}', 0 if lo is None else lo, Q - 1) for i in range(n)]
    return it.call(gen, [n, VList(list(xs)), VList(list(mods))], {}), xs

  def params(n, mods):
    return it.getattr_(it.call(RP, [n, VList(list(mods))], {}), 'ntt_params')

  def coeffs(p):
    return [[x for x in it.iterate(r)] for r in it.iterate(it.getattr_(p, 'coeffs'))]

  def m(o, name, *a):
    return it.call(it.getattr_(o, name), list(a), {})

  for n in (2, 4, 8):
    mods = TOWERS[n]

    def th(n=n, mods=mods):
      p, xs = poly_('x', n, mods)
      m(p, 'to_ntt_form', params(n, mods))
      return coeffs(p), it.getattr_(p, 'is_ntt'), xs

    def judge(v, tk, n=n, mods=mods):
      cs, flag, xs = v
      if flag is not True:
        return 'to_ntt_form does not record the NTT form'
      for i, q in enumerate(mods):
        d = judge_forward(dom, cs[i], xs, q, None)
        if d:
          return f'degree {n}, modulus {q}: {d}'
    explore(rep, it, 'rns-ntt', where + 'RnsPolynomial.to_ntt_form', th, judge)

    def th2(n=n, mods=mods):
      p, xs = poly_('x', n, mods, -5)
      ps = params(n, mods)
      m(p, 'to_ntt_form', ps)
      m(p, 'to_ntt_form', ps)
      m(p, 'to_coeffs_form', ps)
      m(p, 'to_coeffs_form', ps)
      return coeffs(p), it.getattr_(p, 'is_ntt'), xs

    def judge2(v, tk, n=n, mods=mods):
      cs, flag, xs = v
      if flag is not False:
        return 'to_coeffs_form does not record the coefficient form'
      for i, q in enumerate(mods):
        for j in range(n):
          d = congruent(dom, cs[i][j], xs[j], q)
          if d:
            return f'degree {n}: coefficient {j} comes back as {d}'
    explore(rep, it, 'rns-round-trip', where + 'RnsPolynomial.to_coeffs_form', th2, judge2)

    for op in ('__add__', '__sub__', '__neg__', '__mul__'):
      for form in (False, True):
        if op == '__mul__' and not form:
          continue

        def th3(n=n, mods=mods, op=op, form=form):
          p, xs = poly_('x', n, mods)
          o, ys = poly_('y', n, mods)
          ps = params(n, mods)
          if form:
            m(p, 'to_ntt_form', ps)
            m(o, 'to_ntt_form', ps)
          pc, oc = coeffs(p), coeffs(o)
          r = m(p, op) if op == '__neg__' else m(p, op, o)
          fl = it.getattr_(r, 'is_ntt')
          if coeffs(p) != pc or coeffs(o) != oc:
            raise AbsRaise('OperandChanged', (), None)
          m(r, 'to_coeffs_form', ps)
          # a later change of the result must not reach an operand
          if coeffs(p) != pc or coeffs(o) != oc:
            raise AbsRaise('OperandChanged', (), None)
          return coeffs(r), fl, xs, ys

        def judge3(v, tk, n=n, mods=mods, op=op, form=form):
          cs, fl, xs, ys = v
          if fl is not form:
            return f'{op} of polynomials in {"NTT" if form else "coefficient"} form records the other form'
          for i, q in enumerate(mods):
            for k in range(n):
              if op == '__add__':
                w = B('+', xs[k], ys[k])
              elif op == '__sub__':
                w = B('-', xs[k], ys[k])
              elif op == '__neg__':
                w = B('-', 0, xs[k])
              else:
                w = 0
                for a in range(n):
                  b = (k - a) % n
                  t = B('*', xs[a], ys[b])
                  w = B('+', w, t) if a + b == k else B('-', w, t)
              d = congruent(dom, cs[i][k], w, q)
              if d:
                return f'{op}, degree {n}, coefficient {k}: {d}'
        if op == '__mul__' and n > 4:
          continue
        explore(rep, it, 'rns-op', where + 'RnsPolynomial.' + op, th3, judge3)

  # combinations that must be refused
  n, mods = 4, TOWERS[4]
  other = {'degree': (2, mods), 'moduli': (4, [998244353, 65537]),
           'order': (4, mods[::-1]), 'count': (4, mods[:1]), 'form': (4, mods)}
  for op in ('__add__', '__sub__', '__mul__'):
    for what, (n2, m2) in other.items():
      def th4(op=op, what=what, n2=n2, m2=m2):
        p, _ = poly_('x', n, mods)
        o, _ = poly_('y', n2, m2)
        m(p, 'to_ntt_form', params(n, mods))
        if what != 'form':
          m(o, 'to_ntt_form', params(n2, m2))
        return m(p, op, o)
      explore(rep, it, 'rns-mismatch', where + 'RnsPolynomial.' + op, th4,
              lambda v, tk, op=op, what=what: f'{op} accepts polynomials that '
              f'differ in {what}', lambda e, tk: e.exc_type == 'ValueError')

  def th5():
    p, _ = poly_('x', n, mods)
    o, _ = poly_('y', n, mods)
    return m(p, '__mul__', o)
  explore(rep, it, 'rns-mismatch', where + 'RnsPolynomial.__mul__', th5,
          lambda v, tk: 'the product of two polynomials in coefficient form is accepted',
          lambda e, tk: e.exc_type == 'ValueError')

  # array conversion keeps every residue
  big = [998244353, 2147483647, (1 << 41) - 31]
  frm = it.get(P + 'rns.gen_rns_polynomial_from_jnp_array')

  def th6():
    p, xs = poly_('x', 2, big)
    a = m(p, 'to_jnp_array')
    return a, xs, coeffs(it.call(frm, [2, a, VList(list(big))], {}))

  def judge6(v, tk):
    a, xs, back = v
    a, e = cells(a, (3, 2))
    if e:
      return e
    for i, q in enumerate(big):
      for k in range(2):
        for g in (dom.obs(a.data[i, k], a.dtype), back[i][k]):
          d = congruent(dom, g, xs[k], q)
          if d:
            return f'residue {i} of coefficient {k} becomes {d}'
  explore(rep, it, 'rns-array', where + 'RnsPolynomial.to_jnp_array', th6, judge6)

  # Chinese remaindering
  rec = it.get(P + 'rns_utils.reconstruct_crt')
  for mods in ([65537], [998244353, 12289], [2147483647, 65537, 998244353]):
    def th7(mods=mods):
      rs = [[dom.sym(f'r{i}{k}', 0, q - 1) for k in range(2)]
            for i, q in enumerate(mods)]
      return it.call(rec, [VList([VList(list(r)) for r in rs]), VList(list(mods))], {}), rs

    def judge7(v, tk, mods=mods):
      out, rs = v
      out = list(it.iterate(out))
      if len(out) != 2:
        return f'{len(out)} integers instead of 2'
      Q = math.prod(mods)
      for k in range(2):
        for i, q in enumerate(mods):
          d = congruent(dom, out[k], rs[i][k], q, canonical=False)
          if d:
            return f'moduli {mods}: {d}'
        g = dom.rng(out[k])
        if g is None or g[0] < 0 or g[1] >= Q:
          for val in valuations(dom, sorted(dom.ranges)):
            x = ev(out[k], val)
            if not 0 <= x < Q:
              return f'moduli {mods}: {x} is not in [0, {Q})'
          raise AnalysisError('range of the reconstructed integer')
    explore(rep, it, 'crt', F + 'rns_utils.py:reconstruct_crt', th7, judge7)
  return it


def run(tier):
  rep = Report('C15', RULE, tier)
  r = section(rep, 'cpu_checks', cpu_checks, rep, tier)
  ref = r[1] if r else {}
  section(rep, 'tpu_checks', tpu_checks, rep, tier, ref)
  section(rep, 'rns_checks', rns_checks, rep, ref)
  return finish(rep)
