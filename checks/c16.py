"""C16: the homomorphic operations of jaxite_ckks on RNS ciphertexts."""
from ckks import *
from c09 import F, P, cells, convert, fresh
from c15 import points_of
from common import *
from report import Report

RULE = (
    'Abstract interpretation of every operation over symbolic residues and '
    'symbolic keys (exact integer expressions with canonical-residue atoms). '
    'Each output residue is compared, as a residue class for all inputs, with '
    'the defining formula over evaluation points read off the analysed '
    'transform: centred division by the dropped modulus, digit products with '
    'the key parts, approximate division by P, evaluation permutations.')

Q3 = [998244353, 2013265921, 469762049]
P2 = [2113929217, 167772161]
N = 4


class Ref:
  """Ring elements as evaluation lists, over the analysed transform's points."""

  def __init__(self, dom, it):
    self.dom, self.it = dom, it
    self.pts = {}

  def points(self, q, n=N, r=2, c=2):
    if (n, q) not in self.pts:
      it, dom = self.it, self.dom
      k = it.call(it.get(P + 'ntt.NTTBarrett'), [], {})
      it.call(it.getattr_(k, 'precompute_constants'), [VList([q]), r, c], {})
      a = sym_tower(dom, 'pt', (r, c), [q])
      o = sarr.as_arr(it.call(it.getattr_(k, 'ntt'), [a], {}))
      out = [dom.obs(dom.norm(v), o.dtype) for v in o.data.reshape(-1)]
      ps = points_of(dom, out, list(a.data.reshape(-1)), q)
      if len(set(ps)) != n or any(pow(p, n, q) != q - 1 for p in ps):
        raise AnalysisError(f'evaluation points modulo {q} not recognised')
      self.pts[n, q] = ps
    return self.pts[n, q]

  def comb(self, cs, xs, q):
    dom = self.dom
    t = Poly({})
    for c, x in zip(cs, xs):
      t = t + dom.canon(x, q) * poly.const(c % q)
    return dom.rem(dom.norm(dom.canon(t, q)), q)

  def ev(self, coeffs, q):
    ps = self.points(q, len(coeffs))
    return [self.comb([pow(p, j, q) for j in range(len(ps))], coeffs, q) for p in ps]

  def coeffs(self, vals, q):
    ps = self.points(q, len(vals))
    n = len(ps)
    ni = pow(n, -1, q)
    return [self.comb([ni * pow(p, -j, q) for p in ps], vals, q) for j in range(n)]

  def mul(self, a, b, q):
    dom = self.dom
    return dom.rem(dom.norm(Poly.lift(dom.norm(a)) * Poly.lift(dom.norm(b))), q)

  def add(self, *xs):
    t = Poly({})
    for x in xs:
      t = t + Poly.lift(self.dom.norm(x))
    return self.dom.norm(t)

  def centred(self, x, q):
    dom = self.dom
    return dom.cell_where(dom.cell_compare('<', x, (q + 1) // 2), x,
                          dom.cell_binop('-', x, q))

  def rescale(self, limbs, mods):
    """limbs[i][k]: evaluation k modulo mods[i]; drops the last modulus."""
    ql = mods[-1]
    cl = [self.centred(x, ql) for x in self.coeffs(limbs[-1], ql)]
    out = []
    for x, q in zip(limbs[:-1], mods[:-1]):
      e = self.ev(cl, q)
      inv = pow(ql, -1, q)
      out.append([self.comb([inv, -inv], [u, v], q) for u, v in zip(x, e)])
    return out

  def extend(self, limbs, src, dst):
    """Fast basis conversion of the coefficients, back in evaluation form."""
    cs = [self.coeffs(x, q) for x, q in zip(limbs, src)]
    n = len(cs[0])
    out = [[None] * n for _ in dst]
    for k in range(n):
      for j, v in enumerate(convert(self.dom, [c[k] for c in cs], src, dst)):
        out[j][k] = self.dom.rem(v, dst[j])
    return [self.ev(o, p) for o, p in zip(out, dst)]


def limbs_of(data, el):
  """data (elements, N, limbs) -> limb lists of one element."""
  d = data[el] if el is not None else data
  return [[d[k, i] for k in range(d.shape[0])] for i in range(d.shape[1])]


def same(dom, got, want, mods, dt, what, extra=()):
  """got: cells (N, limbs); want[i][k]."""
  for i, q in enumerate(mods):
    for k in range(len(want[i])):
      d = congruent(dom, got[k, i], want[i][k], q, dt, extra=extra)
      if d:
        return f'{what}, evaluation {k}, limb {i}: {d}'


def constants(d, mods):
  """inputs that are constant polynomials around the rounding threshold."""
  out = []
  h = (mods[-1] + 1) // 2
  for v in (h - 1, h, h + 1, mods[-1] - 1, mods[-1] // 2 - 1):
    out.append({next(iter(d.data[i].t))[0][0].op.split('<')[0]: v % mods[i[-1]]
                for i in np.ndindex(*d.data.shape)})
  return out


def moduli_are(dom, v, mods):
  v = sarr.as_arr(v)
  got = [dom.norm(x) for x in v.data.reshape(-1)]
  if got != list(mods):
    return f'result carries the moduli {got} instead of {list(mods)}'


def ciphertext(it, dom, name, mods, els=2, n=N):
  d = sym_tower(dom, name, (els, n), mods)
  return it.call(it.get(P + 'types.Ciphertext'), [
      d, arr(list(mods), 'uint32')], {}), d


def rescale_checks(rep, tier):
  dom, it = fresh('rescale')
  ref = Ref(dom, it)
  where = F + 'rescale.py:Rescale.rescale'
  chains = [(Q3[:2], 1), (Q3, 1), (Q3, 2), ([Q3[2], Q3[0], P2[0]], 1),
            ([268435361, 268435313, 2147483489], 2),
            ([2147483489, 268435361], 1), (Q3[:2] + P2, 3)]
  for mods, cnt in chains:
    for els in (1, 2):
      def th(mods=mods, cnt=cnt, els=els):
        k = it.call(it.get(P + 'rescale.Rescale'), [], {})
        it.call(it.getattr_(k, 'precompute_constants'), [VList(list(mods)), cnt, 2, 2], {})
        ct, d = ciphertext(it, dom, 'x', mods, els)
        it.call(it.getattr_(k, 'rescale'), [ct], {})
        return ct, d

      def judge(v, tk, mods=mods, cnt=cnt, els=els):
        ct, d = v
        left = mods[:-cnt]
        r, e = cells(it.getattr_(ct, 'data'), (els, N, len(left)), 'uint32')
        if e:
          return e
        e = moduli_are(dom, it.getattr_(ct, 'moduli'), left)
        if e:
          return e
        for el in range(els):
          x, m = limbs_of(d.data, el), list(mods)
          for _ in range(cnt):
            x = ref.rescale(x, m)
            m = m[:-1]
          e = same(dom, r.data[el], x, left, 'uint32',
                   f'{cnt} rescaling(s) of {mods}, element {el}',
                   constants(d, mods))
          if e:
            return e
      explore(rep, it, 'rescale', where, th, judge)


def data_of(it, v):
  return sarr.as_arr(it.getattr_(v, 'data'))


def digits(ref, x, mods_q, mods_all, lo, hi):
  """limbs modulo every modulus of the digit lo..hi of x (over mods_q)."""
  src = mods_q[lo:hi]
  out_i = [j for j in range(len(mods_all)) if not lo <= j < hi]
  ext = ref.extend(x[lo:hi], src, [mods_all[j] for j in out_i])
  res = [None] * len(mods_all)
  for j in range(lo, hi):
    res[j] = x[j]
  for j, e in zip(out_i, ext):
    res[j] = e
  return res


def switch(ref, x, a, b, qs, ps, dnum):
  """sums of digit products: (over b, over a), limb lists modulo q and p."""
  al = qs + ps
  per = -(-len(qs) // dnum)
  s0 = [[0] * len(x[0]) for _ in al]
  s1 = [[0] * len(x[0]) for _ in al]
  part = 0
  while part * per < len(qs):
    d = digits(ref, x, qs, al, part * per, min((part + 1) * per, len(qs)))
    for m, q in enumerate(al):
      for k in range(len(x[0])):
        s0[m][k] = ref.add(s0[m][k], ref.mul(d[m][k], b[part][k, m], q))
        s1[m][k] = ref.add(s1[m][k], ref.mul(d[m][k], a[part][k, m], q))
    part += 1
  return ([[ref.dom.rem(v, q) for v in l] for l, q in zip(s0, al)],
          [[ref.dom.rem(v, q) for v in l] for l, q in zip(s1, al)])


def keyswitch_ref(ref, c0, c1, a, b, qs, ps, dnum):
  s0, s1 = switch(ref, c1, a, b, qs, ps, dnum)
  pv = math.prod(ps)
  for m, q in enumerate(qs):
    s0[m] = [ref.comb([1, pv], [u, v], q) for u, v in zip(s0[m], c0[m])]
  return s0, s1


def evk_of(it, dom, parts, mods, name='k', dt='uint64', cls='types.EvaluationKeys'):
  a = sym_tower(dom, name + 'a', (parts, N), mods, dt)
  b = sym_tower(dom, name + 'b', (parts, N), mods, dt)
  kw = dict(a=a, b=b, moduli=arr(list(mods), 'uint64'))
  return it.call(it.get(P + cls), [], kw), a.data, b.data


def kernels(it, qs, ps, dnum, lead=()):
  al = qs + ps
  per = -(-len(qs) // dnum)
  ks = it.call(it.get(P + 'key_switching.KeySwitcher'), [], {})
  it.call(it.getattr_(ks, 'precompute_constants'),
          [VList(list(qs)), VList(list(ps)), dnum, 2, 2], {})
  bc = it.call(it.get(P + 'basis_conversion.BasisConversionBarrett'), [], {})
  pairs = list(lead)
  for i in range(dnum):
    ins = list(range(i * per, min((i + 1) * per, len(qs))))
    pairs.append((ins, [j for j in range(len(al)) if j not in ins]))
  it.call(it.getattr_(bc, 'precompute_constants'), [
      VList(list(al)), VList([VList([VList(list(x)), VList(list(y))]) for x, y in pairs])], {})
  bar = it.call(it.get(P + 'barrett.precompute_barrett_constants'), [VList(list(al))], {})
  mk = it.call(it.get(P + 'mul.MulPlaintextCiphertextBarrett'), [bar], {})
  return ks, bc, mk


SETS = [(Q3, P2[:1], 3), (Q3[:2], P2, 1), (Q3, P2[:1], 2), (Q3[:1], P2[:1], 1)]


def judge_ct(dom, it, ct, want, mods, what):
  r, e = cells(it.getattr_(ct, 'data'), (len(want), N, len(mods)), 'uint32')
  if e:
    return f'{what}: {e}'
  e = moduli_are(dom, it.getattr_(ct, 'moduli'), mods)
  if e:
    return f'{what}: {e}'
  for el, w in enumerate(want):
    e = same(dom, r.data[el], w, mods, 'uint32', f'{what}, element {el}')
    if e:
      return e


def keyswitch_checks(rep, tier):
  dom, it = fresh('key_switching')
  ref = Ref(dom, it)
  where = F + 'key_switching.py:KeySwitcher.key_switch'
  for qs, ps, dnum in SETS:
    for dt, start in (('uint64', 0), ('uint32', 1)):
      def th(qs=qs, ps=ps, dnum=dnum, dt=dt, start=start):
        al = qs + ps
        ks, bc, mk = kernels(it, qs, ps, dnum, [
            (list(range(len(qs), len(al))), list(range(len(qs))))][:start])
        ct, d = ciphertext(it, dom, 'x', qs)
        ev, a, b = evk_of(it, dom, dnum, al, dt=dt)
        r = it.call(it.getattr_(ks, 'key_switch'), [], dict(
            ct=ct, ksk=ev, p_limbs=arr(list(ps), 'uint32'), bc_kernel=bc,
            mul_kernel=mk, start_control_index=start))
        return r, d, a, b

      def judge(v, tk, qs=qs, ps=ps, dnum=dnum):
        ct, d, a, b = v
        w = keyswitch_ref(ref, limbs_of(d.data, 0), limbs_of(d.data, 1), a, b,
                          qs, ps, dnum)
        return judge_ct(dom, it, ct, w, qs + ps,
                        f'key switch over {qs} + {ps} in {dnum} part(s)')
      explore(rep, it, 'key-switch', where, th, judge)


def conjugate_checks(rep, tier):
  dom, it = fresh('conjugate')
  ref = Ref(dom, it)
  where = F + 'conjugate.py:Conjugation.conjugate'
  for qs, ps, dnum in SETS[:3]:
    def th(qs=qs, ps=ps, dnum=dnum):
      al = qs + ps
      _, bc, mk = kernels(it, qs, ps, dnum)
      c = it.call(it.get(P + 'conjugate.Conjugation'), [], {})
      it.call(it.getattr_(c, 'precompute_constants'),
              [VList(list(qs)), VList(list(ps)), dnum, 2, 2], {})
      rs = it.call(it.get(P + 'rescale.Rescale'), [], {})
      it.call(it.getattr_(rs, 'precompute_constants'), [VList(list(al)), len(ps), 2, 2], {})
      ct, d = ciphertext(it, dom, 'x', qs)
      ev, a, b = evk_of(it, dom, dnum, al)
      fn = it.getattr_(c, 'conjugate')
      r = it.call(fn, [], dict(
          ct=ct, conj_key=ev, p_limbs=arr(list(ps), 'uint32'), bc_kernel=bc,
          mul_kernel=mk, rescale_kernel=rs, start_control_index=0))
      return r, d, a, b

    def judge(v, tk, qs=qs, ps=ps, dnum=dnum):
      ct, d, a, b = v
      # the evaluation at a point of the conjugate is the one at its inverse
      def conj(x):
        out = []
        for l, q in zip(x, qs):
          pts = ref.points(q)
          out.append([l[pts.index(pow(p, -1, q))] for p in pts])
        return out
      w = keyswitch_ref(ref, conj(limbs_of(d.data, 0)), conj(limbs_of(d.data, 1)),
                        a, b, qs, ps, dnum)
      m = qs + ps
      w = list(w)
      for _ in ps:
        w = [ref.rescale(x, m) for x in w]
        m = m[:-1]
      return judge_ct(dom, it, ct, w, qs, f'conjugate over {qs} + {ps}, {dnum} part(s)')
    explore(rep, it, 'conjugate', where, th, judge)


def automorphism_checks(rep, tier):
  dom, it = fresh('blind_rotate_utils')
  ref = Ref(dom, it)
  where = F + 'blind_rotate_utils.py:apply_automorphism_ntt'
  for n, r, c in ((4, 2, 2), (8, 2, 4), (16, 4, 4), (2, 1, 2)):
    qs = [998244353, 167772161]
    for g in range(1, 2 * n, 2):
      for shape in ((n,), (2, n)):
        def th(g=g, shape=shape, qs=qs):
          x = sym_tower(dom, 'x', shape, qs)
          return it.call(it.get(P + 'blind_rotate_utils.apply_automorphism_ntt'), [x, g], {}), x

        def judge(v, tk, n=n, r=r, c=c, g=g, shape=shape, qs=qs):
          o, x = v
          o, e = cells(o, tuple(shape) + (len(qs),), 'uint32')
          if e:
            return e
          for i, q in enumerate(qs):
            pts = ref.points(q, n, r, c)
            for lead in np.ndindex(*shape[:-1]):
              for k, p in enumerate(pts):
                src = x.data[lead + (pts.index(pow(p, g, q)), i)]
                d = congruent(dom, o.data[lead + (k, i)], src, q, 'uint32')
                if d:
                  return (f'degree {n}, X -> X^{g}, evaluation {k}: {d}')
        explore(rep, it, 'automorphism', where, th, judge)

  # large degrees, where index arithmetic could leave a narrow type; the points
  # are in bit-reversed order of the exponents, as read off above and by C15
  q = 998244353
  for n in (256, 4096) if tier == 'quick' else (256, 4096, 32768):
    lg = n.bit_length() - 1
    rev = [int(format(i, f'0{lg}b')[::-1], 2) for i in range(n)]
    for g in (5, pow(5, -3, 2 * n), 2 * n - 1):
      def th(g=g, n=n):
        x = sym_tower(dom, 'x', (n,), [q])
        return it.call(it.get(P + 'blind_rotate_utils.apply_automorphism_ntt'), [x, g], {}), x

      def judge(v, tk, n=n, g=g, rev=rev):
        o, x = v
        o, e = cells(o, (n, 1), 'uint32')
        if e:
          return e
        for k in range(n):
          src = rev[((2 * rev[k] + 1) * g % (2 * n) - 1) // 2]
          if o.data[k, 0] is not x.data[src, 0]:
            d = congruent(dom, o.data[k, 0], x.data[src, 0], q, 'uint32')
            if d:
              return f'degree {n}, X -> X^{g}, evaluation {k}: {d}'
      explore(rep, it, 'automorphism', where, th, judge)


def mul_checks(rep, tier):
  dom, it = fresh('mul')
  ref = Ref(dom, it)
  sets = [(Q3, P2[:1], 2, 1), (Q3, P2, 1, 1), (Q3 + [754974721], P2[:1], 2, 1),
          (Q3 + [754974721], P2[:1], 2, 2), (Q3[:2], P2[:1], 1, 1)]
  for orig, ps, dnum, comp in sets:
    qs = orig[:-comp]

    def kern(orig=orig, ps=ps, dnum=dnum, comp=comp):
      m = it.call(it.get(P + 'mul.Mul'), [], {})
      it.call(it.getattr_(m, 'precompute_constants'),
              [VList(list(orig)), VList(list(ps)), dnum, 2, 2],
              {'composite_degree': comp})
      return m

    def th1(kern=kern, qs=qs):
      m = kern()
      x, dx = ciphertext(it, dom, 'x', qs)
      y, dy = ciphertext(it, dom, 'y', qs)
      return it.call(it.getattr_(m, 'tensor_multiply'), [x, y], {}), dx, dy

    def judge1(v, tk, qs=qs):
      ct, dx, dy = v
      x, y = dx.data, dy.data
      f = lambda *ps: [[ref.dom.rem(ref.add(*[
          Poly.lift(x[i, k, m]) * Poly.lift(y[j, k, m]) for i, j in ps]), q)
          for k in range(N)] for m, q in enumerate(qs)]
      return judge_ct(dom, it, ct, [f((0, 0)), f((0, 1), (1, 0)), f((1, 1))],
                      qs, f'tensor product over {qs}')
    explore(rep, it, 'tensor', F + 'mul.py:Mul.tensor_multiply', th1, judge1)

    for dt in ('uint64', 'uint32'):
      def th2(kern=kern, qs=qs, ps=ps, dt=dt, dnum=dnum):
        m = kern()
        x, dx = ciphertext(it, dom, 'x', qs, 3)
        per = -(-len(qs) // dnum)
        ev, a, b = evk_of(it, dom, -(-len(qs) // per), qs + ps, dt=dt,
                          cls='mul.EvaluationKeys')
        return it.call(it.getattr_(m, 'relinearize'), [x, ev], {}), dx, a, b

      def judge2(v, tk, qs=qs, ps=ps, dnum=dnum):
        ct, d, a, b = v
        s = switch(ref, limbs_of(d.data, 2), a, b, qs, ps, dnum)
        pv = math.prod(ps)
        want = []
        for el in (0, 1):
          e = ref.extend(s[el][len(qs):], ps, qs)
          x = limbs_of(d.data, el)
          want.append([[ref.comb([pow(pv, -1, q), -pow(pv, -1, q), 1],
                                 [s[el][m][k], e[m][k], x[m][k]], q)
                        for k in range(N)] for m, q in enumerate(qs)])
        return judge_ct(dom, it, ct, want, qs,
                        f'relinearization over {qs} + {ps}, {dnum} part(s)')
      explore(rep, it, 'relinearize', F + 'mul.py:Mul.relinearize', th2, judge2)


def rotate_checks(rep, tier):
  dom, it = fresh('blind_rotate')
  ref = Ref(dom, it)
  B = F + 'blind_rotate.py:BlindRotation.'

  def perm(x, qs, j):
    g = pow(5, -j, 2 * N)
    out = []
    for l, q in zip(x, qs):
      pts = ref.points(q)
      out.append([l[pts.index(pow(p, g, q))] for p in pts])
    return out

  def kern(qs, ps):
    b = it.call(it.get(P + 'blind_rotate.BlindRotation'), [], {})
    it.call(it.getattr_(b, 'precompute_constants'),
            [VList(list(qs)), VList(list(ps)), 1, 2, 2],
            {'num_rescales': len(ps)})
    return b

  def hkey(qs, ps, name):
    al = qs + ps
    k0, d0 = ciphertext(it, dom, name + '0', al)
    k1, d1 = ciphertext(it, dom, name + '1', al)
    return it.call(it.get(P + 'types.HMuxRotKey'), [k0, k1], {}), d0.data, d1.data

  def muxrot(x, k0, k1, j, qs, ps):
    """limb lists of the two elements."""
    r0, r1 = perm(x[0], qs, j), perm(x[1], qs, j)
    s = switch(ref, r1, [k0[1]], [k0[0]], qs, ps, 1)
    t = switch(ref, r0, [k1[1]], [k1[0]], qs, ps, 1)
    m = qs + ps
    w = [[[dom.rem(ref.add(u, v), q) for u, v in zip(a, b)]
          for a, b, q in zip(s[e], t[e], m)] for e in (0, 1)]
    for _ in ps:
      w = [ref.rescale(y, m) for y in w]
      m = m[:-1]
    return w

  for qs, ps in ((Q3[:2], P2[:1]), (Q3[:1], P2)):
    for j in (0, 1, 2, 5):
      def th(qs=qs, ps=ps, j=j):
        b = kern(qs, ps)
        k, d0, d1 = hkey(qs, ps, 'k')
        ct, d = ciphertext(it, dom, 'x', qs)
        r = it.call(it.getattr_(b, 'hmuxrot'), [], dict(
            ct=ct, hmrkey=k, j=j, p_limbs=arr(list(ps), 'uint32')))
        return r, d, d0, d1

      def judge(v, tk, qs=qs, ps=ps, j=j):
        ct, d, d0, d1 = v
        w = muxrot([limbs_of(d.data, 0), limbs_of(d.data, 1)], d0, d1, j, qs, ps)
        return judge_ct(dom, it, ct, w, qs, f'muxed rotation by {j} over {qs} + {ps}')
      explore(rep, it, 'hmuxrot', B + 'hmuxrot', th, judge)

  for qs, ps, nk, stride in ((Q3[:1], P2[:1], 1, 1), (Q3[:1], P2[:1], 2, 1),
                             (Q3[:1], P2[:1], 1, 2)):
    def th(qs=qs, ps=ps, nk=nk, stride=stride):
      b = kern(qs, ps)
      ks = [[hkey(qs, ps, f'k{i}{h}') for h in (0, 1)] for i in range(nk)]
      mk = it.call(it.get(P + 'types.MuxRotationKey'), [
          VList([(p[0][0], p[1][0]) for p in ks])], {})
      ct, d = ciphertext(it, dom, 'x', qs)
      r = it.call(it.getattr_(b, 'brot_mux'), [], dict(
          ct_in=ct, mux_key=mk, p_limbs=arr(list(ps), 'uint32'), stride=stride))
      return r, d, ks

    def judge(v, tk, qs=qs, ps=ps, nk=nk, stride=stride):
      ct, d, ks = v
      x = [limbs_of(d.data, 0), limbs_of(d.data, 1)]
      for i in range(nk):
        u = muxrot(x, ks[i][0][1], ks[i][0][2], 2**i * stride, qs, ps)
        w = muxrot(x, ks[i][1][1], ks[i][1][2], 0, qs, ps)
        x = [[[dom.rem(ref.add(s, t), q) for s, t in zip(a, b)]
              for a, b, q in zip(u[e], w[e], qs)] for e in (0, 1)]
      return judge_ct(dom, it, ct, x, qs, f'{nk}-bit blind rotation, stride {stride}')
    explore(rep, it, 'brot-mux', B + 'brot_mux', th, judge)

  for cnt in (1, 2, 3):
    def th(cnt=cnt):
      al = Q3[:2] + P2[:1]
      b = kern(al[:2], al[2:])
      cts = [ciphertext(it, dom, f'c{i}', al) for i in range(cnt)]
      pts = [sym_tower(dom, f'p{i}', (N,), al) for i in range(cnt)]
      pv = [it.call(it.get(P + 'types.Plaintext'), [p, arr(list(al), 'uint32')], {}) for p in pts]
      r = it.call(it.getattr_(b, 'brot_cm'), [VList([c[0] for c in cts]), VList(pv)], {})
      return r, [c[1].data for c in cts], [p.data for p in pts]

    def judge(v, tk, cnt=cnt):
      ct, cs, pts = v
      al = Q3[:2] + P2[:1]
      w = []
      for e in (0, 1):
        x = [[dom.rem(ref.add(*[ref.mul(cs[i][e, k, m], pts[i][k, m], q)
                                for i in range(cnt)]), q) for k in range(N)]
             for m, q in enumerate(al)]
        w.append(ref.rescale(x, al))
      return judge_ct(dom, it, ct, w, al[:2], f'sum of {cnt} masked rotations')
    explore(rep, it, 'brot-cm', B + 'brot_cm', th, judge)

  def th():
    b = kern(Q3[:2], P2[:1])
    cs = [ciphertext(it, dom, f'c{i}', Q3[:2])[0] for i in range(2)]
    p = it.call(it.get(P + 'types.Plaintext'), [
        sym_tower(dom, 'p', (N,), Q3[:2]), arr(Q3[:2], 'uint32')], {})
    return it.call(it.getattr_(b, 'brot_cm'), [VList(cs), VList([p])], {})
  explore(rep, it, 'brot-cm', B + 'brot_cm', th,
          lambda v, tk: 'accepts 2 ciphertexts with 1 plaintext',
          raises_ok=lambda e, tk: e.exc_type == 'ValueError')

  for qs, ps in ((Q3[:2], P2[:1]), (Q3[:2], P2), (Q3[:1], P2[:1])):
    for els in (1, 2):
      def th(qs=qs, ps=ps, els=els):
        al = qs + ps
        bc = it.call(it.get(P + 'basis_conversion.BasisConversionBarrett'), [], {})
        pr = VList([VList(list(range(len(qs)))), VList(list(range(len(qs), len(al))))])
        it.call(it.getattr_(bc, 'precompute_constants'), [VList(list(al)), VList([pr])], {})
        ns = []
        for m in (qs, ps):
          k = it.call(it.get(P + 'ntt.NTTBarrett'), [], {})
          it.call(it.getattr_(k, 'precompute_constants'), [VList(list(m)), 2, 2], {})
          ns.append(k)
        ct, d = ciphertext(it, dom, 'x', qs, els)
        return it.call(it.get(P + 'blind_rotate_utils.lift_ciphertext'), [
            ct, bc, 0, arr(list(ps), 'uint32'), ns[0], ns[1], 2, 2], {}), d

      def judge(v, tk, qs=qs, ps=ps, els=els):
        ct, d = v
        w = [limbs_of(d.data, e) + ref.extend(limbs_of(d.data, e), qs, ps)
             for e in range(els)]
        return judge_ct(dom, it, ct, w, qs + ps, f'lift from {qs} to {qs + ps}')
      explore(rep, it, 'lift', F + 'blind_rotate_utils.py:lift_ciphertext', th, judge)


def run(tier):
  rep = Report('C16', RULE, tier)
  for f in (rescale_checks, keyswitch_checks, conjugate_checks, automorphism_checks,
            mul_checks, rotate_checks):
    section(rep, f.__name__, f, rep, tier)
  return finish(rep)
