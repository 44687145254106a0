"""C10: point addition, doubling and negation are the group law in every backend."""
from ec import *

RULE = (
    'Abstract interpretation of each point routine over symbolic affine '
    'coordinates and scale factors with the field operations as ring '
    'operations modulo the base prime; the returned coordinates must satisfy '
    'the affine group law cross-multiplied with their denominators, as '
    'polynomial identities (a difference is reported only with a pair of '
    'curve points that separates the two sides).')
W = 'jaxite_ec/elliptic_curve.py::'


def S(n, i):
  return poly.sym(f'{n}{i}')


def xyzz(i):
  x, y, z = S('x', i), S('y', i), S('z', i)
  return [x * z**2, y * z**3, z**2, z**3]


def ext(i):
  x, y, z = S('x', i), S('y', i), S('z', i)
  return [x * z, y * z, z, x * y * z]


B = 2  # batch: element 0 uses points 1,2; element 1 uses points 3,4

# ranges (closed under the operations) of the coordinates per backend
RANGES = {
    'barrett': [(0, PRIME - 1)] * 4,
    'lazy': [(0, 2**16 * PRIME)] * 4,
    'rns': [(0, 360000 * PRIME), (0, 160000 * PRIME), (0, 52000 * PRIME),
            (0, 52000 * PRIME)],
    'rnstw': [(0, 52000 * PRIME)] * 4,
}
LIMBS = {'barrett': 24, 'lazy': 25, 'rns': 50, 'rnstw': 50}


def pack(dom, coords, back, n, first=False, flat=False):
  """coords: list over batch of 4 polys -> (4,B,n) or (B,4,n)."""
  rg = RANGES[back]
  els = {(j, b): El(coords[b][j], *rg[j]) for b in range(len(coords)) for j in range(4)}
  nb = len(coords)
  if first:
    return dom.enc((nb, 4), [els[j, b] for b in range(nb) for j in range(4)], n)
  return dom.enc((4, nb), [els[j, b] for j in range(4) for b in range(nb)], n)


def unpack(dom, v, back, nb, first=False):
  """-> list over batch of 4 El."""
  rns = back.startswith('rns')
  sh, es, n = dom.dec(v, rns)
  if n != LIMBS[back]:
    return f'{n} limbs per coordinate'
  want = (nb, 4) if first else (4, nb)
  if tuple(sh) != want:
    return f'result has shape {tuple(sh)}, expected {want}'
  o = sarr.obj(tuple(sh))
  for i, e in zip(np.ndindex(*sh), es):
    o[i] = e
  return [[o[b, j] if first else o[j, b] for j in range(4)] for b in range(nb)]


def diffs(kind, op, out, i, j):
  """polynomials that must vanish for output coords `out` of batch points i,j."""
  X, Y, Z, T = [e.v for e in out]
  x1, y1, z1 = S('x', i), S('y', i), S('z', i)
  if kind == 'xyzz':
    if op == 'add':
      x2, y2 = S('x', j), S('y', j)
      D, N = x2 - x1, y2 - y1
    else:
      D, N = 2 * y1, 3 * x1 * x1
      x2, y2 = x1, y1
    # lambda = N/D;  x3 = l^2 - x1 - x2; y3 = l (x1 - x3) - y1
    xn = N * N - (x1 + x2) * D * D          # x3 * D^2
    yn = N * (x1 * D * D - xn) - y1 * D**3  # y3 * D^3
    return [('x', X * D * D - Z * xn), ('y', Y * D**3 - T * yn),
            ('zz^3 = zzz^2', Z**3 - T * T)], [('zz', Z), ('zzz', T)]
  d = poly.const(TWIST_D)
  if op == 'neg':
    return [('x', X + x1 * Z), ('y', Y - y1 * Z), ('t', T * Z - X * Y)], [('z', Z)]
  if op == 'dbl':
    x2, y2 = x1, y1
  else:
    x2, y2 = S('x', j), S('y', j)
  t = d * x1 * x2 * y1 * y2
  one = poly.const(1)
  return [('x', X * (one + t) - Z * (x1 * y2 + x2 * y1)),
          ('y', Y * (one - t) - Z * (y1 * y2 + x1 * x2)),
          ('t', T * Z - X * Y)], [('z', Z)]


def judge_point(dom, kind, op, back, v, nb=B, first=False, ranges=False):
  outs = unpack(dom, v, back, nb, first)
  if isinstance(outs, str):
    return outs
  point = sw_point if kind == 'xyzz' else te_point
  for b, o in enumerate(outs):
    i, j = 2 * b + 1, 2 * b + 2
    zs, nz = diffs(kind, op, o, i, j)
    names = [i] if op in ('dbl', 'neg') else [i, j]
    for nm, p in zs:
      r, val = zero_on(p, range(1, 2 * nb + 1), point)
      if r is None:
        raise AnalysisError(f'coordinate {nm} not decided')
      if r is False:
        return (f'batch element {b}: coordinate {nm} is not that of the group law, e.g. '
                + ', '.join(f'{k}={val[k]}' for k in sorted(val) if k[-1] in map(str, names))[:300])
    for nm, p in nz:
      p = centre(p)
      if not p.t:
        return f'batch element {b}: {nm} is always zero'
      r, _ = zero_on(p, range(1, 2 * nb + 1), point)
      if r is True:
        return f'batch element {b}: {nm} vanishes on the curve'
  return None


def cases():
  L = []
  for back, nm in (('barrett', 'barret'), ('lazy', 'lazy')):
    for op in ('add', 'dbl'):
      f = {'add': 'padd', 'dbl': 'pdul'}[op]
      L.append((f'{f}_{nm}_xyzz', 'xyzz', op, back, 'split'))
      L.append((f'{f}_{"barrett" if back == "barrett" else nm}_xyzz_pack', 'xyzz', op, back, 'pack'))
      if back == 'barrett':
        L.append((f'{f}_barrett_xyzz_pack_batch_first', 'xyzz', op, back, 'first'))
  for op in ('add', 'dbl', 'neg'):
    f = {'add': 'padd', 'dbl': 'pdul', 'neg': 'pneg'}[op]
    L.append((f'{f}_lazy_twisted', 'tw', op, 'lazy', 'split'))
    L.append((f'{f}_lazy_twisted_pack', 'tw', op, 'lazy', 'pack'))
  L += [('padd_rns_xyzz_pack', 'xyzz', 'add', 'rns', 'pack'),
        ('pdul_rns_xyzz', 'xyzz', 'dbl', 'rns', 'split'),
        ('pdul_rns_xyzz_pack', 'xyzz', 'dbl', 'rns', 'pack'),
        ('padd_rns_twisted_pack', 'tw', 'add', 'rnstw', 'pack'),
        ('pdul_rns_twisted', 'tw', 'dbl', 'rnstw', 'split'),
        ('pdul_rns_twisted_pack', 'tw', 'dbl', 'rnstw', 'pack')]
  return L


def call_case(it, dom, fn, kind, op, back, form, nb=B, kw=None):
  co = xyzz if kind == 'xyzz' else ext
  n = LIMBS[back]
  f = it.get(E + fn)
  ops = []
  for k in range(2 if op == 'add' else 1):
    pts = [co(2 * b + 1 + k) for b in range(nb)]
    a = pack(dom, pts, back, n, form == 'first')
    if form == 'split':
      ops += [a.index((j,)) for j in range(4)]
    else:
      ops.append(a)
  return it.call(f, ops, dict(kw or {}))


def run(tier):
  rep = Report('C10', RULE, tier)
  dom = FD()
  it = Interp(Repo(), dom)
  for fn, kind, op, back, form in cases():
    for nb in ((1, 2) if tier == 'quick' else (1, 2, 3)):
      kws = [None]
      if form == 'first':
        kws = [{'transpose': t} for t in ((1, 0, 2), (0, 1, 2))]
      for kw in kws:
        def th():
          return call_case(it, dom, fn, kind, op, back, form, nb, kw)

        def judge(v, tk):
          first = bool(kw) and kw['transpose'] == (1, 0, 2)
          return judge_point(dom, kind, op, back, v, nb, first)
        explore(rep, it, 'group-law', W + fn, th, judge)

  def th():
    return it.call(it.get(E + 'rns_twist_zero'), [], {})

  def judge(v, tk):
    sh, es, n = dom.dec(v, True)
    got = [centre(e.v) for e in es]
    want = [0, 1, 1, 0]
    if tuple(sh) != (4,) or any(g != w for g, w in zip(got, want)):
      return f'the neutral element is {got}, expected (0 : 1 : 1 : 0)'
  explore(rep, it, 'neutral', W + 'rns_twist_zero', th, judge)
  reference(rep, tier)
  return finish(rep, it, 1)


WA = 'jaxite_ec/algorithm/elliptic_curve.py::'


def sw_add(P, Q):
  (x1, y1), (x2, y2) = P, Q
  if P == Q:
    l = 3 * x1 * x1 * pow(2 * y1, -1, PRIME)
  else:
    l = (y2 - y1) * pow(x2 - x1, -1, PRIME)
  x3 = (l * l - x1 - x2) % PRIME
  return x3, (l * (x1 - x3) - y1) % PRIME


def te_add(P, Q):
  (x1, y1), (x2, y2) = P, Q
  t = TWIST_D * x1 * x2 * y1 * y2
  return ((x1 * y2 + x2 * y1) * pow(1 + t, -1, PRIME) % PRIME,
          (y1 * y2 + x1 * x2) * pow(1 - t, -1, PRIME) % PRIME)


def reference(rep, tier):
  """The classes in algorithm/: same law, decided by polynomial identity
  testing at curve points (degrees are tiny against the 377-bit field)."""
  dom = RD()
  it = Interp(Repo(), dom)
  co = {
      'ECCSWeierstrassAffine': lambda i: [S('x', i), S('y', i)],
      'ECCSWeierstrassProjective': lambda i: [S('x', i) * S('z', i), S('y', i) * S('z', i), S('z', i)],
      'ECCSWeierstrassXYZZ': xyzz,
      'ECCSTwistedEdwardsExtended': ext,
  }
  aff = {
      'ECCSWeierstrassAffine': lambda c: (c[0], c[1]),
      'ECCSWeierstrassProjective': lambda c: (c[0] * pow(c[2], -1, PRIME) % PRIME, c[1] * pow(c[2], -1, PRIME) % PRIME),
      'ECCSWeierstrassXYZZ': lambda c: (c[0] * pow(c[2], -1, PRIME) % PRIME, c[1] * pow(c[3], -1, PRIME) % PRIME),
      'ECCSTwistedEdwardsExtended': lambda c: (c[0] * pow(c[2], -1, PRIME) % PRIME, c[1] * pow(c[2], -1, PRIME) % PRIME),
  }

  def system(cls):
    cfg = it.get(AC + ('config_BLS12_377_t' if 'Twisted' in cls else 'config_BLS12_377'))
    return it.call(it.get(AE + cls), [cfg], {})

  def ff(sys_, p):
    return dom.new(it.getattr_(sys_, 'ff_zero'), p)

  def point(sys_, cls, i, **sub):
    cs = co[cls](i)
    if sub.get('z1'):
      z = next(iter(S('z', i).atoms()))
      cs = [c.subst({z: poly.const(1)}) for c in cs]
    kw = {'twist': False} if 'Twisted' in cls else {}
    return it.call(it.getattr_(sys_, 'generate_point'), [VList([ff(sys_, c) for c in cs])], kw)

  def coords(pt):
    c = it.getattr_(pt, 'coordinates')
    if c is None:
      return None
    return [dom.val(e) for e in it.iterate(c)]

  def at_points(cls, fn, k=2):
    tw = 'Twisted' in cls
    rnd = random.Random(17)
    for _ in range(3):
      pts = [(te_point if tw else sw_point)(rnd) for _ in range(k)]
      val = {}
      for i, (x, y) in enumerate(pts, 1):
        val.update({f'x{i}': x, f'y{i}': y, f'z{i}': rnd.randrange(2, PRIME)})
      d = fn(pts, val)
      if d:
        return d
    return None

  def ev(cs, val):
    try:
      return [evr(c, val) for c in cs]
    except NoEval:
      raise AnalysisError('not decided')

  for cls in co:
    tw = 'Twisted' in cls
    add = te_add if tw else sw_add
    todo = [('add', {}, {}), ('dbl', {}, None), ('shift', {}, None), ('self', {}, None),
            ('zero-l', {}, None), ('zero-r', {}, None)]
    if cls in ('ECCSWeierstrassProjective',):
      todo += [('add', {'z1': 1}, {}), ('add', {}, {'z1': 1})]
    if cls != 'ECCSWeierstrassAffine':
      todo.append(('affine', {}, None))
    for what, k1, k2 in todo:
      def th():
        s = system(cls)
        p = point(s, cls, 1, **k1)
        if what == 'add':
          q = point(s, cls, 2, **k2)
          r = it.binop('+', p, q)
        elif what == 'self':
          r = it.binop('+', p, point(s, cls, 1, **k1))
        elif what == 'dbl':
          r = it.call(it.getattr_(s, 'double_general'), [p], {})
        elif what == 'shift':
          r = [it.binop('<<', p, n) for n in (0, 1, 3)]
        elif what in ('zero-l', 'zero-r'):
          kw = {'twist': False} if tw else {}
          z = it.call(it.getattr_(s, 'generate_point'), [], {'zero': True, 'coordinates': None, **kw})
          r = it.binop('+', z, p) if what == 'zero-l' else it.binop('+', p, z)
        else:
          r = it.call(it.getattr_(p, 'convert_to_affine'), [], {})
        return [coords(x) for x in r] if what == 'shift' else coords(r)

      def judge(v, tk):
        def one(pts, val):
          val = dict(val)
          if k1.get('z1'):
            val['z1'] = 1
          if k2 and k2.get('z1'):
            val['z2'] = 1
          P, Q = pts
          if what == 'shift':
            for n, c in zip((0, 1, 3), v):
              R = P
              for _ in range(n):
                R = add(R, R)
              if aff[cls](ev(c, val)) != R:
                return f'{cls}: P << {n} is not 2^{n} P'
            return None
          if v is None:
            return f'{cls}: {what} gives the point at infinity'
          got = ev(v, val)
          if what == 'affine':
            if tw:
              # back on the Weierstrass curve, and twisting again returns it
              x, y = got[:2]
              if (y * y - x**3 - 1) % PRIME:
                return f'{cls}.convert_to_affine leaves the curve'
              return None
            return None if tuple(got[:2]) == P else f'{cls}.convert_to_affine changes the point'
          R = {'add': lambda: add(P, Q), 'dbl': lambda: add(P, P), 'self': lambda: add(P, P)}.get(
              what, lambda: P)()
          n = len(co[cls](1))
          if cls != 'ECCSWeierstrassAffine' and len(got) != n:
            return f'{cls}: {what} gives {len(got)} coordinates'
          if aff[cls](got) != R:
            return f'{cls}: {what} is not the group law, e.g. at {str(pts)[:200]}'
          if cls == 'ECCSWeierstrassXYZZ' and pow(got[2], 3, PRIME) != got[3] * got[3] % PRIME:
            return f'{cls}: {what} breaks zz^3 = zzz^2'
          if tw and got[3] * got[2] % PRIME != got[0] * got[1] % PRIME:
            return f'{cls}: {what} breaks t z = x y'
          return None
        return at_points(cls, one)
      explore(rep, it, 'reference', WA + cls, th, judge)

  # twist and untwist are inverse maps between the two curves
  cls = 'ECCSTwistedEdwardsExtended'

  def th():
    s = system(cls)
    p = VList([ff(s, S('x', 1)), ff(s, S('y', 1))])
    t = it.call(it.getattr_(s, 'twist'), [p], {})
    u = it.call(it.getattr_(s, 'untwist'), [t], {})
    ti = it.call(it.getattr_(s, 'twist_int_coordinates'), [VList([S('x', 1), S('y', 1)])], {})
    return [[dom.val(e) for e in it.iterate(c)] for c in (t, u)] + [
        [dom.num(e) for e in it.iterate(ti)]]

  def judge(v, tk):
    rnd = random.Random(3)
    for _ in range(3):
      (x, y), (x2, y2) = sw_point(rnd), sw_point(rnd)
      val = {'x1': x, 'y1': y}
      a, b = ev(v[0], val)
      if (-a * a + b * b - 1 - TWIST_D * a * a * b * b) % PRIME:
        return 'twist leaves the twisted Edwards curve'
      if tuple(ev(v[1], val)) != (x, y):
        return 'untwist(twist(P)) is not P'
      g = ev(v[2], val)
      if g != [a, b, 1, a * b % PRIME]:
        return 'twist_int_coordinates differs from (xt, yt, 1, xt*yt)'
      # homomorphism
      a2, b2 = ev(v[0], {'x1': x2, 'y1': y2})
      xs, ys = sw_add((x, y), (x2, y2))
      if te_add((a, b), (a2, b2)) != tuple(ev(v[0], {'x1': xs, 'y1': ys})):
        return 'twist is not a group homomorphism'
    return None
  explore(rep, it, 'twist', WA + cls + '.twist', th, judge)
  rep.functions |= it.inlined
