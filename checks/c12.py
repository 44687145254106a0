"""C12: every Pippenger variant computes the sum of scalar times point."""
from ec import *
import moddom

RULE = (
    'Abstract interpretation of the Pippenger classes over the free abelian '
    'group on the input points: a point array carries (group element, '
    'representation), the packed point routines are replaced by the group '
    'law with its exceptional cases (a blank XYZZ operand, equal XYZZ '
    'operands and mixed coordinates give an unusable value; decided by C10), '
    'and the final value must be the formal sum of s_i P_i.  The scalars are '
    'chosen so that the windows run through every combination of digits of '
    'the points, and cover blank windows, the largest scalars and repeated '
    'initialisation.')
L = 3
ORDER = 8444461749428370424248824938781546531375899335154063827935233455917409239041
PM = 'jaxite.jaxite_ec.pippenger'
W = 'jaxite_ec/'


class Grp:
  """Interned representations: key -> (vector or None, infinite?)."""

  def __init__(self, n):
    self.n = n
    self.reps = []
    self.index = {}

  def new(self, key, vec, inf):
    if key not in self.index:
      self.index[key] = len(self.reps)
      self.reps.append((vec, inf))
    return self.index[key]


class PD(Domain):
  """Point packs of shape (4, batch, L); integers as limbs."""

  def __init__(self):
    super().__init__()
    self.ranges = {}
    self.g = None
    s = self.summaries
    s[U + 'int_list_to_array'] = self.s_ints
    s[U + 'int_list_to_array_rns'] = self.s_ints
    for n in ('construct_lazy_matrix', 'construct_rns_matrix'):
      s[U + n] = lambda *a: Unk('matrix')
    for b in ('lazy', 'rns'):
      s[E + f'padd_{b}_xyzz_pack'] = self.mk(self.xadd, 2, 'x')
      s[E + f'pdul_{b}_xyzz_pack'] = self.mk(self.xdbl, 1, 'x')
      s[E + f'padd_{b}_twisted_pack'] = self.mk(self.tadd, 2, 't')
      s[E + f'pdul_{b}_twisted_pack'] = self.mk(lambda a: self.tadd(a, a), 1, 't')
      s[E + f'pneg_{b}_twisted_pack'] = self.mk(self.tneg, 1, 't')
    self.known = set(s)
    o = self.globals_override
    for n in ('U16_EXT_CHUNK_NUM', 'NUM_MODULI'):
      o[U + n] = L

  def summary(self, q):
    r = self.summaries.get(q)
    if r is None and (q.startswith(E) or q.startswith(F)):
      def bad(*a):
        raise AnalysisError(f'{q} is not a known point routine')
      return bad
    return r

  def cell_cast(self, c, frm, to):
    if isinstance(c, int) and not isinstance(c, bool):
      t = sarr.canon(to) if to is not None else None
      if t in ('uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64'):
        return moddom.wrap(c, t)
    return super().cell_cast(c, frm, to)

  # integers -> limbs
  def s_ints(self, it, b, node, mod):
    vs = [v for v in it.iterate(list(b.values())[0])]
    out = []
    for v in vs:
      if not isinstance(v, int):
        raise AnalysisError('coordinate is not an integer')
      out.append([v & 0xffff, v >> 16 & 0xffff, v >> 32 & 0xffff])
    return arr(out, 'uint16')

  # (4,L) ints -> (vec, inf, rep key)
  def decode(self, c, kind):
    c = tuple(tuple(x) for x in c)
    z, one = (0,) * L, (1,) + (0,) * (L - 1)
    small = all(x[1:] == (0,) * (L - 1) and x[0] < 60000 for x in c)
    if kind == 'x':
      if c[2] == z and c[3] == z:
        return (tuple([0] * self.g.n), True, ('raw', c))
      if small and c[2] == one and c[3] == one:
        i = c[0][0] - 50000
        if 0 <= i < 2 * self.g.n and i % 2 == 0 and c[1][0] == c[0][0] + 1:
          return (self.base(i // 2), False, ('raw', c))
    else:
      if c == (z, one, one, z):
        return (tuple([0] * self.g.n), True, ('raw', c))
      if small and c[2] == one:
        i = c[0][0] - 50000
        if 0 <= i < 2 * self.g.n and i % 2 == 0 and c[1][0] == c[0][0] + 1 and c[3][0] == 55000 + i:
          return (self.base(i // 2), False, ('raw', c))
    tags = [x[0] - 60000 for x in c]
    ks = {x[1] + (x[2] << 16) for x in c}
    if tags == [0, 1, 2, 3] and len(ks) == 1:
      k = ks.pop()
      if k < len(self.g.reps):
        vec, inf = self.g.reps[k]
        return (vec, inf, ('id', k))
    return (None, False, ('raw', c))

  def base(self, i):
    return tuple(int(j == i) for j in range(self.g.n))

  def emit(self, key, vec, inf=False, kind='t'):
    k = self.g.new(key, vec, inf)
    c = [[60000 + j, k & 0xffff, k >> 16] for j in range(4)]
    if kind == 'x' and inf:
      c[2] = [0] * L
      c[3] = [0] * L
    return c

  # group law with exceptional cases
  def xadd(self, a, b):
    key = ('a', a[2], b[2])
    if a[1] or b[1]:
      return self.emit(key, None, True, 'x')  # the product of the zz is zero
    if a[0] is None or b[0] is None:
      return self.emit(key, None)
    if a[0] == b[0] or a[0] == tuple(-x for x in b[0]):
      # equal x: P = 0, hence zz = 0 modulo the prime
      return self.emit(key, None)
    return self.emit(key, tuple(x + y for x, y in zip(a[0], b[0])))

  def xdbl(self, a):
    key = ('d', a[2])
    if a[1]:
      return self.emit(key, None, True, 'x')
    return self.emit(key, None if a[0] is None else tuple(2 * x for x in a[0]))

  def tadd(self, a, b):
    key = ('a', a[2], b[2])
    if a[0] is None or b[0] is None:
      return self.emit(key, None)
    v = tuple(x + y for x, y in zip(a[0], b[0]))
    return self.emit(key, v)

  def tneg(self, a):
    return self.emit(('n', a[2]), None if a[0] is None else tuple(-x for x in a[0]))

  def mk(self, f, n, kind):
    def go(it, b, node, mod):
      vs = [v for v in b.values()][:n]
      packs = []
      for v in vs:
        v = sarr.as_arr(v)
        if v.ndim != 3 or v.shape[0] != 4 or v.shape[2] != L:
          raise AbsRaise('TypeError', (f'point pack of shape {v.shape}',))
        packs.append(v)
      nb = max(v.shape[1] for v in packs)
      out = sarr.obj((4, nb, L))
      for v in packs:
        if v.shape[1] not in (1, nb):
          raise AbsRaise('TypeError', ('incompatible batches',))
      for i in range(nb):
        es = []
        for v in packs:
          j = i if v.shape[1] == nb else 0
          c = [[sarr.concrete_cell(v.data[k, j, l]) for l in range(L)] for k in range(4)]
          if any(not isinstance(x, int) for r in c for x in r):
            raise AnalysisError('a point coordinate is not determined')
          es.append(self.decode(c, kind))
        r = f(*es)
        for k in range(4):
          for l in range(L):
            out[k, i, l] = r[k][l]
      return SArr((4, nb, L), out, 'uint16', 'jnp')
    return go


def digits_scalars(n, c, top, start):
  """Scalars whose windows run through digit tuples number start, start+1..."""
  base = 2**c
  nw = -(-254 // c)
  sc = [0] * n
  for w in range(nw):
    t = (start + w) % base**n
    for i in range(n):
      d = t // base**i % base
      if (w + 1) * c > 253 or w == nw - 1:
        d = 0
      sc[i] |= d << (w * c)
  return sc


def cases(tier):
  """(slice length, number of points, scalars)"""
  rnd = random.Random(7)
  out = []
  c = 4
  for st in range(0, 256, 62):
    out.append((c, 2, digits_scalars(2, c, 1, st)))
  for st in (17, 1000, 2222) if tier == 'quick' else range(0, 4096, 62):
    out.append((c, 4, digits_scalars(3, c, 1, st) + [rnd.randrange(ORDER)]))
  for c in (2, 3, 5) if tier == 'quick' else (1, 2, 3, 5, 6, 7, 8):
    out.append((c, 2, digits_scalars(2, c, 1, 0)))
    out.append((c, 2, [ORDER - 1, ORDER - 2]))
  # blank windows at either end and in the middle, zero scalars, extremes
  for sc in ([5, 3], [0, 7], [1 << 252, 1], [16, 768], [ORDER - 1, 1], [0, 1 << 251],
             [2**253 - 1 - 2**251, 0x8888], [1, 0], [15 << 248, 15 << 248], [0, 0]):
    out.append((4, 2, sc))
  out.append((4, 1, [0xf0f]))
  return out


FAMS = [
    # module, class, kind, signed
    (PM, 'MSMPippenger', 'x', False),
    (PM + '_rns', 'MSMPippenger', 'x', False),
    (PM, 'MSMPippengerTwisted', 't', False),
    (PM + '_rns', 'MSMPippengerTwisted', 't', False),
    (PM, 'MSMPippengerTwistedSigned', 't', True),
]


def run(tier):
  rep = Report('C12', RULE, tier)
  dom = PD()
  it = Interp(Repo(), dom)

  for m, cls, kind, signed in FAMS:
    where = W + m.rsplit('.', 1)[1] + '.py::' + cls
    try:
      C = it.get(m + '.' + cls)
    except AnalysisError as e:
      rep.undecided('msm', where, e)
      continue
    for ci, (c, n, sc) in enumerate(cases(tier)):
      variants = ['scan']
      if kind == 'x' and (ci in (0, 3) or ci >= 11):
        variants += ['loop'] + (['flat', 'flatscan'] if ci in (0, 14) else [])
      pars = [1]
      if kind == 't':
        pars = [1, 2, 4] if n == 4 else [1, 2] if n == 2 else [1]
      for var in variants:
        for par in pars:
          msm_case(rep, it, dom, m, C, where, kind, signed, c, n, sc, var, par, ci)
  return finish(rep, it)


def pts_of(n, kind):
  out = []
  for i in range(n):
    x = 50000 + 2 * i
    out.append(VList([x, x + 1] if kind == 'x' else [x, x + 1, 1, 55000 + 2 * i]))
  return VList(out)


def msm_case(rep, it, dom, m, C, where, kind, signed, c, n, sc, var, par, ci):
  dom.g = Grp(n)

  def part(name, **kw):
    f = it.get(m + '.' + name)
    return Native('partial', lambda i, a, k, nd: i.call(f, list(a), {**k, **kw}))

  def once(o, scal, pts):
    A = lambda nm: it.getattr_(o, nm)
    it.call(A('initialize'), [VList(list(scal)), pts], {})
    nb = A('bucket_num_per_window')
    if kind == 'x':
      if var.startswith('flat'):
        nw = A('window_num')
        f = 'bucket_accumulation_scan_algorithm' if var == 'flatscan' else 'bucket_accumulation_algorithm'
        b = it.call(it.getattr_(A('all_buckets'), 'reshape'), [4, nw * nb, L], {})
        z = it.call(it.getattr_(it.getitem(A('zero_states_list'), slice(0, n, None)), 'reshape'),
                    [n, nw * nb], {})
        r = it.call(it.get(m + '.' + f), [b, A('all_points'), A('selection_list'), z, n], {})
        o.attrs['all_buckets'] = it.call(it.getattr_(r, 'reshape'), [4, nw, nb, L], {})
      else:
        f = 'bucket_accumulation_index_scan_algorithm' if var == 'scan' else 'bucket_accumulation_index_algorithm'
        it.call(A('bucket_accumulation'), [part(f, msm_length=n)], {})
      scan = var != 'loop'
      it.call(A('bucket_reduction'), [part(
          'bucket_reduction_scan_algorithm' if scan else 'bucket_reduction_algorithm',
          bucket_num_in_window=nb)], {})
      return it.call(A('window_merge'), [part(
          'window_merge_scan_algorithm' if scan else 'window_merge_algorithm', slice_length=c)], {})
    f = ('bucket_accumulation_signed_index_scan_parallel_algorithm_twisted' if signed
         else 'bucket_accumulation_index_scan_parallel_algorithm_twisted')
    it.call(A('bucket_accumulation'), [part(f, msm_length=n // par)], {})
    it.call(A('bucket_reduction'), [part('bucket_reduction_scan_algorithm_twisted',
                                         bucket_num_in_window=nb)], {})
    it.call(A('batch_window_summation'), [part('batch_window_summation_algorithm_twisted',
                                               point_parallel=par)], {})
    return it.call(A('window_merge'), [part('window_merge_scan_algorithm_twisted',
                                            slice_length=c)], {})

  again = ci in (0, 8)

  def th():
    dom.g = Grp(n)
    o = it.call(C, [c] if kind == 'x' else [c, par], {})
    if again:
      once(o, list(reversed(sc)) if n > 1 else [3], pts_of(n, kind))
    return once(o, sc, pts_of(n, kind))

  def judge(v, tk):
    v = sarr.as_arr(v)
    d = f'slice length {c}, parallel {par}, {var}, scalars {[hex(s) for s in sc]}'
    if tuple(v.shape) != (4, L):
      return f'{d}: result has shape {v.shape}'
    cc = [[sarr.concrete_cell(v.data[k, l]) for l in range(L)] for k in range(4)]
    if any(not isinstance(x, int) for r in cc for x in r):
      raise AnalysisError('result not determined')
    vec, inf, _ = dom.decode(cc, kind)
    if inf:
      vec = tuple([0] * n)
    if vec == tuple(sc):
      return None
    if vec is None:
      return f'{d}: the result is not a usable point (exceptional addition or mixed coordinates)'
    return f'{d}: the result is the combination {[hex(x) for x in vec]}'

  def ok(e, tk):
    # the signed recoding may refuse scalars whose last digit would carry
    return signed and e.exc_type == 'AssertionError' and refusable(c, sc)
  explore(rep, it, 'msm', where, th, judge, ok)


def refusable(c, sc):
  """The signed digits of some scalar need one window more than there are."""
  nw = -(-254 // c)
  for s in sc:
    cy = 0
    for w in range(nw):
      cy = int((s >> (w * c) & (2**c - 1)) + cy >= 2**(c - 1))
    if cy:
      return True
  return False

