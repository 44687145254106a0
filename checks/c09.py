"""C09: the modular kernels of jaxite_ckks return canonical residues."""
from ckks import *
from common import *
from core import Interp, Repo
from report import Report

RULE = (
    'Abstract interpretation of the CKKS kernels over exact integer '
    'expressions: each input residue is a symbol with its range, shifts, masks '
    'and byte splits become canonical-residue atoms with exact rational '
    'identities, and fixed-width wrap-around is applied where a value is '
    'observed.  A result is accepted when its residue polynomial equals the '
    'specification modulo q and its proven range lies in [0, q).  The modules '
    'are loaded one at a time with 64-bit mode off, as a program importing '
    'only that module would.')
P = 'jaxite.jaxite_ckks.'
F = 'jaxite/jaxite_ckks/'

# NTT-friendly and awkward primes of 14 to 31 bits
PRIMES = [998244353, 2013265921, 469762049, 167772161, 754974721, 1811939329,
          2113929217, 23068673, 7340033, 786433, 65537, 12289, 2147483647,
          1824726041, 1937524009, 1946388001, 1685332897, 1962377377,
          1073741789, 1073741827, 536870909, 268435399, 2147483629]


def is_prime(n):
  if n < 4:
    return n > 1
  if n % 2 == 0:
    return False
  d, s = n - 1, 0
  while d % 2 == 0:
    d, s = d // 2, s + 1
  for a in (2, 3, 5, 7, 11, 13):
    if a % n == 0:
      continue
    x = pow(a, d, n)
    if x in (1, n - 1):
      continue
    for _ in range(s - 1):
      x = x * x % n
      if x == n - 1:
        break
    else:
      return False
  return True


def fresh(*mods):
  dom = CkksDomain()
  it = Interp(Repo(), dom)
  dom.importing(it, *[P + m for m in mods])
  return dom, it


def cells(v, shape, dt=None):
  v = sarr.as_arr(v)
  if tuple(v.shape) != tuple(shape):
    return v, f'result has shape {tuple(v.shape)} instead of {tuple(shape)}'
  if dt is not None and v.dtype != dt:
    return v, f'result has dtype {v.dtype} instead of {dt}'
  return v, None


def hard(q, name):
  """inputs on which an off-by-one quotient shows: around multiples of q."""
  out = []
  top = q * q - 1
  for z in (top, top - q, top // 2 // q * q, q, q - 1, 2 * q, 2 * q - 1,
            (1 << 32) - 1, 1 << 32):
    for e in (-1, 0, 1):
      if 0 <= z + e <= top:
        out.append({name: z + e})
  return out


def barrett_checks(rep, tier):
  dom, it = fresh('barrett')
  where = F + 'barrett.py:modular_reduction'
  pre = it.get(P + 'barrett.precompute_barrett_constants')
  red = it.get(P + 'barrett.modular_reduction')
  mods = list(PRIMES)
  rnd = rnd_.Random(5)
  for bits in range(13, 32):
    for _ in range(2 if tier == 'quick' else 8):
      n = rnd.randrange(1 << (bits - 1), 1 << bits) | 1
      while not is_prime(n) or n.bit_length() != bits:
        n = rnd.randrange(1 << (bits - 1), 1 << bits) | 1
      mods.append(n)
  for q in mods:
    def th(q=q):
      z = dom.sym('z', 0, q * q - 1)
      c = it.call(pre, [VList([q])], {})
      return it.call(red, [arr([z], 'uint64'), c], {})

    def judge(v, tk, q=q):
      v, e = cells(v, (1,), 'uint32')
      if e:
        return e
      d = congruent(dom, v.data[0], dom.sym('z', 0, q * q - 1), q, 'uint32',
                    extra=hard(q, 'z'))
      return d and f'z below {q}^2 reduces to {d}'
    explore(rep, it, 'barrett', where, th, judge)
  # residue towers, one modulus per column, and a single integer modulus
  for mset in ([998244353, 12289, 2147483647], [65537, 1824726041]):
    def th(mset=mset):
      d = sarr.obj((2, len(mset)))
      for i in range(2):
        for j, q in enumerate(mset):
          d[i, j] = dom.sym(f'z{i}{j}', 0, q * q - 1)
      c = it.call(pre, [VList(list(mset))], {})
      return it.call(red, [SArr(d.shape, d, 'uint64'), c], {})

    def judge(v, tk, mset=mset):
      v, e = cells(v, (2, len(mset)), 'uint32')
      if e:
        return e
      for i in range(2):
        for j, q in enumerate(mset):
          n = f'z{i}{j}'
          d = congruent(dom, v.data[i, j], dom.sym(n, 0, q * q - 1), q,
                        'uint32', extra=hard(q, n))
          if d:
            return f'tower {mset}: column {j} reduces to {d}'
    explore(rep, it, 'barrett', where, th, judge)
  for q in (2013265921, 786433):
    def th(q=q):
      c = it.call(pre, [q], {})
      return it.call(red, [arr([dom.sym('z', 0, 2 * q)], 'uint32'), c], {})

    def judge(v, tk, q=q):
      v, e = cells(v, (1,), 'uint32')
      return e or congruent(dom, v.data[0], dom.sym('z', 0, 2 * q), q, 'uint32')
    explore(rep, it, 'barrett', where, th, judge)
  # slices of the constants belong to the sliced moduli
  mset = [998244353, 12289, 2147483647, 469762049]
  for sl in (slice(0, 2), slice(1, 4), slice(2, 3), slice(None, None, 2)):
    want = mset[sl]

    def th(sl=sl, want=want):
      c = it.call(pre, [VList(list(mset))], {})
      s = it.call(it.getattr_(c, 'slice'), [sl], {})
      d = sarr.obj((len(want),))
      for j, q in enumerate(want):
        d[j] = dom.sym(f'z{j}', 0, q * q - 1)
      return it.call(red, [SArr(d.shape, d, 'uint64'), s], {})

    def judge(v, tk, want=want):
      v, e = cells(v, (len(want),), 'uint32')
      if e:
        return e
      for j, q in enumerate(want):
        d = congruent(dom, v.data[j], dom.sym(f'z{j}', 0, q * q - 1), q,
                      'uint32', extra=hard(q, f'z{j}'))
        if d:
          return f'constants sliced to {want}: {d}'
    explore(rep, it, 'slice', F + 'barrett.py:BarrettConstants.slice', th, judge)
  return it


def add_checks(rep):
  dom, it = fresh('add')
  mset = [998244353, 2147483647, 12289]
  M = len(mset)
  mb = it.get(P + 'add.AddModularBarrett')
  ms = it.get(P + 'add.AddModularSubtract')
  sm = it.get(P + 'add.AddSimple')
  pre = it.get(P + 'barrett.precompute_barrett_constants')
  shapes = [(2,), (2, 2), ()]
  for name, shape in [(n, s) for n in ('barrett', 'sub', 'wide', 'simple')
                      for s in shapes]:
    wide = name == 'wide'

    def th(name=name, shape=shape, wide=wide):
      hi = (lambda q: (q * q - 1) // 2) if wide else None
      dt = 'uint64' if wide else 'uint32'
      a = sym_tower(dom, 'a', shape, mset, dt, hi)
      b = sym_tower(dom, 'b', shape, mset, dt, hi)
      if name in ('barrett', 'wide'):
        k = it.call(mb, [it.call(pre, [VList(list(mset))], {})], {})
      elif name == 'sub':
        k = it.call(ms, [VList(list(mset))], {})
      else:
        k = it.call(sm, [], {})
      return it.call(it.getattr_(k, 'add'), [a, b], {}), a, b

    def judge(v, tk, name=name, shape=shape, wide=wide):
      r, a, b = v
      r, e = cells(r, tuple(shape) + (M,))
      if e:
        return e
      for idx in np.ndindex(*r.data.shape):
        q = mset[idx[-1]]
        want = dom.cell_binop('+', a.data[idx], b.data[idx])
        if name == 'simple':
          d = equal(dom, r.data[idx], want, r.dtype)
        else:
          nm = [f'{x}_' + '_'.join(map(str, idx)) for x in 'ab']
          ex = [{nm[0]: (q * q - 1) // 2, nm[1]: (q * q - 1) // 2 - k}
                for k in range(4)] if wide else [
                    {nm[0]: q - 1, nm[1]: k} for k in (0, 1, 2, q - 1)]
          d = congruent(dom, r.data[idx], want, q, r.dtype, extra=ex)
        if d:
          return f'{name} addition, modulus {q}: {d}'
    cl = {'barrett': 'AddModularBarrett', 'wide': 'AddModularBarrett',
          'sub': 'AddModularSubtract', 'simple': 'AddSimple'}[name]
    explore(rep, it, 'add', f'{F}add.py:{cl}.add', th, judge)
  return it


def mul_checks(rep):
  dom, it = fresh('mul')
  mset = [998244353, 2147483647, 12289]
  mm = P + 'mul.'
  pre = it.get(P + 'barrett.precompute_barrett_constants')
  CT, PT = it.get(P + 'types.Ciphertext'), it.get(P + 'types.Plaintext')
  for name, dts in (('MulPlaintextCiphertextBarrett', ('uint32', 'uint32')),
                    ('MulPlaintextCiphertextBarrett', ('uint64', 'uint32')),
                    ('MulPlaintextCiphertextSimple', ('uint64', 'uint64'))):
    where = f'{F}mul.py:{name}.mul'

    def ops(dts=dts, ptm=mset):
      a = sym_tower(dom, 'a', (2, 2), mset, dts[0])
      b = sym_tower(dom, 'b', (2,), mset, dts[1])
      m = arr(list(mset), 'uint32')
      return (a, b, it.call(CT, [a, m], {}),
              it.call(PT, [b, arr(list(ptm), 'uint32')], {}))

    def kern(name=name):
      c = it.get(mm + name)
      return it.call(c, [it.call(pre, [VList(list(mset))], {})]
                     if 'Barrett' in name else [], {})

    def th():
      a, b, ct, pt = ops()
      return it.call(it.getattr_(kern(), 'mul'), [ct, pt], {}), a, b

    def judge(v, tk, name=name):
      o, a, b = v
      m = sarr.as_arr(it.getattr_(o, 'moduli'))
      if [sarr.concrete_cell(x) for x in m.data.flat] != mset:
        return 'the product carries other moduli than its operands'
      r, e = cells(it.getattr_(o, 'data'), (2, 2, 3))
      if e:
        return e
      for idx in np.ndindex(*r.data.shape):
        q = mset[idx[-1]]
        want = dom.cell_binop('*', a.data[idx], b.data[idx[1:]])
        if name.endswith('Simple'):
          d = equal(dom, r.data[idx], want, r.dtype)
        else:
          d = congruent(dom, r.data[idx], want, q, r.dtype)
        if d:
          return f'plaintext product, modulus {q}: {d}'
    explore(rep, it, 'mul-pt', where, th, judge)

    for other in ([998244353, 2147483647, 65537], [2147483647, 998244353, 12289]):
      def bad(other=other):
        a, b, ct, pt = ops(ptm=other)
        return it.call(it.getattr_(kern(), 'mul'), [ct, pt], {})
      explore(rep, it, 'mul-pt-mismatch', where, bad,
              lambda v, tk, other=other: f'a plaintext over {other} multiplies '
              f'a ciphertext over {mset} without an error',
              lambda e, tk: e.exc_type == 'ValueError')
  # degree-two tensor product
  where = F + 'mul.py:Mul.tensor_multiply'
  big = [2147483647, 1824726041, 65537]

  def th():
    o = it.call(it.get(mm + 'Mul'), [], {})
    it.setattr_(o, 'is_initialized', True, None, None)
    xs = [sym_tower(dom, n, (2, 2), big) for n in 'ab']
    m = arr(list(big), 'uint32')
    cts = [it.call(CT, [x, m], {}) for x in xs]
    return it.call(it.getattr_(o, 'tensor_multiply'), cts, {}), xs

  def judge(v, tk):
    o, (a, b) = v
    m = sarr.as_arr(it.getattr_(o, 'moduli'))
    if [sarr.concrete_cell(x) for x in m.data.flat] != big:
      return 'the product carries other moduli than its operands'
    r, e = cells(it.getattr_(o, 'data'), (3, 2, 3))
    if e:
      return e
    B = dom.cell_binop
    for n in range(2):
      for j, q in enumerate(big):
        w = [B('*', a.data[0, n, j], b.data[0, n, j]),
             B('+', B('*', a.data[0, n, j], b.data[1, n, j]),
               B('*', a.data[1, n, j], b.data[0, n, j])),
             B('*', a.data[1, n, j], b.data[1, n, j])]
        for k in range(3):
          d = congruent(dom, r.data[k, n, j], w[k], q, r.dtype)
          if d:
            return f'tensor product component {k}, modulus {q}: {d}'
  explore(rep, it, 'tensor', where, th, judge)
  return it


CONV = [
    ([998244353, 469762049, 167772161], [([0], [1, 2]), ([1, 2], [0]),
                                         ([0, 1], [2]), ([2, 0], [1])]),
    ([2147483647, 1824726041, 1946388001, 2113929217],
     [([0, 1, 2], [3]), ([3], [0, 1, 2]), ([1, 3], [0, 2]), ([2, 3], [1, 0])]),
    ([65537, 786433, 2013265921], [([2], [0, 1]), ([0, 1], [2])]),
]


def convert(dom, x, src, dst):
  """sum_i [x_i (Q/q_i)^-1]_{q_i} (Q/q_i) as integer, for the class mod p."""
  Q = math.prod(src)
  acc = 0
  for i, q in enumerate(src):
    h = Q // q
    c = dom.rem(dom.cell_binop('*', x[i], pow(h, -1, q)), q)
    acc = dom.cell_binop('+', acc, dom.cell_binop('*', c, h))
  return [acc for _ in dst]


def conv_checks(rep):
  dom, it = fresh('basis_conversion')
  C = it.get(P + 'basis_conversion.BasisConversionBarrett')
  where = F + 'basis_conversion.py:BasisConversionBarrett.basis_change'
  for chain, ctl in CONV:
    for ci, (src, dst) in enumerate(ctl):
      for shape, dt in (((2,), 'uint32'), ((2, 2), 'uint64')):
        sm, dm = [chain[i] for i in src], [chain[i] for i in dst]

        def th(chain=chain, ctl=ctl, ci=ci, sm=sm, shape=shape, dt=dt):
          o = it.call(C, [], {})
          it.call(it.getattr_(o, 'precompute_constants'), [
              VList(list(chain)),
              VList([VList([VList(list(a)), VList(list(b))]) for a, b in ctl])], {})
          x = sym_tower(dom, 'x', shape, sm, dt)
          return it.call(it.getattr_(o, 'basis_change'), [x],
                         {'control_index': ci}), x

        def judge(v, tk, sm=sm, dm=dm, shape=shape):
          r, x = v
          r, e = cells(r, tuple(shape) + (len(dm),), 'uint32')
          if e:
            return e
          for idx in np.ndindex(*shape):
            want = convert(dom, list(x.data[idx]), sm, dm)
            for j, p in enumerate(dm):
              d = congruent(dom, r.data[idx + (j,)], want[j], p, 'uint32')
              if d:
                return f'basis {sm} to {dm}, modulus {p}: {d}'
        explore(rep, it, 'basis-change', where, th, judge)
  return it


def bat_checks(rep):
  """(BAT-prepared matrix) times residues is the matrix product mod q."""
  dom, it = fresh('bat_utils')
  prep = it.get(P + 'bat_utils.basis_aligned_transformation')
  mat = it.get(P + 'bat_utils.matmul_bat_einsum')
  where = F + 'bat_utils.py:matmul_bat_einsum'
  rnd = rnd_.Random(3)
  for mset in ([998244353, 2147483647], [65537, 1824726041]):
    m = np.empty((3, 2, len(mset)), dtype=object)
    for i in np.ndindex(*m.shape):
      m[i] = rnd.choice((0, 1, mset[i[-1]] - 1, rnd.randrange(mset[i[-1]])))

    def th(mset=mset, m=m):
      raw = it.call(prep, [SArr(m.shape, m.copy(), 'uint64'), VList(list(mset))], {})
      # axes: byte of the input, row, column, modulus, byte of the output
      tf = it.call(it.getattr_(raw, 'transpose'), [1, 0, 2, 4, 3], {})
      x = sym_tower(dom, 'x', (2,), mset)
      return it.call(mat, [x, tf, 'cmq,zqcpm->zmp'], {}), x

    def judge(v, tk, mset=mset, m=m):
      r, x = v
      r, e = cells(r, (3, len(mset)), 'uint64')
      if e:
        return e
      for z in range(3):
        for j, q in enumerate(mset):
          w = 0
          for c in range(2):
            w = dom.cell_binop('+', w, dom.cell_binop('*', x.data[c, j], m[z, c, j]))
          d = congruent(dom, r.data[z, j], w, q, 'uint64', canonical=False)
          if d:
            return f'matrix product, modulus {q}: {d}'
          rg = dom.rng(dom.obs(r.data[z, j], 'uint64'))
          if rg is None or rg[1] >= q * q or rg[0] < 0:
            raise AnalysisError(f'product sum not bounded by {q}^2')
    explore(rep, it, 'bat', where, th, judge)
  return it


def run(tier):
  rep = Report('C09', RULE, tier)
  for fn in (barrett_checks, add_checks, mul_checks, conv_checks, bat_checks):
    section(rep, fn.__name__, fn, rep, *((tier,) if fn is barrett_checks else ()))
  return finish(rep)
