"""Shared set-up of the CGGI checks."""
from common import *
from moddom import ModDomain
from c07 import negacyclic, xpow, same, cmp_arr, syms, o0

P = 'jaxite.jaxite_cggi.'


def sc(x, dt='uint32'):
  return SArr((), o0(x), dt, 'jnp')


class CD(ModDomain):
  """Exact matrix products and gadget digits as atoms.

  Both summaries are themselves decided (byte-level product by C07, digits by
  the decomposition obligations of C05).
  """

  def __init__(self):
    super().__init__()
    self.summaries[P + 'jax_helpers.get_tpu_version'] = lambda *a: -1
    self.summaries[P + 'matrix_utils.i32_as_u8_matmul'] = self.s_mm
    self.summaries[P + 'decomposition.signed_decomposition'] = self.s_dec
    self.digits = {}

  def s_mm(self, it, b, node, mod):
    vs = list(b.values())
    if len(vs) != 2 or not all(isinstance(v, SArr) for v in vs):
      return NotImplemented
    x, y = vs
    if x.ndim != 1 or y.ndim != 2 or x.axes[0] != y.axes[0] or any(
        isinstance(a, Pay) for a in tuple(x.axes) + tuple(y.axes)):
      return NotImplemented
    n, k = y.axes
    d = sarr.obj((k,))
    xs = [(i, Poly.lift(x.data[i])) for i in range(n)]
    if any(p is None for _, p in xs):
      return NotImplemented
    xs = [(i, p) for i, p in xs if p.t]
    for j in range(k):
      acc = poly.const(0)
      for i, p in xs:
        q = y.data[i, j]
        if isinstance(q, int) and q == 0:
          continue
        q = Poly.lift(q)
        if q is None:
          return NotImplemented
        acc = acc + p * q
      from moddom import wrap
      d[j] = self.norm(wrap(acc, 'uint32'))
    return SArr((k,), d, 'uint32', 'jnp')

  def s_dec(self, it, b, node, mod):
    x, lb, nl = b['x'], b['base_log'], b['num_levels']
    tot = b.get('total_bit_length', 32)
    lb, nl, tot = [v.data[()] if isinstance(v, SArr) and v.ndim == 0 else v
                   for v in (lb, nl, tot)]
    if not (isinstance(lb, int) and isinstance(nl, int) and lb * nl <= 32 and
            32 % lb == 0 and tot == 32):
      return NotImplemented
    if isinstance(x, SArr):
      if x.ndim:
        return NotImplemented
      x = x.data[()]
    p = Poly.lift(x)
    if p is None:
      return NotImplemented
    d = sarr.obj((nl,))
    if p.is_const:
      return NotImplemented
    rest = p
    if lb * nl < 32:
      for l in range(1, nl + 1):
        d[l - 1] = term_digit(p, lb, l)
      return SArr((nl,), d, 'uint32', 'jnp')
    for l in range(1, nl):
      t = term_digit(p, lb, l)
      d[l - 1] = t
      rest = rest - t * poly.const(2**(32 - l * lb))
    from moddom import wrap
    d[nl - 1] = wrap(rest, 'uint32')
    return SArr((nl,), d, 'uint32', 'jnp')


def term_digit(p, lb, l):
  return poly.term('digit', p, lb, l)


def bit_reduce(p, bits, mod=2**32):
  """p with b^2 = b for the bit symbols, coefficients mod 2^32."""
  t = {}
  bs = set(bits)
  for m, c in p.t.items():
    m2 = tuple((a, 1 if a.op in bs else e) for a, e in m)
    n = (t.get(m2, 0) + c) % mod
    if n:
      t[m2] = n
    else:
      t.pop(m2, None)
  return Poly(t)


def strip_mod(p, k):
  """drop remainders mod 2^j (j >= k) in a value compared modulo 2^k."""
  for _ in range(8):
    mp = {}
    for m in p.t:
      for a, e in m:
        if str(a.op).split('@')[0] == '%' and isinstance(a.args[1], int) and a.args[1] % (1 << k) == 0:
          mp[a] = Poly.lift(a.args[0])
    if not mp:
      return p
    p = p.subst(mp)
  return p


def eq_bits(p, q, bits, k=32):
  """p == q modulo 2^k on bit-valued symbols; None = undecided."""
  d = strip_mod(Poly.lift(p) - Poly.lift(q), k)
  d = bit_reduce(d, bits, 2**k)
  if not d.t:
    return True
  ok = {'digit'}
  if any(a.args and a.op not in ok for a in d.all_atoms()):
    return None
  return False


def cell(x):
  p = Poly.lift(x)
  if p is None:
    raise AnalysisError(f'cell {x!r}')
  return p


def lwe_phase(ct, s):
  if not isinstance(ct, SArr) or ct.ndim != 1:
    raise ValueError(f'not an LWE ciphertext: shape {getattr(ct, "shape", None)}')
  if ct.axes[0] != len(s) + 1:
    raise ValueError(f'LWE ciphertext has {ct.axes[0]} components for a key of '
                     f'dimension {len(s)}')
  p = cell(ct.data[-1])
  for a, b in zip(ct.data[:-1], s):
    p = p - cell(a) * b
  return p


def rlwe_phase(msg, key):
  """msg: SArr (k+1, N); key: list of k lists."""
  k, N = len(key), len(key[0])
  if not isinstance(msg, SArr) or tuple(msg.axes) != (k + 1, N):
    raise ValueError(f'RLWE ciphertext has shape {getattr(msg, "shape", None)}, '
                     f'expected {(k + 1, N)}')
  out = [cell(x) for x in msg.data[k]]
  for i in range(k):
    pr = negacyclic([cell(x) for x in msg.data[i]], key[i])
    out = [a - b for a, b in zip(out, pr)]
  return out


class Env:
  """Keys and parameters of a small instance."""

  def __init__(self, it, dom, n=2, N=2, k=1, lb=16, lv=2, logq=32, err=0):
    self.it, self.dom = it, dom
    self.n, self.N, self.k = n, N, k
    self.sp = it.call(it.get(P + 'parameters.SchemeParameters'), [], dict(
        lwe_dimension=n, plaintext_modulus=2**logq, rlwe_dimension=k,
        polynomial_modulus_degree=N))
    self.dp = it.call(it.get(P + 'decomposition.DecompositionParameters'), [],
                      dict(log_base=lb, level_count=lv))
    self.rng = RngTag('r', dom, err=err)
    self.lwe_sk = it.call(it.get(P + 'lwe.gen_key'), [self.sp, self.rng], {})
    self.rlwe_sk = it.call(it.get(P + 'rlwe.gen_key'), [self.sp, self.rng], {})
    self.s = [cell(x) for x in it.getattr_(self.lwe_sk, 'key_data').data]
    self.z = [[cell(x) for x in r] for r in it.getattr_(self.rlwe_sk, 'data').data]
    self.bits = {str(a.op) for p in self.s + sum(self.z, []) for a in p.atoms()}

  def rlwe_ct(self, name, k=None):
    k = self.k if k is None else k
    m = arr([[self.dom.sym(f'{name}{i}_{j}', 0, 2**32 - 1) for j in range(self.N)]
             for i in range(k + 1)], 'uint32')
    return self.it.call(self.it.get(P + 'rlwe.RlweCiphertext'), [], dict(
        log_coefficient_modulus=32, modulus_degree=self.N, message=m))
