"""C19: results do not depend on earlier calls, and operands stay as they were."""
import c01
import c12
from cggi import *
from ckks import *
from c09 import fresh
from c16 import ciphertext, evk_of, kernels, N
from c17 import Source
from common import *
from report import Report
import ckks as ck
import c09

RULE = (
    'Two-session comparison by abstract interpretation with the compilation '
    'and memo caches modelled (jit keeps static arguments, auxiliary data and '
    'module state of the call that traced it; lru_cache keeps the first '
    'result of an equal key). Every operation is interpreted on symbolic '
    'operands once in a fresh session and once after other calls (other '
    'operands, other keys, other parameters, another instance); the results '
    'must be the same expressions, and every operand must hold after the call '
    'what it held before.')

CK = 'jaxite.jaxite_ckks.'
JB = 'jaxite.jaxite_bool.'
QA, QB = [998244353, 2013265921, 469762049], [754974721, 167772161, 1004535809]
PA, PB = [2113929217, 1811939329], [2130706433, 1224736769]


def freeze(it, v, seen=None):
  """An immutable description of v."""
  seen = seen or ()
  if isinstance(v, SArr):
    return ('arr', tuple(map(str, v.axes)), v.dtype, tuple(v.data.flat))
  if any(v is x for x in seen):
    return ('cycle',)
  s = seen + (v,)
  if isinstance(v, (VList, tuple, list)):
    xs = v.items if isinstance(v, VList) else v
    return ('seq', tuple(freeze(it, x, s) for x in xs))
  if isinstance(v, VDict):
    return ('map', tuple((k if is_prim(k) else repr(k), freeze(it, x, s))
                         for k, x in v.d.items()))
  if isinstance(v, core.VSet):
    return ('set', tuple(sorted(map(repr, v.s))))
  if isinstance(v, Inst):
    skip = {k for k in v.attrs if isinstance(v.cls.lookup(k)[0], core.Property)}
    return ('obj', v.cls.qualname, tuple(sorted(
        (k, freeze(it, x, s)) for k, x in v.attrs.items() if k not in skip)))
  if isinstance(v, Tag):
    return ('tag', v.kind, tuple(sorted(
        (k, freeze(it, x, s)) for k, x in v.info.items() if k != 'node')))
  if isinstance(v, (core.Cls, core.Func)):
    return ('def', v.qualname)
  if is_prim(v) or isinstance(v, (Poly, poly.Cond)):
    return ('val', v)
  return ('other', type(v).__name__)


def leaf_diff(dom, g, w):
  """None when equal, text when a valuation separates, AnalysisError otherwise."""
  if type(g) is type(w) and g == w:
    return None
  if is_prim(g) and is_prim(w):
    if g == w or (g != g and w != w):
      return None
    return f'{g!r:.60} instead of {w!r:.60}'
  if isinstance(dom, CkksDomain):
    return ck.equal(dom, g, w)
  q = decide(dom, g, w)
  if q is None:
    raise AnalysisError(f'not decided: {g!r:.120} against {w!r:.120}')
  return None if q else f'{g!r:.100} instead of {w!r:.100}'


def diff(dom, a, b, path=''):
  """None, or where and how a differs from b."""
  if a[0] != b[0]:
    return f'{path or "the value"} is {a[0]} {str(a[1:])[:60]} instead of {b[0]} {str(b[1:])[:60]}'
  k = a[0]
  if k == 'arr':
    if a[1] != b[1]:
      return f'{path or "the array"} has shape {a[1]} instead of {b[1]}'
    if a[2] != b[2]:
      return f'{path or "the array"} has dtype {a[2]} instead of {b[2]}'
    und = None
    for i, (x, y) in enumerate(zip(a[3], b[3])):
      if x is y:
        continue
      try:
        r = leaf_diff(dom, x, y)
      except AnalysisError as e:
        und = und or e
        continue
      if r:
        return f'{path} cell {i} is {r}'
    if und:
      raise und
    return None
  if k == 'val':
    r = leaf_diff(dom, a[1], b[1])
    return r and f'{path or "the value"} is {r}'
  if k == 'seq':
    if len(a[1]) != len(b[1]):
      return f'{path or "the sequence"} has {len(a[1])} items instead of {len(b[1])}'
    it = [(f'{path}[{i}]', x, y) for i, (x, y) in enumerate(zip(a[1], b[1]))]
  elif k in ('obj', 'tag'):
    if a[1] != b[1] or [x[0] for x in a[2]] != [x[0] for x in b[2]]:
      return (f'{path or "the object"} is {a[1]} with {[x[0] for x in a[2]]} '
              f'instead of {b[1]} with {[x[0] for x in b[2]]}')
    it = [(f'{path}.{x[0]}', x[1], y[1]) for x, y in zip(a[2], b[2])]
  elif k == 'map':
    if [x[0] for x in a[1]] != [x[0] for x in b[1]]:
      return f'{path or "the mapping"} has keys {[x[0] for x in a[1]]} instead of {[x[0] for x in b[1]]}'
    it = [(f'{path}[{x[0]!r}]', x[1], y[1]) for x, y in zip(a[1], b[1])]
  else:
    if a != b:
      return f'{path or "the value"} is {a[1:]!r:.60} instead of {b[1:]!r:.60}'
    return None
  und = None
  for p, x, y in it:
    try:
      r = diff(dom, x, y, p)
    except AnalysisError as e:
      und = und or e
      continue
    if r:
      return r
  if und:
    raise und
  return None


def grown(a, b):
  """a against b without what a memo may add: new keys, new or unset attributes."""
  if a[0] != b[0]:
    return a, b
  if a[0] == 'obj' and a[1] == b[1]:
    x, y = dict(a[2]), dict(b[2])
    ks = [k for k in y if k in x and y[k] != ('val', None)]
    ps = [(k, grown(x[k], y[k])) for k in ks]
    gone = tuple((k, y[k]) for k in y if k not in x)
    return (('obj', a[1], tuple((k, p[0]) for k, p in ps)),
            ('obj', b[1], tuple((k, p[1]) for k, p in ps) + gone))
  if a[0] == 'map':
    x, y = dict(a[1]), dict(b[1])
    ps = [(k, grown(x[k], y[k])) for k in y if k in x]
    gone = tuple((k, y[k]) for k in y if k not in x)
    return (('map', tuple((k, p[0]) for k, p in ps)),
            ('map', tuple((k, p[1]) for k, p in ps) + gone))
  if a[0] == 'seq' and len(a[1]) == len(b[1]):
    ps = [grown(x, y) for x, y in zip(a[1], b[1])]
    return ('seq', tuple(p[0] for p in ps)), ('seq', tuple(p[1] for p in ps))
  return a, b


class Run:
  """One session: operation calls with their operands watched."""

  def __init__(self, it, dom, watch):
    self.it, self.dom, self.watch = it, dom, watch
    self.changed = []

  def new(self, cls, *a, **k):
    return self.it.call(self.it.get(cls), list(a), k)

  def fn(self, name, *a, **k):
    return self.op(self.it.get(name), name.rsplit('.', 1)[1], a, k)

  def m(self, obj, name, *a, **k):
    return self.op(self.it.getattr_(obj, name), name, a, k)

  def quiet(self, obj, name, *a, **k):
    return self.it.call(self.it.getattr_(obj, name), list(a), k)

  def op(self, f, name, a, k):
    vals = [(f'argument {i}', x) for i, x in enumerate(a)] + list(k.items())
    before = [freeze(self.it, v) for _, v in vals]
    r = self.it.call(f, list(a), k)
    if self.watch:
      for (n, v), b in zip(vals, before):
        self.changed.append((name, n, freeze(self.it, v), b))
    return r


def session(it, dom):
  it.modules = {}
  dom.lru = {}
  dom.jit_cache = {}


def history(rep, it, dom, kind, where, work, what):
  """work(run, dirty) -> result; dirty runs make the other calls first."""

  def th():
    out = []
    for dirty in (False, True):
      session(it, dom)
      r = Run(it, dom, not dirty)
      try:
        v = freeze(it, work(r, dirty))
      except AbsRaise as e:
        if not dirty:
          raise AnalysisError(f'raises {e.exc_type}{e.exc_args!r:.120} in a fresh session')
        return out[0], (f'raises {e.exc_type}{e.exc_args!r:.120} at {e.where}', None)
      out.append((v, r.changed))
    return out

  def judge(v, tk):
    (want, changed), (got, _) = v
    if isinstance(got, str):
      return f'after {what}: {got}, not in a fresh session'
    for op, n, a, b in changed:
      e = diff(dom, *grown(a, b))
      if e:
        return f'{op} changes its operand {n}: {e}'
    e = diff(dom, got, want)
    if e:
      return f'after {what}: {e} in a fresh session'
  explore(rep, it, kind, where, th, judge)


# ------------------------------------------------------------------ CKKS
def ckks_session(*mods):
  dom, it = fresh(*mods)
  dom.stage_jit = True
  return dom, it


def L(x):
  return VList(list(x))


def ckks_reuse(rep, tier):
  """precompute/operate on one instance, on re-used and on parallel instances."""
  F = 'jaxite/jaxite_ckks/'

  def ct(r, name, mods, els=2):
    return ciphertext(r.it, r.dom, name, mods, els)[0]

  def pt(r, name, mods):
    return r.new(CK + 'types.Plaintext', sym_tower(r.dom, name, (N,), mods),
                 arr(list(mods), 'uint32'))

  def evk(r, parts, mods, name, cls='types.EvaluationKeys'):
    return evk_of(r.it, r.dom, parts, mods, name, cls=cls)[0]

  def rows(r, name, mods):
    return sym_tower(r.dom, name, (1, 2, 2), mods)

  # name -> (module, class, precompute args, list of operations)
  def k_rescale(r, o, q, p, nm):
    c = ct(r, nm, q)
    r.quiet(o, 'rescale', c)
    return c

  def k_ntt(r, o, q, p, nm):
    x = rows(r, nm, q)
    return r.m(o, 'ntt', x), r.m(o, 'intt', x)

  def k_bc(r, o, q, p, nm):
    return r.m(o, 'basis_change', sym_tower(r.dom, nm, (N,), q[:2]), control_index=0)

  def k_ks(r, o, q, p, nm):
    al = q + p[:1]
    _, bc, mk = kernels(r.it, q, p[:1], 3)
    return r.m(o, 'key_switch', ct=ct(r, nm, q), ksk=evk(r, 3, al, nm + 'k'),
               p_limbs=arr(p[:1], 'uint32'), bc_kernel=bc, mul_kernel=mk,
               start_control_index=0)

  def k_conj(r, o, q, p, nm):
    al = q + p[:1]
    _, bc, mk = kernels(r.it, q, p[:1], 3)
    rs = r.new(CK + 'rescale.Rescale')
    r.quiet(rs, 'precompute_constants', L(al), 1, 2, 2)
    return r.m(o, 'conjugate', ct=ct(r, nm, q), conj_key=evk(r, 3, al, nm + 'k'),
               p_limbs=arr(p[:1], 'uint32'), bc_kernel=bc, mul_kernel=mk,
               rescale_kernel=rs, start_control_index=0)

  def k_tensor(r, o, q, p, nm):
    return r.m(o, 'tensor_multiply', ct(r, nm + 'x', q[:2]), ct(r, nm + 'y', q[:2]))

  def k_relin(r, o, q, p, nm):
    return r.m(o, 'relinearize', ct(r, nm, q[:2], 3),
               evk(r, 2, q[:2] + p[:1], nm + 'k', 'mul.EvaluationKeys'))

  def hkey(r, q, p, name):
    return r.new(CK + 'types.HMuxRotKey', ct(r, name + '0', q + p), ct(r, name + '1', q + p))

  def k_brot(r, o, q, p, nm):
    return r.m(o, 'brot_cm', L([ct(r, nm + 'c', q[:2] + p[:1])]),
               L([pt(r, nm + 'p', q[:2] + p[:1])]))

  fams = [
      ('rescale', 'Rescale', lambda q, p: [L(q), 1, 2, 2], {}, [('rescale', k_rescale)]),
      ('ntt', 'NTTBarrett', lambda q, p: [L(q), 2, 2], {}, [('ntt', k_ntt)]),
      ('basis_conversion', 'BasisConversionBarrett', lambda q, p: [
          L(q), L([L([L([0, 1]), L([2])])])], {}, [('basis_change', k_bc)]),
      ('key_switching', 'KeySwitcher', lambda q, p: [L(q), L(p[:1]), 3, 2, 2], {},
       [('key_switch', k_ks)]),
      ('conjugate', 'Conjugation', lambda q, p: [L(q), L(p[:1]), 3, 2, 2], {},
       [('conjugate', k_conj)]),
      ('mul', 'Mul', lambda q, p: [L(q), L(p[:1]), 2, 2, 2], {'composite_degree': 1},
       [('tensor_multiply', k_tensor), ('relinearize', k_relin)]),
      ('blind_rotate', 'BlindRotation', lambda q, p: [L(q[:2]), L(p[:1]), 1, 2, 2],
       {'num_rescales': 1}, [('brot_cm', k_brot)]),
  ]
  for mod, cls, args, kw, ops in fams:
    dom, it = ckks_session(mod)
    for opn, op in ops:
      where = f'{F}{mod}.py:{cls}.{opn}'

      def make(r, q, p, mod=mod, cls=cls, args=args, kw=kw):
        o = r.new(f'{CK}{mod}.{cls}')
        r.m(o, 'precompute_constants', *args(q, p), **kw)
        return o

      def work(r, dirty, op=op, make=make, args=args, kw=kw):
        if not dirty:
          o = make(r, QB, PB)
          return op(r, o, QB, PB, 'x')
        o2 = make(r, QA, PA)
        op(r, o2, QA, PA, 'u')
        o = make(r, QB, PB)
        op(r, o2, QA, PA, 'w')
        op(r, o, QB, PB, 'v')
        return op(r, o, QB, PB, 'x')

      def again(r, dirty, op=op, make=make, args=args, kw=kw):
        if not dirty:
          o = make(r, QB, PB)
        else:
          o = make(r, QA, PA)
          op(r, o, QA, PA, 'u')
          r.m(o, 'precompute_constants', *args(QB, PB), **kw)
        return op(r, o, QB, PB, 'x')

      history(rep, it, dom, 'reuse', where, work,
              'another instance worked on other moduli and this one on another operand')
      history(rep, it, dom, 'reuse', where, again,
              'the same instance was prepared for other moduli')


def ckks_keys(rep, tier):
  F = 'jaxite/jaxite_ckks/'
  dom, it = ckks_session('key_gen', 'encrypt')

  def secret(r, name, q):
    return r.new(CK + 'types.SecretKey', sym_tower(r.dom, name, (N,), q, 'uint64', lib='np'),
                 arr(list(q), 'uint64', 'np'))

  def public(r, name, q):
    return r.new(CK + 'types.PublicKey', sym_tower(r.dom, name, (2, N), q, 'uint64', lib='np'),
                 arr(list(q), 'uint64', 'np'))

  def rng(r, name):
    return Source(r.dom, name)

  ops = []

  def add(where, f):
    ops.append((where, f))

  K = F + 'key_gen.py:'
  add(K + 'keygen', lambda r, q, p, nm: r.fn(CK + 'key_gen.keygen', N, L(q), rng(r, nm)))
  add(K + 'gen_evaluation_key', lambda r, q, p, nm: r.fn(
      CK + 'key_gen.gen_evaluation_key', secret(r, nm + 's', q[:2]), L(q[:2]), L(p[:1]), 2, rng(r, nm)))
  add(K + 'gen_conjugate_key', lambda r, q, p, nm: r.fn(
      CK + 'key_gen.gen_conjugate_key', secret(r, nm + 's', q[:2]), L(q[:2]), L(p[:1]), 2, rng(r, nm)))
  add(K + 'gen_key_switching_key', lambda r, q, p, nm: r.fn(
      CK + 'key_gen.gen_key_switching_key', source_key=secret(r, nm + 't', q[:2]),
      dest_key=secret(r, nm + 's', q[:2]), q_limbs=L(q[:2]), p_limbs=L(p[:1]), dnum=2,
      random_source=rng(r, nm)))
  add(K + 'extend_secret_key', lambda r, q, p, nm: r.fn(
      CK + 'key_gen.extend_secret_key', secret(r, nm + 's', q[:2]), L(q[:2] + p[:1])))

  def held(name, cls, key, op):
    """two uses of one object; the key it was made with must stay as it is."""
    def work(r, dirty):
      k = key(r, 'k', QB)
      if dirty:
        o2 = r.new(CK + cls, key(r, 'l', QA))
        op(r, o2, 'u', QA)
      o = r.new(CK + cls, k)
      if dirty:
        op(r, o, 'v', QB)
        op(r, o2, 'w', QA)
      b = freeze(r.it, k)
      out = op(r, o, 'x', QB)
      if not dirty:
        r.changed.append((name, 'the key', freeze(r.it, k), b))
      return out
    history(rep, it, dom, 'keys', f'{F}encrypt.py:{name}', work,
            'the same object and another one were used')

  def plain(r, name, q):
    return r.new(CK + 'types.Plaintext', sym_tower(r.dom, name, (N,), q, lib='np'),
                 arr(list(q), 'uint32', 'np'))

  held('Encrypt.encrypt', 'encrypt.Encrypt', public, lambda r, o, nm, q: r.m(
      o, 'encrypt', plain(r, nm + 'm', q), rng(r, nm)))
  held('Decrypt.decrypt', 'encrypt.Decrypt', secret, lambda r, o, nm, q: r.m(
      o, 'decrypt', ciphertext(r.it, r.dom, nm + 'c', q)[0]))
  for where, f in ops:
    for other, what in (((QB, PB), 'the same moduli were used with other keys'),
                        ((QA, PA), 'other moduli were used')):
      def work(r, dirty, f=f, other=other):
        if dirty:
          f(r, *other, 'u')
        return f(r, QB, PB, 'x')
      history(rep, it, dom, 'keys', where, work, what)


# ------------------------------------------------------------------ CGGI
def gate_histories(rep, tier):
  dom = c01.D()
  dom.stage_jit = True
  it = Interp(Repo(), dom)
  W = 'jaxite/jaxite_bool/jaxite_bool.py::'

  def params(r, n, NN, lb):
    C = 'jaxite.jaxite_cggi.'
    sp = r.new(C + 'parameters.SchemeParameters', lwe_dimension=n,
               plaintext_modulus=2**32, rlwe_dimension=1, polynomial_modulus_degree=NN)
    dp = lambda a, b: r.new(C + 'decomposition.DecompositionParameters',
                            log_base=a, level_count=b)
    return r.new(JB + 'bool_params.Parameters', sp, dp(lb, 3), dp(lb, 4))

  def keys(r, p, nm):
    t = lambda x: RngTag(nm + x, dom)
    c = r.new(JB + 'jaxite_bool.ClientKeySet', p, t('a'), t('b'))
    return r.new(JB + 'jaxite_bool.ServerKeySet', c, p, t('c'), t('d'))

  Q = JB + 'jaxite_bool.'

  def ops(r, n, s, p, nm):
    x = [sym_arr(f'{nm}{i}', (n + 1,), 'uint32') for i in range(3)]
    out = []
    for g in ('and_', 'xor_', 'nor_'):
      out.append(r.fn(Q + g, x[0], x[1], s, p))
    out.append(r.fn(Q + 'not_', x[0], p))
    out.append(r.fn(Q + 'cmux_', x[0], x[1], x[2], s, p))
    out.append(r.fn(Q + 'lut2', x[0], x[1], 6, s, p))
    out.append(r.fn(Q + 'lut3', x[0], x[1], x[2], 0x96, s, p))
    out.append(r.fn(Q + 'pmap_lut2', L([(x[0], x[1], 9), (x[1], x[2], 4)]), s, p))
    out.append(r.fn(Q + 'constant', True, p))
    out.append([freeze(it, b) for b in dom.boots])
    return VList([o if not isinstance(o, list) else Tag('boots', v=tuple(o)) for o in out])

  for a, what in (((4, 32, 4), 'the same parameters were used with other keys'),
                  ((4, 64, 4), 'parameters with another ring degree were used'),
                  ((6, 32, 4), 'parameters with another LWE dimension were used'),
                  ((4, 32, 8), 'parameters with another decomposition were used')):
    def work(r, dirty, a=a):
      dom.boots = []
      if dirty:
        p = params(r, *a)
        ops(r, a[0], keys(r, p, 'u'), p, 'u')
        dom.boots = []
      p = params(r, 4, 32, 4)
      return ops(r, 4, keys(r, p, 'k'), p, 'x')
    history(rep, it, dom, 'gates', W + 'gates', work, what)


def cggi_histories(rep, tier):
  dom = CD()
  dom.stage_jit = True
  it = Interp(Repo(), dom)
  W = 'jaxite/jaxite_cggi/'

  def env(r, nm, **kw):
    e = Env.__new__(Env)
    e.it, e.dom = r.it, r.dom
    n, NN, k = kw.get('n', 2), kw.get('N', 2), kw.get('k', 1)
    e.n, e.N, e.k = n, NN, k
    e.sp = r.new(P + 'parameters.SchemeParameters', lwe_dimension=n,
                 plaintext_modulus=2**32, rlwe_dimension=k, polynomial_modulus_degree=NN)
    e.dp = r.new(P + 'decomposition.DecompositionParameters',
                 log_base=kw.get('lb', 16), level_count=kw.get('lv', 2))
    e.rng = RngTag(nm + 'r', dom)
    e.lwe_sk = r.fn(P + 'lwe.gen_key', e.sp, e.rng)
    e.rlwe_sk = r.fn(P + 'rlwe.gen_key', e.sp, e.rng)
    e.nm = nm
    return e

  def lwe_ct(r, e, nm):
    return sym32(dom, nm, (e.n + 1,))

  def lwe(r, e, nm):
    c = r.fn(P + 'lwe.encrypt', dom.sym(nm + 'm', 0, 2**32 - 1), e.lwe_sk, e.rng)
    return VList([c, r.fn(P + 'lwe.decrypt_without_denoising', lwe_ct(r, e, nm + 'c'), e.lwe_sk),
                  r.fn(P + 'lwe.noiseless_embedding', dom.sym(nm + 'm', 0, 2**32 - 1), e.n),
                  r.fn(P + 'lwe.switch_modulus', lwe_ct(r, e, nm + 'c'), 32, 3)])

  def rpt(r, e, nm):
    return r.new(P + 'rlwe.RlwePlaintext', log_coefficient_modulus=32,
                 modulus_degree=e.N, message=sym32(dom, nm, (e.N,)))

  def rlwe(r, e, nm):
    return VList([r.fn(P + 'rlwe.encrypt', rpt(r, e, nm), e.rlwe_sk, e.rng),
                  r.fn(P + 'rlwe.flatten_key', e.rlwe_sk),
                  r.fn(P + 'bootstrap.sample_extract', e.rlwe_ct(nm + 'c'))])

  def gsw(r, e, nm):
    gk = r.fn(P + 'rgsw.key_from_rlwe', e.rlwe_sk)
    pt = r.new(P + 'rgsw.RgswPlaintext', e.N, sc(dom.sym(nm + 'g', 0, 1)))
    g = r.fn(P + 'rgsw.encrypt', pt, gk, e.dp, e.rng)
    x = r.fn(P + 'bootstrap.external_product', g, e.rlwe_ct(nm + 'c'), e.dp)
    y = r.fn(P + 'bootstrap.cmux', g, e.rlwe_ct(nm + 'c'), e.rlwe_ct(nm + 'd'), e.dp)
    return VList([g, x, y])

  def ks(r, e, nm):
    ik = r.fn(P + 'rlwe.flatten_key', e.rlwe_sk)
    k = r.fn(P + 'key_switch.gen_key', decomposition_params=e.dp, prg=e.rng,
             in_key=ik, out_key=e.lwe_sk)
    return VList([k, r.fn(P + 'key_switch.switch_key', k, sym32(dom, nm, (e.N * e.k + 1,)))])

  def rot(r, e, nm):
    gk = r.fn(P + 'rgsw.key_from_rlwe', e.rlwe_sk)
    out = []
    for bmmp in (True, False):
      key = r.fn(P + 'bootstrap.gen_bootstrapping_key', e.lwe_sk, gk, e.dp, e.rng,
                 use_bmmp=bmmp)
      idx = arr([1, 3] * (e.n // 2) + [1], 'uint32')
      out.append(r.fn(P + 'bootstrap.blind_rotate', e.rlwe_ct(nm + 'c'), idx, key, e.dp))
    return VList(out)

  ops = [('lwe.py', 'encrypt', lwe, ({}, dict(n=4))),
         ('rlwe.py', 'encrypt', rlwe, ({}, dict(N=4), dict(k=2))),
         ('rgsw.py', 'encrypt', gsw, ({}, dict(lb=8, lv=2), dict(lv=1), dict(N=4), dict(k=2))),
         ('key_switch.py', 'switch_key', ks, ({}, dict(lb=8, lv=2), dict(lv=1), dict(N=4), dict(n=4))),
         ('bootstrap.py', 'blind_rotate', rot, ({}, dict(lb=8, lv=2), dict(lv=1), dict(k=2)))]
  for f, name, op, others in ops:
    for kw in others:
      def work(r, dirty, op=op, kw=kw):
        if dirty:
          op(r, env(r, 'u', **kw), 'u')
        return op(r, env(r, 'k'), 'x')
      what = 'the same parameters were used with other keys' if not kw else \
          f'parameters with {kw} were used'
      history(rep, it, dom, 'cggi', f'{W}{f}::{name}', work, what)


def msm_operands(rep, tier):
  """initialize leaves the caller's scalars and points alone, each time."""
  dom = c12.PD()
  dom.stage_jit = True
  it = Interp(Repo(), dom)
  for m, cls, kind, signed in c12.FAMS:
    def work(r, dirty, m=m, cls=cls, kind=kind):
      dom.g = c12.Grp(2)
      a = [4] if kind == 'x' else [4, 1]
      o = r.new(m + '.' + cls, *a)
      if dirty:
        r.m(r.new(m + '.' + cls, *a), 'initialize', VList([9, 2**200 + 5]), c12.pts_of(2, kind))
        r.m(o, 'initialize', VList([0, 2**129 + 77]), c12.pts_of(2, kind))
      r.m(o, 'initialize', VList([5, 2**251 + 11]), c12.pts_of(2, kind))
      return None
    history(rep, it, dom, 'msm', f'jaxite_ec/{m.rsplit(".", 1)[1]}.py::{cls}.initialize',
            work, 'the same object was initialised with other scalars')


def sym32(dom, nm, shape):
  d = sarr.obj(shape)
  for i in np.ndindex(*shape):
    d[i] = dom.sym(nm + '_'.join(map(str, i)), 0, 2**32 - 1)
  return SArr(shape, d, 'uint32', 'jnp')


def run(tier):
  rep = Report('C19', RULE, tier)
  for f in (ckks_reuse, ckks_keys, gate_histories, cggi_histories,
            msm_operands):
    section(rep, f.__name__, f, rep, tier)
  return finish(rep)
