"""C13: every encryption and every generated key uses fresh randomness."""
from cggi import *
from report import Report

RULE = (
    'Abstract interpretation of key generation and encryption with a random '
    'source whose every draw is a distinct symbol. For the ciphertexts of a '
    'result taken together, every mask cell must contain a uniform draw, with '
    'an odd coefficient, that no other mask cell contains, every body cell a '
    'noise draw that no other ciphertext contains, and every secret-key cell '
    'must be a key draw of its own; the random sources themselves must return '
    'one independent draw of the stated distribution per cell.')

LW, RW, GW = [f'jaxite/jaxite_cggi/{m}.py::' for m in ('lwe', 'rlwe', 'rgsw')]


def draws_in(p, kind):
  """plain draw symbols of one kind in a normal form, anywhere in it."""
  return {a.op for a in p.all_atoms() if not a.args and f'.{kind}' in str(a.op)}


def linear_draws(p, kind, k=32):
  """draws that occur linearly with an odd coefficient, once."""
  p = strip_mod(Poly.lift(p), k)
  out = {}
  for m, c in p.t.items():
    if len(m) == 1 and m[0][1] == 1 and not m[0][0].args and (
        f'.{kind}' in str(m[0][0].op)):
      if isinstance(c, int) and c % 2:
        out[m[0][0].op] = c
  return set(out)


def fresh_masks(masks, k=32):
  """masks: list of (label, cell). None or a description."""
  owner = {}
  cells_ = [(l, strip_mod(cell(x), k)) for l, x in masks]
  for l, p in cells_:
    for d in draws_in(p, 'u'):
      owner.setdefault(d, []).append(l)
  for l, p in cells_:
    lin = linear_draws(p, 'u', k)
    if any(len(owner[d]) == 1 for d in lin):
      continue
    if any(a.args for a in p.all_atoms()):
      raise AnalysisError(f'mask {l} is not a linear form')
    if not draws_in(p, 'u'):
      return f'mask cell {l} contains no uniform draw'
    d = sorted(draws_in(p, 'u'))[0]
    o = [x for x in owner[d] if x != l]
    if lin and o:
      return f'mask cells {l} and {o[0]} use the same uniform draw'
    if not lin:
      return f'mask cell {l} is not masked by a whole uniform draw'


def fresh_noise(bodies, k=32, per_cell=False):
  """bodies: list of (ciphertext label, [cells]).

  per_cell: every cell needs a noise draw of its own.
  """
  own = {}
  for l, cs in bodies:
    for j, x in enumerate(cs):
      for d in draws_in(strip_mod(cell(x), k), 'e'):
        own.setdefault(d, set()).add((l, j) if per_cell else l)
  for l, cs in bodies:
    for j, x in enumerate(cs):
      p = strip_mod(cell(x), k)
      lin = linear_draws(p, 'e', k)
      key = (l, j) if per_cell else l
      if any(own[d] == {key} for d in lin):
        continue
      if any(a.args for a in p.all_atoms()):
        raise AnalysisError(f'body {l} is not a linear form')
      if not lin:
        return f'ciphertext {l}, cell {j} carries no noise draw'
      d = sorted(lin)[0]
      o = sorted(map(str, own[d] - {key}))[0]
      return f'ciphertexts {l} (cell {j}) and {o} share a noise draw'


def own_draws(cs, kind, what):
  seen = {}
  for l, x in cs:
    p = cell(x)
    d = linear_draws(p, kind)
    if len(p.t) != 1 or len(d) != 1:
      if any(a.args for a in p.all_atoms()):
        raise AnalysisError(f'{what} cell {l}')
      return f'{what} cell {l} is {p!r:.80}, not a draw of its own'
    d = next(iter(d))
    if d in seen:
      return f'{what} cells {seen[d]} and {l} are the same draw'
    seen[d] = l


def lwe_rows(a, label=''):
  """last axis is an LWE ciphertext: (masks, bodies)."""
  ms, bs = [], []
  for idx in np.ndindex(*a.shape[:-1]):
    for i in range(a.shape[-1] - 1):
      ms.append((f'{label}{list(idx) + [i]}', a.data[idx + (i,)]))
    bs.append((f'{label}{list(idx)}', [a.data[idx + (a.shape[-1] - 1,)]]))
  return ms, bs


def rlwe_rows(a, label=''):
  """last two axes are an RLWE ciphertext (k + 1, N)."""
  ms, bs = [], []
  k1, N = a.shape[-2:]
  for idx in np.ndindex(*a.shape[:-2]):
    for i in range(k1 - 1):
      for j in range(N):
        ms.append((f'{label}{list(idx) + [i, j]}', a.data[idx + (i, j)]))
    bs.append((f'{label}{list(idx)}', list(a.data[idx + (k1 - 1,)])))
  return ms, bs


def cggi_checks(rep):
  dom = CD()
  it = Interp(Repo(), dom)
  st = {}

  def call(q, *a, **k):
    return it.call(it.get(P + q), list(a), k)

  def env(**k):
    e = st['e'] = Env(it, dom, err=None, **k)
    return e

  for n, N, k in ((3, 4, 1), (2, 2, 2)):
    def th(n=n, N=N, k=k):
      e = env(n=n, N=N, k=k)
      g = call('rgsw.gen_key', e.sp, e.rng)
      return e, it.getattr_(it.getattr_(g, 'key'), 'data')

    def judge(v, tk, n=n, N=N, k=k):
      e, g = v
      if len(e.s) != n or len(e.z) != k or any(len(r) != N for r in e.z):
        return f'keys of dimensions {len(e.s)}, {[len(r) for r in e.z]}'
      cs = [(f'lwe[{i}]', x) for i, x in enumerate(e.s)]
      cs += [(f'rlwe[{i}][{j}]', x) for i, r in enumerate(e.z) for j, x in enumerate(r)]
      cs += [(f'rgsw{list(i)}', g.data[i]) for i in np.ndindex(*g.shape)]
      return own_draws(cs, 's', 'secret key')
    explore(rep, it, 'secret-key', LW + 'gen_key', th, judge)

    def th(n=n, N=N, k=k):
      e = env(n=n, N=N, k=k)
      return [call('lwe.encrypt', sc(dom.sym(f'm{i}', 0, 2**32 - 1)), e.lwe_sk, e.rng)
              for i in range(3)] + [call('lwe.encrypt', sc(5), e.lwe_sk, e.rng) for _ in range(2)]

    def judge(v, tk):
      ms, bs = [], []
      for i, c in enumerate(v):
        a, b = lwe_rows(sarr.as_arr(c), f'call {i} ')
        ms += a
        bs += b
      return fresh_masks(ms) or fresh_noise(bs)
    explore(rep, it, 'lwe', LW + 'encrypt', th, judge)

    def th(n=n, N=N, k=k):
      e = env(n=n, N=N, k=k)
      out = []
      for i in range(2):
        pt = call('rlwe.RlwePlaintext', log_coefficient_modulus=32, modulus_degree=N,
                  message=arr([dom.sym(f'm{j}', 0, 2**32 - 1) for j in range(N)], 'uint32'))
        out.append(it.getattr_(call('rlwe.encrypt', pt, e.rlwe_sk, e.rng), 'message'))
      return out

    def judge(v, tk):
      ms, bs = [], []
      for i, c in enumerate(v):
        a, b = rlwe_rows(sarr.as_arr(c), f'call {i} ')
        ms += a
        bs += b
      return fresh_masks(ms) or fresh_noise(bs, per_cell=True)
    explore(rep, it, 'rlwe', RW + 'encrypt', th, judge)

    def th(n=n, N=N, k=k):
      e = env(n=n, N=N, k=k)
      gk = call('rgsw.key_from_rlwe', e.rlwe_sk)
      out = []
      for i in range(2):
        pt = call('rgsw.RgswPlaintext', modulus_degree=N, message=sc(dom.sym('b', 0, 1)))
        out.append(it.getattr_(call('rgsw.encrypt', pt, gk, e.dp, e.rng), 'message'))
      return out

    def judge(v, tk):
      ms, bs = [], []
      for i, c in enumerate(v):
        a, b = rlwe_rows(sarr.as_arr(c), f'call {i} ')
        ms += a
        bs += b
      return fresh_masks(ms) or fresh_noise(bs)
    explore(rep, it, 'rgsw', GW + 'encrypt', th, judge)

  for lb, lv, n_in, n_out in ((16, 2, 2, 2), (8, 3, 3, 1)):
    def th(lb=lb, lv=lv, n_in=n_in, n_out=n_out):
      a, b = env(n=n_in), None
      i_sk = a.lwe_sk
      b = Env(it, dom, n=n_out, err=None)
      b.rng.name = 'o'
      dp = call('decomposition.DecompositionParameters', log_base=lb, level_count=lv)
      return it.getattr_(call('key_switch.gen_key', dp, a.rng, i_sk, b.lwe_sk), 'key_data')

    def judge(v, tk):
      ms, bs = lwe_rows(sarr.as_arr(v))
      return fresh_masks(ms) or fresh_noise(bs)
    explore(rep, it, 'ksk', 'jaxite/jaxite_cggi/key_switch.py::gen_key', th, judge)

  for n, N, k, bmmp in ((2, 2, 1, True), (2, 2, 1, False), (4, 2, 1, True), (2, 2, 2, False)):
    def th(n=n, N=N, k=k, bmmp=bmmp):
      e = env(n=n, N=N, k=k)
      gk = call('rgsw.key_from_rlwe', e.rlwe_sk)
      b = call('bootstrap.gen_bootstrapping_key', e.lwe_sk, gk, e.dp, e.rng, use_bmmp=bmmp)
      return it.getattr_(b, 'encrypted_lwe_sk_bits')

    def judge(v, tk):
      ms, bs = rlwe_rows(sarr.as_arr(v))
      return fresh_masks(ms) or fresh_noise(bs)
    explore(rep, it, 'bsk', 'jaxite/jaxite_cggi/bootstrap.py::gen_bootstrapping_key', th, judge)


def bool_params(it, n, N, k):
  sp = it.call(it.get(P + 'parameters.SchemeParameters'), [], dict(
      lwe_dimension=n, plaintext_modulus=2**32, rlwe_dimension=k,
      polynomial_modulus_degree=N))
  dp = it.get(P + 'decomposition.DecompositionParameters')
  return it.call(it.get('jaxite.jaxite_bool.bool_params.Parameters'), [
      sp, it.call(dp, [], dict(log_base=16, level_count=2)),
      it.call(dp, [], dict(log_base=16, level_count=2))], {})


BOOL = 'jaxite.jaxite_bool.jaxite_bool.'


def bool_checks(rep):
  dom = CD()
  it = Interp(Repo(), dom)
  where = 'jaxite/jaxite_bool/jaxite_bool.py::'
  n, N, k = 2, 16, 1

  def client(p, same):
    a = RngTag('lw', dom)
    b = a if same else RngTag('rl', dom)
    return it.call(it.get(BOOL + 'ClientKeySet'), [p, a, b], {}), a, b

  def key_cells(c):
    l = sarr.as_arr(it.getattr_(it.getattr_(c, 'lwe_sk'), 'key_data'))
    r = sarr.as_arr(it.getattr_(it.getattr_(c, 'rlwe_sk'), 'data'))
    return ([(f'lwe{list(i)}', l.data[i]) for i in np.ndindex(*l.shape)] +
            [(f'rlwe{list(i)}', r.data[i]) for i in np.ndindex(*r.shape)])

  for same in (True, False):
    def th(same=same):
      p = bool_params(it, n, N, k)
      c, a, b = client(p, same)
      enc = [it.call(it.get(BOOL + 'encrypt'), [v, c, RngTag('en', dom)
                                               if i == 3 else a], {})
             for i, v in enumerate((True, False, True, True))]
      return c, enc

    def judge(v, tk):
      c, enc = v
      e = own_draws(key_cells(c), 's', 'client key')
      if e:
        return e
      ms, bs = [], []
      for i, x in enumerate(enc):
        u, w = lwe_rows(sarr.as_arr(x), f'call {i} ')
        ms += u
        bs += w
      return fresh_masks(ms) or fresh_noise(bs)
    explore(rep, it, 'client', where + 'encrypt', th, judge)

  def th():
    p = bool_params(it, n, N, k)
    c, a, b = client(p, False)
    s = it.call(it.get(BOOL + 'ServerKeySet'), [c, p, a, b], {})
    ct = it.call(it.get(BOOL + 'encrypt'), [True, c, a], {})
    return s, ct

  def judge(v, tk):
    s, ct = v
    ms, bs = lwe_rows(sarr.as_arr(it.getattr_(it.getattr_(s, 'ksk'), 'key_data')), 'ksk ')
    u, w = rlwe_rows(sarr.as_arr(it.getattr_(it.getattr_(s, 'bsk'), 'encrypted_lwe_sk_bits')), 'bsk ')
    x, y = lwe_rows(sarr.as_arr(ct), 'ciphertext ')
    return fresh_masks(ms + u + x) or fresh_noise(bs + w + y)
  explore(rep, it, 'server', where + 'ServerKeySet', th, judge)


# ------------------------------------------------------------ sources (CGGI)
class SysRng(AbsVal):
  """random.SystemRandom / random.Random: draws as symbols."""

  def __init__(self, dom, kind, seed):
    self.dom, self.kind, self.seed = dom, kind, seed
    self.n = 0

  def abs_truth(self):
    return True

  def draw(self, lo, hi, tag):
    self.n += 1
    nm = f'{self.kind}{self.seed}.{tag}{self.n}'
    if lo is None:
      return self.dom.gauss(nm)
    self.dom.ranges[nm] = (lo, hi)
    return poly.sym(nm)

  def abs_getattr(self, interp, name, node):
    if name == 'randint':
      return Native(name, lambda it, a, k, n: self.draw(a[0], a[1], f'u{a[0]}:{a[1]}#'))
    if name == 'randrange':
      return Native(name, lambda it, a, k, n: self.draw(
          *((a[0], a[1] - 1) if len(a) > 1 else (0, a[0] - 1)),
          f'u{a[0] if len(a) > 1 else 0}:{(a[1] if len(a) > 1 else a[0]) - 1}#'))
    if name == 'getrandbits':
      return Native(name, lambda it, a, k, n: self.draw(0, 2**a[0] - 1, f'u0:{2**a[0] - 1}#'))
    if name == 'choice':
      def choice(it, a, k, n):
        xs = sorted(it.iterate(a[0]))
        if xs != list(range(xs[0], xs[-1] + 1)):
          raise AnalysisError('choice')
        return self.draw(xs[0], xs[-1], f'u{xs[0]}:{xs[-1]}#')
      return Native(name, choice)
    if name in ('normalvariate', 'gauss'):
      def nv(it, a, k, n):
        d = dict(zip(('mu', 'sigma'), a))
        d.update(k)
        return self.draw(None, None, f'g{d["mu"]}:{d["sigma"]}#')
      return Native(name, nv)
    raise AnalysisError(f'generator method {name}', node)


class SourceDom(ModDomain):

  def gauss(self, nm):
    return poly.sym(nm)

  def ext_hook(self, path, args, kwargs, node, mod):
    if path in ('random.SystemRandom', 'secrets.SystemRandom'):
      return SysRng(self, 'system', '')
    if path == 'random.Random':
      return SysRng(self, 'seeded', args[0] if args else '?')
    return super().ext_hook(path, args, kwargs, node, mod)

  def b_round(self, it, a, k, n):
    if isinstance(a[0], Poly):
      return a[0]
    return super().b_round(it, a, k, n)


def kinds_of(a, tag, what, base):
  """every cell is base drawn with tag, and no draw twice."""
  seen = set()
  for i in np.ndindex(*a.shape):
    p = strip_mod(cell(a.data[i]), 32)
    if len(p.t) != 1:
      if any(x.args for x in p.all_atoms()):
        raise AnalysisError(f'{what}: {p!r:.80}')
      return f'{what}: cell {list(i)} is {p!r:.60}, not a draw'
    (m, c), = p.t.items()
    if not m or len(m) != 1 or m[0][1] != 1 or c % 2**32 != 1 or m[0][0].args:
      if m and any(x.args for x, _ in m):
        raise AnalysisError(f'{what}: {p!r:.80}')
      return f'{what}: cell {list(i)} is {p!r:.60}, not a draw'
    op = str(m[0][0].op)
    if op in seen:
      return f'{what}: two cells share a draw'
    seen.add(op)
    src, t = op.split('.', 1)
    if not src.startswith(base):
      return f'{what}: drawn from {src} instead of the {base} generator'
    if t.split('#')[0] != tag:
      return f'{what}: cell drawn as {t.split("#")[0]} instead of {tag}'


def source_checks(rep):
  dom = SourceDom()
  it = Interp(Repo(), dom)
  S = P + 'random_source.'
  where = 'jaxite/jaxite_cggi/random_source.py::'
  for cls, base in (('SystemRandomSource', 'system'), ('PseudorandomSource', 'seeded')):
    for kw, ub, sd in (({}, (0, 2**32 - 1), 1),
                       ({'uniform_bounds': (0, 2**20 - 1), 'normal_std': 7}, (0, 2**20 - 1), 7)):
      for meth, tag in (('uniform', f'u{ub[0]}:{ub[1]}'), ('rounded_normal', f'g0:{sd}'),
                        ('sk_uniform', 'u0:1')):
        for shape in ((5,), (2, 3), ()):
          def th(cls=cls, kw=kw, meth=meth, shape=shape):
            s = it.call(it.get(S + cls), [], dict(kw))
            a = it.call(it.getattr_(s, meth), [], {'shape': shape})
            return a, it.call(it.getattr_(s, meth), [], {'shape': shape})

          def judge(v, tk, cls=cls, base=base, tag=tag, meth=meth, shape=shape):
            cs = []
            for x in v:
              x = sarr.as_arr(x)
              if tuple(x.shape) != shape:
                return f'{cls}.{meth} returns shape {tuple(x.shape)} for {shape}'
              cs += list(x.data.reshape(-1))
            return kinds_of(arr(cs, 'uint32'), tag, f'{cls}.{meth}', base)
          explore(rep, it, 'source', where + f'{cls}.{meth}', th, judge)


def run(tier):
  rep = Report('C13', RULE, tier)
  for f in (cggi_checks, bool_checks, source_checks):
    section(rep, f.__name__, f, rep)
  import c13k
  section(rep, 'ckks', c13k.checks, rep)
  return finish(rep)
