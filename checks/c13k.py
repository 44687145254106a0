"""C13, CKKS part: fresh randomness in jaxite_ckks."""
import itertools
import re

from ckks import *
from c09 import F, P, cells
from c16 import N, Q3, P2
from common import *

K = F + 'key_gen.py:'
B = 40
NAME = re.compile(r'(system|seeded[^.]*)\.([ugt])([^#]*)#(\d+)')


class Gen(AbsVal):
  """random.SystemRandom / random.Random: every draw is a new symbol."""

  def __init__(self, dom, kind):
    self.dom, self.kind = dom, kind
    self.n = 0

  def abs_truth(self):
    return True

  def draw(self, tag, lo, hi):
    if self.kind == 'system':
      self.dom.n_draws += 1
      n = self.dom.n_draws
    else:
      self.n += 1
      n = self.n
    return self.dom.sym(f'{self.kind}.{tag}#{n}#', lo, hi)

  def abs_getattr(self, interp, name, node):
    def uni(lo, hi):
      return self.draw(f'u{lo}:{hi}', lo, hi)

    def ints(a):
      out = [sarr.concrete_cell(self.dom.norm(sarr.as_arr(x).data[()])) for x in a]
      if any(x is None for x in out):
        raise AnalysisError(f'abstract bound of {name}', node)
      return [int(x) for x in out]

    def randrange(it, a, k, n):
      a = ints(a)
      return uni(0, a[0] - 1) if len(a) == 1 else uni(a[0], a[1] - 1)

    def randint(it, a, k, n):
      a = ints(a)
      return uni(a[0], a[1])

    def bits(it, a, k, n):
      return uni(0, 2**ints(a)[0] - 1)

    def choice(it, a, k, n):
      xs = sorted(it.iterate(a[0], None, None))
      if xs != list(range(xs[0], xs[-1] + 1)):
        raise AnalysisError('choice', node)
      return uni(xs[0], xs[-1])

    def choices(it, a, k, n):
      return VList([choice(it, a, {}, n) for _ in range(ints([k.get('k', 1)])[0])])

    def normal(it, a, k, n):
      d = dict(zip(('mu', 'sigma'), a))
      d.update(k)
      return self.draw(f'g{float(d["mu"])}:{float(d["sigma"])}', -B, B)

    def sample(it, a, k, n):
      d = dict(zip(('population', 'k'), a))
      d.update(k)
      xs = list(it.iterate(d['population'], None, None))
      kk = ints([d['k']])[0]
      self.dom.samples.append((self.kind, tuple(xs), kk))
      pick = self.dom.pick
      if pick is None or any(i >= len(xs) for i in pick[:kk]) or len(pick) < kk:
        return VList(xs[:kk])
      return VList([xs[i] for i in pick[:kk]])

    fs = dict(randrange=randrange, randint=randint, getrandbits=bits, choice=choice,
              choices=choices, normalvariate=normal, gauss=normal, sample=sample)
    if name in fs:
      return Native(name, fs[name])
    raise AnalysisError(f'generator method {name}', node)


class Dom(CkksDomain):

  def __init__(self, *a, **k):
    super().__init__(*a, **k)
    self.n_draws = 0
    self.samples = []
    self.pick = None

  def ext_hook(self, path, args, kwargs, node, mod):
    if path in ('random.SystemRandom', 'secrets.SystemRandom'):
      return Gen(self, 'system')
    if path == 'random.Random':
      return Gen(self, f'seeded{args[0] if args else "?"}')
    if path == 'secrets.randbelow':
      g = Gen(self, 'system')
      return g.abs_getattr(None, 'randrange', node).fn(None, args, {}, node)
    return super().ext_hook(path, args, kwargs, node, mod)

  def b_round(self, it, a, k, n):
    if isinstance(a[0], Poly):
      return a[0]
    return super().b_round(it, a, k, n)


def setup(*mods):
  dom = Dom()
  it = Interp(Repo(), dom)
  dom.importing(it, *[P + m for m in mods])
  return dom, it


def draws(dom, v, q, dt):
  """[(source, kind, parameters, number)] of the draws v depends on."""
  p = dom.canon(dom.obs(dom.norm(v), dt), q)
  out = set()
  for a in p.all_atoms():
    m = NAME.match(str(a.op)) if not a.args else None
    if m:
      out.add(m.groups())
  return out


def opaque(dom, v, q, dt):
  p = dom.canon(dom.obs(dom.norm(v), dt), q)
  return any(a.args for a in p.all_atoms())


def part(dom, a, mods, dt='uint64'):
  """cells (N, limbs) -> per limb, per cell sets of draws."""
  return [[draws(dom, a[k, i], q, dt) for k in range(a.shape[0])]
          for i, q in enumerate(mods)]


def kinds(s, kind):
  if kind == 'u':  # a uniform residue
    return {d for d in s if d[1] == 'u' and d[2] not in ('0:1',)}
  if kind == 't':  # a small uniform one
    return {d for d in s if d[1] == 'u' and d[2] == '0:1'}
  return {d for d in s if d[1] == 'g'}


def judge_fresh(parts, n):
  """parts: list of (label, kind, per-limb per-cell draw sets).

  Every part must have draws of its kind that no other part of that kind uses:
  all of its cells depend on them, at least n of them per limb.
  """
  own = {}
  for j, (l, kind, ls) in enumerate(parts):
    for cs in ls:
      for s in cs:
        for d in kinds(s, kind):
          own.setdefault((kind, d), set()).add(j)
  for j, (l, kind, ls) in enumerate(parts):
    what = {'u': 'uniform', 't': 'small', 'g': 'noise'}[kind]
    for i, cs in enumerate(ls):
      mine = [{d for d in kinds(s, kind) if own[kind, d] == {j}} for s in cs]
      if all(mine) and len(set.union(*mine)) >= n:
        sys_ = {d[0] for d in set.union(*mine)}
        if sys_ != {'system'}:
          return f'{l}, limb {i}: drawn from {sorted(sys_)[0]}'
        continue
      bad = [k for k, m in enumerate(mine) if not m]
      if bad:
        have = kinds(cs[bad[0]], kind)
        if not have:
          return f'{l}, limb {i}, position {bad[0]}: contains no {what} draw'
        o = {x for d in have for x in own[kind, d]} - {j}
        return (f'{l}, limb {i}, position {bad[0]}: its {what} draws are also used '
                f'in {parts[min(o)][0]}' if o else f'{l}: {what} draw')
      return f'{l}, limb {i}: only {len(set.union(*mine))} {what} draws for {n} coefficients'


def indep_limbs(parts):
  """uniform draws of different limbs of one part are different draws."""
  for l, kind, ls in parts:
    if kind != 'u':
      continue
    seen = {}
    for i, cs in enumerate(ls):
      for s in cs:
        for d in kinds(s, 'u'):
          if seen.setdefault(d, i) != i:
            return f'{l}: limbs {seen[d]} and {i} share a uniform draw'


def pairs_of(dom, it, label, b, a, mods):
  b, a = sarr.as_arr(b), sarr.as_arr(a)
  out = []
  if a.ndim == 2:
    a = SArr((1,) + tuple(a.shape), a.data[None], a.dtype, a.lib)
    b = SArr((1,) + tuple(b.shape), b.data[None], b.dtype, b.lib)
  for p in range(a.shape[0]):
    out.append((f'{label} part {p} a', 'u', part(dom, a.data[p], mods, a.dtype)))
    out.append((f'{label} part {p} b', 'g', part(dom, b.data[p], mods, b.dtype)))
  return out


def checks(rep):
  section(rep, 'ckks keys', key_checks, rep)
  section(rep, 'ckks encryption', enc_checks, rep)
  section(rep, 'ckks sources', source_checks, rep)


def src_args(it, mode):
  """the random source handed to an operation."""
  if mode == 'default':
    return {}
  if mode == 'none':
    return {'random_source': None}
  return {'random_source': it.call(it.get(P + 'random.SecureRandomSource'), [], {})}


def key_checks(rep):
  dom, it = setup('key_gen')

  def keygen(mods, mode, **kw):
    return it.call(it.get(P + 'key_gen.keygen'), [N, VList(list(mods))],
                   dict(src_args(it, mode), **kw))

  def pk_parts(pk, label, mods):
    d = sarr.as_arr(it.getattr_(pk, 'data'))
    return pairs_of(dom, it, label, SArr(d.shape[1:], d.data[0], d.dtype, d.lib),
                    SArr(d.shape[1:], d.data[1], d.dtype, d.lib), mods)

  for mode in ('default', 'none', 'given'):
    for mods in (Q3[:1], Q3[:2]):
      def th(mode=mode, mods=mods):
        sk = src_args(it, mode)
        return [it.call(it.get(P + 'key_gen.keygen'), [N, VList(list(mods))], dict(sk))
                for _ in range(2)]

      def judge(v, tk, mods=mods):
        parts = []
        for i, (pk, sk) in enumerate(v):
          parts += pk_parts(pk, f'public key {i}', mods)
          s = sarr.as_arr(it.getattr_(sk, 'data'))
          parts.append((f'secret key {i}', 't', part(dom, s.data, mods, s.dtype)))
        return judge_fresh(parts, N) or indep_limbs(parts)
      explore(rep, it, 'ckks-keygen', K + 'keygen', th, judge)

    qs, ps = Q3[:2], P2[:1]
    al = qs + ps

    def ksk_parts(key, label):
      return pairs_of(dom, it, label, it.getattr_(key, 'b'), it.getattr_(key, 'a'), al)

    for dnum in (1, 2):
      def th(mode=mode, dnum=dnum):
        pk, sk = keygen(qs, 'default')
        kw = src_args(it, mode)
        out = [('public key', pk)]
        for fn in ('gen_evaluation_key', 'gen_conjugate_key'):
          for i in range(2):
            out.append((f'{fn} {i}', it.call(it.get(P + 'key_gen.' + fn), [
                sk, VList(list(qs)), VList(list(ps)), dnum], dict(kw))))
        return out

      def judge(v, tk):
        parts = pk_parts(v[0][1], 'public key', qs)
        for l, k in v[1:]:
          parts += ksk_parts(k, l)
        return judge_fresh(parts, N) or indep_limbs(parts)
      explore(rep, it, 'ckks-ksk', K + 'gen_key_switching_key', th, judge)

    def mux_parts(key, label):
      out = []
      for fld in ('key0', 'key1'):
        d = sarr.as_arr(it.getattr_(it.getattr_(key, fld), 'data'))
        out += pairs_of(dom, it, f'{label} {fld}',
                        SArr(d.shape[1:], d.data[0], d.dtype, d.lib),
                        SArr(d.shape[1:], d.data[1], d.dtype, d.lib), al)
      return out

    def th(mode=mode):
      pk, sk = keygen(qs, 'default')
      kw = src_args(it, mode)
      return [(f'key bit {b} by {j}, call {i}', it.call(
          it.get(P + 'key_gen.gen_hmuxrot_key'), [
              sk, b, j, VList(list(qs)), VList(list(ps))], dict(kw)))
              for b, j in ((0, 0), (1, 1)) for i in range(2)]

    def judge(v, tk):
      parts = []
      for l, k in v:
        parts += mux_parts(k, l)
      return judge_fresh(parts, N) or indep_limbs(parts)
    explore(rep, it, 'ckks-hmuxrot', K + 'gen_hmuxrot_key', th, judge)

    for bits in ([1, 0], [0, 0, 1]):
      def th(mode=mode, bits=bits):
        pk, sk = keygen(qs, 'default')
        return it.call(it.get(P + 'key_gen.gen_mux_rotation_key'), [
            sk, VList(list(bits)), VList(list(qs)), VList(list(ps))],
            dict(src_args(it, mode)))

      def judge(v, tk):
        parts = []
        for i, pair in enumerate(it.iterate(it.getattr_(v, 'keys'), None, None)):
          for j, k in enumerate(it.iterate(pair, None, None)):
            parts += mux_parts(k, f'key {i},{j}')
        return judge_fresh(parts, N) or indep_limbs(parts)
      explore(rep, it, 'ckks-mux', K + 'gen_mux_rotation_key', th, judge)


def enc_checks(rep):
  dom, it = setup('encrypt', 'key_gen')
  where = F + 'encrypt.py:'

  def pk_of(mods):
    pd = sym_tower(dom, 'pk', (2, N), mods, 'uint64', lib='np')
    return it.call(it.get(P + 'types.PublicKey'), [pd, arr(list(mods), 'uint64', 'np')], {})

  def ct_parts(ct, label, mods):
    d = sarr.as_arr(it.getattr_(ct, 'data'))
    out = []
    for el in (0, 1):
      c = part(dom, d.data[el], mods, d.dtype)
      out.append((f'{label} element {el}', 'g', c))
    return out, [(f'{label}', 't', [[s | t for s, t in zip(a, b)]
                                    for a, b in zip(part(dom, d.data[0], mods, d.dtype),
                                                    part(dom, d.data[1], mods, d.dtype))])]

  def judge_cts(cts, mods):
    g, t = [], []
    for l, c in cts:
      x, y = ct_parts(c, l, mods)
      g += x
      t += y
    # the ephemeral key hides the message in every evaluation
    return judge_fresh(g, N) or judge_fresh(t, N)

  for mode in ('default', 'none', 'given'):
    for mods in (Q3[:1], Q3[:2]):
      def th(mode=mode, mods=mods):
        en = it.call(it.get(P + 'encrypt.Encrypt'), [pk_of(mods)], {})
        md = sym_tower(dom, 'm', (N,), mods, 'uint64')
        pt = it.call(it.get(P + 'types.Plaintext'), [md, arr(list(mods), 'uint64')], {})
        kw = src_args(it, mode)
        return [(f'encryption {i}', it.call(it.getattr_(en, 'encrypt'), [pt], dict(kw)))
                for i in range(3)]
      explore(rep, it, 'ckks-encrypt', where + 'Encrypt.encrypt', th,
              lambda v, tk, mods=mods: judge_cts(v, mods))

  # the encoder works on floats: any plaintext will do here
  def encode(itp, b, node, mod):
    md = sym_tower(dom, 'pt', (N,), Q3[:2], 'uint64')
    return it.call(it.get(P + 'types.Plaintext'), [md, arr(list(Q3[:2]), 'uint64')], {})
  dom.summaries[P + 'encode.Encode.encode'] = encode

  def th():
    ks = it.call(it.get(P + 'key_gen.gen_cm_keys'), [
        VList([0, 1]), pk_of(Q3[:2]), 1024.0], {})
    ks = sarr.as_arr(ks)
    return [(f'key {list(i)}', ks.data[i]) for i in np.ndindex(*ks.shape)]
  explore(rep, it, 'ckks-cm', K + 'gen_cm_keys', th, lambda v, tk: judge_cts(v, Q3[:2]))


def source_checks(rep):
  dom, it = setup('random')
  R = P + 'random.'
  where = F + 'random.py:'

  def sole(v, q, dt):
    """the draw v is, as a residue modulo q."""
    v = dom.obs(dom.norm(v), dt)
    r = (v, v) if isinstance(v, int) else dom.rng(v)
    if r is None:
      raise AnalysisError('residue of unknown range')
    p = dom.canon(v, q)
    at = [a for a in p.all_atoms()]
    if len(at) == 1 and not at[0].args and len(p.t) == 1:
      (m, c), = p.t.items()
      g = NAME.match(str(at[0].op))
      if g and m and m[0][1] == 1 and c == 1:
        return g.groups(), r
    if any(a.args for a in at):
      raise AnalysisError(f'{p!r:.80}')
    return None, r

  for degree, mods in ((4, Q3), (3, Q3[:1]), (2, [17, 97])):
    for meth, kw, tag in (
        ('gen_uniform_poly', {}, 'u'), ('gen_ternary_poly', {}, 't'),
        ('gen_gaussian_poly', {}, ('g', '0.0:3.19')),
        ('gen_gaussian_poly', {'sigma': 2.0}, ('g', '0.0:2.0'))):
      if isinstance(tag, tuple) and min(mods) < B:
        continue

      def th(degree=degree, mods=mods, meth=meth, kw=kw):
        out = []
        for _ in range(2):
          s = it.call(it.get(R + 'SecureRandomSource'), [], {})
          for _ in range(2):
            out.append(it.call(it.getattr_(s, meth), [degree, VList(list(mods))], dict(kw)))
        return out

      def judge(v, tk, degree=degree, mods=mods, meth=meth, tag=tag):
        seen = set()
        for a in v:
          a, e = cells(a, (degree, len(mods)))
          if e:
            return e
          for k in range(degree):
            ds = []
            for i, q in enumerate(mods):
              d, r = sole(a.data[k, i], q, a.dtype)
              if d is None:
                return f'coefficient {k}, limb {i} is not one draw of the generator'
              if r[0] < 0 or r[1] >= q:
                return f'coefficient {k}, limb {i} ranges over {r} modulo {q}'
              if d[0] != 'system':
                return f'{meth} draws from {d[0]}'
              want = (('u', f'0:{q - 1}') if tag == 'u' else ('u', '0:1')
                      if tag == 't' else tag)
              if d[1:3] != want:
                return f'{meth} modulo {q} draws {d[1:3]} instead of {want}'
              ds.append(d)
            if tag == 'u':
              if len(set(ds)) != len(ds):
                return f'{meth}: limbs of coefficient {k} share a draw'
            elif len(set(ds)) != 1:
              return f'{meth}: coefficient {k} differs between limbs'
            if seen & set(ds):
              return f'{meth}: two coefficients share a draw'
            seen |= set(ds)
      explore(rep, it, 'ckks-source', where + f'SecureRandomSource.{meth}', th, judge)

  for degree, w in ((4, 2), (4, 0), (3, 3), (4, 1)):
    for pick in itertools.permutations(range(degree), w):
      def th(degree=degree, w=w, pick=pick):
        dom.pick, dom.samples = pick, []
        s = it.call(it.get(R + 'SecureRandomSource'), [], {})
        a = it.call(it.getattr_(s, 'gen_sparse_binary'), [degree, w, VList(Q3[:2])], {})
        return a, list(dom.samples)

      def judge(v, tk, degree=degree, w=w, pick=pick):
        a, sm = v
        if [x for x in sm if x[0] != 'system']:
          return 'positions are drawn from a seeded generator'
        if sm != [('system', tuple(range(degree)), w)]:
          raise AnalysisError(f'positions drawn as {sm}')
        a, e = cells(a, (degree, 2))
        if e:
          return e
        for k in range(degree):
          for i in range(2):
            c = sarr.concrete_cell(dom.norm(a.data[k, i]))
            if c != int(k in pick):
              return f'positions {pick}: coefficient {k} is {c}'
      explore(rep, it, 'ckks-source', where + 'SecureRandomSource.gen_sparse_binary', th, judge)
