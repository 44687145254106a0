"""C17: jaxite_ckks keys, encryption and decryption."""
from ckks import *
from c09 import F, P, cells, fresh
from c16 import Ref, N, Q3, P2, limbs_of, moduli_are
from c15 import points_of
from common import *
from report import Report

RULE = (
    'Abstract interpretation of key generation, encryption and decryption '
    'over symbolic draws of the random source (uniform residues, small '
    'integers, bits) and symbolic keys and plaintexts: every generated pair '
    '(b, a) satisfies b + a s = e + payload modulo every modulus for a noise '
    'draw e and the payload of the operation, as residue classes for all '
    'draws; decryption returns the coefficients of c0 + c1 s.')

P3 = P2 + [754974721]
K = F + 'key_gen.py:'
B = 40  # noise draws range over [-B, B]


class Source(AbsVal):
  """A random source whose draws are symbols."""

  def __init__(self, dom, name='r'):
    self.dom, self.name = dom, name
    self.draws = []  # (kind, polynomial: list of N integer expressions or
                     #  limb lists, moduli)

  def abs_truth(self):
    return True

  def out(self, rows, mods):
    d = sarr.obj((len(rows[0]), len(mods)))
    for i in range(len(mods)):
      for k in range(len(rows[0])):
        d[k, i] = rows[i][k]
    return SArr(d.shape, d, 'uint64', 'np')

  def abs_getattr(self, interp, name, node):
    dom = self.dom

    def mods_of(v):
      return [int(sarr.concrete_cell(dom.norm(m))) for m in interp.iterate(v, None, None)]

    def argsof(a, k, names):
      d = dict(zip(names, a))
      d.update(k)
      return d

    def small(kind, lo, hi):
      def f(it, a, k, n):
        d = argsof(a, k, ('degree', 'moduli', 'sigma'))
        mods = mods_of(d['moduli'])
        i = len(self.draws)
        cs = [dom.sym(f'{self.name}{kind}{i}_{j}', lo, hi) for j in range(int(d['degree']))]
        self.draws.append((kind, cs, mods))
        return self.out([[dom.rem(c, q) for c in cs] for q in mods], mods)
      return Native(name, f)

    if name == 'gen_gaussian_poly':
      return small('e', -B, B)
    if name == 'gen_ternary_poly':
      return small('t', 0, 1)
    if name == 'gen_uniform_poly':
      def f(it, a, k, n):
        d = argsof(a, k, ('degree', 'moduli'))
        mods = mods_of(d['moduli'])
        i = len(self.draws)
        rows = [[dom.sym(f'{self.name}u{i}_{m}_{j}', 0, q - 1)
                 for j in range(int(d['degree']))] for m, q in enumerate(mods)]
        self.draws.append(('u', rows, mods))
        return self.out(rows, mods)
      return Native(name, f)
    if name == 'gen_sparse_binary':
      def f(it, a, k, n):
        d = argsof(a, k, ('degree', 'weight', 'moduli'))
        mods = mods_of(d['moduli'])
        i = len(self.draws)
        cs = [dom.sym(f'{self.name}b{i}_{j}', 0, 1) for j in range(int(d['degree']))]
        self.draws.append(('b', cs, mods, d['weight']))
        return self.out([[dom.rem(c, q) for c in cs] for q in mods], mods)
      return Native(name, f)
    raise AnalysisError(f'random source attribute {name}', node)

  def polys(self, kind):
    return [d for d in self.draws if d[0] == kind]


class KeyRef(Ref):

  def points(self, q, n=N, r=2, c=2):
    if (n, q) not in self.pts:
      a = sym_tower(self.dom, 'pt', (n,), [q], 'uint64', lib='np')
      o = sarr.as_arr(self.it.call(self.it.get(P + 'ntt_cpu.ntt_negacyclic_poly'),
                                   [a, VList([q])], {}))
      ps = points_of(self.dom, [self.dom.norm(v) for v in o.data.reshape(-1)],
                     list(a.data.reshape(-1)), q)
      if len(set(ps)) != n or any(pow(p, n, q) != q - 1 for p in ps):
        raise AnalysisError(f'evaluation points modulo {q} not recognised')
      self.pts[n, q] = ps
    return self.pts[n, q]

  def secret(self, name, mods):
    """A generated secret key: coefficients and evaluation cells."""
    dom = self.dom
    cs = [dom.sym(f'{name}_{j}', 0, 1) for j in range(N)]
    d = sarr.obj((N, len(mods)))
    for i, q in enumerate(mods):
      for k, v in enumerate(self.ev(cs, q)):
        d[k, i] = v
    it = self.it
    sk = it.call(it.get(P + 'types.SecretKey'), [
        SArr(d.shape, d, 'uint64', 'np'), arr(list(mods), 'uint64', 'np')], {})
    return sk, cs

  def noise(self, diff, src, mods, kinds=('e',)):
    """Match evaluation residues diff[i][k] with one small draw of the source.

    None when diff is exactly the transform of a noise draw; otherwise a
    description of the difference with the closest draw.
    """
    dom = self.dom
    errs, und = [], None
    for d in src.draws:
      if d[0] not in kinds:
        continue
      e = None
      for i, q in enumerate(mods):
        want = self.ev(d[1], q)
        for k in range(N):
          try:
            e = congruent(dom, diff[i][k], want[k], q, canonical=False)
          except AnalysisError as ex:
            und = ex
            e = str(ex)
          if e:
            e = f'limb {i}, evaluation {k}: {e}'
            break
        if e:
          break
      if e is None:
        return None
      errs.append(e)
    if und is not None:
      raise und
    if not errs:
      return 'no noise was drawn'
    return errs[-1]

  def phase(self, b, a, s, mods):
    """b + a s as limb lists; b, a: cells (N, limbs), s: coefficients."""
    out = []
    for i, q in enumerate(mods):
      sv = self.ev(s, q)
      out.append([self.add(b[k, i], self.mul(a[k, i], sv[k], q)) for k in range(N)])
    return out

  def minus(self, x, y, mods):
    return [[self.comb([1, -1], [u, v], q) for u, v in zip(a, b)]
            for a, b, q in zip(x, y, mods)]


def residues_ok(dom, a, mods, what):
  """every cell is shown to be a canonical residue."""
  for idx in np.ndindex(*a.data.shape):
    q = mods[idx[-1]]
    v = dom.obs(dom.norm(a.data[idx]), a.dtype)
    r = (v, v) if isinstance(v, int) else dom.rng(v)
    if r is None or r[0] < 0 or r[1] >= q:
      raise AnalysisError(f'{what}: residue range {r} modulo {q}')


def observe(dom, a):
  a = sarr.as_arr(a)
  d = sarr.obj(a.shape)
  for idx in np.ndindex(*a.shape):
    d[idx] = dom.obs(dom.norm(a.data[idx]), a.dtype)
  return SArr(a.shape, d, a.dtype, a.lib)


def uniform_part(ref, a, src, mods, used):
  """a is the transform of (or) a fresh uniform draw."""
  for i, d in enumerate(src.draws):
    if d[0] != 'u' or i in used:
      continue
    ok = True
    for m, q in enumerate(mods):
      want = ref.ev(d[1][m], q)
      if any(ref.dom.canon(a[k, m], q) != ref.dom.canon(want[k], q) for k in range(N)):
        if any(ref.dom.canon(a[k, m], q) != ref.dom.canon(d[1][m][k], q) for k in range(N)):
          ok = False
          break
    if ok:
      used.add(i)
      return None
  return 'the public component is not a uniform draw of its own'


def keygen_checks(rep):
  dom, it = fresh('key_gen')
  ref = KeyRef(dom, it)
  for mods, hw in ((Q3[:1], None), (Q3, None), (Q3[:2], 2), (Q3[:2], 0)):
    def th(mods=mods, hw=hw):
      src = Source(dom)
      kw = {} if hw is None else {'hamming_weight': hw}
      return it.call(it.get(P + 'key_gen.keygen'), [N, VList(list(mods)), src], kw), src

    def judge(v, tk, mods=mods, hw=hw):
      (pk, sk), src = v
      pd, e = cells(it.getattr_(pk, 'data'), (2, N, len(mods)))
      if e:
        return f'public key: {e}'
      sd, e = cells(it.getattr_(sk, 'data'), (N, len(mods)))
      if e:
        return f'secret key: {e}'
      for o, w in ((pk, 'public key'), (sk, 'secret key')):
        e = moduli_are(dom, it.getattr_(o, 'moduli'), mods)
        if e:
          return f'{w}: {e}'
      pd, sd = observe(dom, pd), observe(dom, sd)
      kind = 't' if hw is None else 'b'
      s = None
      for d in src.polys(kind):
        e = None
        for i, q in enumerate(mods):
          for k, w in enumerate(ref.ev(d[1], q)):
            e = e or congruent(dom, sd.data[k, i], w, q)
        if e is None:
          s = d
      if s is None:
        return (f'the secret key is not the transform of a small draw'
                if src.polys(kind) else 'the secret key is not drawn small')
      if hw is not None and s[3] != hw:
        return f'weight {hw} asked for, {s[3]} drawn'
      e = uniform_part(ref, pd.data[1], src, mods, set())
      if e:
        return e
      residues_ok(dom, pd, mods, 'public key')
      ph = ref.phase(pd.data[0], pd.data[1], s[1], mods)
      e = ref.noise(ph, src, mods)
      if e:
        return f'public key phase is not a noise draw: {e}'
    explore(rep, it, 'keygen', K + 'keygen', th, judge)

  for mods, ext in ((Q3[:1], Q3), (Q3[:2], Q3[:2] + P2), (Q3[:2], Q3[:2])):
    def th(mods=mods, ext=ext):
      sk, s = ref.secret('s', mods)
      return it.call(it.get(P + 'key_gen.extend_secret_key'), [sk, VList(list(ext))], {}), s

    def judge(v, tk, ext=ext):
      sk, s = v
      d, e = cells(it.getattr_(sk, 'data'), (N, len(ext)))
      if e:
        return e
      e = moduli_are(dom, it.getattr_(sk, 'moduli'), ext)
      if e:
        return e
      for i, q in enumerate(ext):
        for k, w in enumerate(ref.ev(s, q)):
          e = congruent(dom, d.data[k, i], w, q, d.dtype)
          if e:
            return f'secret key modulo {q}, evaluation {k}: {e}'
    explore(rep, it, 'extend', K + 'extend_secret_key', th, judge)

  for mods, ext in ((Q3[:2], [Q3[0], Q3[2], Q3[1]]), (Q3[:2], Q3[:1] + P2),
                    (Q3[:2], [Q3[1], Q3[0]])):
    def th(mods=mods, ext=ext):
      sk, s = ref.secret('s', mods)
      return it.call(it.get(P + 'key_gen.extend_secret_key'), [sk, VList(list(ext))], {})
    explore(rep, it, 'extend', K + 'extend_secret_key', th,
            lambda v, tk, mods=mods, ext=ext: f'extends a key over {mods} to {ext}',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')


def judge_ksk(ref, it, key, src, s, payload, qs, ps, dnum, what, used, stacked=True):
  """key.a, key.b (parts, N, limbs); payload[i][k] residues modulo qs[i]."""
  dom = ref.dom
  al = qs + ps
  a, e = cells(it.getattr_(key, 'a'), (dnum, N, len(al)))
  if e:
    return f'{what}: {e}'
  b, e = cells(it.getattr_(key, 'b'), (dnum, N, len(al)))
  if e:
    return f'{what}: {e}'
  e = moduli_are(dom, it.getattr_(key, 'moduli'), al)
  if e:
    return f'{what}: {e}'
  a, b = observe(dom, a), observe(dom, b)
  per = -(-len(qs) // dnum)
  pv = math.prod(ps)
  for part in range(dnum):
    pay = [[0] * N for _ in al]
    for i in range(part * per, min((part + 1) * per, len(qs))):
      pay[i] = [ref.comb([pv], [x], qs[i]) for x in payload[i]]
    e = judge_pair(ref, b.data[part], a.data[part], src, s, pay, al, f'{what}, part {part}', used)
    if e:
      return e
  residues_ok(dom, a, al, what)
  residues_ok(dom, b, al, what)


def judge_pair(ref, b, a, src, s, pay, mods, what, used):
  e = uniform_part(ref, a, src, mods, used)
  ph = ref.minus(ref.phase(b, a, s, mods), pay, mods)
  f = ref.noise(ph, src, mods)
  if f:
    return f'{what}: b + a s minus the payload is no noise draw: {f}'
  if e:
    return f'{what}: {e}'


KS = [(Q3, P2[:1], 1), (Q3, P2[:1], 3), (Q3, P2, 2), (Q3[:2], P3, 2), (Q3[:1], P2[:1], 1),
      (Q3, P2[:1], 4)]


def ksk_checks(rep):
  dom, it = fresh('key_gen')
  ref = KeyRef(dom, it)
  for qs, ps, dnum in KS:
    for ext in (False, True):
      def th(qs=qs, ps=ps, dnum=dnum, ext=ext):
        src = Source(dom)
        sk, s = ref.secret('s', qs)
        d = sym_tower(dom, 'k', (N,), qs, 'uint64', lib='np')
        so = it.call(it.get(P + 'types.SecretKey'), [d, arr(list(qs), 'uint64', 'np')], {})
        kw = dict(source_key=so, dest_key=sk, q_limbs=VList(list(qs)),
                  p_limbs=VList(list(ps)), dnum=dnum, random_source=src)
        if ext:
          kw['dest_key_ext'] = it.call(it.get(P + 'key_gen.extend_secret_key'), [
              sk, VList(qs + ps)], {})
        return it.call(it.get(P + 'key_gen.gen_key_switching_key'), [], kw), src, s, d

      def judge(v, tk, qs=qs, ps=ps, dnum=dnum):
        key, src, s, d = v
        return judge_ksk(ref, it, key, src, s, limbs_of(d.data, None), qs, ps, dnum,
                         f'key-switching key over {qs} + {ps}', set())
      explore(rep, it, 'ksk', K + 'gen_key_switching_key', th, judge)

    for fn, what in (('gen_evaluation_key', 's^2'), ('gen_conjugate_key', 's(1/X)')):
      def th(fn=fn, qs=qs, ps=ps, dnum=dnum):
        src = Source(dom)
        sk, s = ref.secret('s', qs)
        return it.call(it.get(P + 'key_gen.' + fn), [
            sk, VList(list(qs)), VList(list(ps)), dnum, src], {}), src, s

      def judge(v, tk, fn=fn, what=what, qs=qs, ps=ps, dnum=dnum):
        key, src, s = v
        pay = []
        for q in qs:
          e = ref.ev(s, q)
          if fn == 'gen_evaluation_key':
            pay.append([ref.mul(x, x, q) for x in e])
          else:
            pts = ref.points(q)
            pay.append([e[pts.index(pow(p, -1, q))] for p in pts])
        return judge_ksk(ref, it, key, src, s, pay, qs, ps, dnum,
                         f'{what} key over {qs} + {ps}', set())
      explore(rep, it, 'ksk', K + fn, th, judge)


def rotate(ref, s, q, j):
  g = pow(5, -j, 2 * N)
  pts, e = ref.points(q), ref.ev(s, q)
  return [e[pts.index(pow(p, g, q))] for p in pts]


def judge_hmux(ref, it, key, src, s, beta, j, qs, ps, what, used):
  dom = ref.dom
  al = qs + ps
  pv = math.prod(ps)
  for fld, pay in (
      ('key0', [[ref.comb([pv * beta], [x], q) for x in rotate(ref, s, q, j)]
                if i < len(qs) else [0] * N for i, q in enumerate(al)]),
      ('key1', [[pv * beta % q] * N for q in al])):
    ct = it.getattr_(key, fld)
    d, e = cells(it.getattr_(ct, 'data'), (2, N, len(al)))
    if e:
      return f'{what} {fld}: {e}'
    e = moduli_are(dom, it.getattr_(ct, 'moduli'), al)
    if e:
      return f'{what} {fld}: {e}'
    d = observe(dom, d)
    e = judge_pair(ref, d.data[0], d.data[1], src, s, pay, al, f'{what} {fld}', used)
    if e:
      return e
    residues_ok(dom, d, al, what)


def hmux_checks(rep):
  dom, it = fresh('key_gen')
  ref = KeyRef(dom, it)
  for qs, ps in ((Q3[:2], P2[:1]), (Q3[:1], P2), (Q3[:2], P3)):
    for beta, j in ((0, 0), (1, 0), (1, 1), (1, 3), (0, 2)):
      def th(qs=qs, ps=ps, beta=beta, j=j):
        src = Source(dom)
        sk, s = ref.secret('s', qs)
        kw = {}
        if j == 1:
          kw['sk_ext'] = it.call(it.get(P + 'key_gen.extend_secret_key'), [
              sk, VList(qs + ps)], {})
        return it.call(it.get(P + 'key_gen.gen_hmuxrot_key'), [
            sk, beta, j, VList(list(qs)), VList(list(ps)), src], kw), src, s

      def judge(v, tk, qs=qs, ps=ps, beta=beta, j=j):
        key, src, s = v
        return judge_hmux(ref, it, key, src, s, beta, j, qs, ps,
                          f'rotation key (bit {beta}, by {j}) over {qs} + {ps}', set())
      explore(rep, it, 'hmuxrot-key', K + 'gen_hmuxrot_key', th, judge)

  qs, ps = Q3[:2], P2[:1]
  for bits, stride in (([1], 1), ([0, 1], 1), ([1, 0], 2), ([1, 1, 0], 1)):
    def th(bits=bits, stride=stride):
      src = Source(dom)
      sk, s = ref.secret('s', qs)
      return it.call(it.get(P + 'key_gen.gen_mux_rotation_key'), [
          sk, VList(list(bits)), VList(list(qs)), VList(list(ps))],
          dict(stride=stride, random_source=src)), src, s

    def judge(v, tk, bits=bits, stride=stride):
      key, src, s = v
      ks = list(it.iterate(it.getattr_(key, 'keys'), None, None))
      if len(ks) != len(bits):
        return f'{len(ks)} key pairs for {len(bits)} bits'
      used = set()
      for i, (pair, bit) in enumerate(zip(ks, bits)):
        k0, k1 = list(it.iterate(pair, None, None))
        for k, be, j in ((k0, bit, 2**i * stride), (k1, 1 - bit, 0)):
          e = judge_hmux(ref, it, k, src, s, be, j, qs, ps,
                         f'bits {bits}, stride {stride}: key {i} (bit {be}, by {j})', used)
          if e:
            return e
    explore(rep, it, 'mux-key', K + 'gen_mux_rotation_key', th, judge)


def encrypt_checks(rep):
  dom, it = fresh('encrypt')
  ref = KeyRef(dom, it)
  where = F + 'encrypt.py:'
  for pkm, ptm in ((Q3, Q3), (Q3, Q3[:2]), (Q3[:2], Q3[:1]), (Q3[:1], Q3[:1])):
    for pdt in ('uint32', 'uint64'):
      def th(pkm=pkm, ptm=ptm, pdt=pdt):
        src = Source(dom)
        pd = sym_tower(dom, 'pk', (2, N), pkm, 'uint64', lib='np')
        pk = it.call(it.get(P + 'types.PublicKey'), [pd, arr(list(pkm), 'uint64', 'np')], {})
        md = sym_tower(dom, 'm', (N,), ptm, pdt)
        pt = it.call(it.get(P + 'types.Plaintext'), [md, arr(list(ptm), pdt)], {})
        en = it.call(it.get(P + 'encrypt.Encrypt'), [pk], {})
        return it.call(it.getattr_(en, 'encrypt'), [pt, src], {}), src, pd, md

      def judge(v, tk, ptm=ptm):
        ct, src, pd, md = v
        d, e = cells(it.getattr_(ct, 'data'), (2, N, len(ptm)), 'uint32')
        if e:
          return e
        e = moduli_are(dom, it.getattr_(ct, 'moduli'), ptm)
        if e:
          return e
        d = observe(dom, d)
        vs = src.polys('t')
        if not vs:
          return 'no ephemeral key is drawn'
        errs = []
        for vd in vs:
          diff = [[], []]
          for i, q in enumerate(ptm):
            ve = ref.ev(vd[1], q)
            for el in (0, 1):
              diff[el].append([ref.comb(
                  [1, -1] + [-1] * (el == 0),
                  [d.data[el, k, i], ref.mul(ve[k], pd.data[el, k, i], q)]
                  + [md.data[k, i]] * (el == 0), q) for k in range(N)])
          e = [ref.noise(x, src, ptm) for x in diff]
          if e == [None, None]:
            residues_ok(dom, d, ptm, 'ciphertext')
            return None
          errs.append(e)
        i = 0 if errs[-1][0] else 1
        return (f'element {i} is not ephemeral key times public key '
                f'{"plus the plaintext " if i == 0 else ""}plus a noise draw: {errs[-1][i]}')
      explore(rep, it, 'encrypt', where + 'Encrypt.encrypt', th, judge)

  for pkm, ptm in ((Q3[:2], [Q3[1]]), (Q3[:2], [Q3[0], Q3[2]]), (Q3, [Q3[1], Q3[0]])):
    def th(pkm=pkm, ptm=ptm):
      src = Source(dom)
      pd = sym_tower(dom, 'pk', (2, N), pkm, 'uint64', lib='np')
      pk = it.call(it.get(P + 'types.PublicKey'), [pd, arr(list(pkm), 'uint64', 'np')], {})
      md = sym_tower(dom, 'm', (N,), ptm, 'uint32')
      pt = it.call(it.get(P + 'types.Plaintext'), [md, arr(list(ptm), 'uint32')], {})
      en = it.call(it.get(P + 'encrypt.Encrypt'), [pk], {})
      return it.call(it.getattr_(en, 'encrypt'), [pt, src], {})
    explore(rep, it, 'encrypt', where + 'Encrypt.encrypt', th,
            lambda v, tk, pkm=pkm, ptm=ptm: f'encrypts over {ptm} under a key over {pkm}',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')

    def th(pkm=pkm, ptm=ptm):
      sd = sym_tower(dom, 's', (N,), pkm, 'uint64', lib='np')
      sk = it.call(it.get(P + 'types.SecretKey'), [sd, arr(list(pkm), 'uint64', 'np')], {})
      cd = sym_tower(dom, 'c', (2, N), ptm, 'uint32')
      ct = it.call(it.get(P + 'types.Ciphertext'), [cd, arr(list(ptm), 'uint32')], {})
      de = it.call(it.get(P + 'encrypt.Decrypt'), [sk], {})
      return it.call(it.getattr_(de, 'decrypt'), [ct], {})
    explore(rep, it, 'decrypt', where + 'Decrypt.decrypt', th,
            lambda v, tk, pkm=pkm, ptm=ptm: f'decrypts over {ptm} under a key over {pkm}',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')

  for skm, ctm in ((Q3, Q3), (Q3, Q3[:2]), (Q3[:2], Q3[:1]), (Q3[:1], Q3[:1])):
    for cdt in ('uint32', 'uint64'):
      def th(skm=skm, ctm=ctm, cdt=cdt):
        sd = sym_tower(dom, 's', (N,), skm, 'uint64', lib='np')
        sk = it.call(it.get(P + 'types.SecretKey'), [sd, arr(list(skm), 'uint64', 'np')], {})
        cd = sym_tower(dom, 'c', (2, N), ctm, cdt)
        ct = it.call(it.get(P + 'types.Ciphertext'), [cd, arr(list(ctm), cdt)], {})
        de = it.call(it.get(P + 'encrypt.Decrypt'), [sk], {})
        return it.call(it.getattr_(de, 'decrypt'), [ct], {}), sd, cd

      def judge(v, tk, ctm=ctm):
        pt, sd, cd = v
        d, e = cells(it.getattr_(pt, 'data'), (N, len(ctm)), 'uint32')
        if e:
          return e
        e = moduli_are(dom, it.getattr_(pt, 'moduli'), ctm)
        if e:
          return e
        for i, q in enumerate(ctm):
          ph = [ref.add(cd.data[0, k, i], ref.mul(cd.data[1, k, i], sd.data[k, i], q))
                for k in range(N)]
          for k, w in enumerate(ref.coeffs(ph, q)):
            e = congruent(dom, d.data[k, i], w, q, 'uint32')
            if e:
              return f'coefficient {k} modulo {q}: {e}'
      explore(rep, it, 'decrypt', where + 'Decrypt.decrypt', th, judge)


def run(tier):
  rep = Report('C17', RULE, tier)
  for f in (keygen_checks, ksk_checks, hmux_checks, encrypt_checks):
    section(rep, f.__name__, f, rep)
  return finish(rep)
