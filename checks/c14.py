"""C14: secrets stay in secret keys."""
import re

from cggi import *
from c13 import BOOL, bool_params
from report import Report
import ckks
import c09
import c16
import c17
import core

RULE = (
    'Information-flow analysis by abstract interpretation: key and plaintext '
    'bits, noise and ephemeral draws, and uniform draws are symbols of '
    'different classes. Every number reachable from a public object (server '
    'key set, bootstrapping, switching, evaluation, rotation and public keys, '
    'ciphertexts) either depends on none of the secret classes, or is hidden '
    'by a whole uniform draw, or depends on a uniform draw (or public-key '
    'residue), a secret or ephemeral draw and a noise draw at once; no secret key, plaintext or random source is '
    'reachable, and no secret-dependent value is an argument of an output '
    'call on the way.')

SINKS = ('logging.', 'absl.logging.', 'jax.debug.', 'warnings.', 'sys.stdout',
         'sys.stderr', 'pickle.', 'json.', 'np.save', 'jnp.save', 'np.savetxt',
         'os.write', 'pprint.')


class Sinks:
  """records what goes to output calls."""

  def out(self, what, args, node):
    self.__dict__.setdefault('sunk', []).append((what, list(args), node))

  def on_print(self, args, node):
    self.out('print', args, node)

  def ext_hook(self, path, args, kwargs, node, mod):
    if path.startswith(SINKS):
      self.out(path, list(args) + list(kwargs.values()), node)
      return core.Unk(f'result of {path}') if path.startswith(('json.', 'pickle.')) else None
    return super().ext_hook(path, args, kwargs, node, mod)


class CDom(Sinks, CD):
  pass


class KDom(Sinks, ckks.CkksDomain):
  pass


def walk(v, path, seen, out):
  """yields (path, kind, value): 'cell', 'source', 'inst'."""
  if isinstance(v, (Inst, VList, core.VDict, SArr, core.VSet)):
    if id(v) in seen:
      return
    seen[id(v)] = v
  if isinstance(v, Inst):
    out.append((path, 'inst', v, None))
    for n, x in v.attrs.items():
      walk(x, f'{path}.{n}', seen, out)
  elif isinstance(v, (VList, tuple, list)):
    for i, x in enumerate(v.items if isinstance(v, VList) else v):
      walk(x, f'{path}[{i}]', seen, out)
  elif isinstance(v, (core.VDict, dict)):
    d = v.d if isinstance(v, core.VDict) else v
    for k, x in d.items():
      walk(k, f'{path} key', seen, out)
      walk(x, f'{path}[{k!r:.20}]', seen, out)
  elif isinstance(v, SArr):
    for idx in np.ndindex(*v.data.shape):
      x = v.data[idx]
      if isinstance(x, (Inst, VList, tuple, core.VDict)):
        walk(x, f'{path}{list(idx)}', seen, out)
      elif not isinstance(x, (int, float, bool, str, type(None))):
        out.append((f'{path}{list(idx)}', 'cell', x, (v.dtype, idx[-1] if idx else 0)))
  elif isinstance(v, Poly):
    out.append((path, 'cell', v, (None, 0)))
  elif isinstance(v, core.Partial):
    walk(v.args, f'{path} argument', seen, out)
    walk(v.kwargs, f'{path} argument', seen, out)
  elif isinstance(v, core.Bound):
    walk(v.self_obj, f'{path} self', seen, out)
  elif isinstance(v, core.Wrapped):
    walk(getattr(v, 'func', None), path, seen, out)
  elif isinstance(v, (RngTag, c17.Source)):
    out.append((path, 'source', v, None))


def judge_public(classes, objs, dom, norm):
  """objs: [(name, value)]. classes(op) -> one of 'u', 's', 'e', 'm', 'p', ''."""
  for name, v in objs:
    out = []
    walk(v, name, {}, out)
    for path, kind, x, info in out:
      if kind == 'source':
        return f'{path} holds the random source the keys were drawn from'
      if kind != 'cell':
        continue
      e = leak(classes, path, x, info, norm)
      if e:
        return e
  for what, args, node in dom.__dict__.get('sunk', []):
    out = []
    walk(args, what, {}, out)
    for path, kind, x, info in out:
      if kind == 'source':
        continue
      if kind == 'cell':
        cs = {classes(str(a.op)) for a in norm(x, info).all_atoms() if not a.args}
        if cs & {'s', 'e', 'm', 'v'}:
          return f'a value depending on a secret is passed to {what} at line {getattr(node, "lineno", "?")}'
  return None


def leak(classes, path, x, info, norm):
  if not isinstance(x, Poly):
    return None
  p = norm(x, info)
  cs = {classes(str(a.op)) for a in p.all_atoms() if not a.args}
  if not cs & {'s', 'e', 'm', 'v'}:
    return None
  names = {'s': 'secret key', 'e': 'noise', 'm': 'plaintext', 'v': 'ephemeral key'}
  if 'e' in cs and cs & {'u', 'p'} and cs & {'s', 'v'}:
    return None
  if any(len(m) == 1 and m[0][1] == 1 and not m[0][0].args and
         classes(str(m[0][0].op)) == 'u' and isinstance(c, int) and c % 2
         for m, c in p.t.items()):
    return None  # hidden by a uniform draw
  have = ', '.join(names[c] for c in 'sevm' if c in cs)
  miss = ('noise' if 'e' not in cs else 'mask' if not cs & {'u', 'p'} else 'key')
  return f'{path} depends on {have} without a {miss}: {p!r:.80}'


def new(dom):
  dom.__dict__['sunk'] = []


# ----------------------------------------------------------------------- CGGI
def cggi_class(op):
  m = re.match(r'[a-z]+\.([use])\d', op)
  if m:
    return m.group(1)
  return 'm' if op.startswith('msg') else ''


def cnorm(x, info):
  return strip_mod(Poly.lift(x), 32)


def cggi_checks(rep):
  dom = CDom()
  it = Interp(Repo(), dom)

  def call(q, *a, **k):
    return it.call(it.get(P + q), list(a), k)

  def go(kind, where, th):
    def thunk():
      new(dom)
      return th()
    explore(rep, it, kind, where, thunk,
            lambda v, tk: judge_public(cggi_class, v, dom, cnorm))

  for n, N, k in ((2, 2, 1), (3, 4, 1), (2, 2, 2)):
    def env():
      return Env(it, dom, n=n, N=N, k=k, err=None)

    def th():
      e = env()
      return [('ciphertext', call('lwe.encrypt', sc(dom.sym('msg', 0, 2**32 - 1)),
                                  e.lwe_sk, e.rng))]
    go('lwe', 'jaxite/jaxite_cggi/lwe.py::encrypt', th)

    def th():
      e = env()
      pt = call('rlwe.RlwePlaintext', log_coefficient_modulus=32, modulus_degree=N,
                message=arr([dom.sym(f'msg{j}', 0, 2**32 - 1) for j in range(N)], 'uint32'))
      return [('ciphertext', call('rlwe.encrypt', pt, e.rlwe_sk, e.rng))]
    go('rlwe', 'jaxite/jaxite_cggi/rlwe.py::encrypt', th)

    def th():
      e = env()
      gk = call('rgsw.key_from_rlwe', e.rlwe_sk)
      pt = call('rgsw.RgswPlaintext', modulus_degree=N, message=sc(dom.sym('msg', 0, 1)))
      return [('ciphertext', call('rgsw.encrypt', pt, gk, e.dp, e.rng))]
    go('rgsw', 'jaxite/jaxite_cggi/rgsw.py::encrypt', th)

    def th():
      e = env()
      return [('key-switching key', call(
          'key_switch.gen_key', e.dp, e.rng, call('rlwe.flatten_key', e.rlwe_sk), e.lwe_sk))]
    go('ksk', 'jaxite/jaxite_cggi/key_switch.py::gen_key', th)

    if N == 2:
      for bmmp in (True, False):
        def th():
          e = env()
          gk = call('rgsw.key_from_rlwe', e.rlwe_sk)
          return [('bootstrapping key', call('bootstrap.gen_bootstrapping_key', e.lwe_sk, gk,
                                             e.dp, e.rng, use_bmmp=bmmp))]
        go('bsk', 'jaxite/jaxite_cggi/bootstrap.py::gen_bootstrapping_key', th)

  for same in (True, False):
    def th():
      p = bool_params(it, 2, 16, 1)
      a = RngTag('lw', dom)
      b = a if same else RngTag('rl', dom)
      c = it.call(it.get(BOOL + 'ClientKeySet'), [p, a, b], {})
      s = it.call(it.get(BOOL + 'ServerKeySet'), [c, p, a, b], {})
      cts = [it.call(it.get(BOOL + 'encrypt'), [v, c, a], {}) for v in (True, False)]
      return [('server key set', s), ('parameters', p)] + [
          (f'ciphertext of {v}', x) for v, x in zip((True, False), cts)]
    go('server', 'jaxite/jaxite_bool/jaxite_bool.py::ServerKeySet', th)


# ----------------------------------------------------------------------- CKKS
def ckks_class(op):
  m = re.match(r'r([uetb])\d', op)
  if m:
    return {'u': 'u', 'e': 'e', 't': 's', 'b': 's'}[m.group(1)]
  if re.match(r's_\d', op):
    return 's'
  if op.startswith('pk'):
    return 'p'
  return 'm' if op.startswith('msg') else ''


def ckks_checks(rep):
  dom = KDom()
  it = Interp(Repo(), dom)
  PK = c09.P
  dom.importing(it, PK + 'encrypt', PK + 'key_gen')
  ref = c17.KeyRef(dom, it)
  N, Q3, P2 = c16.N, c16.Q3, c16.P2
  K = c17.K

  def norm(x, info):
    # residues: the class modulo an odd prime drops nothing but multiples of it
    q = None
    p = dom.norm(x)
    if not isinstance(p, Poly):
      return Poly.lift(p)
    mods = info_mods[0]
    if info[0] and mods and info[1] < len(mods):
      q = mods[info[1]]
      try:
        return dom.canon(dom.obs(p, info[0]), q)
      except AnalysisError:
        pass
    return p
  info_mods = [None]

  def go(kind, where, mods, th):
    def thunk():
      new(dom)
      return th()

    def judge(v, tk):
      info_mods[0] = mods
      return judge_public(ckks_class, v, dom, norm)
    explore(rep, it, kind, where, thunk, judge)

  def vl(x):
    return VList(list(x))

  for mods, hw in ((Q3[:1], None), (Q3[:2], None), (Q3[:2], 2)):
    def th():
      kw = {} if hw is None else {'hamming_weight': hw}
      pk, sk = it.call(it.get(PK + 'key_gen.keygen'), [N, vl(mods), c17.Source(dom)], kw)
      return [('public key', pk)]
    go('keygen', K + 'keygen', mods, th)

  for qs, ps, dnum in ((Q3[:2], P2[:1], 1), (Q3[:2], P2[:1], 2), (Q3, P2, 2)):
    for fn in ('gen_evaluation_key', 'gen_conjugate_key'):
      def th():
        src = c17.Source(dom)
        sk, s = ref.secret('s', qs)
        return [(fn[4:], it.call(it.get(PK + 'key_gen.' + fn), [
            sk, vl(qs), vl(ps), dnum, src], {}))]
      go('ksk', K + fn, qs + ps, th)

    for b, j in ((0, 1), (1, 1)):
      def th():
        src = c17.Source(dom)
        sk, s = ref.secret('s', qs)
        return [('rotation key', it.call(it.get(PK + 'key_gen.gen_hmuxrot_key'), [
            sk, b, j, vl(qs), vl(ps), src], {}))]
      go('hmuxrot', K + 'gen_hmuxrot_key', qs + ps, th)

  qs, ps = Q3[:2], P2[:1]

  def th():
    src = c17.Source(dom)
    sk, s = ref.secret('s', qs)
    return [('rotation keys', it.call(it.get(PK + 'key_gen.gen_mux_rotation_key'), [
        sk, vl([1, 0]), vl(qs), vl(ps)], dict(random_source=src)))]
  go('mux', K + 'gen_mux_rotation_key', qs + ps, th)

  for mods in (Q3[:1], Q3[:2]):
    def th():
      src = c17.Source(dom)
      pd = ckks.sym_tower(dom, 'pk', (2, N), mods, 'uint64', lib='np')
      pk = it.call(it.get(PK + 'types.PublicKey'), [pd, arr(list(mods), 'uint64', 'np')], {})
      md = ckks.sym_tower(dom, 'msg', (N,), mods, 'uint64')
      pt = it.call(it.get(PK + 'types.Plaintext'), [md, arr(list(mods), 'uint64')], {})
      en = it.call(it.get(PK + 'encrypt.Encrypt'), [pk], {})
      return [('ciphertext', it.call(it.getattr_(en, 'encrypt'), [pt, src], {})),
              ('encryptor', en)]
    go('encrypt', c09.F + 'encrypt.py:Encrypt.encrypt', mods, th)

    def th():
      sk, s = ref.secret('s', mods)
      cd = ckks.sym_tower(dom, 'c', (2, N), mods, 'uint64')
      ct = it.call(it.get(PK + 'types.Ciphertext'), [cd, arr(list(mods), 'uint64')], {})
      de = it.call(it.get(PK + 'encrypt.Decrypt'), [sk], {})
      it.call(it.getattr_(de, 'decrypt'), [ct], {})
      return [('ciphertext after decryption', ct)]
    go('decrypt', c09.F + 'encrypt.py:Decrypt.decrypt', mods, th)


def run(tier):
  rep = Report('C14', RULE, tier)
  section(rep, 'cggi', cggi_checks, rep)
  section(rep, 'ckks', ckks_checks, rep)
  return finish(rep)
