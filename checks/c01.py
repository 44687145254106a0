"""C01: Boolean gates and look-up tables compute the named function."""
from common import *
from moddom import ModDomain

Q = 'jaxite.jaxite_bool.jaxite_bool.'
GATES = {
    'and_': lambda x, y: x & y,
    'andny_': lambda x, y: (1 - x) & y,
    'andyn_': lambda x, y: x & (1 - y),
    'nand_': lambda x, y: 1 - (x & y),
    'or_': lambda x, y: x | y,
    'orny_': lambda x, y: (1 - x) | y,
    'oryn_': lambda x, y: x | (1 - y),
    'nor_': lambda x, y: 1 - (x | y),
    'xor_': lambda x, y: x ^ y,
    'xnor_': lambda x, y: 1 - (x ^ y),
}
RULE = (
    'Abstract interpretation of every public Boolean operation. A ciphertext '
    'is a vector of symbols; linear operations are kept as linear forms, a '
    'bootstrap is summarised by (linear form of its input, test polynomial '
    'constant-propagated out of the LUT code, keys and parameters by object '
    'identity). For every operation: on each input row of the truth table the '
    'phase addresses a block of the test polynomial (over the whole noise '
    'window of the block) holding the canonical encoding of the specified '
    'output bit, and the bootstrap uses the key-switching/bootstrapping keys '
    'and parameters of the given key set.')


class D(ModDomain):

  def __init__(self):
    super().__init__()
    self.boots = []
    P = 'jaxite.jaxite_cggi.'
    self.summaries[P + 'bootstrap.bootstrap'] = self.s_boot
    self.summaries[P + 'bootstrap.jit_bootstrap'] = self.s_boot
    self.summaries[P + 'bootstrap.gen_bootstrapping_key'] = self.s_bsk
    self.summaries[P + 'key_switch.gen_key'] = self.s_ksk
    self.summaries[P + 'jax_helpers.get_tpu_version'] = lambda *a: -1

  def s_bsk(self, it, b, node, mod):
    c = it.get('jaxite.jaxite_cggi.bootstrap.BootstrappingKey')
    return Inst(c, {'encrypted_lwe_sk_bits': Tag('bsk-data', src=b),
                    'use_bmmp': b.get('use_bmmp', True),
                    'use_bat': b.get('use_bat', False)})

  def s_ksk(self, it, b, node, mod):
    c = it.get('jaxite.jaxite_cggi.key_switch.LweKeySwitchingKey')
    return Inst(c, {'key_data': Tag('ksk-data', src=b)})

  def s_boot(self, it, b, node, mod):
    names = list(b)
    tp = b.get('test_poly_ciphertext', b.get('test_poly_ciphertext_message'))
    if isinstance(tp, Inst):
      tp = tp.attrs.get('message')
    bsk = b.get('bsk', b.get('bsk_encrypted_lwe_sk_bits'))
    if isinstance(bsk, Inst):
      bsk = bsk.attrs.get('encrypted_lwe_sk_bits')
    ksk = b.get('ksk', b.get('ksk_key_data'))
    if isinstance(ksk, Inst):
      ksk = ksk.attrs.get('key_data')
    ct = b['ciphertext']
    if not isinstance(ct, SArr) or not isinstance(tp, SArr):
      raise AnalysisError('bootstrap arguments', node, mod)
    i = len(self.boots)
    cb = b.get('kwargs')
    self.boots.append(dict(
        ct=ct, tp=tp, bsk=bsk, ksk=ksk, ks=b['ks_decomposition_params'],
        bs=b['bs_decomposition_params'], sp=b['scheme_params'],
        where=f'{mod.relpath}:{node.lineno}',
        cb=cb.d.get('callback_lut') if isinstance(cb, VDict) else None))
    return sym_arr(f'bs{i}', (ct.axes[0],), 'uint32')


def linform(ct, n):
  """[n+1] cells -> (weights {name: w}, const) or raises ValueError."""
  if not isinstance(ct, SArr) or tuple(ct.axes) != (n + 1,):
    raise ValueError(f'result has shape {getattr(ct, "shape", None)}')
  forms = []
  for j in range(n + 1):
    p = Poly.lift(ct.data[j])
    if p is None:
      raise ValueError(f'component {j} is not a ciphertext component: {ct.data[j]!r}')
    w, c0 = {}, 0
    for mono, c in p.t.items():
      if mono == ():
        c0 = c
        continue
      if len(mono) != 1 or mono[0][1] != 1 or not isinstance(c, int):
        raise ValueError(f'component {j} is not linear in the ciphertexts')
      nm = str(mono[0][0].op)
      base, _, idx = nm.partition('[')
      if idx != f'{j}]':
        raise ValueError(f'component {j} mixes component {nm}')
      w[base] = c
    forms.append((w, c0))
  w0 = forms[0][0]
  for j, (w, c) in enumerate(forms):
    if {k: v % 2**32 for k, v in w.items()} != {k: v % 2**32 for k, v in w0.items()}:
      raise ValueError(f'component {j} has weights {w}, component 0 {w0}')
    if j < n and c % 2**32:
      raise ValueError(f'mask component {j} gets the constant {c}')
  return w0, forms[-1][1]


class Checker:

  def __init__(self, rep, lwe_n=4, N=32, k=1):
    self.rep = rep
    self.dom = D()
    self.it = Interp(Repo(), self.dom)
    self.n, self.N, self.k = lwe_n, N, k

  def params(self):
    it = self.it
    P = 'jaxite.jaxite_cggi.'
    sp = it.call(it.get(P + 'parameters.SchemeParameters'), [], dict(
        lwe_dimension=self.n, plaintext_modulus=2**32, rlwe_dimension=self.k,
        polynomial_modulus_degree=self.N))
    dp = it.get(P + 'decomposition.DecompositionParameters')
    ks = it.call(dp, [], dict(log_base=4, level_count=5))
    bs = it.call(dp, [], dict(log_base=4, level_count=6))
    return it.call(it.get('jaxite.jaxite_bool.bool_params.Parameters'),
                   [sp, ks, bs], {})

  def keys(self, params):
    it = self.it
    cks = it.call(it.get(Q + 'ClientKeySet'),
                  [params, RngTag('lr', self.dom), RngTag('rr', self.dom)], {})
    sks = it.call(it.get(Q + 'ServerKeySet'),
                  [cks, params, RngTag('lr2', self.dom),
                   RngTag('rr2', self.dom)], {})
    return cks, sks

  def ct(self, name):
    return sym_arr(name, (self.n + 1,), 'uint32')

  def judge_keys(self, b, params, sks):
    gp = lambda n: self.it.getattr_(params, n)
    want_bsk = self.it.getattr_(self.it.getattr_(sks, 'bsk'),
                                'encrypted_lwe_sk_bits')
    want_ksk = self.it.getattr_(self.it.getattr_(sks, 'ksk'), 'key_data')
    if b['bsk'] is not want_bsk:
      return 'bootstraps under a key that is not the key set\'s bootstrapping key'
    if b['ksk'] is not want_ksk:
      return 'switches with a key that is not the key set\'s key-switching key'
    for f, nm in (('ks', 'ks_decomp_params'), ('bs', 'bs_decomp_params'),
                  ('sp', 'scheme_params')):
      if not self.dom.key_eq(b[f], gp(nm)):
        return f'bootstrap parameter {nm} is not the parameter set\'s'
    return None

  def table(self, b):
    """{phase m in 0..15: value in 0..15} of a recorded bootstrap."""
    tp = b['tp']
    if tuple(tp.axes) != (self.k + 1, self.N):
      raise ValueError(f'test polynomial has shape {tp.shape}')
    for r in range(self.k):
      for j in range(self.N):
        if sarr.concrete_cell(tp.data[r, j]) != 0:
          raise ValueError('test polynomial is not a trivial encryption')
    body = []
    for j in range(self.N):
      c = sarr.concrete_cell(tp.data[self.k, j])
      if c is None:
        raise AnalysisError('test polynomial is not constant')
      body.append(c % 2**32)
    out = {}
    half = self.N // 16
    for m in range(16):
      vals = set()
      for e in range(-half, half):
        i = (m * (self.N // 8) + e) % (2 * self.N)
        c = body[i] if i < self.N else (-body[i - self.N]) % 2**32
        vals.add(c)
      out[m] = vals
    return out

  def value(self, ct, bits, depth=0):
    """Encoded value (multiple of 2^28, /2^28 mod 16) of a ciphertext."""
    w, c = linform(ct, self.n)
    if c % 2**28:
      raise ValueError(f'plaintext constant {c:#x} is not a message')
    tot = c // 2**28
    for nm, wt in w.items():
      if nm in bits:
        v = bits[nm]
      elif nm.startswith('bs'):
        b = self.dom.boots[int(nm[2:])]
        m = self.value(b['ct'], bits, depth + 1)
        vals = self.table(b)[m]
        if len(vals) != 1:
          raise ValueError(
              f'bootstrap at {b["where"]}: phase {m} is not the centre of a '
              f'constant block of the test polynomial')
        v = vals.pop()
        if v % 2**28:
          raise ValueError(f'test polynomial coefficient {v:#x} is not a message')
        v >>= 28
        if b['cb'] is not None:
          tb = self.it.iterate(b['cb'])
          if m < len(tb) and tb[m] != v:
            raise ValueError(
                f'bootstrap at {b["where"]}: callback table says {tb[m]} for '
                f'row {m}, test polynomial {v}')
      else:
        raise ValueError(f'depends on {nm}')
      tot += wt * v
    return tot % 16

  def judge_fn(self, v, names, f, params, sks):
    for b in self.dom.boots:
      if not b.get('used'):
        b['used'] = True
      d = self.judge_keys(b, params, sks)
      if d:
        return f'bootstrap at {b["where"]} {d}'
    for bits in itertools.product((0, 1), repeat=len(names)):
      env = dict(zip(names, bits))
      try:
        got = self.value(v, env)
      except ValueError as e:
        return f'inputs {env}: {e}'
      want = int(f(*bits))
      if got != want:
        return f'inputs {env}: computes {got}, specified {want}'
    return None


def run(tier):
  rep = Report('C01', RULE, tier)
  where = 'jaxite/jaxite_bool/jaxite_bool.py'
  configs = [(4, 16, 1)]
  if tier == 'thorough':
    configs += [(6, 64, 2), (4, 32, 1)]
  it = None
  for n, N, k in configs:
    c = Checker(rep, n, N, k)
    it, dom = c.it, c.dom
    st = {}

    def setup():
      dom.boots = []
      st['p'] = c.params()
      st['c'], st['s'] = c.keys(st['p'])

    # two-input gates
    for g, f in GATES.items():
      def th():
        setup()
        return it.call(it.get(Q + g), [c.ct('x'), c.ct('y'), st['s'], st['p']], {})
      explore(rep, it, 'gate', f'{where}::{g}', th,
              lambda v, t: c.judge_fn(v, ['x', 'y'], f, st['p'], st['s']))

    def th():
      setup()
      return it.call(it.get(Q + 'not_'), [c.ct('x'), st['p']], {})
    explore(rep, it, 'gate', f'{where}::not_', th,
            lambda v, t: c.judge_fn(v, ['x'], lambda x: 1 - x, st['p'], st['s']))

    for val in (True, False):
      def th():
        setup()
        return it.call(it.get(Q + 'constant'), [val, st['p']], {})
      explore(rep, it, 'gate', f'{where}::constant', th,
              lambda v, t: c.judge_fn(v, [], lambda: int(val), st['p'], st['s']))

    def th():
      setup()
      return it.call(it.get(Q + 'cmux_'),
                     [c.ct('t'), c.ct('f'), c.ct('s'), st['s'], st['p']], {})
    explore(rep, it, 'cmux', f'{where}::cmux_', th,
            lambda v, t: c.judge_fn(v, ['t', 'f', 's'],
                                    lambda a, b, s: a if s else b,
                                    st['p'], st['s']))

    for tt in range(4):
      def th():
        setup()
        return it.call(it.get(Q + 'lut1'), [c.ct('a'), tt, st['s'], st['p']], {})
      explore(rep, it, 'lut1', f'{where}::lut1', th,
              lambda v, t: c.judge_fn(v, ['a'], lambda a: tt >> a & 1,
                                      st['p'], st['s']))
    for tt in (-1, 4, 5, 7):
      def th():
        setup()
        return it.call(it.get(Q + 'lut1'), [c.ct('a'), tt, st['s'], st['p']], {})
      explore(rep, it, 'lut1-reject', f'{where}::lut1', th,
              lambda v, t: f'accepts the truth table {tt}, which no 1-input '
              'function has', raises_ok=lambda e, t: e.exc_type == 'ValueError')

    # LUTs: all tables, one parameter object, several histories
    orders = [('23', range(256), range(16)), ('32', range(255, -1, -1),
                                              range(15, -1, -1))]
    for nm, r3, r2 in orders:
      def th():
        setup()
        res = []
        seq = [('2', t) for t in r2] + [('3', t) for t in r3]
        if nm == '32':
          seq = [('3', t) for t in r3] + [('2', t) for t in r2]
          seq += [('g', 'and_'), ('g', 'xor_'), ('c', 0)]
        else:
          seq = [('c', 0), ('g', 'nand_')] + seq + [('c', 0)]
        for kd, t in seq:
          if kd == '2':
            v = it.call(it.get(Q + 'lut2'),
                        [c.ct('a'), c.ct('b'), t, st['s'], st['p']], {})
          elif kd == '3':
            v = it.call(it.get(Q + 'lut3'),
                        [c.ct('a'), c.ct('b'), c.ct('c'), t, st['s'], st['p']], {})
          elif kd == 'g':
            v = it.call(it.get(Q + t), [c.ct('a'), c.ct('b'), st['s'], st['p']], {})
          else:
            v = it.call(it.get(Q + 'cmux_'),
                        [c.ct('a'), c.ct('b'), c.ct('c'), st['s'], st['p']], {})
          res.append((kd, t, v))
        return res

      def judge(v, t):
        for kd, tt, r in v:
          if kd == '2':
            d = c.judge_fn(r, ['a', 'b'], lambda a, b: tt >> (2 * b + a) & 1,
                           st['p'], st['s'])
          elif kd == '3':
            d = c.judge_fn(r, ['a', 'b', 'c'],
                           lambda a, b, cc: tt >> (4 * cc + 2 * b + a) & 1,
                           st['p'], st['s'])
          elif kd == 'g':
            d = c.judge_fn(r, ['a', 'b'], GATES[tt], st['p'], st['s'])
          else:
            d = c.judge_fn(r, ['a', 'b', 'c'], lambda a, b, s: a if s else b,
                           st['p'], st['s'])
          rep.count('tables')
          if d:
            return f'{kd}-input table {tt}: {d}'
        return None

      explore(rep, it, 'lut-history', f'{where}::lut2/lut3', th, judge)

    # parallel versions: row i of the result is lut_k of input row i
    for fn, ar, tts in (('pmap_lut3', 3, [0xCA, 0x17, 0x96, 0x01]),
                        ('pmap_lut2', 2, [8, 6, 13, 1])):
      def th():
        setup()
        ins = VList([tuple([c.ct(f'{"abc"[q]}{i}') for q in range(ar)] + [t])
                     for i, t in enumerate(tts)])
        return it.call(it.get(Q + fn), [ins, st['s'], st['p']], {})

      def judge(v, t):
        if not isinstance(v, SArr) or tuple(v.axes) != (len(tts), n + 1):
          return f'result has shape {getattr(v, "shape", None)}'
        for i, tt in enumerate(tts):
          row = SArr((n + 1,), v.data[i], v.dtype)
          names = [f'{"abc"[q]}{i}' for q in range(ar)]
          d = c.judge_fn(
              row, names,
              lambda *b: tt >> sum(x << q for q, x in enumerate(b)) & 1,
              st['p'], st['s'])
          if d:
            return f'row {i}: {d}'
        return None

      explore(rep, it, 'pmap', f'{where}::{fn}', th, judge)

    # key material: which secrets the server keys tie together
    def th():
      setup()
      return st['s']

    def judge(s, t):
      b = s and it.getattr_(it.getattr_(s, 'bsk'), 'encrypted_lwe_sk_bits').info['src']
      kk = it.getattr_(it.getattr_(s, 'ksk'), 'key_data').info['src']
      cl = it.getattr_(st['c'], 'lwe_sk')
      cr = it.getattr_(st['c'], 'rlwe_sk')
      if not same(b['lwe_sk'].attrs['key_data'], cl.attrs['key_data']):
        return 'bootstrapping key does not encrypt the client LWE key'
      if not same(b['rgsw_sk'].attrs['key'].attrs['data'], cr.attrs['data']):
        return 'bootstrapping key is not under the client ring key'
      if not dom.key_eq(b['decomposition_params'], it.getattr_(st['p'], 'bs_decomp_params')):
        return 'bootstrapping key made with other decomposition parameters'
      flat = [x for x in cr.attrs['data'].data.flat]
      if [x for x in kk['in_key'].attrs['key_data'].data.flat] != flat:
        return 'key-switching key does not start at the flattened ring key'
      if not same(kk['out_key'].attrs['key_data'], cl.attrs['key_data']):
        return 'key-switching key does not lead to the client LWE key'
      if not dom.key_eq(kk['decomposition_params'], it.getattr_(st['p'], 'ks_decomp_params')):
        return 'key-switching key made with other decomposition parameters'
      return None

    def same(a, b):
      return a.axes == b.axes and list(a.data.flat) == list(b.data.flat)

    explore(rep, it, 'server-keys', f'{where}::ServerKeySet', th, judge)

    # encrypt / decrypt, over the whole noise window [-2^27, 2^27)
    for val in (True, False):
      for t in (0, 1):
        def th():
          setup()
          e = poly.const((t - 1) * 2**27) + dom.sym('r', 0, 2**27 - 1)
          rng = RngTag('er', dom, err=e)
          ct = it.call(it.get(Q + 'encrypt'), [val, st['c'], rng], {})
          return it.call(it.get(Q + 'decrypt'), [ct, st['c']], {})

        def judge(v, tk):
          if isinstance(v, SArr) and v.ndim == 0:
            v = v.data[()]
          elif isinstance(v, SArr) and v.data.size == 1:
            v = v.data.flat[0]
          if core.is_prim(v):
            return None if bool(v) == val else f'decrypts {val} to {v}'
          raise AnalysisError(f'decryption result not decided: {v!r}')

        explore(rep, it, 'roundtrip', f'{where}::encrypt/decrypt', th, judge)
  return finish(rep, it, 1)
