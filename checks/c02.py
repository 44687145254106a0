"""C02: encodings, look-up tables and test polynomials."""
from common import *
from moddom import ModDomain
import c01

E = 'jaxite.jaxite_cggi.encoding.'
T = 'jaxite.jaxite_cggi.test_polynomial.'
L = 'jaxite.jaxite_bool.lut.'
RULE = (
    'Abstract interpretation over bit fields and constants: encode places every '
    'message (symbolic, over its whole range) in the message field and rejects '
    'every message outside it; decode inverts encode over the whole symmetric '
    'noise window; a test polynomial built from symbolic entries holds entry m '
    'on the whole window of phases around m, negacyclically; a look-up table '
    'object lists the specified truth table; name lookups give the named table.')


class Chk:

  def __init__(self, rep):
    self.rep = rep
    self.dom = ModDomain()
    self.dom.summaries['jaxite.jaxite_cggi.jax_helpers.get_tpu_version'] = lambda *a: -1
    self.it = Interp(Repo(), self.dom)

  def enc(self, t, m, p):
    return self.it.call(self.it.get(E + 'EncodingParameters'), [], dict(
        total_bit_length=t, message_bit_length=m, padding_bit_length=p))

  def sp(self, N, k=1, n=2):
    return self.it.call(
        self.it.get('jaxite.jaxite_cggi.parameters.SchemeParameters'), [],
        dict(lwe_dimension=n, plaintext_modulus=2**32, rlwe_dimension=k,
             polynomial_modulus_degree=N))


def cell(v):
  if isinstance(v, SArr):
    if v.data.size != 1:
      return None
    v = v.data.flat[0]
  if isinstance(v, Poly) and v.is_const:
    v = v.cval
  return v


def eqmod(a, b, m):
  """a == b mod m, decided on normal forms; None when undecided."""
  pa, pb = Poly.lift(a), Poly.lift(b)
  if pa is None or pb is None:
    return None
  d = pa - pb
  if all(isinstance(c, int) and c % m == 0 for c in d.t.values()):
    return True
  if all(not a.args for a in d.all_atoms()):
    return False
  return None


def run(tier):
  rep = Report('C02', RULE, tier)
  c = Chk(rep)
  it, dom = c.it, c.dom
  ew = 'jaxite/jaxite_cggi/encoding.py::'
  st = {}
  encs = [(32, 3, 1), (32, 3, 2), (32, 8, 4), (32, 16, 8), (16, 8, 4), (7, 3, 1),
          (32, 1, 0), (32, 24, 2), (32, 4, 0), (9, 2, 3)]
  if tier == 'thorough':
    encs = sorted(set(encs) | {(t, m, p) for t in (8, 12, 20, 31, 32)
                               for m in (1, 2, 3, 5) for p in (0, 1, 2)
                               if m + p < t})
  for t, m, p in encs:
    e = t - m - p
    tag = f'[total {t}, message {m}, padding {p}]'
    for scalar in (True, False):
      def th():
        prm = c.enc(t, m, p)
        x = dom.sym('msg', 0, 2**m - 1)
        a = _sc(dom, x) if scalar else arr([x], 'uint32')
        return it.call(it.get(E + 'encode'), [a, prm], {})

      def judge(v, tk):
        r = cell(v)
        if isinstance(v, SArr) and v.dtype not in (None, 'uint32'):
          return f'{tag} encoding has type {v.dtype}'
        q = eqmod(r, poly.sym('msg') * poly.const(2**e), 2**32)
        if q is None:
          raise AnalysisError(f'not decided: {r!r}')
        return None if q else f'{tag} message m is encoded as {r!r}, not m*2^{e}'

      explore(rep, it, 'encode', ew + 'encode', th, judge)
    # out of range (both bounds), plain and test-polynomial encoding
    if m < 31:
      def th():
        prm = c.enc(t, m, p)
        x = dom.sym('big', 2**m, 2**min(32, 31) - 1)
        return it.call(it.get(E + 'encode'), [arr([x], 'uint32'), prm], {})
      explore(rep, it, 'encode-reject', ew + 'encode', th,
              lambda v, tk: f'{tag} accepts messages above the message range',
              raises_ok=lambda ex, tk: ex.exc_type == 'ValueError')

      def th():
        prm = c.enc(t, m, p)
        x = dom.sym('big', 2**m, 2**31 - 1)
        y = dom.sym('msg', 0, 2**m - 1)
        return it.call(it.get(E + 'encode'), [arr([y, x, y], 'uint32'), prm], {})
      explore(rep, it, 'encode-reject', ew + 'encode', th,
              lambda v, tk: f'{tag} accepts an array with one message above the range',
              raises_ok=lambda ex, tk: ex.exc_type == 'ValueError')
    if m + p < 31:
      def th():
        prm = c.enc(t, m, p)
        x = dom.sym('tpm', 0, 2**(m + p) - 1)
        return it.call(it.get(E + 'encode'), [arr([x], 'uint32'), prm, True], {})

      def judge(v, tk):
        q = eqmod(cell(v), poly.sym('tpm') * poly.const(2**e), 2**32)
        if q is None:
          raise AnalysisError('not decided')
        return None if q else f'{tag} test polynomial coefficient m is encoded as {cell(v)!r}'
      explore(rep, it, 'encode-tp', ew + 'encode', th, judge)

      def th():
        prm = c.enc(t, m, p)
        x = dom.sym('tpbig', 2**(m + p), 2**31 - 1)
        return it.call(it.get(E + 'encode'), [arr([x], 'uint32'), prm, True], {})
      explore(rep, it, 'encode-reject', ew + 'encode(test polynomial)', th,
              lambda v, tk: f'{tag} accepts test polynomial coefficients that do not fit '
              'the message and padding bits',
              raises_ok=lambda ex, tk: ex.exc_type == 'ValueError')
    # decode: m*2^e + noise over both halves of the window
    if e >= 1:
      for half in (0, 1):
        for fn, bits in (('decode', m), ('decode_without_removing_padding', m + p)):
          def th():
            prm = c.enc(t, m, p)
            x = dom.sym('dm%d' % half, 1 - half if half == 0 else 0, 2**bits - 1)
            st['x'] = x
            # noise in [-2^(e-1), 0) for half 0, [0, 2^(e-1)) for half 1
            nz = dom.sym('nz', 0, 2**(e - 1) - 1) + (
                poly.const(-2**(e - 1)) if half == 0 else poly.const(0))
            v = x * poly.const(2**e) + nz
            return it.call(it.get(E + fn), [_sc(dom, v), prm], {})

          def judge(v, tk):
            r = cell(v)
            q = eqmod(r, st['x'], 2**bits)
            if r is None or q is None:
              raise AnalysisError(f'not decided {r!r}')
            rng = dom.prange(r)
            if q and rng is not None and (rng[0] < 0 or rng[1] >= 2**bits):
              return f'{tag} decodes to a value outside the message range'
            return None if q else (
                f'{tag} with {"negative" if half == 0 else "non-negative"} noise '
                f'message m decodes to {r!r}')
          explore(rep, it, 'decode', ew + fn, th, judge)
        # message 0 with negative noise wraps around
      def th():
        prm = c.enc(t, m, p)
        nz = dom.sym('nz', 0, 2**(e - 1) - 1)
        v = poly.const(2**32 - 2**(e - 1)) + nz
        return it.call(it.get(E + 'decode'), [_sc(dom, v), prm], {})

      def judge(v, tk):
        r = cell(v)
        if isinstance(r, int):
          return None if r == 0 else f'{tag} message 0 with negative noise decodes to {r}'
        raise AnalysisError(f'not decided {r!r}')
      explore(rep, it, 'decode', ew + 'decode', th, judge)

      for half in (0, 1):
        def th():
          prm = c.enc(t, m, p)
          x = dom.sym('xm', 1, max(1, 2**min(m, 31 - e) - 2))
          nz = dom.sym('nz', 0, 2**(e - 1) - 1) + (
              poly.const(-2**(e - 1)) if half == 0 else poly.const(0))
          return it.call(it.get(E + 'extract_noise'),
                         [_sc(dom, x * poly.const(2**e) + nz), prm], {})

        def judge(v, tk):
          r = cell(v)
          want = poly.sym('nz') + poly.const(-2**(e - 1) if half == 0 else 0)
          q = eqmod(r, want, 2**32)
          if q is None:
            raise AnalysisError(f'not decided {r!r}')
          return None if q else f'{tag} noise {want!r} is extracted as {r!r}'
        explore(rep, it, 'extract-noise', ew + 'extract_noise', th, judge)
  # invalid encodings are rejected
  for t, m, p in ((0, 1, 0), (8, 0, 0), (8, 4, -1), (8, 7, 2), (32, 30, 3), (-1, 2, 1)):
    def th():
      return c.enc(t, m, p)
    explore(rep, it, 'encoding-params', ew + 'EncodingParameters', th,
            lambda v, tk: f'accepts total {t}, message {m}, padding {p}',
            raises_ok=lambda ex, tk: ex.exc_type == 'ValueError')

  # test polynomials with symbolic entries
  tw = 'jaxite/jaxite_cggi/test_polynomial.py::'
  grid = [(32, 3, 1, 16), (32, 3, 1, 64), (32, 2, 2, 8), (32, 3, 2, 32),
          (16, 2, 1, 16), (32, 1, 1, 8)]
  if tier == 'thorough':
    grid += [(32, 4, 1, 64), (32, 3, 1, 256), (9, 3, 1, 32), (32, 2, 3, 32)]
  for t, m, p, N in grid:
    e = t - m - p
    M = 2**m
    mod = 2**(m + p)
    tag = f'[total {t}, message {m}, padding {p}, degree {N}]'

    def lay(body, ent, enc_mod):
      """body: N cells; ent(m) the encoded entry."""
      bw = N // M
      for ph in range(2 * M):
        for off in range(-(bw // 2), bw - bw // 2):
          i = (ph * bw + off) % (2 * N)
          sgn = 1 if i < N else -1
          got = body[i % N]
          want = ent(ph % M) * (1 if ph < M else -1)
          q = eqmod(Poly.lift(got) * poly.const(sgn) if Poly.lift(got) is not None else None,
                    want, enc_mod)
          if q is None:
            raise AnalysisError(f'coefficient {i % N} not decided: {got!r}')
          if not q:
            return (f'{tag} at phase {ph}{off:+d} (of {2 * M} windows of width {bw}) '
                    f'the polynomial holds {got!r} (sign {sgn}), the entry is {want!r}')
      return None

    for gen in ('gen_test_polynomial', 'gen_and_encrypt', 'identity_test_polynomial'):
      def th():
        prm, sp = c.enc(t, m, p), c.sp(N)
        if gen == 'identity_test_polynomial':
          return it.call(it.get(T + gen), [prm, sp], {})
        xs = st['f'] = [dom.sym(f'f{i}', int(i == 0), M - 1) for i in range(M)]
        return it.call(it.get(T + gen), [arr(xs, 'uint32'), prm, sp], {})

      def judge(v, tk):
        msg = it.getattr_(v, 'message')
        if gen == 'gen_and_encrypt':
          if tuple(msg.axes) != (2, N):
            return f'{tag} ciphertext has shape {msg.shape}'
          for i in range(N):
            if cell(msg.data[0, i]) != 0:
              return f'{tag} test polynomial ciphertext has a non-zero mask'
          body = [msg.data[1, i] for i in range(N)]
        else:
          if tuple(msg.axes) != (N,):
            return f'{tag} test polynomial has shape {msg.shape}'
          body = [msg.data[i] for i in range(N)]
        ent = (lambda i: poly.const(i * 2**e)) if gen.startswith('ident') else (
            lambda i: st['f'][i] * poly.const(2**e))
        return lay(body, ent, 2**t)
      explore(rep, it, 'test-polynomial', tw + gen, th, judge)
    # wrong length tables are rejected
    for ln in (M - 1, M + 1, 2 * M):
      def th():
        prm, sp = c.enc(t, m, p), c.sp(N)
        return it.call(it.get(T + 'gen_test_polynomial'),
                       [arr([1] * ln, 'uint32'), prm, sp], {})
      explore(rep, it, 'test-polynomial-reject', tw + 'gen_test_polynomial', th,
              lambda v, tk: f'{tag} accepts a table with {ln} entries for {M} messages',
              raises_ok=lambda ex, tk: ex.exc_type == 'ValueError')

  # look-up tables
  lw = 'jaxite/jaxite_bool/lut.py::'
  for ar in (1, 2, 3):
    tabs = range(2**(2**ar)) if ar < 3 or tier == 'thorough' else list(range(0, 256, 5)) + [0xCA, 0x96, 0x17, 255, 1, 128]

    def th():
      out = []
      for tt in tabs:
        o = it.call(it.get(L + 'LookUpTable'), [], dict(num_inputs=ar, truth_table=tt))
        out.append((tt, it.iterate(it.getattr_(o, 'as_cleartext_list'))))
        # and from a callable: first argument most significant
        nat = Native('f', lambda i2, a, k, n, tt=tt: bool(
            tt >> sum(int(bool(x)) << (ar - 1 - j) for j, x in enumerate(a)) & 1))
        g = it.call(it.get(L + 'from_callable'), [ar, nat], {})
        out.append((tt, it.iterate(it.getattr_(g, 'as_cleartext_list'))))
        if it.getattr_(g, 'truth_table') != tt or it.getattr_(g, 'num_inputs') != ar:
          out.append((tt, None))
      return out

    def judge(v, tk):
      for tt, lst in v:
        rep.count('tables')
        if lst is None:
          return f'{ar}-input function with table {tt} gets another table or arity'
        if [int(x) for x in lst] != [tt >> i & 1 for i in range(2**ar)]:
          return f'{ar}-input table {tt} lists {lst}'
      return None
    explore(rep, it, 'lut', lw + 'LookUpTable', th, judge)

  # named tables, through the cache, in both orders
  names = {g[:-1]: (2, f) for g, f in c01.GATES.items()}
  names['cmux'] = (3, lambda a, b, s: a if s else b)
  for order in (1, -1):
    def th():
      sp = c.sp(16)
      lc = it.call(it.get(L + 'LutCache'), [sp], {})
      out = []
      for nm in list(names)[::order]:
        o = it.call(it.getattr_(lc, 'lut_by_name'), [nm], {})
        tp = it.call(it.getattr_(lc, 'lut_poly_by_name'), [nm], {})
        out.append((nm, it.iterate(it.getattr_(o, 'as_cleartext_list')),
                    it.getattr_(tp, 'message')))
      return out

    def judge(v, tk):
      for nm, lst, msg in v:
        ar, f = names[nm]
        want = [int(f(*b)) for b in itertools.product((0, 1), repeat=ar)]
        if [int(x) for x in lst] != want:
          return f'the table called {nm!r} lists {lst}, the function is {want}'
        for i, w in enumerate(want):
          got = cell(msg.data[1, i * 2])
          if got != w << 28:
            return f'the test polynomial called {nm!r} holds {got} at message {i}, not {w << 28}'
      return None
    explore(rep, it, 'named-lut', lw + 'LutCache', th, judge)

  def th():
    lc = it.call(it.get(L + 'LutCache'), [c.sp(16)], {})
    return it.call(it.getattr_(lc, 'lut_by_name'), ['no such gate'], {})
  explore(rep, it, 'named-lut', lw + 'LutCache.lut_by_name', th,
          lambda v, tk: 'unknown gate name accepted',
          raises_ok=lambda ex, tk: ex.exc_type == 'ValueError')

  # the cache distinguishes arity, and keeps distinct tables distinct
  def th():
    lc = it.call(it.get(L + 'LutCache'), [c.sp(16)], {})
    out = []
    for ar, tt in ((2, 8), (3, 8), (2, 6), (3, 6), (1, 2), (3, 2), (2, 8), (3, 8),
                   (3, 128), (3, 136), (2, 8)):
      tp = it.call(it.getattr_(lc, 'lut_poly'), [ar, tt], {})
      out.append((ar, tt, it.getattr_(tp, 'message')))
    return out

  def judge(v, tk):
    for ar, tt, msg in v:
      for i in range(2**ar):
        got = cell(msg.data[1, 2 * i])
        if got != (tt >> i & 1) << 28:
          return f'{ar}-input table {tt}: row {i} of the cached test polynomial is {got}'
    return None
  explore(rep, it, 'lut-cache', lw + 'LutCache.lut_poly', th, judge)

  for sp_deg in (16, 32):
    def th():
      a = it.call(it.get(L + 'LookUpTable'), [], dict(num_inputs=2, truth_table=9))
      out = []
      for N in (sp_deg, 48 - sp_deg):
        tp = it.call(it.getattr_(a, 'as_rlwe_test_polynomial'), [c.sp(N)], {})
        out.append((N, it.getattr_(tp, 'message')))
      return out

    def judge(v, tk):
      for N, msg in v:
        if tuple(msg.axes) != (2, N):
          return f'test polynomial for degree {N} has shape {msg.shape}'
      return None
    explore(rep, it, 'lut-cache', lw + 'LookUpTable.as_rlwe_test_polynomial', th, judge)
  return finish(rep, it, 1)


def _o0(x):
  d = sarr.obj(())
  d[()] = x
  return d


def _sc(dom, v):
  return SArr((), _o0(v), 'uint32', 'jnp')
