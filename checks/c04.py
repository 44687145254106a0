"""C04: decryption inverts encryption; public constructors and key layout (CGGI)."""
import itertools
from cggi import *

RULE = (
    'Abstract interpretation with polynomial value numbering over Z/2^32: keys, '
    'masks and errors are symbols; the phase (body minus <mask, key>) of the '
    'ciphertext produced must normalise to message + the error drawn, and '
    'decryption of it must normalise to the message, for all keys, masks, '
    'messages and all errors in the decoding window.')


def run(tier):
  rep = Report('C04', RULE, tier)
  dom = CD()
  it = Interp(Repo(), dom)
  st = {}
  lw = 'jaxite/jaxite_cggi/lwe.py::'
  rw = 'jaxite/jaxite_cggi/rlwe.py::'
  gw = 'jaxite/jaxite_cggi/rgsw.py::'

  for n in (1, 2, 3, 5):
    for logq in (32, 20, 31):
      def th():
        e = st['e'] = Env(it, dom, n=n, logq=logq, err=dom.sym('err', 0, 2**8))
        m = dom.sym('m', 0, 2**logq - 1)
        return it.call(it.get(P + 'lwe.encrypt'), [sc(m), e.lwe_sk, e.rng], {})

      def judge(v, tk):
        try:
          ph = lwe_phase(v, st['e'].s)
        except ValueError as ex:
          return str(ex)
        q = eq_bits(ph, poly.sym('m') + poly.sym('err'), (), logq)
        if q is None:
          raise AnalysisError(f'{ph!r:.300}')
        if not q:
          return f'modulus 2^{logq}: the phase of an encryption of m is {ph!r:.300}, not m + error'
        d = {a.op for c in v.data[:-1] for a in cell(c).atoms()}
        if len(d) != n:
          return f'mask of dimension {n} is built from {len(d)} random draws'
        return None
      explore(rep, it, 'lwe-encrypt', lw + 'encrypt', th, judge)

    # decryption: phase, and denoised over the window
    def th():
      e = st['e'] = Env(it, dom, n=n)
      ct = arr(syms('c', n + 1, dom), 'uint32')
      return it.call(it.get(P + 'lwe.decrypt_without_denoising'), [ct, e.lwe_sk], {})

    def judge(v, tk):
      want = poly.sym(f'c{n}')
      for i, s in enumerate(st['e'].s):
        want = want - poly.sym(f'c{i}') * s
      q = eq_bits(cell(v.data.flat[0] if isinstance(v, SArr) else v), want, ())
      if q is None:
        raise AnalysisError('not decided')
      return None if q else f'decrypts c to {v!r:.300}, not to its phase'
    explore(rep, it, 'lwe-decrypt', lw + 'decrypt_without_denoising', th, judge)

    for half, lq in itertools.product((0, 1), (32, 31, 20)):
      def th():
        w = 2**(lq - 6)
        err = dom.sym('nz', 0, w - 1) + poly.const(-w * (1 - half))
        e = st['e'] = Env(it, dom, n=n, err=err, logq=lq)
        enc = it.call(it.get(P + 'encoding.EncodingParameters'), [], dict(
            total_bit_length=lq, message_bit_length=4, padding_bit_length=1))
        m = dom.sym('m', 1 - half, 31)
        ct = it.call(it.get(P + 'lwe.encrypt'),
                     [sc(m * poly.const(2 * w)), e.lwe_sk, e.rng], {})
        return it.call(it.get(P + 'lwe.decrypt'), [ct, e.lwe_sk, enc], {})

      def judge(v, tk):
        x = cell(v.data.flat[0])
        q = eq_bits(x, poly.sym('m') * poly.const(2**(lq - 5)), ())
        if q is None:
          raise AnalysisError(f'not decided {x!r:.200}')
        return None if q else f'modulus 2^{lq}: message m*2^{lq - 5} with error in the window decrypts to {x!r:.200}'
      explore(rep, it, 'lwe-roundtrip', lw + 'decrypt', th, judge)

    def th():
      st['e'] = Env(it, dom, n=n)
      return it.call(it.get(P + 'lwe.noiseless_embedding'), [sc(dom.sym('m', 0, 2**32 - 1)), n], {})

    def judge(v, tk):
      try:
        ph = lwe_phase(v, st['e'].s)
      except ValueError as ex:
        return str(ex)
      return None if ph == poly.sym('m') else f'noiseless embedding has phase {ph!r:.200}'
    explore(rep, it, 'lwe-noiseless', lw + 'noiseless_embedding', th, judge)

  for N, k in ((1, 1), (2, 1), (4, 1), (2, 2), (4, 2), (2, 3)):
    for logq in (32, 24):
      def th():
        e = st['e'] = Env(it, dom, N=N, k=k, logq=logq)
        e.rng.err = None
        msg = arr([dom.sym(f'm{i}', 0, 2**logq - 1) for i in range(N)], 'uint32')
        pt = it.call(it.get(P + 'rlwe.RlwePlaintext'), [], dict(
            log_coefficient_modulus=logq, modulus_degree=N, message=msg))
        return it.call(it.get(P + 'rlwe.encrypt'), [pt, e.rlwe_sk, e.rng], {})

      def judge(v, tk):
        e = st['e']
        try:
          ph = rlwe_phase(it.getattr_(v, 'message'), e.z)
        except ValueError as ex:
          return str(ex)
        seen = set()
        for i in range(N):
          d = strip_mod(ph[i], logq) - poly.sym(f'm{i}')
          d = bit_reduce(d, (), 2**logq)
          lin = d.linear()
          if lin is None or lin[1] or any(not str(a.op).startswith('r.e') or c != 1
                                          for a, c in lin[0].items()) or len(lin[0]) != 1:
            if any(a.args for a in d.all_atoms()):
              raise AnalysisError(f'coefficient {i}: {d!r:.200}')
            return f'modulus 2^{logq}: coefficient {i} of the phase is m{i} + ({d!r:.300})'
          seen |= set(a.op for a in lin[0])
        if len(seen) != N:
          return f'{N} coefficients share {len(seen)} error draws'
        for f, w in (('modulus_degree', N), ('log_coefficient_modulus', logq)):
          if it.getattr_(v, f) != w:
            return f'ciphertext records {f} = {it.getattr_(v, f)!r}, key has {w}'
        return None
      explore(rep, it, 'rlwe-encrypt', rw + 'encrypt', th, judge)
    for half, lq in itertools.product((0, 1), (32, 31, 20)):
      def th():
        w = 2**(lq - 6)
        err = dom.sym('nz', 0, w - 1) + poly.const(-w * (1 - half))
        e = st['e'] = Env(it, dom, N=N, k=k, err=err, logq=lq)
        enc = it.call(it.get(P + 'encoding.EncodingParameters'), [], dict(
            total_bit_length=lq, message_bit_length=4, padding_bit_length=1))
        msg = arr([dom.sym(f'm{i}', 1 - half, 31) * poly.const(2 * w) for i in range(N)],
                  'uint32')
        pt = it.call(it.get(P + 'rlwe.RlwePlaintext'), [], dict(
            log_coefficient_modulus=lq, modulus_degree=N, message=msg))
        ct = it.call(it.get(P + 'rlwe.encrypt'), [pt, e.rlwe_sk, e.rng], {})
        return it.call(it.get(P + 'rlwe.decrypt'), [ct, e.rlwe_sk, enc], {})

      def judge(v, tk):
        msg = it.getattr_(v, 'message')
        return cmp_arr(dom, msg, [poly.sym(f'm{i}') * poly.const(2**(lq - 5))
                                  for i in range(N)], f'N={N}, k={k}, modulus 2^{lq}')
      explore(rep, it, 'rlwe-roundtrip', rw + 'decrypt', th, judge)

    def th():
      e = st['e'] = Env(it, dom, N=N, k=k)
      return it.call(it.get(P + 'rlwe.flatten_key'), [e.rlwe_sk], {})

    def judge(v, tk):
      kd = it.getattr_(v, 'key_data')
      if it.getattr_(v, 'lwe_dimension') != N * k or it.getattr_(v, 'log_modulus') != 32:
        return 'flattened key records the wrong dimension or modulus'
      return cmp_arr(dom, kd, sum(st['e'].z, []), 'flattened key')
    explore(rep, it, 'flatten-key', rw + 'flatten_key', th, judge)

    for lb, lv in ((16, 2), (8, 4), (8, 3), (4, 2)):
      if lv * N * k > 16:
        continue
      def th():
        e = st['e'] = Env(it, dom, N=N, k=k, lb=lb, lv=lv)
        m = dom.sym('m', 0, 1)
        pt = it.call(it.get(P + 'rgsw.RgswPlaintext'), [], dict(
            modulus_degree=N, message=sc(m)))
        gk = it.call(it.get(P + 'rgsw.key_from_rlwe'), [e.rlwe_sk], {})
        return it.call(it.get(P + 'rgsw.encrypt'), [pt, gk, e.dp, e.rng], {})

      def judge(v, tk):
        msg = it.getattr_(v, 'message')
        e = st['e']
        if tuple(msg.axes) != ((k + 1) * lv, k + 1, N):
          return f'RGSW ciphertext has shape {msg.shape}'
        for blk in range(k + 1):
          for l in range(lv):
            row = SArr((k + 1, N), msg.data[blk * lv + l], 'uint32')
            try:
              ph = rlwe_phase(row, e.z)
            except ValueError as ex:
              return str(ex)
            g = poly.sym('m') * poly.const(2**(32 - (l + 1) * lb))
            for j in range(N):
              if blk < k:
                want = -(g * e.z[blk][j])
              else:
                want = g if j == 0 else poly.const(0)
              q = eq_bits(ph[j], want, ())
              if q is None:
                raise AnalysisError('not decided')
              if not q:
                return (f'[N={N}, k={k}, base 2^{lb}, {lv} levels] row (block {blk}, '
                        f'level {l + 1}) coefficient {j} has phase {ph[j]!r:.200}, '
                        f'specified {want!r:.200}')
        return None
      explore(rep, it, 'rgsw-encrypt', gw + 'encrypt', th, judge)

      if lb < 16:
        for first in range(k):
          for half in (0, 1):
            def th():
              err = poly.const(2**8 * (1 - half)) - dom.sym('nz', 0, 2**8 - 1)
              e = st['e'] = Env(it, dom, N=N, k=k, lb=lb, lv=lv, err=err)
              data = [[1 if (i == first and j == 0) else
                       (0 if j == 0 and i < first else poly.sym(f'zz{i}_{j}'))
                       for j in range(N)] for i in range(k)]
              key = it.call(it.get(P + 'rlwe.RlweSecretKey'), [], dict(
                  log_coefficient_modulus=32, modulus_degree=N, rlwe_dimension=k,
                  data=arr(data, 'uint32')))
              gk = it.call(it.get(P + 'rgsw.key_from_rlwe'), [key], {})
              m = dom.sym('m', 1, 2**lb - 1)
              pt = it.call(it.get(P + 'rgsw.RgswPlaintext'), [], dict(
                  modulus_degree=N, message=sc(m)))
              ct = it.call(it.get(P + 'rgsw.encrypt'), [pt, gk, e.dp, e.rng], {})
              return it.call(it.get(P + 'rgsw.decrypt'), [ct, e.dp, gk], {})

            def judge(v, tk):
              x = it.getattr_(v, 'message')
              x = cell(x.data.flat[0] if isinstance(x, SArr) else x)
              q = eq_bits(x, poly.sym('m'), ())
              if q is None:
                raise AnalysisError(f'not decided {x!r:.200}')
              return None if q else f'RGSW message m decrypts to {x!r:.200}'
            explore(rep, it, 'rgsw-roundtrip', gw + 'decrypt', th, judge)

  # key generation: keys are binary draws of the right shape
  for n, N, k in ((3, 2, 2), (4, 4, 1)):
    def th():
      st['e'] = Env(it, dom, n=n, N=N, k=k)
      g = it.call(it.get(P + 'rgsw.gen_key'), [st['e'].sp, st['e'].rng], {})
      return g

    def judge(v, tk):
      e = st['e']
      kinds = [d[0] for d in e.rng.draws]
      if any(x != 's' for x in kinds):
        return 'a secret key is not drawn from the binary key distribution'
      if len(e.bits) != n + N * k:
        return 'secret key coefficients are not independent draws'
      if it.getattr_(e.lwe_sk, 'lwe_dimension') != n or it.getattr_(
          e.lwe_sk, 'log_modulus') != 32:
        return 'LWE key records the wrong dimension or modulus'
      for f, w in (('modulus_degree', N), ('rlwe_dimension', k),
                   ('log_coefficient_modulus', 32)):
        if it.getattr_(e.rlwe_sk, f) != w:
          return f'ring key records {f} = {it.getattr_(e.rlwe_sk, f)!r}'
      return None
    explore(rep, it, 'keygen', 'jaxite/jaxite_cggi/rlwe.py::gen_key', th, judge)
  return finish(rep, it, 1)
