"""C06: key switching, blind rotation, sample extraction, bootstrapping."""
import time

from cggi import *

RULE = (
    'Abstract interpretation over Z/2^32[symbols]: keys are bit symbols '
    '(s^2 = s), masks and ciphertext words are symbols, error draws are zero, '
    'gadget digits are atoms with sum of weighted digits = word (decided by '
    'C05). Exponents are enumerated. The phase of each result under the '
    'target key must equal the specified phase as a polynomial identity.')
KS = 'jaxite/jaxite_cggi/key_switch.py::'
B = 'jaxite/jaxite_cggi/bootstrap.py::'


def xp(a, k):
  n = len(a)
  return xpow(a, k % (2 * n))


def run(tier):
  rep = Report('C06', RULE, tier)
  dom = CD()
  it = Interp(Repo(), dom)
  st = {}

  def check(p, want, bits, what):
    q = eq_bits(p, want, bits)
    if q is None:
      raise AnalysisError(f'{what} not decided')
    if not q:
      d = bit_reduce(strip_mod(Poly.lift(p) - Poly.lift(want), 32), bits)
      return f'{what} is off by {d!r:.200}'

  # ---- key switching
  for n_in, n_out, lb, lv in ((2, 1, 16, 2), (3, 2, 8, 4), (2, 3, 8, 3), (1, 4, 4, 5)):
    what = f'[{n_in} -> {n_out} coefficients, base 2^{lb}, {lv} levels]'

    def mk(err):
      rng = RngTag('k', dom, err=err)
      P1 = lambda n: it.call(it.get(P + 'parameters.SchemeParameters'), [], dict(
          lwe_dimension=n, plaintext_modulus=2**32, rlwe_dimension=1,
          polynomial_modulus_degree=4))
      ki = it.call(it.get(P + 'lwe.gen_key'), [P1(n_in), rng], {})
      ko = it.call(it.get(P + 'lwe.gen_key'), [P1(n_out), rng], {})
      dp = it.call(it.get(P + 'decomposition.DecompositionParameters'), [],
                   dict(log_base=lb, level_count=lv))
      st['si'] = [cell(x) for x in it.getattr_(ki, 'key_data').data]
      st['so'] = [cell(x) for x in it.getattr_(ko, 'key_data').data]
      st['rng'] = rng
      return it.call(it.get(P + 'key_switch.gen_key'), [], dict(
          decomposition_params=dp, prg=rng, in_key=ki, out_key=ko))

    def th():
      return mk(None)

    def judge(v, tk):
      kd = it.getattr_(v, 'key_data')
      if tuple(kd.axes) != (n_in, lv, n_out + 1):
        return f'{what} key-switching key has shape {kd.shape}'
      for f, w in (('lwe_dimension', n_out), ('decomposition_log_base', lb),
                   ('decomposition_level_count', lv), ('lwe_size', n_out + 1)):
        if it.getattr_(v, f) != w:
          return f'{what} key records {f} = {it.getattr_(v, f)!r}'
      errs = [d for d in st['rng'].draws if d[0] == 'e']
      seen = set()
      for i in range(n_in):
        for l in range(lv):
          ph = lwe_phase(SArr((n_out + 1,), kd.data[i, l], 'uint32'), st['so'])
          d = ph - st['si'][i] * poly.const(2**(32 - (l + 1) * lb))
          d = Poly({m: (c + 2**31) % 2**32 - 2**31 for m, c in d.t.items() if c % 2**32})
          ok = (len(d.t) == 1 and list(d.t.values()) == [1] and
                len(list(d.t)[0]) == 1 and str(list(d.t)[0][0][0].op).startswith('k.e'))
          if not ok:
            return (f'{what} row ({i}, level {l + 1}) encrypts '
                    f'{ph!r:.160}, not key coefficient * 2^{32 - (l + 1) * lb} + error')
          e = list(d.t)[0][0][0].op
          if e in seen:
            return f'{what} row ({i}, level {l + 1}) reuses an error sample'
          seen.add(e)
      return None
    explore(rep, it, 'switching-key', KS + 'gen_key', th, judge)

    for via in ('wrapper', 'jit'):
      def th():
        k = mk(0)
        ct = arr([dom.sym(f'c{i}', 0, 2**32 - 1) for i in range(n_in + 1)], 'uint32')
        st['ct'] = ct
        if via == 'wrapper':
          return it.call(it.get(P + 'key_switch.switch_key'), [k, ct], {})
        return it.call(it.get(P + 'key_switch.jit_switch_key'),
                       [it.getattr_(k, 'key_data'), ct, lv, lb], {})

      def judge(v, tk):
        bits = {str(a.op) for p in st['si'] + st['so'] for a in p.atoms()}
        try:
          ph = lwe_phase(v, st['so'])
        except ValueError as ex:
          return str(ex)
        want = cell(st['ct'].data[-1])
        for i in range(n_in):
          a = cell(st['ct'].data[i])
          if lb * lv < 32:
            a = sum((term_digit(a, lb, l) * poly.const(2**(32 - l * lb))
                     for l in range(1, lv + 1)), poly.const(0))
          want = want - a * st['si'][i]
        return check(ph, want, bits, what + ' phase after the switch')
      explore(rep, it, 'key-switch', KS + 'switch_key', th, judge)

  # ---- sample extraction
  for N, k in ((1, 1), (2, 1), (4, 1), (8, 1), (2, 2), (4, 3)):
    for via in ('wrapper', 'jit'):
      def th():
        e = st['e'] = Env(it, dom, N=N, k=k)
        c = e.rlwe_ct('c')
        st['c'] = it.getattr_(c, 'message')
        if via == 'wrapper':
          x = it.call(it.get(P + 'bootstrap.sample_extract'), [c], {})
        else:
          x = it.call(it.get(P + 'bootstrap.jit_sample_extract'), [st['c'], N], {})
        fk = it.call(it.get(P + 'rlwe.flatten_key'), [e.rlwe_sk], {})
        return x, it.getattr_(fk, 'key_data')

      def judge(v, tk):
        x, fk = v
        e = st['e']
        try:
          ph = lwe_phase(x, [cell(q) for q in fk.data])
        except ValueError as ex:
          return str(ex)
        return check(ph, rlwe_phase(st['c'], e.z)[0], e.bits,
                     f'[degree {N}, dimension {k}] extracted phase')
      explore(rep, it, 'sample-extract', B + 'sample_extract', th, judge)

  # ---- bootstrapping keys
  for n, N, k, lb, lv in ((2, 2, 1, 16, 2), (4, 1, 2, 16, 2), (4, 2, 1, 16, 1),
                          (22, 1, 1, 16, 1)):
    for bmmp in (True, False):
      what = f'[dimension {n}, {"paired" if bmmp else "plain"} key]'

      def th():
        e = st['e'] = Env(it, dom, n=n, N=N, k=k, lb=lb, lv=lv, err=0)
        gk = it.call(it.get(P + 'rgsw.key_from_rlwe'), [e.rlwe_sk], {})
        return it.call(it.get(P + 'bootstrap.gen_bootstrapping_key'), [], dict(
            lwe_sk=e.lwe_sk, rgsw_sk=gk, decomposition_params=e.dp, prg=e.rng,
            use_bmmp=bmmp))

      def judge(v, tk):
        e = st['e']
        m = it.getattr_(v, 'encrypted_lwe_sk_bits')
        if it.getattr_(v, 'use_bmmp') is not bmmp or it.getattr_(v, 'use_bat') is not False:
          return f'{what} key records the wrong variant'
        s = e.s
        one = poly.const(1)
        if bmmp:
          msgs = []
          for j in range(0, n, 2):
            msgs += [s[j] * s[j + 1], s[j] * (one - s[j + 1]), (one - s[j]) * s[j + 1]]
        else:
          msgs = s
        if tuple(m.axes) != (len(msgs), (k + 1) * lv, k + 1, N):
          return f'{what} bootstrapping key has shape {m.shape}'
        for q, msg in enumerate(msgs):
          for r in range((k + 1) * lv):
            blk, l = divmod(r, lv)
            ph = rlwe_phase(SArr((k + 1, N), m.data[q, r], 'uint32'), e.z)
            g = msg * poly.const(2**(32 - (l + 1) * lb))
            for j in range(N):
              want = -(g * e.z[blk][j]) if blk < k else (g if j == 0 else poly.const(0))
              x = check(ph[j], want, e.bits, f'{what} entry {q} row {r} phase')
              if x:
                return x
        return None
      explore(rep, it, 'bootstrapping-key', B + 'gen_bootstrapping_key', th, judge)

  for n in (1, 3):
    for bmmp in (True, False):
      def th():
        e = Env(it, dom, n=n, N=2, k=1, err=0)
        gk = it.call(it.get(P + 'rgsw.key_from_rlwe'), [e.rlwe_sk], {})
        return it.call(it.get(P + 'bootstrap.gen_bootstrapping_key'),
                       [e.lwe_sk, gk, e.dp, e.rng], dict(use_bmmp=bmmp))
      explore(rep, it, 'bootstrapping-key', B + 'gen_bootstrapping_key', th,
              lambda v, tk: 'accepts an odd key dimension with paired bits' if bmmp else None,
              raises_ok=lambda ex, tk: ex.exc_type == 'ValueError')

  # ---- blind rotation
  def rotation(phase, e, a, b):
    """X^-(b - sum a_i s_i) * phase."""
    cur = xp(phase, -b)
    for ai, si in zip(a, e.s):
      r = xp(cur, ai)
      cur = [c + si * (d - c) for c, d in zip(cur, r)]
    return cur

  def bsk_for(e, bmmp, bat=False):
    gk = it.call(it.get(P + 'rgsw.key_from_rlwe'), [e.rlwe_sk], {})
    return it.call(it.get(P + 'bootstrap.gen_bootstrapping_key'),
                   [e.lwe_sk, gk, e.dp, e.rng], dict(use_bmmp=bmmp, use_bat=bat))

  t0 = time.time()
  budget = 120 if tier == 'quick' else 1500
  cases = []
  for N in (2, 4):
    for a0, a1 in itertools.product(range(2 * N), repeat=2):
      if N == 4 and (a0 * 3 + a1) % 7:
        continue
      cases.append((2, N, 1, (a0, a1), (a0 + 3 * a1) % (2 * N)))
  for b in range(4):
    cases.append((2, 2, 1, (1, 3), b))
  cases += [(2, 2, 2, (1, 2), 3), (2, 2, 2, (3, 0), 1)]
  if tier != 'quick':
    cases += [(4, 2, 1, a, 1) for a in itertools.product(range(4), repeat=4)]
  else:
    cases += [(4, 1, 1, a, 1) for a in itertools.product(range(2), repeat=4)]
    cases += [(4, 2, 1, (1, 2, 3, 1), 2)]
  for n, N, k, a, b in cases:
    for bmmp, bat in ((True, False), (False, False), (False, True)):
      if n > 2 and not bmmp and N > 1:
        continue
      if bat and (a[0] + a[1]) % 3:
        continue
      what = (f'[dimension {n}, degree {N}, ring dimension {k}, exponents {a}, {b}, '
              f'{"paired" if bmmp else "plain"}{" precompiled" if bat else ""} key]')
      if time.time() - t0 > budget:
        rep.note('time budget of blind-rotation cases reached')
        break

      def th():
        e = st['e'] = Env(it, dom, n=n, N=N, k=k, lb=16, lv=2, err=0)
        key = bsk_for(e, bmmp, bat)
        ct = e.rlwe_ct('t')
        st['t'] = it.getattr_(ct, 'message')
        idx = arr(list(a) + [b], 'uint32')
        return it.call(it.get(P + 'bootstrap.blind_rotate'), [ct, idx, key, e.dp], {})

      def judge(v, tk):
        e = st['e']
        for f, w in (('modulus_degree', N), ('log_coefficient_modulus', 32)):
          if it.getattr_(v, f) != w:
            return f'{what} result records {f} = {it.getattr_(v, f)!r}'
        try:
          ph = rlwe_phase(it.getattr_(v, 'message'), e.z)
        except ValueError as ex:
          return str(ex)
        want = rotation(rlwe_phase(st['t'], e.z), e, a, b)
        for j in range(N):
          x = check(ph[j], want[j], e.bits, f'{what} coefficient {j} of the phase')
          if x:
            return x
        return None
      explore(rep, it, 'blind-rotate', B + 'blind_rotate', th, judge)

  # ---- the whole bootstrap, both entry points
  N, n, k = 4, 2, 1
  step = 2**32 // (2 * N)
  for i, (w0, w1, wb) in enumerate(((0, 0, 0), (step, 0, 0), (0, 3 * step, step),
                                    (5 * step + 17, 2 * step - 9, 7 * step + 3),
                                    (step // 2 - 1, step // 2, 2**32 - 1),
                                    (2**32 - step // 2, 6 * step, 3 * step))):
    for bmmp in (True, False):
      for via in ('bootstrap', 'jit_bootstrap', 'callback'):
        what = f'[words {w0}, {w1}, {wb}, {"paired" if bmmp else "plain"} key, {via}]'

        def th():
          e = st['e'] = Env(it, dom, n=n, N=N, k=k, lb=16, lv=2, err=0)
          key = bsk_for(e, bmmp)
          fk = it.call(it.get(P + 'rlwe.flatten_key'), [e.rlwe_sk], {})
          kdp = it.call(it.get(P + 'decomposition.DecompositionParameters'), [],
                        dict(log_base=8, level_count=4))
          ksk = it.call(it.get(P + 'key_switch.gen_key'), [kdp, e.rng, fk, e.lwe_sk], {})
          tp = e.rlwe_ct('t')
          st['t'] = it.getattr_(tp, 'message')
          ct = arr([w0, w1, wb], 'uint32')
          if via == 'jit_bootstrap':
            return it.call(it.get(P + 'bootstrap.jit_bootstrap'), [
                ct, st['t'], it.getattr_(key, 'encrypted_lwe_sk_bits'),
                it.getattr_(ksk, 'key_data'), kdp, e.dp, e.sp, bmmp, False], {})
          kw = {}
          if via == 'callback':
            kw = dict(callback=Native('cb', lambda *x: None))
          return it.call(it.get(P + 'bootstrap.bootstrap'),
                         [ct, tp, key, ksk, kdp, e.dp, e.sp], kw)

        def judge(v, tk):
          e = st['e']
          try:
            ph = lwe_phase(v, e.s)
          except ValueError as ex:
            return str(ex)
          r = lambda w: ((w + step // 2) // step) % (2 * N)
          want = rotation(rlwe_phase(st['t'], e.z), e, (r(w0), r(w1)), r(wb))[0]
          return check(ph, want, e.bits, what + ' bootstrapped phase')
        explore(rep, it, 'bootstrap', B + via.replace('callback', 'bootstrap'), th, judge)
  return finish(rep, it, 1)
