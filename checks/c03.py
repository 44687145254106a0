"""C03: client-side conversions between integers, bytes, text and bit slices."""
from common import *
from moddom import ModDomain

T = 'jaxite.jaxite_bool.type_converters.'
W = 'jaxite/jaxite_bool/type_converters.py::'
RULE = (
    'Abstract interpretation over symbolic bits: each converter is a map '
    'between a list of bit symbols and a polynomial sum of 2^i * bit_i; the '
    'normal form of the result must be the little-endian one for every '
    'position, and composed converters must be the identity, for every value '
    'of the bits at once.')


def bits(dom, n, nm='b'):
  return [dom.sym(f'{nm}{i}', 0, 1) for i in range(n)]


def weigh(bs, o=0):
  p = poly.const(0)
  for i, b in enumerate(bs):
    p = p + b * poly.const(1 << (i + o))
  return p


def bad(dom, v, want):
  """None if v equals want, True if a valuation separates them."""
  if isinstance(v, poly.Cond) and v.op == '!=0' and Poly.lift(v.args[0]) == want:
    return None
  if isinstance(v, bool):
    v = int(v)
  r = decide(dom, v, want)
  if r is None:
    raise AnalysisError(f'not decided: {v!r:.200}')
  return None if r else True


def run(tier):
  rep = Report('C03', RULE, tier)
  dom = ModDomain()
  it = Interp(Repo(), dom)

  sizes = [1, 2, 4, 7, 8, 12, 16, 32, 64]
  for n in sizes:
    def th():
      return it.call(it.get(T + 'bit_slice_to_uint'), [VList(bits(dom, n)), n], {})

    def judge(v, tk):
      if bad(dom, v, weigh(bits(dom, n))):
        return f'{n} bits b0..: gives {v!r:.200}'
    explore(rep, it, 'to-uint', W + 'bit_slice_to_uint', th, judge)

    for k in (n - 1, n + 1):
      def th():
        return it.call(it.get(T + 'bit_slice_to_uint'), [VList(bits(dom, k)), n], {})
      explore(rep, it, 'length', W + 'bit_slice_to_uint', th,
              lambda v, tk: f'accepts {k} bits for a {n}-bit integer',
              raises_ok=lambda e, tk: e.exc_type == 'ValueError')

    def th():
      return it.call(it.get(T + 'uint_to_bit_slice'), [weigh(bits(dom, n)), n], {})

    def judge(v, tk):
      ls = it.iterate(v)
      if len(ls) != n:
        return f'{n}-bit integer gives {len(ls)} bits'
      for i, x in enumerate(ls):
        if bad(dom, x, bits(dom, n)[i]):
          return f'bit {i} of a {n}-bit integer is {x!r}'
      return None
    explore(rep, it, 'to-bits', W + 'uint_to_bit_slice', th, judge)

  def th():
    return it.call(it.get(T + 'bit_slice_to_u8'), [VList(bits(dom, 8))], {})
  explore(rep, it, 'to-uint', W + 'bit_slice_to_u8', th,
          lambda v, tk: bad(dom, v, weigh(bits(dom, 8))) and f'gives {v!r:.200}')
  for k in (0, 7, 9, 16):
    def th():
      return it.call(it.get(T + 'bit_slice_to_u8'), [VList(bits(dom, k))], {})
    explore(rep, it, 'length', W + 'bit_slice_to_u8', th,
            lambda v, tk: f'accepts {k} bits for a byte',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')

  def th():
    return it.call(it.get(T + 'u8_to_bit_slice'), [weigh(bits(dom, 8))], {})

  def judge8(v, tk):
    ls = it.iterate(v)
    if len(ls) != 8:
      return f'a byte gives {len(ls)} bits'
    for i, x in enumerate(ls):
      if bad(dom, x, bits(dom, 8)[i]):
        return f'bit {i} of a byte is {x!r}'
    return None
  explore(rep, it, 'to-bits', W + 'u8_to_bit_slice', th, judge8)
  for lo, hi in ((256, 2**20), (-2**20, -1)):
    def th():
      return it.call(it.get(T + 'u8_to_bit_slice'), [dom.sym(f'o{hi}', lo, hi)], {})
    explore(rep, it, 'range', W + 'u8_to_bit_slice', th,
            lambda v, tk: f'accepts values in [{lo}, {hi}] as a byte',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')

  for m in (1, 2, 3, 5, 17):
    def th():
      return it.call(it.get(T + 'u8_list_to_bit_slice'),
                     [VList([weigh(bits(dom, 8, f'y{j}_')) for j in range(m)])], {})

    def judge(v, tk):
      ls = it.iterate(v)
      if len(ls) != 8 * m:
        return f'{m} bytes give {len(ls)} bits'
      for j in range(m):
        for i in range(8):
          if bad(dom, ls[8 * j + i], bits(dom, 8, f'y{j}_')[i]):
            return f'bit {i} of byte {j} is {ls[8 * j + i]!r}'
      return None
    explore(rep, it, 'bytes-to-bits', W + 'u8_list_to_bit_slice', th, judge)

    # bit slice -> bytes (the bytes constructor is the sink)
    def th():
      return it.call(it.get(T + 'bit_slice_to_bytes'),
                     [VList([b for j in range(m) for b in bits(dom, 8, f'y{j}_')])], {})

    def judge(v, tk):
      try:
        ls = it.iterate(v)
      except AnalysisError:
        raise
      if len(ls) != m:
        return f'{8 * m} bits give {len(ls)} bytes'
      for j in range(m):
        if bad(dom, ls[j], weigh(bits(dom, 8, f'y{j}_'))):
          return f'byte {j} of {m} is {ls[j]!r}'
      return None
    explore(rep, it, 'bits-to-bytes', W + 'bit_slice_to_bytes', th, judge)

  for fn in ('u8_list_to_bit_slice', 'bit_slice_to_bytes'):
    def th():
      return it.call(it.get(T + fn), [VList([])], {})
    explore(rep, it, 'empty', W + fn, th, lambda v, tk: 'accepts an empty input',
            raises_ok=lambda e, tk: e.exc_type == 'ValueError')

  # text: all ASCII codes, padding, and the way back
  texts = [''.join(chr(c) for c in range(0, 128)), 'a', 'hello world', '\x7f\x00~',
           'Az09 !']
  for t in texts:
    for extra in (None, 0, 3):
      sl = None if extra is None else len(t) + extra

      def th():
        kw = {} if sl is None else {'static_len': sl}
        cl = it.call(it.get(T + 'str_to_cleartext'), [t], kw)
        return cl, it.call(it.get(T + 'cleartext_to_str'), [cl], {})

      def judge(v, tk):
        cl, back = v
        ls = it.iterate(cl)
        want = t + ' ' * (extra or 0)
        wb = [bool(ord(ch) >> i & 1) for ch in want for i in range(8)]
        if [bool(x) for x in ls] != wb:
          return f'text {t[:20]!r} (length {sl}) gets the wrong bits'
        if not isinstance(back, str):
          raise AnalysisError(f'text {back!r}')
        return None if back == want else f'text {t[:20]!r} comes back as {back[:40]!r}'
      explore(rep, it, 'text', W + 'str_to_cleartext', th, judge)

  def th():
    return it.call(it.get(T + 'str_to_cleartext'), ['ab', 4, b'*'], {})
  explore(rep, it, 'text', W + 'str_to_cleartext', th,
          lambda v, tk: None if [bool(x) for x in it.iterate(v)] == [
              bool(c >> i & 1) for c in b'ab**' for i in range(8)] else
          'custom padding byte not honoured')
  return finish(rep, it, 1)
