"""C08: kernels and ciphertexts survive being passed through JAX transforms."""
import ast

from ckks import *
from c09 import F, P, cells, fresh
from c16 import (N, P2, Q3, ciphertext, evk_of, kernels)
from common import *
from report import Report

RULE = (
    'For every class registered as a pytree node, the analysis interprets '
    'tree_flatten and tree_unflatten on instances built by the package: no '
    'array hides in the auxiliary data, the rebuilt object carries every '
    'public attribute and computes the same results for symbolic inputs, new '
    'leaves put in come back out in the same places, and flattening the '
    'rebuilt object gives the same structure.')


def registered(repo):
  """(module, class) of every pytree node class in the source."""
  out = []
  for m in repo.source_files():
    tree = repo.parse(repo.modname_of(m))[1]
    for n in tree.body:
      if isinstance(n, ast.ClassDef) and any(
          'register_pytree_node_class' in ast.dump(d) for d in n.decorator_list):
        out.append((m, n.name))
  return out


def differ(dom, a, b, path, seen=None):
  """None, or a description of the first difference of two values."""
  seen = set() if seen is None else seen
  if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
    x = a.items if isinstance(a, VList) else list(a)
    y = b.items if isinstance(b, VList) else list(b)
    if len(x) != len(y):
      return f'{path} has {len(y)} elements instead of {len(x)}'
    for i, (u, v) in enumerate(zip(x, y)):
      d = differ(dom, u, v, f'{path}[{i}]', seen)
      if d:
        return d
    return None
  if isinstance(a, Inst) and isinstance(b, Inst):
    if (id(a), id(b)) in seen:
      return None
    seen.add((id(a), id(b)))
    if a.cls.name != b.cls.name:
      return f'{path} is a {b.cls.name} instead of a {a.cls.name}'
    for k in a.attrs:
      if str(k).startswith('_'):
        continue
      if k not in b.attrs:
        return f'{path}.{k} is lost'
      d = differ(dom, a.attrs[k], b.attrs[k], f'{path}.{k}', seen)
      if d:
        return d
    return None
  if isinstance(a, SArr) and isinstance(b, SArr):
    if a is b:
      return None
    if a.shape != b.shape or a.dtype != b.dtype:
      return (f'{path} is {b.dtype}{list(b.shape)} instead of '
              f'{a.dtype}{list(a.shape)}')
    for i in np.ndindex(*a.data.shape):
      u, v = a.data[i], b.data[i]
      if is_prim(u) and is_prim(v):
        if u != v:
          return f'{path}{list(i)} is {v} instead of {u}'
      elif Poly.lift(u) is not None and Poly.lift(v) is not None:
        if Poly.lift(u) != Poly.lift(v):
          d = equal(dom, v, u, a.dtype)
          if d:
            return f'{path}{list(i)}: {d}'
      else:
        raise AnalysisError(f'cells of {path}')
    return None
  if is_prim(a) and is_prim(b) or a is None or b is None:
    if (a is None) != (b is None) or a != b:
      return f'{path} is {b!r:.60} instead of {a!r:.60}'
    return None
  if a is b:
    return None
  if isinstance(a, Poly) and isinstance(b, Poly):
    return None if a == b else f'{path} differs'
  raise AnalysisError(f'comparison of {path}: {a!r:.40} and {b!r:.40}')


def has_array(v, depth=0):
  if isinstance(v, SArr):
    return True
  if isinstance(v, (VList, tuple)):
    return any(has_array(x) for x in (v.items if isinstance(v, VList) else v))
  if isinstance(v, VDict):
    return any(has_array(x) for x in v.d.values())
  if isinstance(v, Inst) and depth < 4:
    return any(has_array(x, depth + 1) for x in v.attrs.values())
  return False


def flat(it, o):
  r = it.call(it.getattr_(o, 'tree_flatten'), [], {})
  ch, aux = list(it.iterate(r))
  return tuple(it.iterate(ch)), aux


def rebuild(it, o):
  ch, aux = flat(it, o)
  return it.call(it.getattr_(o.cls, 'tree_unflatten'), [aux, ch], {})


def method(it, o, name, args=(), kw=None):
  return it.call(it.getattr_(o, name), list(args), dict(kw or {}))


def mk(it, q, *a, **k):
  return it.call(it.get(P + q), list(a), k)


L = lambda x: VList(list(x))


def recipes(it, dom):
  """class -> list of (label, build, behave)."""
  qs, ps = Q3, P2[:1]
  al = qs + ps

  def bar(mods=qs):
    return mk(it, 'barrett.precompute_barrett_constants', L(mods))

  def ct(name='x', mods=qs, els=2):
    return ciphertext(it, dom, name, mods, els)[0]

  def pt(name='p', mods=qs):
    return mk(it, 'types.Plaintext', sym_tower(dom, name, (N,), mods), arr(L(mods).items, 'uint32'))

  def pre(o, *a, **k):
    method(it, o, 'precompute_constants', a, k)
    return o

  def ntt(mods=qs):
    return pre(mk(it, 'ntt.NTTBarrett'), L(mods), 2, 2)

  def rns(name='x', mods=qs):
    return sym_tower(dom, name, (2, 2), mods)

  def use_ntt(o):
    return tuple(method(it, o, m, [rns()]) for m in ('ntt', 'intt'))

  def use_rescale(o):
    c = ct('x', al)
    method(it, o, 'rescale', [c])
    return c

  def evk(parts, mods=al):
    return evk_of(it, dom, parts, mods)[0]

  def use_ks(o):
    _, bc, mkk = kernels(it, qs, ps, 3)
    return method(it, o, 'key_switch', (), dict(
        ct=ct(), ksk=evk(3), p_limbs=arr(ps, 'uint32'), bc_kernel=bc, mul_kernel=mkk,
        start_control_index=0))

  def use_conj(o):
    _, bc, mkk = kernels(it, qs, ps, 3)
    rs = pre(mk(it, 'rescale.Rescale'), L(al), 1, 2, 2)
    return method(it, o, 'conjugate', (), dict(
        ct=ct(), conj_key=evk(3), p_limbs=arr(ps, 'uint32'), bc_kernel=bc, mul_kernel=mkk,
        rescale_kernel=rs, start_control_index=0))

  def use_mul(o):
    m2 = qs[:-1]
    e = evk_of(it, dom, 2, m2 + ps, cls='mul.EvaluationKeys')[0]
    return (method(it, o, 'tensor_multiply', [ct('x', m2), ct('y', m2)]),
            method(it, o, 'relinearize', [ct('z', m2, 3), e]))

  def hkey(name, qq):
    return mk(it, 'types.HMuxRotKey', ct(name + '0', qq + ps), ct(name + '1', qq + ps))

  def use_brot(o):
    q1 = qs[:2]
    return (method(it, o, 'hmuxrot', (), dict(
        ct=ct('x', q1), hmrkey=hkey('k', q1), j=1, p_limbs=arr(ps, 'uint32'))),
            method(it, o, 'brot_cm', [L([ct('x', q1 + ps)]), L([pt('p', q1 + ps)])]))

  bpairs = L([L([L([0]), L([1, 2])]), L([L([3, 0]), L([2])])])

  def use_bc(o):
    return tuple(method(it, o, 'basis_change', [sym_tower(dom, 'x', (2,), [al[i] for i in src])],
                        {'control_index': i}) for i, src in enumerate(([0], [3, 0])))

  pair = lambda o: method(it, o, 'add', [rns('x'), rns('y')])
  pmul = lambda o: method(it, o, 'mul', [ct('x'), pt()])
  field = lambda *ns: lambda o: tuple(it.getattr_(o, n) for n in ns)
  R = {
      'Rescale': [('ready', lambda: pre(mk(it, 'rescale.Rescale'), L(al), 2, 2, 2), use_rescale),
                  ('new', lambda: mk(it, 'rescale.Rescale'), None)],
      'AddSimple': [('ready', lambda: mk(it, 'add.AddSimple'), pair)],
      'AddModularBarrett': [('ready', lambda: mk(it, 'add.AddModularBarrett', bar()), pair)],
      'AddModularSubtract': [('ready', lambda: mk(it, 'add.AddModularSubtract', L(qs)), pair)],
      'NTTBarrettConstants': [
          ('ready', lambda: it.getattr_(ntt(), 'constants'),
           lambda o: method(it, o, 'slice_moduli', [slice(1, 3)])),
          ('slice', lambda: method(it, it.getattr_(ntt(), 'constants'), 'slice_moduli',
                                   [slice(0, 1)]), None)],
      'NTTBarrett': [('ready', ntt, use_ntt), ('new', lambda: mk(it, 'ntt.NTTBarrett'), None)],
      'BarrettBasisConversionConstants': [
          ('ready', lambda: list(it.iterate(it.getattr_(pre(mk(
              it, 'basis_conversion.BasisConversionBarrett'), L(al), bpairs),
              'precomputed_constants')))[0], None)],
      'BasisConversionBarrett': [
          ('ready', lambda: pre(mk(it, 'basis_conversion.BasisConversionBarrett'), L(al), bpairs),
           use_bc),
          ('new', lambda: mk(it, 'basis_conversion.BasisConversionBarrett'), None)],
      'KeySwitcher': [('ready', lambda: pre(mk(it, 'key_switching.KeySwitcher'), L(qs), L(ps), 3, 2, 2),
                       use_ks),
                      ('new', lambda: mk(it, 'key_switching.KeySwitcher'), None)],
      'MulPlaintextCiphertextSimple': [
          ('ready', lambda: mk(it, 'mul.MulPlaintextCiphertextSimple'), pmul)],
      'MulPlaintextCiphertextBarrett': [
          ('ready', lambda: mk(it, 'mul.MulPlaintextCiphertextBarrett', bar()), pmul)],
      'EvaluationKeys': [('ready', lambda: evk_of(it, dom, 2, qs, cls='mul.EvaluationKeys')[0],
                          field('a', 'b', 'moduli'))],
      'Mul': [('ready', lambda: pre(mk(it, 'mul.Mul'), L(qs), L(ps), 2, 2, 2), use_mul),
              ('composite', lambda: pre(mk(it, 'mul.Mul'), L(qs + [754974721]), L(ps), 2, 2, 2,
                                        composite_degree=2), use_mul),
              ('new', lambda: mk(it, 'mul.Mul'), None)],
      'BarrettConstants': [('ready', bar, None)],
      'BlindRotation': [('ready', lambda: pre(mk(it, 'blind_rotate.BlindRotation'), L(qs[:2]), L(ps),
                                              1, 2, 2), use_brot),
                        ('new', lambda: mk(it, 'blind_rotate.BlindRotation'), None)],
      'Plaintext': [('ready', pt, field('data', 'moduli'))],
      'Ciphertext': [('ready', ct, field('data', 'moduli'))],
      'HMuxRotKey': [('ready', lambda: hkey('k', qs[:1]), field('key0', 'key1'))],
      'MuxRotationKey': [
          ('ready', lambda: mk(it, 'types.MuxRotationKey', L([
              (hkey('a', qs[:1]), hkey('b', qs[:1])), (hkey('c', qs[:1]), hkey('d', qs[:1]))])),
           field('keys'))],
      'Conjugation': [('ready', lambda: pre(mk(it, 'conjugate.Conjugation'), L(qs), L(ps), 3, 2, 2),
                       use_conj),
                      ('new', lambda: mk(it, 'conjugate.Conjugation'), None)],
  }
  return R


def run(tier):
  rep = Report('C08', RULE, tier)
  repo = Repo()
  dom, it = fresh('blind_rotate', 'conjugate', 'mul', 'add')
  R = recipes(it, dom)
  for mod, name in registered(repo):
    where = f'{mod}:{name}'
    if name not in R:
      rep.undecided('pytree', where, 'no construction known for this class')
      continue
    for label, build, behave in R[name]:
      def th(build=build):
        return build()

      # nothing but static data beside the leaves, and the structure is stable
      def judge(o, tk, label=label, name=name):
        ch, aux = flat(it, o)
        if has_array(aux):
          return f'{label} {name}: an array sits in the auxiliary data'
        o2 = rebuild(it, o)
        d = differ(dom, o, o2, name)
        if d:
          return f'{label}: rebuilt from its leaves, {d}'
        ch2, aux2 = flat(it, o2)
        d = differ(dom, aux, aux2, 'auxiliary data') or differ(
            dom, ch, ch2, 'leaves')
        if d:
          return f'{label}: flattened again, {d}'
      explore(rep, it, 'round-trip', where, th, judge)

      # new leaves go in and come out in the same places
      def judge2(o, tk, label=label, name=name):
        ch, aux = flat(it, o)
        cnt = [0]

        def other(l):
          if not isinstance(l, SArr):
            return l
          cnt[0] += 1
          d = sarr.obj(l.data.shape)
          w = W.get(l.dtype, (8, False))
          for j, i in enumerate(np.ndindex(*d.shape)):
            d[i] = dom.sym(f'leaf{cnt[0]}_{j}', 0, 2**(w[0] - w[1]) - 1)
          return SArr(l.axes, d, l.dtype, l.lib)
        new = tuple(dom.tree_map(other, c) for c in ch)
        o2 = it.call(it.getattr_(o.cls, 'tree_unflatten'), [aux, new], {})
        ch2, _ = flat(it, o2)
        d = differ(dom, new, ch2, 'leaves')
        if d:
          return f'{label} {name}, rebuilt with other leaves: {d}'
      explore(rep, it, 'leaves', where, th, judge2)

      if behave is not None:
        def th3(build=build, behave=behave):
          o = build()
          o2 = rebuild(it, o)
          return behave(o), behave(o2)

        def judge3(v, tk, label=label, name=name):
          d = differ(dom, v[0], v[1], 'result')
          if d:
            return f'{label} {name}, rebuilt: {d}'
        explore(rep, it, 'behaviour', where, th3, judge3)
  return finish(rep)
