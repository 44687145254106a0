"""Shared helpers of the checks."""
import itertools

import numpy as np

import core
import poly
import sarr
from core import (AbsRaise, AbsVal, AnalysisError, Bound, Cls, Ext, Func, Inst,
                  Interp, Native, Repo, Unk, VDict, VList)
from poly import Poly
from report import Report
from sarr import Pay, SArr


def arr(cells, dtype=None, lib='jnp'):
  """nested python list -> SArr."""
  a = np.array(cells, dtype=object)
  # np.array may descend into Poly? (Poly is not a sequence) fine.
  return SArr(tuple(a.shape), a, dtype, lib)


def sym_arr(name, shape, dtype='uint32', dom=None, rng=None, lib='jnp'):
  d = sarr.obj(tuple(shape))
  for idx in itertools.product(*[range(s) for s in shape]):
    nm = name + '[' + ','.join(map(str, idx)) + ']'
    d[idx] = poly.sym(nm)
    if dom is not None and rng is not None:
      dom.ranges[nm] = rng
  return SArr(tuple(shape), d, dtype, lib)


class Tag(AbsVal):
  """An opaque, identity-carrying value."""

  def __init__(self, kind, **info):
    self.kind = kind
    self.info = info

  def __repr__(self):
    return f'<{self.kind}>'

  def abs_truth(self):
    return True

  def abs_getattr(self, interp, name, node):
    if name in self.info:
      return self.info[name]
    if name in ('astype', 'block_until_ready'):
      return Native(name, lambda it, a, k, n: self)
    raise AnalysisError(f'attribute {name} of {self!r}', node)


class RngTag(AbsVal):
  """A random source: every draw yields fresh symbols."""

  def __init__(self, name, dom, draws=None, err=None):
    self.name = name
    self.dom = dom
    self.n = 0
    self.draws = draws if draws is not None else []
    self.err = err

  def abs_truth(self):
    return True

  def _draw(self, kind, a, k, rng):
    shape = a[0] if a else k.get('shape', (1,))
    dt = sarr.dtype_name(a[1] if len(a) > 1 else k.get('dtype')) or 'uint32'
    shp = []
    for d in (shape.items if isinstance(shape, VList) else
              shape if isinstance(shape, tuple) else (shape,)):
      c = sarr.concrete_cell(d)
      if c is None and isinstance(d, SArr) and d.ndim == 0:
        c = sarr.concrete_cell(d.data[()])
      if c is None:
        raise AnalysisError('abstract draw shape')
      shp.append(c)
    nm = f'{self.name}.{kind}{self.n}'
    self.n += 1
    self.draws.append((kind, nm, tuple(shp)))
    if kind == 'e' and self.err is not None:
      d = sarr.obj(tuple(shp))
      d.fill(self.err)
      return SArr(tuple(shp), d, dt, 'jnp')
    return sym_arr(nm, shp, dt, self.dom, rng)

  def abs_getattr(self, interp, name, node):
    if name == 'uniform':
      return Native(name, lambda it, a, k, n: self._draw('u', a, k, (0, 2**32 - 1)))
    if name == 'rounded_normal':
      return Native(name, lambda it, a, k, n: self._draw('e', a, k, None))
    if name == 'sk_uniform':
      return Native(name, lambda it, a, k, n: self._draw('s', a, k, (0, 1)))
    raise AnalysisError(f'rng attribute {name}', node)


class NoEval(Exception):
  pass


def evaluate(x, val):
  """Value of a normal form under a valuation of the plain symbols."""
  if isinstance(x, bool) or isinstance(x, int):
    return x
  if isinstance(x, SArr):
    if x.data.size != 1:
      raise NoEval
    return evaluate(x.data.flat[0], val)
  if isinstance(x, Poly):
    t = 0
    for mono, c in x.t.items():
      for a, e in mono:
        c = c * ev_atom(a, val)**e
      t += c
    return t
  if isinstance(x, poly.Cond):
    o, a = x.op, x.args
    if o in ('==0', '!=0', '<0', '<=0'):
      v = evaluate(a[0], val)
      return {'==0': v == 0, '!=0': v != 0, '<0': v < 0, '<=0': v <= 0}[o]
    if o == 'not':
      return not evaluate(a[0], val)
    if o in ('or', 'and'):
      vs = [bool(evaluate(y, val)) for y in a]
      return any(vs) if o == 'or' else all(vs)
  raise NoEval


def ev_atom(a, val):
  if not a.args:
    if a.op in val:
      return val[a.op]
    raise NoEval
  memo = val.setdefault('__memo__', {})
  if a not in memo:
    memo[a] = ev_atom_(a, val)
  return memo[a]


def ev_atom_(a, val):
  if not a.args:
    if a.op in val:
      return val[a.op]
    raise NoEval
  if a.op == 'bit':
    return evaluate(a.args[0], val) & 1
  if a.op == 'byte':
    return (evaluate(a.args[0], val) >> (8 * a.args[2])) & 255
  if '@' in str(a.op) and len(a.args) == 2:
    op, dt = a.op.split('@')
    from moddom import wrap
    x, y = [wrap(evaluate(z, val), dt) for z in a.args]
    try:
      return wrap(core.PYOPS[op](x, y), dt)
    except Exception:
      raise NoEval
  if a.op == 'val':
    from moddom import wrap
    return wrap(evaluate(a.args[0], val), a.args[1])
  if a.op == 'ext' and len(a.args) == 3:
    from moddom import wrap
    return wrap(wrap(evaluate(a.args[0], val), a.args[1]), a.args[2])
  if a.op == 'where':
    return evaluate(a.args[1] if evaluate(a.args[0], val) else a.args[2], val)
  if a.op == 'shr':
    return evaluate(a.args[0], val) >> a.args[1]
  if a.op == 'modp':
    return evaluate(a.args[0], val) % a.args[1]
  if a.op == 'bool2int':
    return int(bool(evaluate(a.args[0], val)))
  if a.op in ('%', '//', '>>', '&', '|', '^') and len(a.args) == 2:
    x, y = evaluate(a.args[0], val), evaluate(a.args[1], val)
    try:
      return core.PYOPS[a.op](x, y)
    except Exception:
      raise NoEval
  raise NoEval


def decide(dom, got, want, mod=None, tries=64):
  """True: equal normal forms; False: a valuation separates them; None: unknown."""
  g, w = Poly.lift(got), Poly.lift(want)
  if g is not None and w is not None:
    d = g - w
    if not d.t or (mod and all(isinstance(c, int) and c % mod == 0 for c in d.t.values())):
      return True
  names = set()

  def scan(x):
    if isinstance(x, Poly):
      for a in x.all_atoms():
        if not a.args:
          names.add(a.op)
    elif isinstance(x, poly.Cond):
      for y in x.args:
        scan(y)
    elif isinstance(x, SArr):
      for y in x.data.flat:
        scan(y)

  scan(got)
  scan(want)
  rg = getattr(dom, 'ranges', {})
  if any(n not in rg for n in names):
    return None
  import random
  rnd = random.Random(11)
  size = 1
  for n in names:
    size *= rg[n][1] - rg[n][0] + 1
    if size > 4096:
      break
  if size <= 4096:
    ns = sorted(names, key=str)
    for vs in itertools.product(*[range(rg[n][0], rg[n][1] + 1) for n in ns]):
      val = dict(zip(ns, vs))
      try:
        a, b = evaluate(got, val), evaluate(want, val)
      except NoEval:
        return None
      if (int(a) - int(b)) % mod if mod else int(a) != int(b):
        return False
    return True
  for i in range(tries):
    val = {}
    for n in names:
      lo, hi = rg[n]
      val[n] = lo if i == 0 else hi if i == 1 else (
          rnd.choice((lo, hi, rnd.randint(lo, hi))))
    try:
      a, b = evaluate(got, val), evaluate(want, val)
    except NoEval:
      return None
    if (int(a) - int(b)) % mod if mod else int(a) != int(b):
      return False
  return None


def must(dom, got, want, what, mod=None):
  """None when equal, a message when a valuation separates them."""
  q = decide(dom, got, want, mod)
  if q is None:
    raise AnalysisError(f'{what}: not decided {got!r:.200} against {want!r:.100}')
  return None if q else f'{what} to {got!r:.200}, expected {want!r:.200}'


def witness(dom, taken, tries=400):
  """A valuation of the ranged symbols satisfying the path condition.

  None: not found (the path is then not reported, only listed undecided).
  """
  conds = [(t[4], t[1]) for t in taken]
  if not conds:
    return {}
  names = {}
  consts = {0, 1}

  def scan(x):
    if isinstance(x, Poly):
      for a in x.all_atoms():
        if not a.args:
          names[a.op] = getattr(dom, 'ranges', {}).get(a.op)
      for c in x.t.values():
        if isinstance(c, int):
          consts.add(abs(c))
    elif isinstance(x, SArr):
      for y in x.data.flat:
        scan(y)
    elif isinstance(x, poly.Cond):
      for y in x.args:
        scan(y)

  for c, _ in conds:
    scan(c)
  if any(r is None for r in names.values()):
    return None
  import random
  rnd = random.Random(1)
  cand = {}
  for n, (lo, hi) in names.items():
    cs = {lo, hi, lo + 1, hi - 1}
    for c in list(consts)[:40]:
      cs |= {c, c + 1, c - 1}
    cand[n] = sorted(v for v in cs if lo <= v <= hi)
  ns = sorted(names, key=str)
  for i in range(tries):
    if i < 60 and len(ns) == 1:
      cl = cand[ns[0]]
      val = {ns[0]: cl[i % len(cl)]}
    else:
      val = {n: (rnd.choice(cand[n]) if rnd.random() < .7 else
                 rnd.randint(*names[n])) for n in ns}
    try:
      if all(bool(evaluate(c, val)) == v for c, v in conds):
        return val
    except NoEval:
      return None
  return None


def confirm(interp, thunk, judge, raises_ok, taken, depth=0):
  """Re-analyse with the path's symbols fixed to a valuation that takes it.

  Returns the violation found there with no path condition left, or None.
  """
  val = witness(interp.domain, taken)
  if val is None or depth > 3:
    return None
  val.pop('__memo__', None)
  saved = dict(poly.PIN)
  try:
    poly.PIN.update(val)
    for outcome, v, tk in interp.explore(thunk, 16):
      if outcome == 'undecided':
        continue
      d = None
      if outcome == 'raise':
        if raises_ok is None or not raises_ok(v, tk):
          d = f'raises {v.exc_type}{v.exc_args!r:.200} at {v.where}'
      else:
        try:
          d = judge(v, tk)
        except AnalysisError:
          continue
      if d is None:
        continue
      if tk:
        d = confirm(interp, thunk, judge, raises_ok, tk, depth + 1)
        if d is None:
          continue
        return d
      return d + (f' [with {val}]' if val else '')
  except AnalysisError:
    return None
  finally:
    poly.PIN.clear()
    poly.PIN.update(saved)
  return None


def guarded(fn):
  """A shape the check does not know is undecided, not a crash."""
  def f(*a):
    try:
      return fn(*a)
    except (AttributeError, KeyError, IndexError, TypeError, ValueError,
            AssertionError) as e:
      import os
      if os.environ.get('VERIF_DEBUG') == '2':
        raise
      raise AnalysisError(f'{type(e).__name__}: {e}')
  return f


def explore(rep, interp, kind, where, thunk, judge, raises_ok=None,
            max_paths=512):
  """Explore all traces of thunk, and judge each result.

  judge(value, taken) -> None (fine) or a string describing the violation.
  raises_ok(exc, taken) -> True if that exception is allowed there.
  A violation on a trace with path conditions counts only if it is found
  again with the symbols fixed to values that satisfy them.
  """
  thunk, judge = guarded(thunk), guarded(judge)
  try:
    outs = interp.explore(thunk, max_paths)
  except AnalysisError as e:
    rep.undecided(kind, where, e)
    return
  bad = 0
  for outcome, v, taken in outs:
    rep.count('paths')
    path = '; '.join(f'{t[3]} {t[2][:80]} = {t[1]}' for t in taken[:6])
    try:
      if outcome == 'undecided':
        rep.undecided(kind, where, f'{v} [{path}]')
        continue
      if outcome == 'raise':
        if raises_ok is not None and raises_ok(v, taken):
          rep.ok(kind, where, f'raises {v.exc_type}')
          continue
        d = f'raises {v.exc_type}{v.exc_args!r:.200} at {v.where}'
      else:
        d = judge(v, taken)
        if d is None:
          rep.ok(kind, where)
          continue
      if taken:
        c = None
        if bad < 12:
          c = confirm(interp, thunk, judge, raises_ok, taken)
          bad += 1
        if c is None:
          rep.undecided(kind, where, f'{d} not confirmed on a feasible path [{path}]')
        else:
          rep.viol(kind, where, f'{c} [{path}]')
      else:
        rep.viol(kind, where, d)
    except AnalysisError as e:
      rep.undecided(kind, where, f'{e} [{path}]')


def section(rep, name, fn, *args):
  """Run one part of a check; what it cannot set up is undecided."""
  try:
    return fn(*args)
  except (AnalysisError, AbsRaise) as e:
    rep.undecided('setup', name, e)
  except (AttributeError, KeyError, IndexError, TypeError, ValueError) as e:
    import os
    if os.environ.get('VERIF_DEBUG'):
      raise
    rep.undecided('setup', name, f'{type(e).__name__}: {e}')
  return None


def finish(rep, interp=None, min_ok=1):
  for i in core.Interp.instances:
    rep.functions |= i.inlined
    rep.files |= {m.relpath for m in i.modules.values() if m is not None}
  return rep.finish(min_ok)
