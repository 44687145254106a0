"""Pallas kernels: block specs, refs and rolls, on top of ModDomain.

A kernel call is interpreted grid step by grid step: the blocks selected by the
index maps become refs, the kernel body is interpreted, and output blocks are
written back.  bfloat16 holds integers up to 256 exactly and a float32
accumulator integers up to 2^24; a value not shown to stay inside becomes an
opaque rounded atom.
"""
from common import *
from moddom import ModDomain, W


class Ref(AbsVal):

  def __init__(self, data, dtype):
    self.a = SArr(data.shape, data, dtype, 'np')

  def abs_getattr(self, interp, name, node):
    return interp.getattr_(self.a, name)

  def abs_getitem(self, interp, key, node):
    v = self.a.abs_getitem(interp, key, node)
    if isinstance(v, SArr):
      return SArr(v.axes, v.data.copy(), v.dtype, 'jnp')
    return v

  def abs_setitem(self, interp, key, value, node):
    if isinstance(value, SArr) and value.dtype != self.a.dtype:
      raise AnalysisError(f'store of {value.dtype} into a {self.a.dtype} ref')
    if isinstance(value, SArr):
      value = SArr(value.axes, value.data, value.dtype, 'np')
    self.a.abs_setitem(interp, key, value, node)


class Spec(AbsVal):

  def __init__(self, **k):
    self.k = k


def dims(it, x):
  return tuple(int(v) for v in it.iterate(x))


class PallasDomain(ModDomain):

  def ext_hook(self, path, a, k, node, mod):
    last = path.split('.')[-1]
    if 'pallas' in path or path.startswith(('pl.', 'pltpu.')):
      it = self.interp
      if last == 'BlockSpec':
        a = list(a) + [None, None]
        return Spec(block=k.get('block_shape', a[0]), index=k.get('index_map', a[1]))
      if last in ('PrefetchScalarGridSpec', 'GridSpec'):
        if k.get('num_scalar_prefetch', 0):
          raise AnalysisError('scalar prefetch')
        return Spec(**k)
      if last in ('CompilerParams', 'TPUCompilerParams'):
        return Spec()
      if last == 'ds':
        st = a[0]
        return slice(st, st + a[1])
      if last == 'roll':
        return self.roll(*a, **k)
      if last == 'pallas_call':
        kern = a[0] if a else k['kernel']
        return Native('pallas_call', lambda _, args, kw, nd: self.launch(kern, k, args, nd, mod))
      raise AnalysisError(f'external {path}')
    if path == 'jax.ShapeDtypeStruct':
      a = list(a) + [None, None]
      return Spec(shape=k.get('shape', a[0]), dtype=k.get('dtype', a[1]))
    if path == 'jax.lax.shift_right_logical':
      x, s = [self._arr(v) for v in a]
      if x.dtype in W and W[x.dtype][1]:
        u = 'u' + x.dtype
        x2 = x.map(lambda c: self.cell_cast(c, x.dtype, u), u)
        s2 = s.map(lambda c: c, u)
        r = self.binop('>>', x2, s2, node, mod)
        return r.map(lambda c: self.cell_cast(c, u, x.dtype), x.dtype)
    if path in ('jax.lax.dot', 'jax.lax.dot_general') and last == 'dot':
      pt = sarr.dtype_name(k.get('preferred_element_type'))
      r = self.matmul(self._arr(a[0]), self._arr(a[1]), node)
      if pt is not None:
        r = SArr(r.axes, r.data, pt, 'jnp')
      if r.dtype == 'float32':
        self.need(r, 2**24)
      return r
    return super().ext_hook(path, a, k, node, mod)

  def need(self, r, m):
    for c in r.data.flat:
      if isinstance(c, Poly):
        q = self.prange(c)
        if q is None or max(abs(q[0]), abs(q[1])) > m:
          raise AnalysisError(f'float accumulator may exceed {m}')

  def roll(self, x, shift, axis, stride=None, stride_axis=None):
    d = sarr.obj(x.data.shape)
    n = x.data.shape[axis]
    for i in np.ndindex(*d.shape):
      s = shift + (i[stride_axis] * stride if stride is not None else 0)
      j = list(i)
      j[axis] = (i[axis] - s) % n
      d[i] = x.data[tuple(j)]
    return SArr(x.axes, d, x.dtype, x.lib)

  def launch(self, kern, k, args, node, mod):
    it = self.interp
    gs = k.get('grid_spec')
    conf = dict(k)
    if isinstance(gs, Spec):
      conf.update(gs.k)
    ins = [self._arr(x) for x in args]
    outs = conf['out_shape']
    multi = isinstance(outs, (tuple, VList))
    outs = list(it.iterate(outs)) if multi else [outs]
    oa = []
    for o in outs:
      sh = dims(it, o.k['shape'])
      d = sarr.obj(sh)
      d[...] = None
      oa.append((d, sarr.dtype_name(o.k['dtype'])))
    grid = conf.get('grid')
    grid = () if grid is None else (grid,) if isinstance(grid, int) else dims(it, grid)

    def specs(x, n):
      if x is None:
        return [None] * n
      return [x] if isinstance(x, Spec) else list(it.iterate(x))
    si, so = specs(conf.get('in_specs'), len(ins)), specs(conf.get('out_specs'), len(oa))

    def block(sp, data, g):
      if sp is None or sp.k.get('block') is None:
        return data
      b = dims(it, sp.k['block'])
      ix = it.call(sp.k['index'], list(g), {})
      ix = dims(it, ix if isinstance(ix, (tuple, VList)) else (ix,))
      sl = tuple(slice(i * w, (i + 1) * w) for i, w in zip(ix, b))
      v = data[sl]
      if v.shape != b:
        raise AnalysisError(f'block {sl} of an array of shape {data.shape}')
      return v
    for g in np.ndindex(*grid):
      refs = [Ref(block(s, x.data, g).copy(), x.dtype) for s, x in zip(si, ins)]
      refs += [Ref(block(s, d, g), dt) for s, (d, dt) in zip(so, oa)]
      it.call(kern, refs, {})
    res = []
    for d, dt in oa:
      if any(c is None for c in d.flat):
        raise AnalysisError('kernel leaves part of its output unwritten')
      res.append(SArr(d.shape, d, dt, 'jnp'))
    return tuple(res) if multi else res[0]

  def cell_cast(self, c, f, t):
    if t == 'bfloat16' and isinstance(c, (Poly, int)):
      if isinstance(c, int):
        if abs(c) > 256:
          raise AnalysisError(f'{c} as bfloat16')
        return c
      f0 = self.cell_cast(c, f, f) if f in W else c
      r = self.prange(f0)
      if f in W and r is not None and W[f][1] and r[1] >= 2**31:
        f0 = self.refit(c, f)
        r = self.prange(f0) if f0 is not None else None
      if r is None or max(abs(r[0]), abs(r[1])) > 256:
        raise AnalysisError(f'value with range {r} as bfloat16')
      return f0
    if f in ('bfloat16', 'float32') and isinstance(c, Poly) and t in W:
      return super().cell_cast(c, 'int64', t)
    if t == 'float32' and isinstance(c, (Poly, int)):
      return c
    return super().cell_cast(c, f, t)
