"""Structured abstract arrays.

Axes are either explicit (a concrete extent; one abstract cell per index) or
payload axes (one cell stands for the whole extent).  Cell values belong to the
domain in use (constants, Poly, intervals, ...).
"""
import itertools
import numpy as np
import core
from core import AnalysisError, AbsRaise, VList, AbsVal, Native, Ext


class Pay:
  """A payload axis."""
  __slots__ = ('name', 'size')

  def __init__(self, name, size):
    self.name = name
    self.size = size

  def __repr__(self):
    return f'<{self.name}>'

  def __eq__(self, o):
    return isinstance(o, Pay) and o.name == self.name

  def __hash__(self):
    return hash(self.name)


def obj(shape):
  return np.empty(shape, dtype=object)


_RANK = {
    'bool': 0, 'uint8': 1, 'int8': 1, 'uint16': 2, 'int16': 2, 'uint32': 3,
    'int32': 3, 'uint64': 4, 'int64': 4, 'float32': 6, 'float64': 7,
    'complex64': 8, 'complex128': 9, 'object': 10, 'bfloat16': 5,
}


X64 = True  # set per analysis: is 64-bit mode on for the analysed code?
_NARROW = {'int64': 'int32', 'uint64': 'uint32', 'float64': 'float32',
           'complex128': 'complex64'}


# True: 64-bit mode concerns jnp arrays only, and is applied where one is made
# (domains whose cells are observed lazily in the dtype of their array)
PER_LIB = False
SCALAR_DTYPE = None  # hook: dtype of an abstract scalar (None = weak integer)


def canon(d):
  return d if X64 or PER_LIB else _NARROW.get(d, d)


def promote(a, b):
  return canon(promote_(a, b))


def promote_(a, b):
  """jnp-style promotion for two strong dtypes (None = weak python scalar)."""
  if a is None:
    return b
  if b is None:
    return a
  if a == b:
    return a
  if 'object' in (a, b):
    return 'object'
  if a == 'weakfloat' or b == 'weakfloat':
    o = b if a == 'weakfloat' else a
    if o.startswith(('float', 'complex', 'bfloat')):
      return o
    return 'float64'
  ra, rb = _RANK.get(a, 10), _RANK.get(b, 10)
  if a == 'bool':
    return b
  if b == 'bool':
    return a
  fa, fb = ra >= 5, rb >= 5
  if fa or fb:
    return a if ra >= rb else b
  sa, sb = a.startswith('u'), b.startswith('u')
  if sa == sb:
    return a if ra >= rb else b
  u, s = (a, b) if sa else (b, a)
  if _RANK[s] > _RANK[u]:
    return s
  return {1: 'int16', 2: 'int32', 3: 'int64', 4: 'float64'}[_RANK[u]]


def dtype_name(d):
  return canon(dtype_name_(d))


def dtype_name_(d):
  if d is None:
    return None
  if isinstance(d, str):
    return d
  if isinstance(d, Ext):
    n = d.path.split('.')[-1]
    return {'int': 'int64', 'float': 'float64', 'uint': 'uint64',
            'bool_': 'bool', 'object_': 'object', 'float_': 'float64',
            'complex': 'complex128', 'int_': 'int64', 'longlong': 'int64',
            'csingle': 'complex64', 'double': 'float64', 'single': 'float32',
            'intc': 'int32', 'uintc': 'uint32', 'ubyte': 'uint8',
            'byte': 'int8', 'short': 'int16', 'ushort': 'uint16',
            }.get(n, n)
  if isinstance(d, Native):
    return {'int': 'int64', 'float': 'float64', 'bool': 'bool',
            'complex': 'complex128', 'object': 'object'}.get(d.name)
  return None


class SArr(AbsVal):

  def __init__(self, axes, data, dtype=None, lib='jnp'):
    self.axes = tuple(axes)
    self.data = data
    if PER_LIB and not X64 and lib == 'jnp':
      dtype = _NARROW.get(dtype, dtype)
    self.dtype = dtype
    self.lib = lib
    self.base = self  # aliasing root for numpy views
    n = sum(1 for a in self.axes if not isinstance(a, Pay))
    if data.ndim != n:
      raise AnalysisError(f'axes/data mismatch {self.axes} {data.shape}')

  # -- helpers
  @property
  def shape(self):
    return tuple(a.size if isinstance(a, Pay) else a for a in self.axes)

  @property
  def ndim(self):
    return len(self.axes)

  def abs_key(self):
    import poly
    return ('SArr', self.axes, tuple(poly._k(c) for c in self.data.flat))

  def cells(self):
    return list(self.data.flat)

  def __repr__(self):
    return f'SArr{list(self.axes)}:{self.dtype}{self.data.tolist()!r}'[:400]

  def map(self, f, dtype='same'):
    d = obj(self.data.shape)
    for i in np.ndindex(*self.data.shape):
      d[i] = f(self.data[i])
    return SArr(self.axes, d, self.dtype if dtype == 'same' else dtype,
                self.lib)

  def exp_axis(self, i):
    """explicit-data axis number for array axis i (must be explicit)."""
    if isinstance(self.axes[i], Pay):
      raise AnalysisError(f'payload axis {i} used structurally')
    return sum(1 for a in self.axes[:i] if not isinstance(a, Pay))

  def norm_axis(self, ax):
    if not isinstance(ax, int):
      raise AnalysisError(f'abstract axis {ax!r}')
    if ax < 0:
      ax += self.ndim
    if not 0 <= ax < self.ndim:
      raise AbsRaise('ValueError', ('axis',))
    return ax

  # -- python protocol
  def abs_truth(self):
    if self.data.size == 1 and not any(isinstance(a, Pay) for a in self.axes):
      c = self.data.flat[0]
      if core.is_prim(c):
        return bool(c)
      if isinstance(c, AbsVal):
        return c.abs_truth()
    return None

  def abs_len(self, interp, node):
    if not self.axes:
      raise AbsRaise('TypeError', ('len of 0-d',), node)
    return self.shape[0]

  def abs_iter(self, interp, node):
    if not self.axes:
      raise AbsRaise('TypeError', ('iter of 0-d',), node)
    n = self.axes[0]
    if isinstance(n, Pay):
      raise AnalysisError('iteration over payload axis', node)
    return [self.index((i,)) for i in range(n)]

  def abs_getattr(self, interp, name, node):
    if name == 'shape':
      return self.shape
    if name == 'ndim':
      return self.ndim
    if name == 'size':
      r = 1
      for s in self.shape:
        r = interp.binop('*', r, s)
      return r
    if name == 'dtype':
      return Ext('np.' + self.dtype) if self.dtype else core.Unk('dtype')
    if name == 'T':
      return transpose(self, None)
    if name == 'at':
      return AtProxy(self)
    if name == 'device':
      return core.Unk('device')
    if name in ('real', 'imag'):
      import poly
      return self.map(lambda c: interp.domain.cell_unary(name, c))
    if name == 'itemsize':
      return interp.domain.call_ext('np.dtype_itemsize', [self.dtype], {},
                                    node, None)
    return Native(name, lambda it, a, k, n: interp.domain.arr_method(
        self, name, a, k, n))

  def abs_getitem(self, interp, key, node):
    return self.index(key, interp, node)

  def abs_setitem(self, interp, key, value, node):
    if self.lib != 'np':
      raise AbsRaise('TypeError', ('jax arrays are immutable',), node)
    interp.domain.on_array_store(self, key, value, node)
    new = store(self, key, value, interp, None).data
    if not self.data.flags.writeable:
      self.data = new
    else:
      self.data[...] = new
    return None

  def abs_inplace(self, interp, op, rhs, node):
    if self.lib != 'np':
      return None
    interp.domain.on_array_store(self, Ellipsis, rhs, node)
    r = interp.binop(op, self, rhs, node, None)
    if isinstance(r, SArr) and r.axes == self.axes:
      if self.data.flags.writeable:
        self.data[...] = r.data
      else:
        self.data = r.data
      return self
    return r

  # -- indexing
  def index(self, key, interp=None, node=None):
    ax, src = resolve_index(self, key, interp, node)
    return src


class AtProxy(AbsVal):

  def __init__(self, arr):
    self.arr = arr

  def abs_getitem(self, interp, key, node):
    return AtIndexed(self.arr, key)


class AtIndexed(AbsVal):

  def __init__(self, arr, key):
    self.arr = arr
    self.key = key

  def abs_getattr(self, interp, name, node):

    def go(it, a, k, n):
      h = it.domain.on_at(self.arr, self.key, name, a, k, n)
      if h is not NotImplemented:
        return h
      if name == 'get':
        return self.arr.index(self.key, it, n)
      op = {'set': None, 'add': '+', 'multiply': '*', 'mul': '*',
            'subtract': '-', 'max': 'max', 'min': 'min'}.get(name, 'bad')
      if op == 'bad':
        raise AnalysisError('at.' + name, n)
      return store(self.arr, self.key, a[0], it, op)

    return Native('at.' + name, go)


def _norm_key(arr, key):
  if not isinstance(key, tuple):
    key = (key,)
  key = [None if getattr(k, 'path', None) in ('np.newaxis', 'jnp.newaxis')
         else k for k in key]
  n_real = sum(1 for k in key if k is not None and k is not Ellipsis)
  if any(k is Ellipsis for k in key):
    i = [j for j, k in enumerate(key) if k is Ellipsis][0]
    fill = arr.ndim - n_real
    key[i:i + 1] = [slice(None)] * fill
  else:
    key += [slice(None)] * (arr.ndim - n_real)
  return key


def _as_int_array(k):
  """index array -> numpy int array, or None."""
  if isinstance(k, VList):
    try:
      a = to_concrete(k)
    except AnalysisError:
      return None
    if a is None:
      return None
    a = np.array(a)
    return a if a.size else a.astype(np.int64)
  if isinstance(k, SArr):
    if any(isinstance(a, Pay) for a in k.axes):
      return None
    vals = [concrete_cell(c) for c in k.data.flat]
    if any(v is None for v in vals):
      return None
    arr = np.array(vals).reshape(k.data.shape)
    return arr if arr.size else arr.astype(np.int64)
  if isinstance(k, (range, tuple)):
    try:
      return np.array(list(k), dtype=int)
    except Exception:
      return None
  return None


def concrete_cell(c):
  if isinstance(c, bool):
    return c
  if isinstance(c, int):
    return c
  p = getattr(c, 'is_const', None)
  if p and isinstance(getattr(c, 'cval', None), int):
    return c.cval
  lo = getattr(c, 'lo', None)
  if lo is not None and lo == getattr(c, 'hi', None):
    return lo
  return None


def to_concrete(v):
  if isinstance(v, VList):
    return [to_concrete(x) for x in v.items]
  if isinstance(v, (int, bool)):
    return v
  c = concrete_cell(v)
  if c is None:
    raise AnalysisError('abstract index')
  return c


def resolve_index(arr, key, interp, node):
  key = _norm_key(arr, key)
  axes = []
  dkey = []
  ai = 0
  adv_axes = []
  for k in key:
    if k is None:
      axes.append(1)
      dkey.append(None)
      continue
    if ai >= arr.ndim:
      raise AbsRaise('IndexError', ('too many indices',), node)
    a = arr.axes[ai]
    ai += 1
    if isinstance(k, SArr) and k.ndim == 0:
      k = k.data[()]
    cc = concrete_cell(k) if not isinstance(k, (slice, VList, SArr, tuple, range)) else None
    if cc is not None:
      k = cc
    if isinstance(a, Pay):
      if isinstance(k, slice) and k.start in (None, 0) and k.step is None and (
          k.stop is None or k.stop == a.size):
        axes.append(a)
        continue
      if interp is not None:
        r = interp.domain.payload_index(arr, ai - 1, k, node, key)
        if r is not NotImplemented:
          return None, r
      raise AnalysisError(f'index {k!r} on payload axis', node)
    if isinstance(k, (int, np.integer)) and not isinstance(k, bool):
      if not -a <= k < a:
        if interp is not None:
          h = interp.domain.on_oob(arr, ai - 1, k, node)
          if h is not NotImplemented:
            k = h
          else:
            raise AbsRaise('IndexError', (k, a), node)
        else:
          raise AbsRaise('IndexError', (k, a), node)
      dkey.append(int(k))
      continue
    if isinstance(k, slice):
      st = [concrete_cell(x) if x is not None else None
            for x in (k.start, k.stop, k.step)]
      for x, y in zip((k.start, k.stop, k.step), st):
        if x is not None and y is None:
          raise AnalysisError('abstract slice', node)
      s = slice(*st)
      n = len(range(*s.indices(a)))
      axes.append(n)
      dkey.append(s)
      continue
    ia = _as_int_array(k)
    if ia is not None:
      if ia.dtype == bool:
        ia = np.nonzero(ia)[0]
      if not ia.size:
        ia = ia.astype(np.int64)
      if ia.size and (ia.max() >= a or ia.min() < -a):
        if interp is not None:
          h = interp.domain.on_oob(arr, ai - 1, ia, node)
          if h is not NotImplemented:
            ia = h
          else:
            ia = np.clip(ia, -a, a - 1)
      axes.append(('adv', ia.shape))
      dkey.append(ia)
      adv_axes.append(len(axes) - 1)
      continue
    if interp is not None:
      r = interp.domain.abstract_index(arr, ai - 1, k, node, key)
      if r is not NotImplemented:
        return None, r
    raise AnalysisError(f'abstract index {k!r}', node)
  # advanced indices: emulate numpy by using the data array itself when no
  # payload axis interferes with the position of advanced results.
  if adv_axes:
    if len(adv_axes) == 1:
      out_axes = []
      for a in axes:
        if isinstance(a, tuple):
          out_axes.extend(a[1])
        else:
          out_axes.append(a)
      d = arr.data[tuple(dkey)]
    else:
      idx_pay = [i for i, a in enumerate(axes) if isinstance(a, Pay)]
      bshape = np.broadcast_shapes(*[a[1] for a in axes if isinstance(a, tuple)])
      consecutive = adv_axes == list(range(adv_axes[0], adv_axes[-1] + 1))
      out_axes = []
      if consecutive:
        first = True
        for a in axes:
          if isinstance(a, tuple):
            if first:
              out_axes.extend(bshape)
              first = False
          else:
            out_axes.append(a)
      else:
        out_axes = list(bshape) + [a for a in axes if not isinstance(a, tuple)]
      d = arr.data[tuple(dkey)]
    axes = out_axes
  else:
    d = arr.data[tuple(dkey)]
  if not isinstance(d, np.ndarray):
    x = obj(())
    x[()] = d
    d = x
  out = SArr(axes, d, arr.dtype, arr.lib)
  out.base = arr.base
  return axes, out


def store_advanced(arr, key, value, interp, op):
  """Updates through index arrays of an array without payload axes."""
  if any(isinstance(a, Pay) for a in arr.axes) or None in [
      k for k in key if k is None]:
    return None
  dk = []
  pads = []
  adv = False
  for a, k in zip(arr.axes, key):
    if isinstance(k, SArr) and k.ndim == 0:
      k = k.data[()]
    pad = 0
    if isinstance(k, slice):
      st = [concrete_cell(x) if x is not None else None
            for x in (k.start, k.stop, k.step)]
      if any(x is not None and y is None
             for x, y in zip((k.start, k.stop, k.step), st)):
        return None
      dk.append(np.arange(a)[slice(*st)])
    else:
      c = None
      if not isinstance(k, (VList, SArr, tuple, range)):
        c = concrete_cell(k)
      ia = np.array(c) if c is not None else _as_int_array(k)
      if ia is None or ia.dtype == bool or ia.dtype == object:
        return None
      if ia.ndim:
        adv = True
      out = (ia >= a) | (ia < -a)
      if out.any():
        if arr.lib == 'np':
          raise AbsRaise('IndexError', (int(ia.max()), a))
        pad = 1
      ia = np.where(out, a, np.where(ia < 0, ia + a, ia))
      dk.append(('adv', ia))
    pads.append((0, pad))
  if not adv:
    return None
  idx = np.pad(np.arange(arr.data.size).reshape(arr.data.shape), pads,
               constant_values=-1)
  # padded positions are dropped; slices keep to the real part
  key2 = []
  for d in dk:
    if isinstance(d, tuple):
      key2.append(d[1])
    elif len(d) and (len(d) == 1 or d[1] > d[0]):
      key2.append(slice(int(d[0]), int(d[-1]) + 1, int(d[1] - d[0]) if len(d) > 1 else 1))
    else:
      return None
  sel = idx[tuple(key2)]
  v = as_arr(value, interp)
  if any(isinstance(a, Pay) for a in v.axes):
    return None
  try:
    b = np.broadcast_to(v.data, sel.shape)
  except ValueError:
    raise AbsRaise('ValueError', ('broadcast', v.shape, sel.shape))
  data = arr.data.copy().reshape(-1)
  for j, x in zip(sel.reshape(-1), b.reshape(-1)):
    if j < 0:
      continue
    if op is None:
      data[j] = interp.domain.cell_cast(x, v.dtype, arr.dtype)
    elif op in ('max', 'min'):
      data[j] = interp.domain.cell_nary(op, [data[j], x])
    else:
      data[j] = interp.domain.cell_binop(op, data[j], x, arr.dtype)
  return SArr(arr.axes, data.reshape(arr.data.shape), arr.dtype, arr.lib)


def store(arr, key, value, interp, op):
  """functional update arr[key] (op)= value."""
  key = _norm_key(arr, key)
  r = store_advanced(arr, key, value, interp, op)
  if r is not None:
    return r
  ai = 0
  dkey = []
  sel_axes = []
  for k in key:
    if k is None:
      raise AnalysisError('newaxis in store')
    a = arr.axes[ai]
    ai += 1
    if isinstance(k, SArr) and k.ndim == 0:
      k = k.data[()]
    cc = concrete_cell(k) if not isinstance(k, (slice, VList, SArr, tuple, range)) else None
    if cc is not None:
      k = cc
    if isinstance(a, Pay):
      if isinstance(k, slice) and k.start in (None, 0) and k.step is None and (
          k.stop is None or k.stop == a.size):
        sel_axes.append(a)
        continue
      r = interp.domain.payload_store(arr, key, value, op)
      if r is not NotImplemented:
        return r
      raise AnalysisError('store on part of a payload axis')
    if isinstance(k, int):
      if not -a <= k < a:
        if arr.lib == 'np':
          raise AbsRaise('IndexError', (k, a))
        if k >= a:
          return arr  # jax drops out-of-bounds scatter
      dkey.append(k)
    elif isinstance(k, slice):
      st = [concrete_cell(x) if x is not None else None
            for x in (k.start, k.stop, k.step)]
      for x, y in zip((k.start, k.stop, k.step), st):
        if x is not None and y is None:
          raise AnalysisError('abstract slice in store')
      s = slice(*st)
      dkey.append(s)
      sel_axes.append(len(range(*s.indices(a))))
    else:
      ia = _as_int_array(k)
      if ia is None:
        r = interp.domain.abstract_store(arr, key, value, op)
        if r is not NotImplemented:
          return r
        raise AnalysisError(f'abstract store index {k!r}')
      if ia.ndim != 1 and not (ia.ndim == 0):
        raise AnalysisError('nd advanced store')
      if any(isinstance(x, tuple) for x in sel_axes):
        raise AnalysisError('multi advanced store')
      dkey.append(ia)
      sel_axes.extend(ia.shape)
  v = as_arr(value, interp)
  b = broadcast_to_axes(v, sel_axes)
  data = arr.data.copy()
  if op is None:
    if b.ndim == 0 and not any(isinstance(x, (slice, np.ndarray)) for x in dkey):
      data[tuple(dkey)] = interp.domain.cell_cast(b[()], v.dtype, arr.dtype)
    else:
      cur = data[tuple(dkey)]
      nb = obj(b.shape)
      for i in np.ndindex(*b.shape):
        nb[i] = interp.domain.cell_cast(b[i], v.dtype, arr.dtype)
      data[tuple(dkey)] = nb.reshape(cur.shape if isinstance(cur, np.ndarray) else ())
  else:
    # element by element so duplicates accumulate
    idx = np.arange(arr.data.size).reshape(arr.data.shape)[tuple(dkey)]
    idx = np.asarray(idx).reshape(-1)
    bb = b.reshape(-1)
    flat = data.reshape(-1)
    for i, j in enumerate(idx):
      if op in ('max', 'min'):
        flat[j] = interp.domain.cell_nary(op, [flat[j], bb[i]])
      else:
        flat[j] = interp.domain.cell_binop(op, flat[j], bb[i], arr.dtype)
    data = flat.reshape(arr.data.shape)
  return SArr(arr.axes, data, arr.dtype, arr.lib)


def as_arr(v, interp=None, dtype=None, lib='jnp'):
  if isinstance(v, SArr):
    return v
  if isinstance(v, (VList, tuple, range)):
    items = v.items if isinstance(v, VList) else list(v)
    if not items:
      return SArr((0,), obj((0,)), dtype, lib)
    parts = [as_arr(x, interp, dtype, lib) for x in items]
    return stack(parts, 0, lib)
  d = obj(())
  d[()] = v
  dt = dtype
  if dt is None:
    if isinstance(v, bool):
      dt = None
    elif isinstance(v, float):
      dt = 'weakfloat'
    elif isinstance(v, complex):
      dt = 'complex128'
    elif SCALAR_DTYPE is not None:
      dt = SCALAR_DTYPE(v)
  return SArr((), d, dt, lib)


def broadcast_axes(*axlists):
  n = max(len(a) for a in axlists)
  out = []
  for i in range(n):
    cur = 1
    for al in axlists:
      j = i - (n - len(al))
      if j < 0:
        continue
      a = al[j]
      if isinstance(a, Pay):
        if isinstance(cur, Pay):
          if cur != a:
            raise AnalysisError(f'broadcast payload {cur} vs {a}')
        elif cur == 1:
          cur = a
        else:
          raise AnalysisError(f'broadcast explicit {cur} vs payload {a}')
      else:
        if a == 1:
          continue
        if isinstance(cur, Pay):
          raise AnalysisError(f'broadcast payload {cur} vs explicit {a}')
        if cur == 1:
          cur = a
        elif cur != a:
          raise AbsRaise('TypeError', ('broadcast', cur, a))
    out.append(cur)
  return out


def broadcast_to_axes(arr, axes):
  """data of arr broadcast to explicit axes of `axes`."""
  axes = list(axes)
  pad = len(axes) - arr.ndim
  if pad < 0:
    # allow leading 1s
    lead = arr.axes[:-pad]
    if all(a == 1 for a in lead):
      arr = SArr(arr.axes[-pad:],
                 arr.data.reshape([a for a in arr.axes[-pad:]
                                   if not isinstance(a, Pay)]), arr.dtype,
                 arr.lib)
      pad = 0
    else:
      raise AbsRaise('ValueError', ('broadcast rank',))
  dshape = []
  for i, a in enumerate(axes):
    j = i - pad
    if isinstance(a, Pay):
      if j >= 0 and not isinstance(arr.axes[j], Pay):
        if arr.axes[j] != 1:
          raise AnalysisError('explicit axis broadcast onto payload')
      continue
    if j < 0:
      dshape.append(1)
    elif isinstance(arr.axes[j], Pay):
      raise AnalysisError('payload axis broadcast onto explicit axis')
    else:
      dshape.append(arr.axes[j])
  d = arr.data
  # drop explicit 1 axes aligned with payload axes
  keep = []
  di = 0
  for j, a in enumerate(arr.axes):
    if isinstance(a, Pay):
      continue
    if isinstance(axes[j + pad], Pay):
      pass
    else:
      keep.append(di)
    di += 1
  d = d.reshape([d.shape[k] for k in keep])
  d = d.reshape(dshape)
  tgt = [a for a in axes if not isinstance(a, Pay)]
  try:
    return np.broadcast_to(d, tgt)
  except ValueError:
    raise AbsRaise('ValueError', ('broadcast', d.shape, tgt))


def elementwise(f, arrs, dtype=None, lib='jnp'):
  axes = broadcast_axes(*[a.axes for a in arrs])
  datas = [broadcast_to_axes(a, axes) for a in arrs]
  shp = [a for a in axes if not isinstance(a, Pay)]
  out = obj(shp)
  for i in np.ndindex(*shp):
    out[i] = f(*[d[i] for d in datas])
  return SArr(axes, out, dtype, lib)


def stack(arrs, axis=0, lib='jnp'):
  ax = list(broadcast_like(arrs))
  n = len(ax) + 1
  if axis < 0:
    axis += n
  dt = None
  for a in arrs:
    dt = promote(dt, a.dtype)
  daxis = sum(1 for a in ax[:axis] if not isinstance(a, Pay))
  d = np.stack([a.data for a in arrs], axis=daxis) if arrs else obj((0,))
  ax.insert(axis, len(arrs))
  return SArr(ax, d, dt, lib)


def broadcast_like(arrs):
  ax = arrs[0].axes
  for a in arrs[1:]:
    if a.axes != ax:
      raise AbsRaise('ValueError', ('stack shapes differ', ax, a.axes))
  return ax


def concatenate(arrs, axis=0, lib='jnp'):
  nd = arrs[0].ndim
  if axis < 0:
    axis += nd
  for a in arrs:
    if a.ndim != nd:
      raise AbsRaise('ValueError', ('concatenate rank',))
    for i in range(nd):
      if i != axis and a.axes[i] != arrs[0].axes[i]:
        raise AbsRaise('ValueError', ('concatenate shape',))
  if any(isinstance(a.axes[axis], Pay) for a in arrs):
    raise AnalysisError('concatenate on payload axis')
  daxis = arrs[0].exp_axis(axis)
  dt = None
  for a in arrs:
    dt = promote(dt, a.dtype)
  d = np.concatenate([a.data for a in arrs], axis=daxis)
  ax = list(arrs[0].axes)
  ax[axis] = sum(a.axes[axis] for a in arrs)
  return SArr(ax, d, dt, lib)


def transpose(arr, perm):
  n = arr.ndim
  if perm is None:
    perm = tuple(reversed(range(n)))
  perm = tuple(p + n if p < 0 else p for p in perm)
  if sorted(perm) != list(range(n)):
    raise AbsRaise('ValueError', ('transpose',))
  ax = [arr.axes[p] for p in perm]
  dperm = [arr.exp_axis(p) for p in perm if not isinstance(arr.axes[p], Pay)]
  return SArr(ax, np.transpose(arr.data, dperm) if dperm else arr.data,
              arr.dtype, arr.lib)


def reshape(arr, shape):
  """Payload axes must survive, in order; explicit runs between may regroup."""
  src = list(arr.axes)
  pays = [a for a in src if isinstance(a, Pay)]
  shape = list(shape)
  tgt = []
  if not pays:
    dims = []
    for s in shape:
      c = concrete_cell(s)
      if c is None:
        raise AnalysisError(f'abstract reshape dim {s!r}')
      dims.append(c)
    try:
      d = arr.data.reshape(dims)
    except ValueError:
      raise AbsRaise('TypeError', ('reshape', arr.data.shape, dims))
    out = SArr(d.shape, d, arr.dtype, arr.lib)
    out.base = arr.base
    return out
  # segment source by payload axes
  segs = [[]]
  for a in src:
    if isinstance(a, Pay):
      segs.append([])
    else:
      segs[-1].append(a)
  prods = [int(np.prod(s)) if s else 1 for s in segs]

  # match target dims: choose positions of the payload sizes
  def same(x, size):
    try:
      return bool(x == size) and not isinstance(x == size, type(NotImplemented))
    except Exception:
      return False

  cand = []
  idxs = range(len(shape))
  for combo in itertools.combinations(idxs, len(pays)):
    ok = True
    for ci, p in zip(combo, pays):
      if not (same(shape[ci], p.size) or shape[ci] == -1):
        ok = False
        break
    if not ok:
      continue
    # remaining dims per segment
    bounds = [-1] + list(combo) + [len(shape)]
    good = True
    axes = []
    for si in range(len(segs)):
      dims = []
      for x in shape[bounds[si] + 1:bounds[si + 1]]:
        c = concrete_cell(x) if not isinstance(x, int) else x
        if c is None:
          good = False
          break
        dims.append(c)
      if not good:
        break
      if dims.count(-1) > 1:
        good = False
        break
      if -1 in dims:
        rest = 1
        for x in dims:
          if x != -1:
            rest *= x
        if rest == 0 or prods[si] % rest:
          good = False
          break
        dims[dims.index(-1)] = prods[si] // rest
      p = 1
      for x in dims:
        p *= x
      if p != prods[si]:
        good = False
        break
      axes.extend(dims)
      if si < len(pays):
        axes.append(pays[si])
    if good:
      nneg = sum(1 for ci in combo if shape[ci] == -1)
      cand.append((nneg, axes))
  if not cand:
    raise AnalysisError(f'reshape {src} -> {shape}')
  cand.sort(key=lambda t: t[0])
  axes = cand[0][1]
  d = arr.data.reshape([a for a in axes if not isinstance(a, Pay)])
  out = SArr(axes, d, arr.dtype, arr.lib)
  out.base = arr.base
  return out
