"""Base domain: python builtins, numpy / jax.numpy / jax.lax structure.

Everything here is a transfer function of the abstract interpreter; cell
operations go through cell_binop / cell_unary / cell_nary so that a domain can
change the lattice (constants + polynomials by default).
"""
import functools
import itertools
import math
import operator

import numpy as np

import core
import poly
import sarr
from core import (AbsRaise, AbsVal, AnalysisError, Bound, BoundNative, Cls, Ext,
                  FieldSpec, Func, Inst, Module, Native, Partial, Unk, VDict,
                  VList, VSet, Wrapped, is_concrete, is_prim)
from poly import Cond, Poly, term
from sarr import Pay, SArr, as_arr, concrete_cell, dtype_name, promote


class IterState(AbsVal):

  def __init__(self, items):
    self.items = list(items)

  def abs_iter(self, interp, node):
    r = self.items
    self.items = []
    return r


class CycleState(IterState):

  def __init__(self, items):
    self.items = list(items)
    self.pos = 0

  def abs_iter(self, interp, node):
    raise AnalysisError('cycle', node)


class ShapeStruct(AbsVal):

  def __init__(self, shape, dtype):
    self.shape = shape
    self.dtype = dtype

  def abs_getattr(self, interp, name, node):
    return getattr(self, name)


class TreeDef(AbsVal):

  def __init__(self, sig, rebuild):
    self.sig = sig
    self.unflatten = rebuild

  def abs_key(self):
    return ('treedef', self.sig)


class Domain:
  globals_override = {}
  summaries = {}

  def __init__(self):
    self.interp = None
    self.globals_override = dict(type(self).globals_override)
    self.summaries = dict(type(self).summaries)
    self.const_override = {}
    self.trace_begin_hooks = []
    self.x64 = True
    self.lru = {}
    self.stage_jit = False
    self.jit_cache = {}

  # ---------------------------------------------------------------- hooks
  def begin_trace(self):
    self.lru = {}
    self.jit_cache = {}
    sarr.X64 = self.x64
    for h in self.trace_begin_hooks:
      h()

  def on_mutate(self, obj, what, node, mod):
    pass

  def on_setattr(self, o, name, v, node, mod):
    pass

  def on_array_store(self, arr, key, value, node):
    pass

  def on_at(self, arr, key, name, args, kwargs, node):
    return NotImplemented

  def on_format(self, v, node, mod):
    pass

  def on_oob(self, arr, axis, k, node):
    return NotImplemented

  def pre_call(self, f, args, kwargs, node, mod):
    return NotImplemented

  def pre_binop(self, op, a, b, node, mod):
    return None

  def post_call(self, f, env, r, node, mod):
    return r

  def summary(self, qual):
    return self.summaries.get(qual)

  def inst_attr(self, o, name, node):
    return None

  def ext_attr(self, path, name):
    if path in ('jnp', 'np') and name == 'newaxis':
      return NONE_BOX
    full = f'{path}.{name}'
    if full in self.const_override:
      return self.const_override[full]
    if full in CONSTS:
      return CONSTS[full]
    return None

  def wrapped_attr(self, o, name):
    if name in ('lower', 'compile', 'trace'):
      return Native(name, lambda it, a, k, n: o)
    return None

  def getattr_unknown(self, o, name, node):
    if isinstance(o, Func) and name in ('lower', 'compile', 'trace'):
      return Native(name, lambda it, a, k, n: o)
    if isinstance(o, Native) and name in ('lower', 'compile'):
      return Native(name, lambda it, a, k, n: o)
    if isinstance(o, Native) and o.name == 'object' and name == '__setattr__':
      def sa(it, a, k, n):
        a[0].attrs[a[1]] = a[2]
      return Native('object.__setattr__', sa)
    if isinstance(o, Unk):
      return Unk(f'{o.why}.{name}')
    return None

  def getitem_unknown(self, o, k, node, mod):
    return None

  def unk_getitem(self, o, k, node):
    return Unk(o.why)

  def seq_index(self, o, k, node, mod):
    c = concrete_cell(k)
    if c is None and isinstance(k, SArr) and k.ndim == 0:
      c = concrete_cell(k.data[()])
    if c is not None:
      return self.interp.getitem(o, c, node, mod)
    if isinstance(k, slice):
      parts = []
      for x in (k.start, k.stop, k.step):
        if x is None:
          parts.append(None)
        else:
          cc = concrete_cell(x)
          if cc is None:
            return None
          parts.append(cc)
      return self.interp.getitem(o, slice(*parts), node, mod)
    return None

  def dict_index(self, o, k, node, mod):
    c = concrete_cell(k)
    if c is not None and c in o.d:
      return o.d[c]
    return None

  def payload_index(self, arr, axis, k, node, key):
    return NotImplemented

  def payload_store(self, arr, key, value, op):
    return NotImplemented

  def abstract_index(self, arr, axis, k, node, key):
    return NotImplemented

  def abstract_store(self, arr, key, value, op):
    return NotImplemented

  def call_unknown(self, f, args, kwargs, node, mod):
    if isinstance(f, Unk):
      return Unk(f'call of {f.why}')
    return None

  def negate_key(self, key):
    return poly.negate_key(key)

  # ---------------------------------------------------------------- scalars
  def cell_binop(self, op, a, b, dtype=None):
    if is_prim(a) and is_prim(b):
      try:
        return core.PYOPS[op](a, b)
      except ZeroDivisionError:
        return Unk('div0')
      except TypeError:
        raise AnalysisError(f'cell op {op} {a!r} {b!r}')
    if isinstance(a, Inst) or isinstance(b, Inst):
      return self.interp.binop(op, a, b)
    r = poly.binop(op, a, b)
    if r is None:
      raise AnalysisError(f'cell op {op} on {a!r}, {b!r}')
    return r

  def cell_unary(self, op, a):
    if op == '-':
      return self.cell_binop('-', 0, a) if not isinstance(a, bool) else -a
    if is_prim(a):
      if op == '~':
        return ~a
      if op == 'abs':
        return abs(a)
      if op == 'real':
        return a.real
      if op == 'imag':
        return a.imag
      if op == 'rint':
        return float(round(a))
      if op == 'ceil':
        return math.ceil(a)
      if op == 'floor':
        return math.floor(a)
      if op == 'sign':
        return (a > 0) - (a < 0)
      if op == 'exp':
        import cmath
        return cmath.exp(a)
      if op == 'not':
        return not a
      if op == 'sqrt':
        return math.sqrt(a)
    if op == 'not':
      return poly.negate(a)
    if isinstance(a, Unk):
      return a
    return term(op, a)

  def cell_nary(self, op, args):
    if all(is_prim(a) for a in args):
      if op == 'max':
        return max(args)
      if op == 'min':
        return min(args)
      if op == 'and':
        return all(args)
      if op == 'or':
        return any(args)
    if op in ('and', 'or'):
      res = None
      for a in args:
        if is_prim(a):
          if op == 'and' and not a:
            return False
          if op == 'or' and a:
            return True
          continue
        res = a if res is None else (
            self.and_(res, a) if op == 'and' else Cond('or', res, a))
      return res if res is not None else (op == 'and')
    return term(op, *args)

  def typed_compare(self, op, a, b, dt, da, db):
    return self.cell_compare(op, a, b)

  def cell_compare(self, op, a, b):
    if is_prim(a) and is_prim(b):
      return core.PYOPS[op](a, b)
    return poly.compare(op, a, b)

  def cell_where(self, c, a, b):
    if is_prim(c):
      return a if c else b
    if isinstance(c, AbsVal):
      t = c.abs_truth()
      if t is not None:
        return a if t else b
    if is_prim(a) and is_prim(b) and a == b:
      return a
    if isinstance(a, Poly) and isinstance(b, Poly) and a == b:
      return a
    return term('where', c, a, b)

  def cell_cast(self, c, from_dtype, to_dtype):
    """astype / implicit cast; the polynomial domain ignores widths."""
    if to_dtype is not None and to_dtype.startswith('float') and isinstance(
        c, int):
      return float(c)
    if to_dtype in ('object',):
      return c
    if isinstance(c, float) and to_dtype is not None and (
        to_dtype.startswith('int') or to_dtype.startswith('uint')):
      return int(c)
    return c

  def and_(self, a, b):
    if a is True:
      return b
    if b is True:
      return a
    if a is False or b is False:
      return False
    return Cond('and', a, b)

  def not_(self, v, node):
    if isinstance(v, Unk):
      return Cond('not', v)
    if isinstance(v, SArr):
      return v.map(lambda c: self.cell_unary('not', c), 'bool')
    return poly.negate(v)

  # ---------------------------------------------------------------- operators
  def result_dtype(self, op, a, b):
    if op == '/':
      r = promote(a, b)
      if r is None or not r.startswith(('float', 'complex', 'bfloat', 'weak')):
        return sarr.canon('float64')
      return r
    return promote(a, b)

  def binop(self, op, a, b, node, mod):
    if isinstance(a, SArr) or isinstance(b, SArr):
      la = a.lib if isinstance(a, SArr) else None
      lb = b.lib if isinstance(b, SArr) else None
      lib = 'jnp' if 'jnp' in (la, lb) else 'np'
      if isinstance(a, (VList, tuple)) and op == '*' and isinstance(b, int):
        pass
      if isinstance(a, Inst) or isinstance(b, Inst):
        pass
      xa, xb = as_arr(a, self.interp), as_arr(b, self.interp)
      for u, v in ((a, xb), (b, xa)):
        if isinstance(u, int) and not -2**63 <= u < 2**64 and (
            v.dtype or '').startswith(('int', 'uint')):
          raise AbsRaise('OverflowError', ('Python int too large to convert',),
                         node, mod)
      if op == '@':
        return self.matmul(xa, xb, node)
      dt = self.result_dtype(op, xa.dtype, xb.dtype)
      self.cur_node, self.cur_mod = node, mod
      return sarr.elementwise(
          lambda x, y: self.cell_binop(
              op, self.cell_cast(x, xa.dtype, dt) if op not in ('<<', '>>') else x,
              self.cell_cast(y, xb.dtype, dt) if op not in ('<<', '>>') else y, dt),
          [xa, xb], dt, lib)
    self.cur_node, self.cur_mod = node, mod
    if isinstance(a, (Ext, Cls)) and op == '|':
      return Unk('type')
    return self.cell_binop(op, a, b, None)

  def unop(self, op, v, node, mod):
    self.cur_node, self.cur_mod = node, mod
    if isinstance(v, SArr):
      return v.map(lambda c: self.typed_unary(op, c, v.dtype))
    return self.cell_unary(op, v)

  def typed_unary(self, op, c, dt):
    if op == '-' and not isinstance(c, bool):
      return self.cell_binop('-', 0, c, dt)
    r = self.cell_unary(op, c)
    if op == '~' and isinstance(r, int) and not isinstance(r, bool):
      r = self.cell_cast(r, dt, dt)
    return r

  def compare(self, op, a, b, node, mod):
    if isinstance(a, TreeDef) and isinstance(b, TreeDef):
      return (a.sig == b.sig) == (op == '==')
    if op in ('is', 'is not', 'in', 'not in'):
      return Cond(op, a, b)
    if isinstance(a, SArr) or isinstance(b, SArr):
      if op in ('==', '!=') and (a is None or b is None):
        return op == '!='
      xa, xb = as_arr(a, self.interp), as_arr(b, self.interp)
      lib = a.lib if isinstance(a, SArr) else b.lib
      try:
        if lib == 'jnp' and xa.dtype and xb.dtype:
          dt = sarr.promote(xa.dtype, xb.dtype)
        else:
          dt = xa.dtype or xb.dtype
        return sarr.elementwise(
            lambda x, y: self.typed_compare(op, x, y, dt, xa.dtype or dt, xb.dtype or dt),
            [xa, xb], 'bool', lib)
      except AbsRaise:
        raise
    return self.cell_compare(op, a, b)

  def dtype_of(self, d):
    n = dtype_name(d) if isinstance(d, (Ext, Native, str)) else None
    return n if n in DTYPES or n in ('bool', 'object') else None

  # ---------------------------------------------------------------- builtins
  def builtin(self, name):
    f = getattr(self, 'b_' + name, None)
    if f is not None:
      return Native(name, f)
    if name in ('object', 'NotImplemented', 'Ellipsis', 'property',
                'staticmethod', 'classmethod', 'bytearray', '__name__'):
      if name == 'Ellipsis':
        return Ellipsis
      if name == '__name__':
        return 'module'
      return Ext('builtins.' + name)
    return None

  def b_len(self, it, a, k, n):
    v = a[0]
    if isinstance(v, VList):
      return len(v.items)
    if isinstance(v, (tuple, str, bytes, range)):
      return len(v)
    if isinstance(v, VDict):
      return len(v.d)
    if isinstance(v, VSet):
      return len(self._dedup(v.s))
    if isinstance(v, AbsVal):
      return v.abs_len(it, n)
    if isinstance(v, Inst):
      m, _ = v.cls.lookup('__len__')
      if m is not None:
        return it.call(Bound(m, v), [], {}, n)
    raise AnalysisError(f'len of {v!r}', n)

  def _dedup(self, items):
    out = []
    for x in items:
      if not any(self.interp.truth(self.interp.compare('==', x, y)) for y in out):
        out.append(x)
    return out

  def b_range(self, it, a, k, n):
    vals = []
    for x in a:
      if isinstance(x, SArr) and x.ndim == 0:
        x = x.data[()]
      c = concrete_cell(x)
      if c is None:
        raise AnalysisError(f'range over abstract {x!r}', n)
      vals.append(int(c))
    return range(*vals)

  def b_zip(self, it, a, k, n):
    ls = [it.iterate(x, n) for x in a]
    if k.get('strict') and len({len(l) for l in ls}) > 1:
      raise AbsRaise('ValueError', ('zip strict',), n)
    return VList([tuple(x) for x in zip(*ls)])

  def b_enumerate(self, it, a, k, n):
    st = a[1] if len(a) > 1 else k.get('start', 0)
    return VList([(i + st, x) for i, x in enumerate(it.iterate(a[0], n))])

  def b_reversed(self, it, a, k, n):
    return VList(list(reversed(it.iterate(a[0], n))))

  def b_sorted(self, it, a, k, n):
    items = it.iterate(a[0], n)
    if 'key' in k and k['key'] is not None:
      keys = [it.call(k['key'], [x], {}, n) for x in items]
    else:
      keys = items
    if not all(is_concrete(x) for x in keys):
      raise AnalysisError('sorted of abstract', n)
    order = sorted(range(len(items)), key=lambda i: _py(keys[i]),
                   reverse=bool(k.get('reverse', False)))
    return VList([items[i] for i in order])

  def b_sum(self, it, a, k, n):
    r = a[1] if len(a) > 1 else k.get('start', 0)
    for x in it.iterate(a[0], n):
      r = it.binop('+', r, x, n)
    return r

  def _minmax(self, it, a, k, n, name):
    items = it.iterate(a[0], n) if len(a) == 1 else list(a)
    if not items:
      if 'default' in k:
        return k['default']
      raise AbsRaise('ValueError', (name,), n)
    if all(is_prim(x) for x in items):
      return max(items) if name == 'max' else min(items)
    return self.cell_nary(name, items)

  def b_max(self, it, a, k, n):
    return self._minmax(it, a, k, n, 'max')

  def b_min(self, it, a, k, n):
    return self._minmax(it, a, k, n, 'min')

  def b_abs(self, it, a, k, n):
    v = a[0]
    if isinstance(v, SArr):
      return v.map(lambda c: self.cell_unary('abs', c))
    return self.cell_unary('abs', v)

  def b_pow(self, it, a, k, n):
    if len(a) == 3:
      if all(isinstance(x, int) for x in a):
        try:
          return pow(*a)
        except ValueError:
          raise AbsRaise('ValueError', ('pow',), n)
      if all(concrete_cell(x) is not None for x in a):
        return pow(*[concrete_cell(x) for x in a])
      return self.powmod(*a)
    return it.binop('**', a[0], a[1], n)

  def powmod(self, b, e, m):
    return term('powmod', b, e, m)

  def b_divmod(self, it, a, k, n):
    return (it.binop('//', a[0], a[1], n), it.binop('%', a[0], a[1], n))

  def b_int(self, it, a, k, n):
    if not a:
      return 0
    v = a[0]
    if isinstance(v, SArr) and v.data.size == 1:
      v = v.data.flat[0]
    if is_prim(v):
      try:
        return int(*([v] + a[1:]))
      except (ValueError, TypeError):
        raise AbsRaise('ValueError', ('int',), n)
    if isinstance(v, Cond):
      return term('bool2int', v)
    if isinstance(v, Poly):
      return v
    if isinstance(v, Inst):
      m, _ = v.cls.lookup('__int__')
      if m is not None:
        return it.call(Bound(m, v), [], {}, n)
    return self.to_int(v, n)

  def to_int(self, v, n):
    if isinstance(v, (AbsVal, Unk)):
      return v
    raise AnalysisError(f'int of {v!r}', n)

  def b_float(self, it, a, k, n):
    v = a[0] if a else 0.0
    if is_prim(v):
      return float(v)
    return v

  def b_bool(self, it, a, k, n):
    v = a[0] if a else False
    t = it.truth(v)
    if t is not None:
      return t
    return v if isinstance(v, Cond) else poly.compare('!=', v, 0)

  def b_complex(self, it, a, k, n):
    if all(is_prim(x) for x in a):
      return complex(*a)
    return term('complex', *a)

  def b_str(self, it, a, k, n):
    if a and is_prim(a[0]):
      return str(a[0])
    return Unk('str')

  b_repr = b_str

  def b_bin(self, it, a, k, n):
    if isinstance(a[0], int):
      return bin(a[0])
    return Unk('bin')

  def b_hex(self, it, a, k, n):
    if isinstance(a[0], int):
      return hex(a[0])
    return Unk('hex')

  def b_format(self, it, a, k, n):
    if all(is_prim(x) for x in a):
      return format(*a)
    return Unk('format')

  def b_bytes(self, it, a, k, n):
    if a and all(is_concrete(x) for x in a) and all(
        is_concrete(x) for x in k.values()):
      try:
        return bytes(*[_py(x) for x in a], **{q: _py(x) for q, x in k.items()})
      except Exception as e:
        raise AbsRaise(type(e).__name__, e.args, n)
    if a and isinstance(a[0], (VList, tuple)):
      return VList(it.iterate(a[0], n))
    return Unk('bytes')

  def b_list(self, it, a, k, n):
    return VList(it.iterate(a[0], n)) if a else VList()

  def b_tuple(self, it, a, k, n):
    return tuple(it.iterate(a[0], n)) if a else ()

  def b_set(self, it, a, k, n):
    return VSet(self._dedup(it.iterate(a[0], n))) if a else VSet()

  b_frozenset = b_set

  def b_dict(self, it, a, k, n):
    d = {}
    if a:
      if isinstance(a[0], VDict):
        d.update(a[0].d)
      else:
        for p in it.iterate(a[0], n):
          kk, vv = it.iterate(p, n)
          d[kk] = vv
    d.update(k)
    return VDict(d)

  def b_slice(self, it, a, k, n):
    return slice(*a)

  def b_print(self, it, a, k, n):
    self.on_print(a, n)
    return None

  def on_print(self, args, node):
    pass

  def b_any(self, it, a, k, n):
    items = it.iterate(a[0], n)
    return self.cell_nary('or', [self._tv(x) for x in items])

  def b_all(self, it, a, k, n):
    items = it.iterate(a[0], n)
    return self.cell_nary('and', [self._tv(x) for x in items])

  def _tv(self, x):
    t = self.interp.truth(x)
    return x if t is None else t

  def b_map(self, it, a, k, n):
    ls = [it.iterate(x, n) for x in a[1:]]
    return VList([it.call(a[0], list(xs), {}, n) for xs in zip(*ls)])

  def b_filter(self, it, a, k, n):
    out = []
    for x in it.iterate(a[1], n):
      c = x if a[0] is None else it.call(a[0], [x], {}, n)
      if it.decide(c, n, None):
        out.append(x)
    return VList(out)

  def b_round(self, it, a, k, n):
    if is_prim(a[0]):
      return round(*a)
    return self.cell_unary('round', a[0])

  def b_iter(self, it, a, k, n):
    return IterState(it.iterate(a[0], n))

  def b_next(self, it, a, k, n):
    s = a[0]
    if isinstance(s, CycleState):
      v = s.items[s.pos % len(s.items)]
      s.pos += 1
      return v
    if isinstance(s, IterState):
      if s.items:
        return s.items.pop(0)
      if len(a) > 1:
        return a[1]
      raise AbsRaise('StopIteration', (), n)
    if isinstance(s, VList):
      if s.items:
        return s.items.pop(0)
      if len(a) > 1:
        return a[1]
      raise AbsRaise('StopIteration', (), n)
    if isinstance(s, AbsVal):
      return s.abs_method(it, '__next__', [], {}, n)
    raise AnalysisError(f'next of {s!r}', n)

  def b_isinstance(self, it, a, k, n):
    v, t = a
    ts = it.iterate(t, n) if isinstance(t, (tuple, VList)) else [t]
    unk = False
    for x in ts:
      r = self._isinst(v, x)
      if r is True:
        return True
      if r is None:
        unk = True
    return Cond('isinstance', v, repr(t)) if unk else False

  def _isinst(self, v, t):
    if isinstance(v, Unk):
      return None
    if isinstance(t, Cls):
      return isinstance(v, Inst) and t in v.cls.mro()
    name = t.name if isinstance(t, Native) else (
        t.path.split('.')[-1] if isinstance(t, Ext) else None)
    if name == 'int':
      if isinstance(v, bool):
        return True
      return isinstance(v, (int, Poly))
    if name == 'float':
      return isinstance(v, float)
    if name == 'bool':
      return isinstance(v, (bool, Cond))
    if name == 'str':
      return isinstance(v, str)
    if name == 'list':
      return isinstance(v, VList)
    if name == 'tuple':
      return isinstance(v, tuple)
    if name in ('dict',):
      return isinstance(v, VDict)
    if name in ('ndarray', 'Array', 'generic', 'integer', 'Tracer'):
      if isinstance(v, SArr):
        if name == 'Array' or (name == 'ndarray' and t.path.startswith('jnp')):
          return v.lib == 'jnp'
        if name == 'ndarray':
          return v.lib == 'np'
        return v.ndim == 0
      return False
    if name in ('mpz', 'GMPBigInteger'):
      return False
    if name == 'Sequence' or name == 'Iterable':
      return isinstance(v, (VList, tuple))
    if name == 'Callable':
      return isinstance(v, (Func, Bound, Partial, Native, Wrapped))
    return None

  def b_type(self, it, a, k, n):
    v = a[0]
    if isinstance(v, Inst):
      return v.cls
    if isinstance(v, bool):
      return Native('bool', self.b_bool)
    return Unk('type')

  def b_getattr(self, it, a, k, n):
    try:
      return it.getattr_(a[0], a[1], n)
    except AbsRaise as e:
      if e.exc_type == 'AttributeError' and len(a) > 2:
        return a[2]
      raise

  def b_hasattr(self, it, a, k, n):
    try:
      it.getattr_(a[0], a[1], n)
      return True
    except AbsRaise:
      return False

  def b_setattr(self, it, a, k, n):
    it.setattr_(a[0], a[1], a[2], n, None)

  def b_callable(self, it, a, k, n):
    return isinstance(a[0], (Func, Bound, Partial, Native, Wrapped, Cls))

  def b_hash(self, it, a, k, n):
    v = a[0]
    if isinstance(v, Inst):
      m, _ = v.cls.lookup('__hash__')
      if m is not None:
        return it.call(Bound(m, v), [], {}, n)
    return term('hash', v if not isinstance(v, tuple) else v)

  def b_id(self, it, a, k, n):
    return id(a[0])

  def b_vars(self, it, a, k, n):
    return VDict(a[0].attrs)

  def b_object(self, it, a, k, n):
    return Unk('object')

  # ---------------------------------------------------------------- wrappers
  def call_wrapped(self, w, args, kwargs, node, mod):
    if w.kind == 'jit':
      return self.interp.call(w.func, args, kwargs, node, mod)
    if w.kind in ('vmap', 'pmap'):
      return self.do_vmap(w, args, kwargs, node, mod)
    if w.kind == 'lru':
      # memo table: a hit returns the *same* object as the first call
      key = (tuple(args), tuple(sorted(kwargs.items(), key=lambda t: t[0])))
      for k2, r in self.lru.get(id(w), []):
        if self.key_eq(k2, key):
          return r
      r = self.interp.call(w.func, args, kwargs, node, mod)
      self.lru.setdefault(id(w), []).append((key, r))
      return r
    raise AnalysisError(f'call of {w!r}', node, mod)

  def key_eq(self, a, b):
    if isinstance(a, tuple) and isinstance(b, tuple):
      return len(a) == len(b) and all(self.key_eq(x, y) for x, y in zip(a, b))
    if isinstance(a, Inst) and isinstance(b, Inst):
      if a is b:
        return True
      if a.cls is not b.cls:
        return False
      m, _ = a.cls.lookup('__eq__')
      if m is not None:
        return bool(self.interp.truth(
            self.interp.call(core.Bound(m, a), [b], {})))
      if a.cls.dataclass is not None:
        if a.cls.dataclass.get('eq', True) is False:
          return False
        return all(self.key_eq(a.attrs.get(f), b.attrs.get(f))
                   for f in core.compared_fields(a.cls))
      return False
    if isinstance(a, (SArr, VList, VDict)):
      raise AbsRaise('TypeError', ('unhashable argument of a cached function',))
    if is_prim(a) and is_prim(b):
      return a == b
    if isinstance(a, Poly) or isinstance(b, Poly):
      return isinstance(a, Poly) and isinstance(b, Poly) and a == b
    return a is b

  # ------------------------------------------------- compilation caches
  def stage(self, f, env):
    """jit: what a compiled function keeps from the call that traced it.

    Static arguments, auxiliary data and module state are those of the first
    call with an equal key; leaves are those of this call; objects are rebuilt
    from their leaves, so stores on them are not seen by the caller.
    Returns (environment, undo) or None when f is not compiled.
    """
    opts = None
    for m in f.marks:
      if m == 'jax.jit':
        opts = {}
      elif isinstance(m, tuple) and m and m[0] == 'jit':
        opts = m[1]
    if opts is None:
      return None
    args = list(env)
    static = set()
    for x in self.as_seq(opts.get('static_argnames', ())):
      static.add(x)
    for i in self.as_seq(opts.get('static_argnums', ())):
      if isinstance(i, int) and -len(args) <= i < len(args):
        static.add(args[i])
    key, new = [], {}
    for n in args:
      if n in static:
        key.append(env[n])
        new[n] = env[n]
      else:
        sig, v = self.traced(env[n])
        key.append(sig)
        new[n] = v
    key = tuple(key)
    for k2, kept, mods, _ in self.jit_cache.get(id(f), []):
      if not self.stage_eq(key, k2):
        continue
      new = {}
      for i, n in enumerate(args):
        new[n] = kept[n] if n in static else self.traced(env[n], k2[i])[1]
      saved = []
      for m, vals in mods:
        saved.append((m, {x: m.env[x] for x in vals if x in m.env}))
        m.env.update(vals)

      def undo():
        for m, vals in saved:
          m.env.update(vals)

      return new, undo
    memo = {}
    kept = {n: self.keep(env[n], memo) for n in args if n in static}
    mods = []
    for m in self.interp.modules.values():
      if m is None:
        continue
      vals = {x: self.keep(v, memo) for x, v in m.env.items()
              if x not in m.pending and (
                  is_prim(v) or isinstance(v, (VList, VDict, VSet)))}
      mods.append((m, vals))
    self.jit_cache.setdefault(id(f), []).append((key, kept, mods, f))
    return new, lambda: None

  def as_seq(self, v):
    if isinstance(v, (str, int)):
      return [v]
    if isinstance(v, VList):
      return list(v.items)
    return list(v or ())

  def traced(self, v, old=None):
    """(signature, value rebuilt from leaves; auxiliary data from old)."""
    if isinstance(v, SArr):
      return ('arr', tuple(map(str, v.axes)), v.dtype), v
    if isinstance(v, (VList, tuple)):
      xs = list(v.items if isinstance(v, VList) else v)
      rs = [self.traced(x, old[1][i] if old else None) for i, x in enumerate(xs)]
      c = [r[1] for r in rs]
      return (type(v).__name__, tuple(r[0] for r in rs)), (
          VList(c) if isinstance(v, VList) else tuple(c))
    if isinstance(v, VDict):
      ks = sorted(v.d, key=str)
      rs = [self.traced(v.d[k], old[1][i] if old else None)
            for i, k in enumerate(ks)]
      return ('dict', tuple(r[0] for r in rs), tuple(ks)), VDict(
          dict(zip(ks, [r[1] for r in rs])))
    if isinstance(v, Inst) and any(
        'register_pytree_node_class' in str(m) for m in v.cls.marks):
      it = self.interp
      ch, aux = it.call(it.getattr_(v, 'tree_flatten'), [], {})
      rs = [self.traced(x, old[1][i] if old else None)
            for i, x in enumerate(it.iterate(ch))]
      w = it.call(it.getattr_(v.cls, 'tree_unflatten'), [
          old[3] if old else aux, tuple(r[1] for r in rs)], {})
      return ('inst', tuple(r[0] for r in rs), v.cls.qualname,
              old[3] if old else self.keep(aux, {})), w
    if is_prim(v) and not isinstance(v, (str, bytes)):
      return ('scalar', type(v).__name__), v
    return ('leaf', ), v

  def stage_eq(self, a, b):
    if isinstance(a, (VList, tuple)) and isinstance(b, (VList, tuple)):
      x = list(a.items if isinstance(a, VList) else a)
      y = list(b.items if isinstance(b, VList) else b)
      return len(x) == len(y) and all(map(self.stage_eq, x, y))
    try:
      return self.key_eq(a, b)
    except AbsRaise:
      return a is b

  def keep(self, v, memo):
    """A copy of v as it is now."""
    if id(v) in memo:
      return memo[id(v)][0]
    if isinstance(v, Inst):
      w = Inst(v.cls, {})
      memo[id(v)] = (w, v)
      for k, x in v.attrs.items():
        w.attrs[k] = self.keep(x, memo)
      return w
    if isinstance(v, VList):
      w = VList([])
      memo[id(v)] = (w, v)
      w.items.extend(self.keep(x, memo) for x in v.items)
      return w
    if isinstance(v, VDict):
      w = VDict({})
      memo[id(v)] = (w, v)
      for k, x in v.d.items():
        w.d[k] = self.keep(x, memo)
      return w
    if isinstance(v, VSet):
      w = VSet(v.s)
      memo[id(v)] = (w, v)
      return w
    if isinstance(v, tuple):
      return tuple(self.keep(x, memo) for x in v)
    if isinstance(v, SArr) and v.lib == 'np':
      w = SArr(v.axes, v.data.copy(), v.dtype, v.lib)
      memo[id(v)] = (w, v)
      return w
    return v

  def tree_flatten(self, v):
    leaves = self.leaves(v)

    def rebuild(ls):
      it = iter(ls)
      return self.tree_map(lambda _: next(it), v, scalars=True)

    return (VList(leaves), TreeDef(self.tree_sig(v), rebuild))

  def tree_sig(self, v):
    ch = self.tree_children(v)
    if ch is None:
      return '*'
    return (type(v).__name__ if not isinstance(v, Inst) else v.cls.name,
            tuple(self.tree_sig(c) for c in ch[0]))

  def do_vmap(self, w, args, kwargs, node, mod):
    in_axes = w.kwargs.get('in_axes', 0)
    out_axes = w.kwargs.get('out_axes', 0)
    if w.kind == 'pmap':
      static = w.kwargs.get('static_broadcasted_argnums', ())
      if isinstance(static, int):
        static = (static,)
    else:
      static = ()
    if isinstance(in_axes, VList):
      in_axes = tuple(in_axes.items)
    if not isinstance(in_axes, tuple):
      in_axes = (in_axes,) * len(args)
    axs = [None if i in set(static) else ax for i, ax in enumerate(in_axes)]
    if len(axs) != len(args):
      raise AbsRaise('ValueError', ('vmap in_axes length',), node, mod)
    size = None

    def find(v, ax):
      nonlocal size
      if ax is None:
        return
      if isinstance(ax, (tuple, VList)):
        for x, y in zip(self.interp.iterate(v), self.interp.iterate(ax)):
          find(x, y)
        return
      for leaf in self.leaves(v):
        if not isinstance(leaf, SArr) or leaf.ndim == 0:
          raise AnalysisError('vmap over non-array', node, mod)
        s = leaf.axes[leaf.norm_axis(ax)]
        if size is None:
          size = s
        elif size != s:
          raise AbsRaise('ValueError', ('vmap sizes', size, s), node, mod)

    for v, ax in zip(args, axs):
      find(v, ax)
    kax = {}
    for kk, v in kwargs.items():
      kax[kk] = 0
      find(v, 0)

    def take(v, ax, i):
      if ax is None:
        return v
      if isinstance(ax, (tuple, VList)):
        return tuple(take(x, y, i) for x, y in zip(
            self.interp.iterate(v), self.interp.iterate(ax)))

      def one(leaf):
        a = leaf.norm_axis(ax)
        if isinstance(leaf.axes[a], Pay):
          axes = list(leaf.axes)
          del axes[a]
          return SArr(axes, leaf.data, leaf.dtype, leaf.lib)
        if leaf.axes[a] == 0:  # only the shape of the result is used
          axes = list(leaf.axes)
          del axes[a]
          dat = sarr.obj(tuple(x for x in axes if not isinstance(x, Pay)))
          dat[...] = 0
          return SArr(axes, dat, leaf.dtype, leaf.lib)
        return leaf.index((slice(None),) * a + (i,))

      return self.tree_map(one, v)

    if size is None:
      raise AbsRaise('ValueError', ('vmap without mapped axis',), node, mod)
    if isinstance(size, Pay):
      outs = [self.interp.call(
          w.func, [take(v, ax, None) for v, ax in zip(args, axs)],
          {kk: take(v, 0, None) for kk, v in kwargs.items()}, node, mod)]

      def put(leaf):
        leaf = as_arr(leaf, self.interp)
        oa = out_axes if out_axes >= 0 else out_axes + leaf.ndim + 1
        axes = list(leaf.axes)
        axes.insert(oa, size)
        return SArr(axes, leaf.data, leaf.dtype, leaf.lib)

      return self.tree_map(put, outs[0], scalars=True)
    outs = [
        self.interp.call(
            w.func, [take(v, ax, i) for v, ax in zip(args, axs)],
            {kk: take(v, 0, i) for kk, v in kwargs.items()}, node, mod)
        for i in range(max(size, 1))
    ]
    r = self.tree_stack(outs, out_axes)
    if size == 0:
      r = self.tree_map(lambda l: l.index(
          (slice(None),) * l.norm_axis(out_axes) + (slice(0, 0),)), r)
    return r

  def leaves(self, v):
    out = []
    self.tree_map(lambda l: out.append(l) or l, v, scalars=True)
    return out

  def tree_children(self, v):
    """(children, rebuild) or None for leaf."""
    if isinstance(v, VList):
      return list(v.items), lambda c: VList(c)
    if isinstance(v, tuple):
      return list(v), lambda c: tuple(c)
    if isinstance(v, VDict):
      ks = sorted(v.d)
      return [v.d[k] for k in ks], lambda c: VDict(dict(zip(ks, c)))
    if v is None:
      return [], lambda c: None
    if isinstance(v, Inst):
      if v.cls.is_namedtuple:
        fs = v.cls.fields
        return [v.attrs[f] for f in fs], lambda c: Inst(
            v.cls, dict(zip(fs, c)))
      if any('register_pytree_node_class' in str(m) for m in v.cls.marks):
        r = self.interp.call(self.interp.getattr_(v, 'tree_flatten'), [], {})
        ch, aux = r

        def rebuild(c):
          return self.interp.call(
              self.interp.getattr_(v.cls, 'tree_unflatten'), [aux, tuple(c)],
              {})

        return list(self.interp.iterate(ch)), rebuild
    return None

  def tree_map(self, f, v, scalars=False):
    ch = self.tree_children(v)
    if ch is not None:
      c, rb = ch
      return rb([self.tree_map(f, x, scalars) for x in c])
    return f(v)

  def tree_map2(self, f, vs):
    ch = self.tree_children(vs[0])
    if ch is not None:
      chs = [self.tree_children(v) for v in vs]
      if any(c is None or len(c[0]) != len(ch[0]) for c in chs):
        raise AbsRaise('ValueError', ('tree mismatch',))
      return ch[1]([
          self.tree_map2(f, [c[0][i] for c in chs]) for i in range(len(ch[0]))
      ])
    return f(*vs)

  def tree_stack(self, outs, axis=0):
    return self.tree_map2(
        lambda *xs: sarr.stack([as_arr(x, self.interp) for x in xs], axis),
        outs)

  # ---------------------------------------------------------------- matmul
  def matmul(self, a, b, node=None):
    return self.dot_general(a, b, node)

  def dot_general(self, a, b, node=None):
    """numpy matmul for explicit contraction axes (payload batch allowed)."""
    if a.ndim == 1 and b.ndim == 1:
      return self.einsum('i,i->', [a, b], node)
    if a.ndim == 1:
      ls = 'abcdefg'[:b.ndim - 2]
      return self.einsum(f'y,{ls}yz->{ls}z', [a, b], node)
    if b.ndim == 1:
      ls = 'abcdefg'[:a.ndim - 1]
      return self.einsum(f'{ls}y,y->{ls}', [a, b], node)
    la = 'abcdefg'[:a.ndim - 2]
    lb = 'abcdefg'[:b.ndim - 2]
    if len(la) > len(lb):
      lb = la[len(la) - len(lb):]
    else:
      la = lb[len(lb) - len(la):]
    lo = la if len(la) > len(lb) else lb
    return self.einsum(f'{la}xy,{lb}yz->{lo}xz', [a, b], node)

  def einsum(self, spec, arrs, node=None, dtype=None):
    spec = spec.replace(' ', '')
    if '...' in spec:
      lhs, _, rhs = spec.partition('->')
      if not rhs:
        raise AnalysisError('einsum ellipsis', node)
      free = [c for c in 'ABCDEFGHIJKLMNOPQRSTUVWXYZ' if c not in spec]
      parts, width = lhs.split(','), 0
      for s, a in zip(parts, arrs):
        if '...' in s:
          k = a.ndim - (len(s) - 3)
          if k < 0:
            raise AbsRaise('ValueError', ('einsum rank', spec), node)
          width = max(width, k)
      full = ''.join(free[:width])
      for i, (s, a) in enumerate(zip(parts, arrs)):
        if '...' in s:
          k = a.ndim - (len(s) - 3)
          parts[i] = s.replace('...', full[width - k:])
      spec = ','.join(parts) + '->' + rhs.replace('...', full)
    ins, out = spec.split('->') if '->' in spec else (spec, None)
    ins = ins.split(',')
    if out is None:
      cnt = {}
      for s in ins:
        for c in s:
          cnt[c] = cnt.get(c, 0) + 1
      out = ''.join(sorted(c for c in cnt if cnt[c] == 1))
    dims = {}
    for s, a in zip(ins, arrs):
      if len(s) != a.ndim:
        raise AbsRaise('ValueError', ('einsum rank', spec), node)
      for c, ax in zip(s, a.axes):
        if c in dims and dims[c] != ax:
          if ax == 1:
            continue
          if dims[c] == 1:
            dims[c] = ax
            continue
          raise AbsRaise('ValueError', ('einsum dims', spec, c), node)
        dims[c] = ax
    dt = dtype
    if dt is None:
      for a in arrs:
        dt = promote(dt, a.dtype)
    summed = [c for c in dims if c not in out]
    exp_out = [c for c in out if not isinstance(dims[c], Pay)]
    exp_sum = [c for c in summed if not isinstance(dims[c], Pay)]
    pay_sum = [c for c in summed if isinstance(dims[c], Pay)]
    d = sarr.obj([dims[c] for c in exp_out])

    def cell(s, a, asg):
      idx = tuple(
          (asg[c] if ax != 1 or dims[c] == 1 else 0)
          for c, ax in zip(s, a.axes) if not isinstance(ax, Pay))
      return a.data[idx]

    for oi in np.ndindex(*[dims[c] for c in exp_out]):
      asg = dict(zip(exp_out, oi))
      acc = None
      for si in np.ndindex(*[dims[c] for c in exp_sum]):
        asg.update(zip(exp_sum, si))
        p = None
        for s, a in zip(ins, arrs):
          x = self.cell_cast(cell(s, a, asg), a.dtype, dt)
          p = x if p is None else self.cell_binop('*', p, x, dt)
        acc = p if acc is None else self.cell_binop('+', acc, p, dt)
      if acc is None:
        acc = 0
      for c in pay_sum:
        acc = self.payload_sum(acc, dims[c], dt)
      d[oi] = acc
    axes = [dims[c] for c in out]
    lib = 'jnp' if any(a.lib == 'jnp' for a in arrs) else 'np'
    return SArr(axes, d, dt, lib)

  def payload_sum(self, cell, pay, dtype):
    return term('sum', cell, pay.name)

  # ---------------------------------------------------------------- externals
  def call_ext(self, path, args, kwargs, node, mod):
    h = self.ext_hook(path, args, kwargs, node, mod)
    if h is not NotImplemented:
      return h
    key = path
    if path.startswith('jnp.'):
      lib, name = 'jnp', path[4:]
    elif path.startswith('np.'):
      lib, name = 'np', path[3:]
    elif path.startswith('jax.lax.'):
      lib, name = 'lax', path[8:]
    else:
      lib, name = None, path
    if lib is not None:
      f = getattr(self, ('x_' if lib != 'lax' else 'lax_') +
                  name.replace('.', '_'), None)
      if f is None and lib == 'lax':
        f = getattr(self, 'x_' + LAX_ALIAS.get(name, name), None)
        lib = 'jnp'
      if f is not None:
        self.cur_node, self.cur_mod = node, mod
        return f(lib if lib != 'lax' else 'jnp', args, kwargs, node)
      if name in DTYPES:
        return self.dtype_ctor(name, args, node)
    else:
      f = EXT.get(path)
      if f is not None:
        self.cur_node, self.cur_mod = node, mod
        return f(self, args, kwargs, node, mod)
    return self.ext_default(path, args, kwargs, node, mod)

  def ext_hook(self, path, args, kwargs, node, mod):
    return NotImplemented

  def ext_default(self, path, args, kwargs, node, mod):
    raise AnalysisError(f'external {path}', node, mod)

  def dtype_ctor(self, name, args, node):
    v = args[0]
    dt = dtype_name(Ext('np.' + name))
    if isinstance(v, SArr):
      return v.map(lambda c: self.cell_cast(c, v.dtype, dt), dt)
    if is_prim(v) and not isinstance(v, str):
      d = sarr.obj(())
      d[()] = self.cell_cast(v, None, dt)
      return SArr((), d, dt, 'np')
    if isinstance(v, (VList, tuple)):
      a = as_arr(v, self.interp)
      return a.map(lambda c: self.cell_cast(c, a.dtype, dt), dt)
    d = sarr.obj(())
    d[()] = self.cell_cast(v, None, dt)
    return SArr((), d, dt, 'np')

  def _arr(self, v):
    return as_arr(v, self.interp)

  def _default_dtype(self, a, lib):
    if a.dtype is not None and a.dtype != 'weakfloat':
      return a.dtype
    if a.dtype == 'weakfloat':
      return 'float64' if (lib == 'np' or self.x64) else 'float32'
    cs = list(a.data.flat)
    if cs and all(isinstance(c, bool) for c in cs):
      return 'bool'
    if cs and any(isinstance(c, complex) for c in cs):
      return 'complex128'
    if cs and any(isinstance(c, float) for c in cs):
      return 'float64'
    if lib == 'np' and any(isinstance(c, int) and (c >= 2**63 or c < -2**63)
                           for c in cs):
      return 'uint64' if all(isinstance(c, int) and 0 <= c < 2**64 for c in cs) else 'object'
    return 'int64' if (lib == 'np' or self.x64) else 'int32'

  def x_array(self, lib, a, k, n):
    v = a[0]
    dt = dtype_name(a[1] if len(a) > 1 else k.get('dtype'))
    arr = self._arr(v)
    out = SArr(arr.axes, arr.data.copy(), arr.dtype, lib)
    if dt is None:
      dt = self._default_dtype(arr, lib)
      out.dtype = dt
      src = arr.dtype
      if arr.dtype != dt:
        out = out.map(lambda c: self.cell_cast(c, src, dt), dt)
        out.lib = lib
      return out
    r = out.map(lambda c: self.cell_cast(c, arr.dtype, dt), dt)
    r.lib = lib
    return r

  def x_asarray(self, lib, a, k, n):
    v = a[0]
    dt = dtype_name(a[1] if len(a) > 1 else k.get('dtype'))
    if isinstance(v, SArr) and v.lib == lib and (dt is None or dt == v.dtype):
      return v
    return self.x_array(lib, a, k, n)

  def _dims(self, s, n):
    if isinstance(s, (VList, tuple)):
      return list(self.interp.iterate(s))
    return [s]

  def full_axes(self, dims, n):
    axes = []
    for d in dims:
      c = concrete_cell(d)
      if c is None:
        p = self.pay_for(d)
        if p is None:
          raise AnalysisError(f'abstract extent {d!r}', n)
        axes.append(p)
      else:
        axes.append(c)
    return axes

  pays = ()

  def pay_for(self, d):
    for p in self.pays:
      if isinstance(p.size, Poly) and isinstance(d, Poly) and p.size == d:
        return p
    return None

  def fill(self, dims, v, dt, lib, n):
    axes = self.full_axes(dims, n)
    d = sarr.obj([x for x in axes if not isinstance(x, Pay)])
    d.fill(v)
    if isinstance(v, (tuple,)):
      for i in np.ndindex(*d.shape):
        d[i] = v
    return SArr(axes, d, dt, lib)

  def x_zeros(self, lib, a, k, n):
    dt = dtype_name(a[1] if len(a) > 1 else k.get('dtype')) or sarr.canon('float64')
    s = a[0] if a else k['shape']
    return self.fill(self._dims(s, n), 0, dt, lib, n)

  def x_empty(self, lib, a, k, n):
    return self.x_zeros(lib, a, k, n)

  def x_ones(self, lib, a, k, n):
    dt = dtype_name(a[1] if len(a) > 1 else k.get('dtype')) or sarr.canon('float64')
    return self.fill(self._dims(a[0], n), 1, dt, lib, n)

  def x_full(self, lib, a, k, n):
    dt = dtype_name(a[2] if len(a) > 2 else k.get('dtype'))
    v = a[1] if len(a) > 1 else k['fill_value']
    if isinstance(v, SArr) and v.ndim == 0:
      v = v.data[()]
    return self.fill(self._dims(a[0], n), v, dt, lib, n)

  def x_zeros_like(self, lib, a, k, n):
    dt = dtype_name(k.get('dtype'))
    x = self._arr(a[0])
    r = x.map(lambda c: 0, dt or x.dtype)
    r.lib = lib
    return r

  x_empty_like = x_zeros_like

  def x_ones_like(self, lib, a, k, n):
    x = self._arr(a[0])
    r = x.map(lambda c: 1)
    r.lib = lib
    return r

  def x_full_like(self, lib, a, k, n):
    x = self._arr(a[0])
    r = x.map(lambda c: a[1])
    r.lib = lib
    return r

  def x_identity(self, lib, a, k, n):
    m = a[0]
    d = sarr.obj((m, m))
    for i in range(m):
      for j in range(m):
        d[i, j] = int(i == j)
    return SArr((m, m), d, dtype_name(k.get('dtype')) or sarr.canon('float64'), lib)

  x_eye = x_identity

  def x_arange(self, lib, a, k, n):
    dt = dtype_name(k.get('dtype'))
    a = [x for x in a if not (isinstance(x, (Ext, Native)))] 
    cs = [concrete_cell(x) for x in a]
    if any(c is None for c in cs):
      return self.abstract_arange(lib, a, dt, n)
    r = list(range(*cs))
    d = sarr.obj((len(r),))
    for i, x in enumerate(r):
      d[i] = x
    return SArr((len(r),), d, dt or ('int64' if self.x64 or lib == 'np' else 'int32'), lib)

  def abstract_arange(self, lib, a, dt, n):
    if len(a) == 1:
      p = self.pay_for(a[0])
      if p is not None:
        d = sarr.obj(())
        d[()] = self.iota(p)
        return SArr((p,), d, dt or 'int64', lib)
    raise AnalysisError('arange over abstract extent', n)

  def iota(self, pay):
    return term('iota', pay.name)

  def x_stack(self, lib, a, k, n):
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    return sarr.stack([self._arr(x) for x in self.interp.iterate(a[0], n)], ax,
                      lib)

  def x_concatenate(self, lib, a, k, n):
    ax = k.get('axis', k.get('dimension', a[1] if len(a) > 1 else 0))
    return sarr.concatenate(
        [self._arr(x) for x in self.interp.iterate(a[0], n)], ax, lib)

  x_concat = x_concatenate

  def x_append(self, lib, a, k, n):
    if 'axis' in k or len(a) > 2:
      return sarr.concatenate([self._arr(a[0]), self._arr(a[1])],
                              k.get('axis', a[2] if len(a) > 2 else 0), lib)
    return sarr.concatenate([self._flat(self._arr(a[0])),
                             self._flat(self._arr(a[1]))], 0, lib)

  def _flat(self, x):
    return sarr.reshape(x, [-1])

  def x_vstack(self, lib, a, k, n):
    xs = [self._arr(x) for x in self.interp.iterate(a[0], n)]
    out = []
    for x in xs:
      if x.ndim == 0:
        x = x.index((None, None))
      elif x.ndim == 1:
        x = x.index((None,))
      out.append(x)
    return sarr.concatenate(out, 0, lib)

  def x_hstack(self, lib, a, k, n):
    xs = [self._arr(x) for x in self.interp.iterate(a[0], n)]
    xs = [x.index((None,)) if x.ndim == 0 else x for x in xs]
    return sarr.concatenate(xs, 0 if xs[0].ndim == 1 else 1, lib)

  def x_column_stack(self, lib, a, k, n):
    xs = [self._arr(x) for x in self.interp.iterate(a[0], n)]
    xs = [x.index((slice(None), None)) if x.ndim == 1 else x for x in xs]
    return sarr.concatenate(xs, 1, lib)

  def x_split(self, lib, a, k, n, axis=None):
    x = self._arr(a[0])
    ax = axis if axis is not None else k.get('axis', a[2] if len(a) > 2 else 0)
    ax = x.norm_axis(ax)
    ind = a[1]
    size = x.axes[ax]
    if isinstance(size, Pay):
      raise AnalysisError('split of payload axis', n)
    c = concrete_cell(ind) if not isinstance(ind, (VList, tuple, SArr)) else None
    if c is not None:
      if size % c:
        raise AbsRaise('ValueError', ('split',), n)
      cuts = [i * (size // c) for i in range(c + 1)]
    else:
      cuts = [0] + [concrete_cell(x) for x in self.interp.iterate(ind, n)] + [size]
    pre = (slice(None),) * ax
    return VList([x.index(pre + (slice(s, e),))
                  for s, e in zip(cuts, cuts[1:])])

  def x_vsplit(self, lib, a, k, n):
    return self.x_split(lib, a, k, n, 0)

  def x_hsplit(self, lib, a, k, n):
    return self.x_split(lib, a, k, n, 1)

  def x_array_split(self, lib, a, k, n):
    return self.x_split(lib, a, k, n)

  def x_reshape(self, lib, a, k, n):
    s = a[1] if len(a) > 1 else k.get('shape', k.get('newshape'))
    return sarr.reshape(self._arr(a[0]), self._dims(s, n))

  def x_ravel(self, lib, a, k, n):
    return sarr.reshape(self._arr(a[0]), [-1])

  def x_transpose(self, lib, a, k, n):
    p = a[1] if len(a) > 1 else k.get('axes')
    return sarr.transpose(self._arr(a[0]),
                          None if p is None else self._dims(p, n))

  def x_moveaxis(self, lib, a, k, n):
    x = self._arr(a[0])
    src = a[1] if len(a) > 1 else k['source']
    dst = a[2] if len(a) > 2 else k['destination']
    src = [x.norm_axis(s) for s in self._dims(src, n)]
    dst = [x.norm_axis(s) for s in self._dims(dst, n)]
    perm = [i for i in range(x.ndim) if i not in src]
    for d, s in sorted(zip(dst, src)):
      perm.insert(d, s)
    return sarr.transpose(x, perm)

  def x_swapaxes(self, lib, a, k, n):
    x = self._arr(a[0])
    p = list(range(x.ndim))
    i, j = x.norm_axis(a[1]), x.norm_axis(a[2])
    p[i], p[j] = p[j], p[i]
    return sarr.transpose(x, p)

  def x_expand_dims(self, lib, a, k, n):
    x = self._arr(a[0])
    ax = k.get('axis', a[1] if len(a) > 1 else 0)
    axs = self._dims(ax, n)
    nd = x.ndim + len(axs)
    axs = sorted(i + nd if i < 0 else i for i in axs)
    for i in axs:
      x = x.index((slice(None),) * i + (None,))
    return x

  def x_squeeze(self, lib, a, k, n):
    x = self._arr(a[0])
    ax = k.get('axis', a[1] if len(a) > 1 else None)
    if ax is None:
      axs = [i for i, s in enumerate(x.axes) if s == 1 and not isinstance(s, Pay)]
    else:
      axs = [x.norm_axis(i) for i in self._dims(ax, n)]
      for i in axs:
        if x.axes[i] != 1:
          raise AbsRaise('ValueError', ('squeeze',), n)
    return x.index(tuple(0 if i in axs else slice(None)
                         for i in range(x.ndim)))

  def x_atleast_1d(self, lib, a, k, n):
    x = self._arr(a[0])
    return x if x.ndim else x.index((None,))

  def x_broadcast_to(self, lib, a, k, n):
    x = self._arr(a[0])
    shape = a[1] if len(a) > 1 else k['shape']
    dims = self._dims(shape, n)
    pad = len(dims) - x.ndim
    axes = []
    for i, d in enumerate(dims):
      j = i - pad
      if j >= 0 and isinstance(x.axes[j], Pay):
        axes.append(x.axes[j])
        continue
      c = concrete_cell(d)
      if c is None:
        p = self.pay_for(d)
        if p is None:
          raise AnalysisError('broadcast_to abstract', n)
        axes.append(p)
      else:
        axes.append(c)
    d = sarr.broadcast_to_axes(x, axes)
    return SArr(axes, d, x.dtype, lib)

  def lax_broadcast(self, lib, a, k, n):
    x = self._arr(a[0])
    dims = self._dims(a[1], n)
    return self.x_broadcast_to(lib, [x, tuple(dims) + tuple(x.shape)], {}, n)

  def lax_broadcast_in_dim(self, lib, a, k, n):
    x = self._arr(a[0])
    shape = a[1] if len(a) > 1 else k['shape']
    bd = a[2] if len(a) > 2 else k['broadcast_dimensions']
    dims = self._dims(shape, n)
    bd = self._dims(bd, n)
    key = []
    cur = 0
    for i in range(len(dims)):
      if i in bd:
        key.append(slice(None))
      else:
        key.append(None)
    return self.x_broadcast_to(lib, [x.index(tuple(key)), tuple(dims)], {}, n)

  def lax_broadcasted_iota(self, lib, a, k, n):
    a = list(a) + [k[q] for q in ('dtype', 'shape', 'dimension')[len(a):]]
    dt = dtype_name(a[0])
    dims = self.full_axes(self._dims(a[1], n), n)
    ax = a[2]
    if isinstance(dims[ax], Pay):
      d = sarr.obj([x for x in dims if not isinstance(x, Pay)])
      for i in np.ndindex(*d.shape):
        d[i] = self.iota(dims[ax])
      return SArr(dims, d, dt, 'jnp')
    e = sum(1 for x in dims[:ax] if not isinstance(x, Pay))
    d = sarr.obj([x for x in dims if not isinstance(x, Pay)])
    for i in np.ndindex(*d.shape):
      d[i] = i[e]
    return SArr(dims, d, dt, 'jnp')

  def lax_iota(self, lib, a, k, n):
    return self.x_arange(lib, [a[1]], {'dtype': a[0]}, n)

  def lax_rev(self, lib, a, k, n):
    x = self._arr(a[0])
    return self.x_flip(lib, [x], {'axis': a[1] if len(a) > 1 else k['dimensions']}, n)

  def lax_convert_element_type(self, lib, a, k, n):
    return self.astype(self._arr(a[0]), a[1] if len(a) > 1 else k['new_dtype'], n)

  def x_tile(self, lib, a, k, n):
    x = self._arr(a[0])
    reps = self._dims(a[1], n)
    while len(reps) < x.ndim:
      reps = [1] + reps
    while x.ndim < len(reps):
      x = x.index((None,))
    for i, r in enumerate(reps):
      if isinstance(x.axes[i], Pay):
        if r != 1:
          raise AnalysisError('tile payload', n)
        continue
      x = sarr.concatenate([x] * concrete_cell(r), i, lib) if r != 1 else x
    return x

  def x_repeat(self, lib, a, k, n):
    x = self._arr(a[0])
    r = concrete_cell(a[1] if len(a) > 1 else k['repeats'])
    ax = k.get('axis', a[2] if len(a) > 2 else None)
    if r is None:
      raise AnalysisError('repeat', n)
    if ax is None:
      x = self._flat(x)
      ax = 0
    ax = x.norm_axis(ax)
    e = x.exp_axis(ax)
    d = np.repeat(x.data, r, axis=e)
    axes = list(x.axes)
    axes[ax] = axes[ax] * r
    return SArr(axes, d, x.dtype, lib)

  def x_roll(self, lib, a, k, n):
    x = self._arr(a[0])
    sh = a[1] if len(a) > 1 else k['shift']
    ax = k.get('axis', a[2] if len(a) > 2 else None)
    if isinstance(ax, (tuple, VList)):
      for s, q in zip(self._dims(sh, n), self._dims(ax, n)):
        x = self.x_roll(lib, [x, s, q], {}, n)
      return x
    if ax is None:
      if x.ndim != 1:
        raise AnalysisError('roll flat', n)
      ax = 0
    ax = x.norm_axis(ax)
    if isinstance(x.axes[ax], Pay):
      return self.payload_roll(x, ax, sh, n)
    c = concrete_cell(sh)
    if isinstance(sh, SArr):
      c = concrete_cell(sh.data.flat[0]) if sh.data.size == 1 else None
    if c is None:
      return self.abstract_roll(x, ax, sh, n)
    return SArr(x.axes, np.roll(x.data, c, axis=x.exp_axis(ax)), x.dtype, lib)

  def payload_roll(self, x, ax, sh, n):
    if isinstance(sh, SArr):
      sh = sh.data.flat[0]
    nm = x.axes[ax].name
    return x.map(lambda c: term('roll', c, sh, nm))

  def abstract_roll(self, x, ax, sh, n):
    raise AnalysisError('roll by abstract amount', n)

  def x_flip(self, lib, a, k, n):
    x = self._arr(a[0])
    ax = k.get('axis', a[1] if len(a) > 1 else None)
    axs = range(x.ndim) if ax is None else [x.norm_axis(i)
                                            for i in self._dims(ax, n)]
    for i in axs:
      if isinstance(x.axes[i], Pay):
        x = self.payload_flip(x, i, n)
      else:
        x = SArr(x.axes, np.flip(x.data, axis=x.exp_axis(i)), x.dtype, lib)
    return x

  def payload_flip(self, x, ax, n):
    nm = x.axes[ax].name
    return x.map(lambda c: term('flip', c, nm))

  def x_pad(self, lib, a, k, n):
    x = self._arr(a[0])
    w = a[1] if len(a) > 1 else k['pad_width']
    v = k.get('constant_values', 0)
    if isinstance(v, SArr):
      v = v.data.flat[0]
    if isinstance(v, (tuple, VList)):
      vs = self.interp.iterate(v, n)
      if len(vs) != 1 or isinstance(vs[0], (tuple, VList, SArr)):
        raise AnalysisError('pad values', n)
      v = vs[0]
    ws = [self.interp.iterate(q, n) if isinstance(q, (tuple, VList)) else q
          for q in (self.interp.iterate(w, n) if not isinstance(w, int) else [w])]
    if all(isinstance(q, int) for q in ws):
      if len(ws) == 1:
        ws = [[ws[0], ws[0]]] * x.ndim
      elif len(ws) == 2:
        ws = [ws] * x.ndim
    if len(ws) == 1:
      ws = ws * x.ndim
    if len(ws) != x.ndim:
      raise AbsRaise('ValueError', ('pad',), n)
    pw = []
    axes = list(x.axes)
    for i, (lo, hi) in enumerate(ws):
      lo, hi = concrete_cell(lo), concrete_cell(hi)
      if isinstance(axes[i], Pay):
        if lo or hi:
          raise AnalysisError('pad payload', n)
        continue
      pw.append((lo, hi))
      axes[i] = axes[i] + lo + hi
    d = np.pad(x.data, pw, constant_values=0) if pw else x.data
    if v != 0 or True:
      mask = np.pad(np.ones(x.data.shape, bool), pw, constant_values=False) if pw else None
      if mask is not None:
        d = d.copy()
        for i in np.ndindex(*d.shape):
          if not mask[i]:
            d[i] = v
    return SArr(axes, d, x.dtype, lib)

  def x_take(self, lib, a, k, n):
    x = self._arr(a[0])
    ind = a[1] if len(a) > 1 else k['indices']
    ax = k.get('axis', a[2] if len(a) > 2 else None)
    if ax is None:
      x = self._flat(x) if x.ndim != 1 else x
      ax = 0
    ax = x.norm_axis(ax)
    return x.index((slice(None),) * ax + (ind,), self.interp, n)

  def x_where(self, lib, a, k, n):
    if len(a) != 3:
      raise AnalysisError('where', n)
    c, x, y = [self._arr(v) for v in a]
    dt = promote(x.dtype, y.dtype)
    return sarr.elementwise(
        lambda cc, p, q: self.cell_where(cc, self.cell_cast(p, x.dtype, dt),
                                         self.cell_cast(q, y.dtype, dt)),
        [c, x, y], dt, lib)

  def _un(self, op, lib, a, dt='same'):
    x = a[0]
    if isinstance(x, SArr):
      return x.map(lambda c: self.typed_unary(op, c, x.dtype), dt)
    return self.cell_unary(op, x)

  def x_negative(self, lib, a, k, n):
    return self._un('-', lib, a)

  def x_abs(self, lib, a, k, n):
    return self._un('abs', lib, a)

  x_absolute = x_abs

  def x_sign(self, lib, a, k, n):
    return self._un('sign', lib, a)

  def x_rint(self, lib, a, k, n):
    return self._un('rint', lib, a)

  def x_round(self, lib, a, k, n):
    return self._un('rint', lib, a)

  def x_ceil(self, lib, a, k, n):
    return self._un('ceil', lib, a)

  def x_floor(self, lib, a, k, n):
    return self._un('floor', lib, a)

  def x_exp(self, lib, a, k, n):
    return self._un('exp', lib, a)

  def x_conj(self, lib, a, k, n):
    return self._un('conj', lib, a)

  def x_square(self, lib, a, k, n):
    return self.interp.binop('*', a[0], a[0], n)

  def x_logical_not(self, lib, a, k, n):
    return self._un('not', lib, a)

  x_invert = lambda self, lib, a, k, n: self._un('~', lib, a)
  x_bitwise_not = x_invert

  def _logic(self, op, a, lib):
    x, y = self._arr(a[0]), self._arr(a[1])
    return sarr.elementwise(lambda p, q: self.cell_nary(op, [p, q]), [x, y],
                            'bool', lib)

  def x_logical_and(self, lib, a, k, n):
    return self._logic('and', a, lib)

  def x_logical_or(self, lib, a, k, n):
    return self._logic('or', a, lib)

  def x_maximum(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    return sarr.elementwise(lambda p, q: self.cell_nary('max', [p, q]), [x, y],
                            promote(x.dtype, y.dtype), lib)

  def x_minimum(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    return sarr.elementwise(lambda p, q: self.cell_nary('min', [p, q]), [x, y],
                            promote(x.dtype, y.dtype), lib)

  def x_clip(self, lib, a, k, n):
    x = self.x_maximum(lib, [a[0], a[1]], {}, n)
    return self.x_minimum(lib, [x, a[2]], {}, n)

  def _reduce(self, op, lib, a, k, n):
    x = self._arr(a[0])
    ax = k.get('axis', a[1] if len(a) > 1 else None)
    dt = dtype_name(k.get('dtype')) or self.reduce_dtype(op, x.dtype, lib)
    keep = k.get('keepdims', False)
    axs = (list(range(x.ndim)) if ax is None else
           [x.norm_axis(i) for i in self._dims(ax, n)])
    src = x
    if dt != x.dtype and op in ('+', '*'):
      x = x.map(lambda c: self.cell_cast(c, src.dtype, dt), dt)
    for i in sorted(axs, reverse=True):
      pay = x.axes[i]
      axes = list(x.axes)
      if isinstance(pay, Pay):
        if op == '+':
          x = x.map(lambda c: self.payload_sum(c, pay, dt))
        elif op in ('and', 'or', 'max', 'min'):
          x = x.map(lambda c: self.payload_quant(op, c, pay))
        else:
          raise AnalysisError('payload reduce', n)
        if keep:
          axes[i] = 1
          e = sum(1 for q in axes[:i] if not isinstance(q, Pay))
          x = SArr(axes, np.expand_dims(x.data, e), x.dtype, x.lib)
        else:
          del axes[i]
          x = SArr(axes, x.data, x.dtype, x.lib)
        continue
      e = x.exp_axis(i)
      shp = [s for j, s in enumerate(x.data.shape) if j != e]
      d = sarr.obj(shp)
      for idx in np.ndindex(*shp):
        cells = [x.data[idx[:e] + (j,) + idx[e:]]
                 for j in range(x.data.shape[e])]
        d[idx] = self.fold(op, cells, dt)
      if keep:
        axes[i] = 1
        d = np.expand_dims(d, e)
      else:
        del axes[i]
      x = SArr(axes, d, dt, lib)
    return x

  def payload_quant(self, op, c, pay):
    if is_prim(c):
      return c
    return Cond('forall' if op == 'and' else op, c, pay.name)

  def reduce_dtype(self, op, dt, lib):
    if op in ('and', 'or'):
      return 'bool'
    if op in ('max', 'min'):
      return dt
    if dt is None:
      return None
    if dt in ('bool',):
      return 'int64' if (self.x64 or lib == 'np') else 'int32'
    # numpy and jax both widen small ints to the default (u)int
    if dt.startswith('uint'):
      return 'uint64' if (self.x64 or lib == 'np') else 'uint32'
    if dt.startswith('int'):
      return 'int64' if (self.x64 or lib == 'np') else 'int32'
    return dt

  def fold(self, op, cells, dt):
    if op in ('and', 'or', 'max', 'min'):
      return self.cell_nary(op, cells)
    acc = 0 if op == '+' else 1
    first = True
    for c in cells:
      if first:
        acc = c
        first = False
      else:
        acc = self.cell_binop(op, acc, c, dt)
    return acc

  def x_sum(self, lib, a, k, n):
    return self._reduce('+', lib, a, k, n)

  def x_prod(self, lib, a, k, n):
    return self._reduce('*', lib, a, k, n)

  def x_all(self, lib, a, k, n):
    return self._reduce('and', lib, a, k, n)

  def x_any(self, lib, a, k, n):
    return self._reduce('or', lib, a, k, n)

  def x_max(self, lib, a, k, n):
    return self._reduce('max', lib, a, k, n)

  def x_min(self, lib, a, k, n):
    return self._reduce('min', lib, a, k, n)

  def x_cumsum(self, lib, a, k, n):
    x = self._arr(a[0])
    ax = x.norm_axis(k.get('axis', a[1] if len(a) > 1 else 0))
    e = x.exp_axis(ax)
    d = x.data.copy()
    dm = np.moveaxis(d, e, 0)
    for i in range(1, dm.shape[0]):
      for j in np.ndindex(*dm.shape[1:]):
        dm[(i,) + j] = self.cell_binop('+', dm[(i - 1,) + j], dm[(i,) + j], x.dtype)
    return SArr(x.axes, d, x.dtype, lib)

  def x_array_equal(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    if x.axes != y.axes:
      return False
    return self.cell_nary('and', [
        self.cell_compare('==', p, q)
        for p, q in zip(x.data.flat, y.data.flat)
    ])

  def x_dot(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    pe = dtype_name(k.get('preferred_element_type'))
    if pe:
      x, y = self.astype(x, Ext('np.' + pe), n), self.astype(y, Ext('np.' + pe), n)
    if x.ndim == 0 or y.ndim == 0:
      return self.interp.binop('*', x, y, n)
    if y.ndim > 2:
      raise AnalysisError('dot rank', n)
    return self.dot_general(x, y, n)

  def x_matmul(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    pe = dtype_name(k.get('preferred_element_type'))
    if pe:
      x, y = self.astype(x, Ext('np.' + pe), n), self.astype(y, Ext('np.' + pe), n)
    return self.matmul(x, y, n)

  def x_einsum(self, lib, a, k, n):
    xs = [self._arr(x) for x in a[1:]]
    pe = dtype_name(k.get('preferred_element_type'))
    if pe:
      xs = [self.astype(x, Ext('np.' + pe), n) for x in xs]
    return self.einsum(a[0], xs, n)

  def x_outer(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    return self.interp.binop('*', x.index((slice(None), None)),
                             y.index((None,)), n)

  def x_kron(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    if x.ndim != 2 or y.ndim != 2:
      raise AnalysisError('kron', n)
    p = self.interp.binop('*', x.index((slice(None), None, slice(None), None)),
                          y.index((None, slice(None), None, slice(None))), n)
    return sarr.reshape(p, [x.axes[0] * y.axes[0], x.axes[1] * y.axes[1]])

  def x_tril(self, lib, a, k, n):
    return self._tri(a, k, lambda i, j, d: j - i <= d)

  def x_triu(self, lib, a, k, n):
    return self._tri(a, k, lambda i, j, d: j - i >= d)

  def _tri(self, a, k, f):
    x = self._arr(a[0])
    d = k.get('k', a[1] if len(a) > 1 else 0)
    out = x.data.copy()
    for i in range(out.shape[-2]):
      for j in range(out.shape[-1]):
        if not f(i, j, d):
          out[..., i, j] = 0
    return SArr(x.axes, out, x.dtype, x.lib)

  def x_shape(self, lib, a, k, n):
    return self._arr(a[0]).shape

  def x_ndim(self, lib, a, k, n):
    return self._arr(a[0]).ndim

  def x_size(self, lib, a, k, n):
    return self.interp.getattr_(self._arr(a[0]), 'size')

  def x_dtype(self, lib, a, k, n):
    return Ext('np.' + dtype_name(a[0]))

  def x_iinfo(self, lib, a, k, n):
    dt = dtype_name(a[0])
    i = np.iinfo(dt)
    return VNamespace(max=int(i.max), min=int(i.min), bits=i.bits)

  def x_issubdtype(self, lib, a, k, n):
    dt = dtype_name(a[0])
    t = dtype_name(a[1])
    if dt is None:
      return Cond('issubdtype', repr(a))
    if t in ('unsignedinteger',):
      return dt.startswith('uint')
    if t in ('signedinteger',):
      return dt.startswith('int')
    if t == 'integer':
      return 'int' in dt
    if t == 'floating':
      return 'float' in dt
    return dt == t

  def x_isscalar(self, lib, a, k, n):
    return is_prim(a[0]) or isinstance(a[0], Poly)

  def x_copy(self, lib, a, k, n):
    x = self._arr(a[0])
    return SArr(x.axes, x.data.copy(), x.dtype, lib)

  def x_diag(self, lib, a, k, n):
    x = self._arr(a[0])
    m = x.axes[0]
    if x.ndim == 1:
      d = sarr.obj((m, m))
      d.fill(0)
      for i in range(m):
        d[i, i] = x.data[i]
      return SArr((m, m), d, x.dtype, lib)
    d = sarr.obj((m,))
    for i in range(m):
      d[i] = x.data[i, i]
    return SArr((m,), d, x.dtype, lib)

  def x_convolve(self, lib, a, k, n):
    x, y = self._arr(a[0]), self._arr(a[1])
    if x.ndim != 1 or y.ndim != 1:
      raise AnalysisError('convolve', n)
    dt = promote(x.dtype, y.dtype)
    pe = dtype_name(k.get('preferred_element_type'))
    if pe is not None:
      x, y = self.astype(x, Ext('np.' + pe), n), self.astype(y, Ext('np.' + pe), n)
      dt = pe
    m, q = x.axes[0], y.axes[0]
    d = sarr.obj((m + q - 1,))
    for t in range(m + q - 1):
      acc = None
      for i in range(m):
        if 0 <= t - i < q:
          p = self.cell_binop('*', x.data[i], y.data[t - i], dt)
          acc = p if acc is None else self.cell_binop('+', acc, p, dt)
      d[t] = acc
    return SArr((m + q - 1,), d, dt, lib)

  def x_power(self, lib, a, k, n):
    return self.interp.binop('**', a[0], a[1], n)

  def lax_bitcast_convert_type(self, lib, a, k, n):
    return self.bitcast(self._arr(a[0]), dtype_name(
        a[1] if len(a) > 1 else k['new_dtype']), n)

  def bitcast(self, x, dt, n):
    raise AnalysisError('bitcast_convert_type', n)

  def bitcast_view(self, x, dt, n):
    """.view(): the last axis is regrouped, no axis is added or removed."""
    from moddom import W as WW
    if x.dtype not in WW or dt not in WW:
      raise AnalysisError('view', n)
    fw, tw = WW[x.dtype][0], WW[dt][0]
    if fw == tw:
      return self.bitcast(x, dt, n)
    if not x.axes or isinstance(x.axes[-1], Pay):
      raise AnalysisError('view', n)
    if fw > tw:
      r = self.bitcast(x, dt, n)
      return sarr.reshape(r, list(x.axes[:-1]) + [x.axes[-1] * (fw // tw)])
    k = tw // fw
    if x.axes[-1] % k:
      raise AbsRaise('ValueError', ('view',), n)
    return self.bitcast(sarr.reshape(x, list(x.axes[:-1]) + [x.axes[-1] // k, k]), dt, n)

  # lax control flow
  def lax_scan(self, lib, a, k, n):
    names = ['f', 'init', 'xs', 'length', 'reverse']
    kw = dict(zip(names, a))
    kw.update(k)
    f, carry, xs = kw['f'], kw['init'], kw.get('xs')
    lv = [l for l in self.leaves(xs)] if xs is not None else []
    lv = [self._arr(l) for l in lv]
    length = kw.get('length')
    for l in lv:
      if isinstance(l.axes[0], Pay):
        raise AnalysisError('scan over payload axis', n)
      if length is not None and concrete_cell(length) != l.axes[0]:
        raise AbsRaise('ValueError', ('scan length',), n)
      length = l.axes[0]
    length = concrete_cell(length) if length is not None else None
    if length is None:
      raise AnalysisError('scan length', n)
    ys = []
    order = range(length)
    if kw.get('reverse'):
      order = reversed(order)
    for i in order:
      x = None if xs is None else self.tree_map(
          lambda l: self._arr(l).index((i,)), xs)
      r = self.interp.call(f, [carry, x], {}, n)
      carry, y = self.interp.iterate(r, n)
      ys.append(y)
    if kw.get('reverse'):
      ys.reverse()
    if not ys:
      return (carry, None)
    return (carry, self.tree_stack(ys, 0))

  def lax_fori_loop(self, lib, a, k, n):
    names = ['lower', 'upper', 'body_fun', 'init_val']
    kw = dict(zip(names, a))
    kw.update(k)
    lo, hi = concrete_cell(kw['lower']), concrete_cell(kw['upper'])
    if lo is None or hi is None:
      raise AnalysisError('fori_loop bounds', n)
    v = kw['init_val']
    for i in range(lo, hi):
      v = self.interp.call(kw['body_fun'], [i, v], {}, n)
    return v

  def lax_while_loop(self, lib, a, k, n):
    names = ['cond_fun', 'body_fun', 'init_val']
    kw = dict(zip(names, a))
    kw.update(k)
    v = kw['init_val']
    for _ in range(10000):
      c = self.interp.call(kw['cond_fun'], [v], {}, n)
      if not self.interp.decide(c, n, None):
        return v
      v = self.interp.call(kw['body_fun'], [v], {}, n)
    raise AnalysisError('while_loop does not terminate', n)

  def lax_map(self, lib, a, k, n):
    return self.do_vmap(Wrapped('vmap', a[0]), [a[1]], {}, n, None)

  def lax_cond(self, lib, a, k, n):
    return self.interp.call(a[1] if self.interp.decide(a[0], n, None) else a[2],
                            a[3:], {}, n)

  def lax_select(self, lib, a, k, n):
    return self.x_where(lib, a, k, n)

  def lax_dot(self, lib, a, k, n):
    return self.x_dot(lib, a[:2], {q: v for q, v in k.items() if q == 'preferred_element_type'}, n)

  # ---------------------------------------------------------------- methods
  def astype(self, x, dt, n):
    d = dtype_name(dt)
    if d is None:
      return x
    self.cur_node = n
    r = x.map(lambda c: self.cell_cast(c, x.dtype, d), d)
    return r

  def arr_method(self, x, name, a, k, n):
    if name == 'astype':
      return self.astype(x, a[0] if a else k['dtype'], n)
    if name == 'reshape':
      s = a[0] if len(a) == 1 and isinstance(a[0], (tuple, VList)) else tuple(a)
      return sarr.reshape(x, self._dims(s, n))
    if name == 'transpose':
      p = a[0] if len(a) == 1 and isinstance(a[0], (tuple, VList)) else tuple(a)
      return sarr.transpose(x, self._dims(p, n) if p else None)
    if name in ('flatten', 'ravel'):
      return sarr.reshape(x, [-1])
    if name == 'tolist':
      if any(isinstance(q, Pay) for q in x.axes):
        raise AnalysisError('tolist of payload', n)

      def go(d):
        if d.ndim == 0:
          return d[()]
        return VList([go(y) if isinstance(y, np.ndarray) else y for y in d])

      return go(x.data)
    if name == 'copy':
      return SArr(x.axes, x.data.copy(), x.dtype, x.lib)
    if name == 'item':
      if x.data.size == 1:
        return x.data.flat[0]
      if a:
        return x.index(tuple(a)).data[()]
    if name == 'block_until_ready':
      return x
    if name == 'view':
      r = self.bitcast_view(x, dtype_name(a[0]), n)
      return r
    if name == 'fill':
      self.on_array_store(x, Ellipsis, a[0], n)
      x.data[...] = a[0]
      return None
    f = getattr(self, 'x_' + name, None)
    if f is not None:
      return f(x.lib, [x] + list(a), k, n)
    raise AnalysisError(f'array method {name}', n)


for _n, _o in [('add', '+'), ('subtract', '-'), ('multiply', '*'),
               ('mod', '%'), ('remainder', '%'), ('floor_divide', '//'),
               ('divide', '/'), ('true_divide', '/'),
               ('right_shift', '>>'), ('left_shift', '<<'),
               ('bitwise_and', '&'), ('bitwise_or', '|'),
               ('bitwise_xor', '^')]:
  def _mk(o):
    def f(self, lib, a, k, n):
      r = self.interp.binop(o, a[0], a[1], n, self.cur_mod)
      dt = dtype_name(k.get('dtype'))
      if dt and isinstance(r, SArr):
        return self.astype(r, Ext('np.' + dt), n)
      return r
    return f
  setattr(Domain, 'x_' + _n, _mk(_o))

for _n, _o in [('equal', '=='), ('not_equal', '!='), ('less', '<'),
               ('less_equal', '<='), ('greater', '>'),
               ('greater_equal', '>=')]:
  def _mk2(o):
    def f(self, lib, a, k, n):
      return self.interp.compare(o, self._arr(a[0]), self._arr(a[1]), n, None)
    return f
  setattr(Domain, 'x_' + _n, _mk2(_o))


class VNamespace(AbsVal):

  def __init__(self, **kw):
    self.kw = kw

  def abs_getattr(self, interp, name, node):
    return self.kw[name]


LAX_ALIAS = {
    'shift_right_logical': 'right_shift', 'shift_left': 'left_shift',
    'mul': 'multiply', 'sub': 'subtract', 'div': 'floor_divide', 'rem': 'mod',
    'eq': 'equal', 'ne': 'not_equal', 'lt': 'less', 'le': 'less_equal',
    'gt': 'greater', 'ge': 'greater_equal', 'neg': 'negative',
    'shift_right_arithmetic': 'right_shift', 'and': 'bitwise_and',
}

DTYPES = {
    'uint8', 'uint16', 'uint32', 'uint64', 'int8', 'int16', 'int32', 'int64',
    'float32', 'float64', 'bfloat16', 'bool_', 'complex64', 'complex128',
    'uint',
}

NONE_BOX = None
CONSTS = {
    'np.pi': math.pi, 'jnp.pi': math.pi, 'math.pi': math.pi,
    'np.inf': math.inf, 'math.inf': math.inf, 'math.e': math.e,
}


def _py(v):
  if isinstance(v, VList):
    return [_py(x) for x in v.items]
  if isinstance(v, tuple):
    return tuple(_py(x) for x in v)
  return v


def _math(fn, name):

  def f(d, a, k, n, m):
    a = [concrete_cell(x) if isinstance(x, (Poly, SArr)) and concrete_cell(x)
         is not None else x for x in a]
    a = [x.data[()] if isinstance(x, SArr) and x.ndim == 0 else x for x in a]
    if all(is_concrete(x) for x in a):
      try:
        return fn(*[_py(x) for x in a])
      except (ValueError, OverflowError) as e:
        raise AbsRaise(type(e).__name__, (), n, m)
    return d.math_abstract(name, a, n)

  return f


def _math_abstract(self, name, a, n):
  if name == 'prod':
    r = 1
    for x in self.interp.iterate(a[0], n):
      r = self.interp.binop('*', r, x, n)
    return r
  return term(name, *a)


Domain.math_abstract = _math_abstract


def _partial(d, a, k, n, m):
  return Partial(a[0], a[1:], k)


def _jit(d, a, k, n, m):
  if not a:
    return Partial(Ext('jax.jit'), [], k)
  f = a[0]
  if isinstance(f, Func):
    f.marks.append(('jit', k))
  return f


def _vmap(kind):

  def f(d, a, k, n, m):
    if not a:
      return Partial(Ext('jax.' + kind), [], k)
    kw = dict(k)
    for nm, v in zip(['in_axes', 'out_axes'], a[1:]):
      kw[nm] = v
    return Wrapped(kind, a[0], (), kw)

  return f


def _reduce(d, a, k, n, m):
  items = d.interp.iterate(a[1], n, m)
  if len(a) > 2:
    acc = a[2]
  else:
    acc = items.pop(0)
  for x in items:
    acc = d.interp.call(a[0], [acc, x], {}, n, m)
  return acc


def _product(d, a, k, n, m):
  ls = [d.interp.iterate(x, n, m) for x in a]
  rep = k.get('repeat', 1)
  if not isinstance(rep, int):
    raise AnalysisError('product repeat', n, m)
  return VList([tuple(x) for x in itertools.product(*ls, repeat=rep)])


def _combinations(d, a, k, n, m):
  return VList([tuple(x) for x in itertools.combinations(
      d.interp.iterate(a[0], n, m), a[1])])


def _op(o):
  return lambda d, a, k, n, m: d.interp.binop(o, a[0], a[1], n, m)


def _field(d, a, k, n, m):
  return FieldSpec('default' in k, k.get('default'), k.get('default_factory'),
                   k.get('init', True), k.get('compare', True))


def _replace(d, a, k, n, m):
  o = a[0]
  if not isinstance(o, Inst):
    raise AnalysisError('dataclasses.replace', n, m)
  vals = {f: o.attrs.get(f) for f in o.cls.fields
          if not (isinstance(o.cls.lookup(f)[0], FieldSpec) and
                  not o.cls.lookup(f)[0].init)}
  vals.update(k)
  return d.interp.instantiate(o.cls, [], vals, n, m)


def _tree_map(d, a, k, n, m):
  return d.tree_map2(lambda *xs: d.interp.call(a[0], list(xs), {}, n, m),
                     list(a[1:]))


def _cast(d, a, k, n, m):
  return a[1]


def _accumulate(d, a, k, n, m):
  items = d.interp.iterate(a[0], n, m)
  out = []
  acc = None
  for i, x in enumerate(items):
    if i == 0:
      acc = x
    else:
      acc = (d.interp.call(a[1], [acc, x], {}, n, m) if len(a) > 1 else
             d.interp.binop('+', acc, x, n, m))
    out.append(acc)
  return VList(out)


_AUTO = itertools.count(1)
EXT = {
    'functools.partial': _partial,
    'functools.reduce': _reduce,
    'functools.lru_cache': lambda d, a, k, n, m: (
        Wrapped('lru', a[0]) if a and not is_prim(a[0]) else Native(
            'lru', lambda it, aa, kk, nn: Wrapped('lru', aa[0]))),
    'functools.cache': lambda d, a, k, n, m: Wrapped('lru', a[0]),
    'typing.NewType': lambda d, a, k, n, m: Native(
        'newtype', lambda it, aa, kk, nn: aa[0]),
    'jax.tree_util.tree_flatten': lambda d, a, k, n, m: d.tree_flatten(a[0]),
    'jax.tree.flatten': lambda d, a, k, n, m: d.tree_flatten(a[0]),
    'jax.tree_util.tree_unflatten': lambda d, a, k, n, m: a[0].unflatten(
        d.interp.iterate(a[1])),
    'jax.tree.unflatten': lambda d, a, k, n, m: a[0].unflatten(
        d.interp.iterate(a[1])),
    'jax.tree_util.tree_leaves': lambda d, a, k, n, m: VList(d.leaves(a[0])),
    'jax.tree.leaves': lambda d, a, k, n, m: VList(d.leaves(a[0])),
    'functools.wraps': lambda d, a, k, n, m: Native(
        'wraps', lambda it, aa, kk, nn: aa[0]),
    'functools.cached_property': lambda d, a, k, n, m: core.Property(a[0], True),
    'enum.auto': lambda d, a, k, n, m: next(_AUTO),
    'jax.jit': _jit,
    'jax.named_call': _jit,
    'jax.vmap': _vmap('vmap'),
    'jax.pmap': _vmap('pmap'),
    'jax.tree_util.register_pytree_node_class': lambda d, a, k, n, m: a[0],
    'jax.tree_util.tree_map': _tree_map,
    'jax.tree.map': _tree_map,
    'jax.block_until_ready': lambda d, a, k, n, m: a[0],
    'jax.device_put': lambda d, a, k, n, m: a[0],
    'jax.config.update': lambda d, a, k, n, m: None,
    'jax.ShapeDtypeStruct': lambda d, a, k, n, m: ShapeStruct(
        a[0] if a else k.get('shape'),
        a[1] if len(a) > 1 else k.get('dtype')),
    'itertools.product': _product,
    'itertools.combinations': _combinations,
    'itertools.accumulate': _accumulate,
    'itertools.chain': lambda d, a, k, n, m: VList(
        [x for s in a for x in d.interp.iterate(s, n, m)]),
    'itertools.chain.from_iterable': lambda d, a, k, n, m: VList(
        [x for s in d.interp.iterate(a[0], n, m) for x in d.interp.iterate(s, n, m)]),
    'itertools.repeat': lambda d, a, k, n, m: VList([a[0]] * a[1]),
    'itertools.cycle': lambda d, a, k, n, m: CycleState(
        d.interp.iterate(a[0], n, m)),
    'itertools.islice': lambda d, a, k, n, m: VList(
        d.interp.iterate(a[0], n, m)[slice(*a[1:])]),
    'operator.mul': _op('*'),
    'operator.add': _op('+'),
    'operator.sub': _op('-'),
    'operator.xor': _op('^'),
    'operator.or_': _op('|'),
    'operator.and_': _op('&'),
    'dataclasses.field': _field,
    'dataclasses.replace': _replace,
    'dataclasses.dataclass': lambda d, a, k, n, m: a[0] if a else Native(
        'dc', lambda it, aa, kk, nn: aa[0]),
    'typing.cast': _cast,
    'typing.TypeVar': lambda d, a, k, n, m: Unk('typevar'),
    'gmpy2.mpz': lambda d, a, k, n, m: d.b_int(d.interp, a, k, n) if a else 0,
    'gmpy2.powmod': lambda d, a, k, n, m: d.b_pow(d.interp, a, k, n),
    'gmpy2.invert': lambda d, a, k, n, m: d.b_pow(d.interp, [a[0], -1, a[1]], k, n),
    'math.comb': _math(math.comb, 'comb'),
    'copy.deepcopy': lambda d, a, k, n, m: d.deepcopy(a[0]),
    'copy.copy': lambda d, a, k, n, m: d.shallow(a[0]),
}
for _n in ('ceil', 'floor', 'log2', 'log', 'sqrt', 'gcd', 'prod', 'exp', 'pow',
           'isqrt', 'log10', 'cos', 'sin'):
  EXT['math.' + _n] = _math(getattr(math, _n), _n)
EXT['gmpy2.log2'] = EXT['math.log2']
EXT['gmpy2.ceil'] = EXT['math.ceil']
EXT['gmpy2.gcd'] = EXT['math.gcd']


def _deepcopy(self, v):
  if isinstance(v, VList):
    return VList([_deepcopy(self, x) for x in v.items])
  if isinstance(v, tuple):
    return tuple(_deepcopy(self, x) for x in v)
  if isinstance(v, VDict):
    return VDict({k: _deepcopy(self, x) for k, x in v.d.items()})
  if isinstance(v, SArr):
    return SArr(v.axes, v.data.copy(), v.dtype, v.lib)
  if isinstance(v, Inst):
    return Inst(v.cls, {k: _deepcopy(self, x) for k, x in v.attrs.items()})
  return v


def _shallow(self, v):
  if isinstance(v, VList):
    return VList(v.items)
  if isinstance(v, VDict):
    return VDict(v.d)
  if isinstance(v, SArr):
    return SArr(v.axes, v.data.copy(), v.dtype, v.lib)
  if isinstance(v, Inst):
    return Inst(v.cls, dict(v.attrs))
  return v


Domain.deepcopy = _deepcopy
Domain.shallow = _shallow
