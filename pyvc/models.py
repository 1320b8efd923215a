"""Models of builtins, the standard library and host objects.

Every model here is part of the trusted base: it states what CPython's own
code (not the repository's) does."""
import builtins
import ast
import datetime
import functools
import io
import operator
import re
import struct
import types
import warnings

import z3
from . import values as V
from .values import (Sym, SInt, SBool, SRope, SByteArray, SOpaque, SFloat, SDatetime, SDelta, Seg, SText8,
                     Unsupported, PathAbort, GuestExc, graise, ze, zb, mki, mkb, is_sym, isint, rope, CTX)
from . import interp as I

FUNCTIONS = {}


def model(f):
    def deco(g):
        FUNCTIONS[f] = g
        return g
    return deco


@model(warnings.warn)
def m_warn(ip, *a, **k):
    return None


PURE_MODULES = {'posixpath', 'genericpath', 're', 'struct', 'textwrap', 'string', 'codecs', 'base64', 'os'}


def pure_host(fn):
    return fn.__module__ in ('posixpath', 'genericpath', 're', 'textwrap', 'base64', 'string', 'typing')


def call_wrapped(ip, fn, args, kwargs):
    import contextlib
    w = fn.__wrapped__
    if fn.__code__ is contextlib.contextmanager(lambda: None).__code__:
        return ip.call_fn(w, args, kwargs)
    raise Unsupported('decorated function %s' % fn.__qualname__)


MUTATING = {list: {'append', 'extend', 'insert', 'pop', 'remove', 'sort', 'reverse', 'clear', '__setitem__', '__delitem__'},
            dict: {'update', 'pop', 'popitem', 'setdefault', 'clear', '__setitem__', '__delitem__'},
            set: {'add', 'update', 'discard', 'remove', 'pop', 'clear'},
            bytearray: {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse'}}


def call_method(ip, recv, name, args, kwargs):
    if recv is None and name.startswith('object.'):
        return object_method(ip, name[7:], args, kwargs)
    hook = V.CTX.models.get(('method', type(recv), name))
    if hook is not None:
        r = hook(ip, recv, *args, **kwargs)
        if r is not NotImplemented:
            return r
    if is_sym(recv):
        m = getattr(recv, 'm_' + name, None)
        if m is None:
            raise Unsupported('method %s of %r' % (name, recv))
        if isinstance(recv, (SRope, SInt, SFloat, SText8)) and name in ('join', 'format'):
            raise Unsupported('method %s of a symbolic text' % name)
        return m(*args, **kwargs)
    mut = MUTATING.get(type(recv), ())
    if name in mut:
        raise Unsupported('mutation of the module-level object %s.%s' % (type(recv).__name__, name))
    if I.host(args) and I.host(kwargs):
        r = ip.host_call(getattr(recv, name), args, kwargs)
        return r
    if isinstance(recv, (str, bytes, bytearray)):
        if name == 'join':
            return join(ip, recv, args[0])
        if name == 'format':
            return SOpaque(str, 'format')
        r = rope(recv)
        m = getattr(r, 'm_' + name, None)
        if m is None:
            raise Unsupported('method %s of a text or bytes' % name)
        return m(*args, **kwargs)
    if isinstance(recv, dict):
        if name == 'get':
            for k, v in recv.items():
                if ip.truth(ip.eq(k, args[0])):
                    return v
            return args[1] if len(args) > 1 else kwargs.get('default')
    if isinstance(recv, int):
        if name == 'to_bytes':
            return SInt(z3.IntVal(recv)).m_to_bytes(*args, **kwargs)
    if isinstance(recv, (list, tuple)) and name in ('index', 'count'):
        if name == 'count':
            t = 0
            for x in recv:
                t = t + V.Ite(ip.truthy(ip.eq(x, args[0])), 1, 0)
            return t
        for i, x in enumerate(recv):
            if ip.truth(ip.eq(x, args[0])):
                return i
        graise(ValueError('not in list'))
    if isinstance(recv, (set, frozenset)) and name in ('union', 'intersection', 'difference'):
        g = I.GSet(recv)
        if name == 'union':
            return g.m_union(*args)
    raise Unsupported('method %s of %r with symbolic arguments' % (name, type(recv)))


def object_method(ip, name, args, kwargs):
    if name in ('__init__', '__init_subclass__', '__enter__'):
        return None
    if name == '__setattr__':
        raise Unsupported('object.__setattr__')
    if name == '__eq__':
        return NotImplemented
    if name in ('__repr__', '__str__'):
        return SOpaque(str, name)
    raise Unsupported('object.' + name)


def join(ip, sep, xs):
    it = ip.iterate(xs)
    if isinstance(it, I.SGen):
        it = ip.collect(it)
    if isinstance(it, I.SSeq):
        h = V.CTX.models.get('join')
        if h is not None:
            r = h(ip, sep, it)
            if r is not NotImplemented:
                return r
        raise Unsupported('join of a symbolic sequence')
    out = rope(sep)
    kind = out.kind
    out = SRope(kind, [])
    for i, x in enumerate(it):
        if isinstance(x, SOpaque) and x.pytype is str and kind == 'str':
            h = V.CTX.models.get('textcat')
            if h is not None:
                ps = []
                for y in it:
                    ps += [y] if not ps or not len(sep) else [sep, y]
                return h(ip, ps)
            return SOpaque(str, 'join')
        if not isinstance(x, (str, bytes, bytearray, SRope, SByteArray)) or rope(x).kind != kind:
            graise(TypeError('sequence item %d: expected %s' % (i, kind)))
        if i and len(sep):
            out = rope(out + rope(sep))
        out = rope(out + rope(x))
    return out.lower()


# --------------------------------------------------------------------------- formatting

_SPEC = re.compile(r'%(\([^)]*\))?[-#0 +]*(\*|\d+)?(\.(\*|\d+))?[hlL]?([diouxXeEfFgGcrsa%])')


def check_percent(ip, fmt, args):
    specs = [m.group(5) for m in _SPEC.finditer(fmt) if m.group(5) != '%']
    named = any(m.group(1) for m in _SPEC.finditer(fmt))
    if named:
        return
    vals = list(args) if isinstance(args, tuple) else [args]
    if len(vals) != len(specs):
        graise(TypeError('not enough arguments for format string'))
    for s, v in zip(specs, vals):
        t = typeof(v)
        if s in 'diu' and not issub(t, (int, float)):
            graise(TypeError('%%%s format: a real number is required' % s))
        if s in 'oxX' and not issub(t, int):
            graise(TypeError('%%%s format: an integer is required' % s))
        if s in 'eEfFgG' and not issub(t, (int, float)):
            graise(TypeError('must be real number'))


def fmt_concat(ip, parts):
    out = ''
    for p in parts:
        if isinstance(p, SOpaque) or isinstance(out, SOpaque):
            h = V.CTX.models.get('textcat')
            if h is not None:
                return h(ip, parts)
            return SOpaque(str, 'fstring')
        if isinstance(p, SText8) or isinstance(out, SText8):
            return SOpaque(str, 'fstring')
        out = (rope(out) + rope(p)) if is_sym(out) or is_sym(p) else out + p
    return out


def fmt_value(ip, v, spec, conversion=-1):
    h = V.CTX.models.get('fmt_value')
    if h is not None:
        r = h(ip, v, spec, conversion)
        if r is not NotImplemented:
            return r
    if conversion in (-1, 115) and (spec == '' or spec == 's'):
        return to_str(ip, v)
    return SOpaque(str, 'formatted')


def to_str(ip, v):
    if isinstance(v, str):
        return v
    if isinstance(v, (SRope,)) and v.kind == 'str':
        return v
    if isinstance(v, (SText8,)) or (isinstance(v, SOpaque) and v.pytype is str):
        return v
    h = V.CTX.models.get('str')
    if h is not None:
        r = h(ip, v)
        if r is not NotImplemented:
            return r
    if isinstance(v, I.SObj):
        m = ip.lookup_cls(v.cls, '__str__')
        if m is not None and isinstance(m[0], types.FunctionType):
            return ip.call_fn(m[0], [v], {}, m[1])
    if I.host(v):
        return ip.host_call(str, [v], {})
    return SOpaque(str, 'str')


# --------------------------------------------------------------------------- operators

def binop(ip, op, a, b, inplace):
    h = V.CTX.models.get('binop')
    if h is not None:
        r = h(ip, op, a, b, inplace)
        if r is not NotImplemented:
            return r
    if op is ast.Mod and isinstance(a, str):
        check_percent(ip, a, b)
        return SOpaque(str, 'percent')
    if op is ast.Mod and isinstance(a, bytes):
        raise Unsupported('bytes %')
    if op is ast.Add and any(isinstance(x, (SOpaque, SText8)) for x in (a, b)):
        ta, tb = typeof(a), typeof(b)
        if ta is str and tb is str:
            return SOpaque(str, 'cat')
        if ta in (str, bytes) and tb in (str, bytes):
            graise(TypeError('can only concatenate str to str'))
    if isinstance(a, datetime.datetime) or isinstance(b, datetime.datetime):
        if op in (ast.Add, ast.Sub):
            if isinstance(a, datetime.datetime):
                a = SDatetime.lift(a)
            if isinstance(b, datetime.datetime):
                b = SDatetime.lift(b)
            r = a + b if op is ast.Add else a - b
            return r
    if isinstance(a, datetime.timedelta) and isinstance(b, (SDelta, SInt, SDatetime)):
        a = SDelta(SDelta(0)._us(a))
        return I.BINOPS[op](a, b)
    if isinstance(a, (I.GList, I.SSeq)) and isinstance(b, (I.GList, I.SSeq)) or isinstance(a, I.GList) or isinstance(b, I.GList):
        if op is ast.Add:
            if inplace and isinstance(a, I.SSeq):
                raise Unsupported('list +=')
            if inplace and isinstance(a, I.GList):
                a.m_extend(b)
                return a
            xa, xb = ip.iterate(a), ip.iterate(b)
            if isinstance(xa, list) and isinstance(xb, list):
                return I.GList(xa + xb)
            if isinstance(xa, I.SSeq) and isinstance(xb, list):
                return I.GList(xb, xa)
            if all(isinstance(x, (list, I.SSeq)) for x in (xa, xb)):
                return I.GList([], I.seq_concat(xa, xb))
            raise Unsupported('list concatenation')
        if op is ast.Mult and isinstance(a, I.GList) and isinstance(b, int) and a.prefix is None:
            return I.GList(a.items * b)
    if isinstance(a, (I.GSet, set, frozenset)) and isinstance(b, (I.GSet, set, frozenset)):
        if op is ast.BitOr:
            r = I.GSet(ip.iterate(a))
            for x in ip.iterate(b):
                r.add(x)
            return r
        raise Unsupported('set operator')
    if isinstance(a, (bytes, str)) and isinstance(b, SInt) and op is ast.Mult:
        return rope(a) * b
    if isinstance(b, (bytes, str)) and isinstance(a, SInt) and op is ast.Mult:
        return rope(b) * a
    if inplace and op is ast.Add and isinstance(a, V.SByteArray):
        a.m_extend(b)
        return a
    if isinstance(a, bytearray) and inplace:
        raise Unsupported('bytearray in place')
    if isinstance(a, tuple) and isinstance(b, tuple) and op is ast.Add:
        return a + b
    if isint(a) and isint(b):
        if isinstance(a, (int, SBool)) and isinstance(b, SInt) or isinstance(b, SBool) or isinstance(a, SBool):
            if isinstance(a, SBool) and isinstance(b, (SBool, bool)) and op in (ast.BitAnd, ast.BitOr, ast.BitXor):
                return {ast.BitAnd: V.And, ast.BitOr: V.Or, ast.BitXor: lambda x, y: V.Not(x == y)}[op](a, b)
            if isinstance(a, SBool):
                a = a._i()
            if isinstance(b, SBool):
                b = b._i()
            if isinstance(a, int) and isinstance(b, SInt):
                if op is ast.FloorDiv:
                    return SInt._div(b, a, b)[0]
                if op is ast.Mod:
                    return SInt._div(b, a, b)[1]
            if isinstance(a, int) and isinstance(b, int):
                return I.BINOPS[op](a, b)
        if op is ast.Div:
            raise Unsupported('true division')
        return NotImplemented
    for x, y in ((a, b), (b, a)):
        if isint(x) and is_sym(x) and (y is None or isinstance(y, (str, bytes, SRope, SText8, list, dict, I.GList, I.GDict, I.SObj, SDatetime))) \
                and not (op is ast.Mult and isinstance(y, (str, bytes, SRope, list, I.GList))):
            graise(TypeError('unsupported operand types'))
        if isinstance(x, SOpaque) and getattr(x.pytype, '__module__', '') == 'pyvc.values':
            graise(TypeError('unsupported operand types'))
        if isinstance(x, (SDatetime, SFloat, SRope, SText8)) and (y is None):
            graise(TypeError('unsupported operand types'))
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        raise Unsupported('float arithmetic')
    return NotImplemented


def order(ip, op, a, b):
    h = V.CTX.models.get('order')
    if h is not None:
        r = h(ip, op, a, b)
        if r is not NotImplemented:
            return r
    ta, tb = typeof(a), typeof(b)
    if isinstance(a, SFloat) or isinstance(b, SFloat):
        f, o, flip = (a, b, False) if isinstance(a, SFloat) else (b, a, True)
        if isinstance(o, (int, float)) and o == 0:
            bits = ze(f.bits)
            neg = z3.And(bits > 2 ** 63, z3.Not(zb(f.is_nan())))
            pos = z3.And(bits > 0, bits < 2 ** 63, z3.Not(zb(f.is_nan())))
            zero = zb(f.is_zero())
            t = {ast.Lt: neg, ast.Gt: pos, ast.LtE: z3.Or(neg, zero), ast.GtE: z3.Or(pos, zero)}
            if flip:
                op = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}[op]
            return mkb(t[op])
        if not issub(typeof(o), (int, float)):
            graise(TypeError("'<' not supported"))
        raise Unsupported('float comparison')
    if ta in (NoneT, bool, int, str, bytes, float, dict, list) and tb in (NoneT, bool, int, str, bytes, float, dict, list):
        num = (bool, int, float)
        if (ta in num) != (tb in num) or ta is NoneT or tb is NoneT or ta is dict or tb is dict or \
                (ta not in num and ta is not tb):
            graise(TypeError("'<' not supported between instances"))
    if isinstance(a, SOpaque) or isinstance(b, SOpaque):
        if {getattr(x.pytype, '__module__', '') for x in (a, b) if isinstance(x, SOpaque)} == {'pyvc.values'}:
            graise(TypeError("'<' not supported between instances"))
    for x, y in ((a, b), (b, a)):
        if isinstance(x, (I.SObj, I.SClass)) and isint(y):
            m = ip.lookup_cls(x.cls, '__lt__') if isinstance(x, I.SObj) else None
            if m is None:
                graise(TypeError("'<' not supported between instances"))
    if isinstance(a, (SRope, str, bytes)) and isinstance(b, (SRope, str, bytes)) and ta is tb:
        ra, rb = rope(a), rope(b)
        na, nb = ra.size(), rb.size()
        if na is not None and nb is not None and na <= 16 and nb <= 16:
            lt, eq = z3.BoolVal(False), z3.BoolVal(True)
            for i in range(min(na, nb)):
                lt = z3.Or(lt, z3.And(eq, ra.at(i) < rb.at(i)))
                eq = z3.And(eq, ra.at(i) == rb.at(i))
            if na < nb:
                lt = z3.Or(lt, eq)
            iseq = eq if na == nb else z3.BoolVal(False)
            return mkb({ast.Lt: lt, ast.LtE: z3.Or(lt, iseq), ast.Gt: z3.Not(z3.Or(lt, iseq)), ast.GtE: z3.Not(lt)}[op])
    return NotImplemented


# --------------------------------------------------------------------------- types

NoneT = type(None)


def typeof(v):
    if isinstance(v, (I.SObj,)):
        return v.cls
    if isinstance(v, Sym):
        return v.pytype
    return type(v)


def issub(t, u):
    """issubclass for real and run-time classes; u may be a tuple."""
    if isinstance(u, tuple):
        return V.Or(*[issub(t, x) for x in u])
    if isinstance(u, types.UnionType):
        return issub(t, u.__args__)
    if hasattr(t, 'guest_issub'):
        return t.guest_issub(u)
    if isinstance(u, I.SClass):
        return t is u
    if isinstance(t, I.SClass):
        t = t.base
    if t is None:
        raise Unsupported('type of an arbitrary value')
    if not isinstance(u, type):
        if hasattr(u, '__origin__') or hasattr(u, '__instancecheck__'):
            try:
                return issubclass(t, u)
            except TypeError:
                pass
        graise(TypeError('isinstance() arg 2 must be a type'))
    return issubclass(t, u)


def isinst(ip, v, u):
    if hasattr(v, 'guest_isinstance'):
        return v.guest_isinstance(ip, u)
    return issub(typeof(v), u)


def type_of(ip, v):
    if hasattr(v, 'guest_type'):
        return v.guest_type(ip)
    return typeof(v)


def call_type(ip, cls, args, kwargs):
    c = ip.c
    h = c.models.get(cls)
    if h is not None:
        r = h(ip, *args, **kwargs)
        if r is not NotImplemented:
            return r
    s = c.summaries.get(cls)
    if s is not None:
        r = s(ip, args, kwargs)
        if r is not NotImplemented:
            c.r.functions.setdefault(cls.__module__ + '.' + cls.__qualname__ + '.__init__', 'contract')
            return r
    if cls is type:
        if len(args) == 1:
            return type_of(ip, args[0])
        return make_class(ip, *args)
    if (cls.__module__ or '').startswith('ebmlite'):
        if issubclass(cls, BaseException):
            return ip.host_call(cls, [a if I.host(a) else '?' for a in args], {})
        return ip.instantiate(cls, args, kwargs)
    f = TYPES.get(cls)
    if f is not None:
        return f(ip, *args, **kwargs)
    if issubclass(cls, BaseException):
        e = cls(*[a if I.host(a) else '<symbolic>' for a in args])
        return e
    if I.host(args) and I.host(kwargs) and cls in (datetime.datetime, datetime.timedelta, struct.Struct, float,
                                                   complex, slice, property, functools.partial):
        return ip.host_call(cls, args, kwargs)
    raise Unsupported('construction of %s' % cls.__name__)


def make_class(ip, name, bases, attrs):
    h = ip.c.models.get('make_class')
    if h is not None:
        return h(ip, name, bases, attrs)
    bases = ip.iterate(bases)
    if len(bases) != 1:
        raise Unsupported('class with %d bases' % len(bases))
    b = bases[0]
    if isinstance(attrs, I.GDict):
        items = dict(attrs.items)
    elif isinstance(attrs, dict):
        items = dict(attrs)
    else:
        raise Unsupported('class attributes')
    for k in items:
        if not isinstance(k, str):
            raise Unsupported('symbolic class attribute')
    if not isinstance(b, type):
        if isinstance(b, I.SClass):
            a2 = dict(b.attrs)
            a2.update(items)
            k = I.SClass(b.base, a2, 'new class')
            k.attrs['__name__'] = name
            return k
        raise Unsupported('base class')
    k = I.SClass(b, items, 'new class')
    k.attrs['__name__'] = name
    return k


TYPES = {}


def typ(t):
    def deco(f):
        TYPES[t] = f
        return f
    return deco


@typ(bool)
def t_bool(ip, x=False):
    if isinstance(x, SBool):
        return x
    if isinstance(x, SInt):
        return mkb(x.e != 0)
    return ip.truth(x)


@typ(int)
def t_int(ip, x=0, base=None, **kw):
    if base is None and 'base' in kw:
        base = kw['base']
    h = ip.c.models.get('int')
    if h is not None:
        r = h(ip, x, base)
        if r is not NotImplemented:
            return r
    if I.host(x) and (base is None or I.host(base)):
        return ip.host_call(int, [x] + ([] if base is None else [base]), {})
    if base is None:
        if isinstance(x, SInt):
            return x
        if isinstance(x, SBool):
            return x._i()
        if isinstance(x, I.SObj):
            m = ip.lookup_cls(x.cls, '__int__') or ip.lookup_cls(x.cls, '__index__')
            if m is None:
                graise(TypeError('int() argument must be a string or a real number'))
            return ip.call_fn(m[0], [x], {}, m[1])
        if x is None or isinstance(x, (I.GList, I.GDict, tuple, SDatetime)):
            graise(TypeError('int() argument must be a string or a real number'))
        if isinstance(x, SFloat):
            return float_to_int(ip, x)
    raise Unsupported('int(%r)' % (x,))


TRUNC = z3.Function('trunc', V.INT, V.INT)


def float_to_int(ip, x):
    b = ze(x.bits)
    m = z3.If(b >= 2 ** 63, b - 2 ** 63, b)
    if ip.c.decide(m >= 0x7FF0000000000000):
        if ip.c.decide(m > 0x7FF0000000000000):
            graise(ValueError('cannot convert float NaN to integer'))
        graise(OverflowError('cannot convert float infinity to integer'))
    t = TRUNC(b)
    # the sign of the truncation; -0.x truncates to 0
    ip.c.assume(z3.Implies(b >= 2 ** 63, t <= 0))
    ip.c.assume(z3.Implies(b < 2 ** 63, t >= 0))
    ip.c.assume(z3.Implies(z3.Or(b == 0, b == 2 ** 63), t == 0))
    return SInt(t)


@typ(float)
def t_float(ip, x=0.0):
    h = ip.c.models.get('float')
    if h is not None:
        r = h(ip, x)
        if r is not NotImplemented:
            return r
    if I.host(x):
        return ip.host_call(float, [x], {})
    if isinstance(x, SFloat):
        return x
    raise Unsupported('float(%r)' % (x,))


@typ(str)
def t_str(ip, x='', encoding=None, errors=None):
    if encoding is not None or errors is not None:
        if not isinstance(x, (bytes, bytearray, SRope, SByteArray)) or rope(x).kind != 'bytes':
            graise(TypeError('decoding to str: need a bytes-like object'))
        if not is_sym(x):
            return ip.host_call(str, [x, encoding or 'utf-8', errors or 'strict'], {})
        return rope(x).m_decode(encoding or 'utf-8', errors or 'strict')
    return to_str(ip, x)


@typ(bytes)
def t_bytes(ip, x=b'', encoding=None, errors=None):
    if encoding is not None:
        return call_method(ip, x, 'encode', [encoding] + ([errors] if errors else []), {})
    if I.host(x):
        return ip.host_call(bytes, [x], {})
    if isinstance(x, SByteArray):
        return x.val.lower()
    if isinstance(x, SRope) and x.kind == 'bytes':
        return x
    if isinstance(x, SRope) or isinstance(x, SText8):
        graise(TypeError('string argument without an encoding'))
    if isinstance(x, SBool):
        x = x._i()
    if isinstance(x, SInt):
        if not (x >= 0):
            graise(ValueError('negative count'))
        return rope(b'\0') * x
    if isinstance(x, I.SObj):
        m = ip.lookup_cls(x.cls, '__bytes__')
        if m is not None:
            return ip.call_fn(m[0], [x], {}, m[1])
        if ip.lookup_cls(x.cls, '__iter__') is None:
            graise(TypeError('cannot convert object to bytes'))
    if x is None or isinstance(x, (SFloat, SDatetime)):
        graise(TypeError('cannot convert object to bytes'))
    it = ip.iterate(x)
    if isinstance(it, I.SGen):
        it = ip.collect(it)
    if isinstance(it, I.SSeq):
        h = ip.c.models.get('bytes_of_seq')
        if h is not None:
            r = h(ip, it)
            if r is not NotImplemented:
                return r
        raise Unsupported('bytes of a symbolic sequence')
    out = []
    for v in it:
        if not isint(v):
            graise(TypeError('cannot convert to bytes'))
        if not ip.truth(V.And(v >= 0, v <= 255)):
            graise(ValueError('bytes must be in range(0, 256)'))
        out.append(ze(v))
    return SRope('bytes', [Seg.vec(out)]).lower()


@typ(bytearray)
def t_bytearray(ip, x=b'', *a):
    return SByteArray(t_bytes(ip, x, *a))


def length_hint(ip, x):
    """list(x) and tuple(x) ask x for its length after getting an iterator."""
    if isinstance(x, I.SObj) and ip.lookup_cls(x.cls, '__len__') is not None:
        try:
            b_len(ip, x)
        except GuestExc as g:
            if not isinstance(g.exc, TypeError):
                raise


@typ(list)
def t_list(ip, x=()):
    it = ip.iterate(x)
    length_hint(ip, x)
    if isinstance(it, I.SGen):
        g = I.GList()
        ip.run_gen(it, lambda v: g.m_append(v))
        return g
    if isinstance(it, I.SSeq):
        return I.GList([], it)
    return I.GList(it)


@typ(tuple)
def t_tuple(ip, x=()):
    it = ip.iterate(x)
    length_hint(ip, x)
    if isinstance(it, I.SGen):
        g = I.GList()
        ip.run_gen(it, lambda v: g.m_append(v))
        it = g.seq()
    if isinstance(it, I.SSeq):
        return I.SSeq(it.n, it.item, it.name, tuple)
    return tuple(it)


def new_dict(ip):
    h = ip.c.models.get('new_dict')
    return I.GDict() if h is None else h(ip)


@typ(dict)
def t_dict(ip, x=None, **kw):
    g = new_dict(ip)
    if x is not None:
        if isinstance(x, (I.GDict, dict)):
            g.m_update(x)
        elif hasattr(x, 'guest_dict'):
            return x.guest_dict(ip)
        else:
            it = ip.iterate(x)
            if isinstance(it, I.SGen):
                it = ip.collect(it)
            if not isinstance(it, list):
                raise Unsupported('dict of a symbolic sequence')
            for p in it:
                k, v = ip.iterate(p)
                g.setitem(k, v)
    for k, v in kw.items():
        g.setitem(k, v)
    return g


@typ(set)
def t_set(ip, x=()):
    it = ip.iterate(x)
    if isinstance(it, I.SGen):
        it = ip.collect(it)
    if isinstance(it, I.SSeq):
        h = ip.c.models.get('set_of_seq')
        if h is not None:
            return h(ip, it)
        raise Unsupported('set of a symbolic sequence')
    return I.GSet(it)


TYPES[frozenset] = t_set


@typ(object)
def t_object(ip):
    return I.SObj(object, name='object')


@typ(datetime.timedelta)
def t_timedelta(ip, days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    if I.host([days, seconds, microseconds, milliseconds, minutes, hours, weeks]):
        return ip.host_call(datetime.timedelta, [days, seconds, microseconds, milliseconds, minutes, hours, weeks], {})
    for x in (days, seconds, microseconds, milliseconds, minutes, hours, weeks):
        if isinstance(x, (float, SFloat)):
            raise Unsupported('timedelta of a float')
        if not isint(x):
            graise(TypeError('unsupported type for timedelta component'))
    us = microseconds + milliseconds * 1000 + (seconds + minutes * 60 + hours * 3600 + (days + weeks * 7) * 86400) * 10 ** 6
    lim = 999999999 * V.US_DAY
    if isinstance(us, SInt) and not ip.c.decide(z3.And(us.e >= -lim, us.e < lim + V.US_DAY)):
        graise(OverflowError('days out of range'))
    return SDelta(us)


@typ(datetime.datetime)
def t_datetime(ip, *a, **k):
    if I.host(a) and I.host(k):
        return ip.host_call(datetime.datetime, list(a), k)
    raise Unsupported('datetime of symbolic fields')


@typ(range)
def t_range(ip, *a):
    if I.host(a):
        return ip.host_call(range, list(a), {})
    a = [x._i() if isinstance(x, SBool) else x for x in a]
    for x in a:
        if not isint(x):
            graise(TypeError('range: integer expected'))
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    return SRange(lo, hi, st)


class SRange(Sym):
    pytype = range

    def __init__(self, lo, hi, st):
        self.lo, self.hi, self.st = lo, hi, st
        if isinstance(st, int) and st == 0:
            graise(ValueError('range() arg 3 must not be zero'))

    def length(self):
        st = self.st
        if not isinstance(st, int):
            if V.CTX.decide(ze(st) == 0):
                graise(ValueError('range() arg 3 must not be zero'))
            f = V.CTX.fixed(st)
            if f is not None:
                st = f
            else:
                if not V.CTX.decide(ze(st) > 0):
                    raise Unsupported('range with a negative symbolic step')
                return V.smax((self.hi - self.lo + st - 1) // st, 0)
        if st > 0:
            return V.smax((self.hi - self.lo + (st - 1)) // st, 0)
        return V.smax((self.lo - self.hi + (-st - 1)) // (-st), 0)

    def guest_iter(self, ip):
        n = self.length()
        f = n if isinstance(n, int) else V.CTX.fixed(n)
        if f is not None and f <= 64:
            return [self.lo + k * self.st for k in range(f)]
        s = I.SSeq(n, lambda k: self.lo + k * self.st, 'range')
        return s

    def guest_contains(self, ip, x):
        if not isint(x):
            return False
        if isinstance(self.st, int) and self.st > 0:
            return V.And(x >= self.lo, x < self.hi, (x - self.lo) % self.st == 0)
        raise Unsupported('membership in a range')

    @property
    def n(self):
        return self.length()

    def __bool__(self):
        return bool(self.length() > 0)

    __hash__ = Sym.__hash__


@typ(enumerate)
def t_enumerate(ip, x, start=0):
    it = ip.iterate(x)
    if isinstance(it, list):
        return [(start + i, v) for i, v in enumerate(it)]
    if isinstance(it, I.SSeq):
        r = I.SSeq(it.n, lambda k: (start + k, it.item(k)), 'enumerate')
        r.base_seq = it
        return r

    def go(handler):
        cnt = [start]

        def h(v):
            i = cnt[0]
            cnt[0] = i + 1
            handler((i, v))
        # counter state lives outside the heap: only sound when the inner
        # generator's loop is unrolled
        if isinstance(it, I.SGen):
            cell = Cell(start)

            def h(v):       # noqa
                i = cell.get()
                cell.set(i + 1)
                handler((i, v))
        return ip.run_gen(it, h)
    return I.SGen(go)


class Cell(Sym):
    """A mutable cell tracked by the loop machinery."""
    def __init__(self, v):
        self.v = v
        V.CTX.register(self, 'cell')

    def get(self):
        return V.CTX.interp.nojunk(self.v)

    def set(self, v):
        V.CTX.mutate(self, 'v')
        self.v = v

    def heap_get(self, part):
        return self.v

    def heap_set(self, part, v):
        self.v = v

    __hash__ = Sym.__hash__


@typ(zip)
def t_zip(ip, *xs):
    its = [ip.iterate(x) for x in xs]
    if all(isinstance(i, list) for i in its):
        return [tuple(t) for t in zip(*its)]
    if all(isinstance(i, (list, I.SSeq)) for i in its):
        seqs = [i if isinstance(i, I.SSeq) else I.SSeq(len(i), (lambda l: lambda k: I.GList(l).get(k))(i)) for i in its]
        n = seqs[0].n
        for s in seqs[1:]:
            n = V.smin(n, s.n)
        return I.SSeq(n, lambda k: tuple(s.item(k) for s in seqs), 'zip')
    raise Unsupported('zip of generators')


@typ(map)
def t_map(ip, f, *xs):
    if len(xs) != 1:
        raise Unsupported('map of several sequences')
    it = ip.iterate(xs[0])
    if isinstance(it, I.SSeq):
        s = I.SSeq(it.n, lambda k: ip.call(f, [it.item(k)]), 'map')
        s.lazy_map = True
        s.base_seq = it
        return s

    def go(handler):
        if isinstance(it, I.SGen):
            return ip.run_gen(it, lambda v: handler(ip.call(f, [v])))
        for v in it:
            handler(ip.call(f, [v]))
    return I.SGen(go)


@typ(filter)
def t_filter(ip, f, xs):
    it = ip.iterate(xs)

    def go(handler):
        def h(v):
            if ip.truth(v if f is None else ip.call(f, [v])):
                handler(v)
        if isinstance(it, I.SGen):
            return ip.run_gen(it, h)
        if isinstance(it, list):
            for v in it:
                h(v)
            return
        raise Unsupported('filter of a symbolic sequence')
    return I.SGen(go)


@typ(reversed)
def t_reversed(ip, x):
    it = ip.iterate(x)
    if isinstance(it, list):
        return list(reversed(it))
    if isinstance(it, I.SSeq):
        return I.SSeq(it.n, lambda k: it.item(it.n - 1 - k), 'reversed')
    graise(TypeError('not reversible'))


@typ(io.BytesIO)
def t_bytesio(ip, x=b''):
    from .streams import SStream
    if isinstance(x, SByteArray):
        x = x.val
    if isinstance(x, (bytes, bytearray, SRope)) and rope(x).kind == 'bytes':
        return SStream(rope(x), 0, name='BytesIO', pytype=io.BytesIO)
    if hasattr(x, 'guest_bytes'):
        return SStream(x.guest_bytes(), 0, name='BytesIO', pytype=io.BytesIO)
    graise(TypeError('a bytes-like object is required'))


@typ(io.StringIO)
def t_stringio(ip, x='', newline='\n'):
    from .streams import SOut
    if x == '':
        return SOut('str')
    raise Unsupported('StringIO with content')


# --------------------------------------------------------------------------- builtins

BUILTINS = {}


def bi(f):
    def deco(g):
        BUILTINS[f] = g
        return g
    return deco


def call_builtin(ip, f, args, kwargs):
    c = ip.c
    try:
        h = c.models.get(f)
    except TypeError:
        h = None
    if h is not None:
        r = h(ip, *args, **kwargs)
        if r is not NotImplemented:
            return r
    try:
        g = BUILTINS.get(f)
    except TypeError:
        g = None
    if g is not None:
        return g(ip, *args, **kwargs)
    if isinstance(f, (classmethod, staticmethod)):
        return ip.call(f.__func__, args, kwargs)
    if isinstance(f, functools.partial):
        k = dict(f.keywords)
        k.update(kwargs)
        return ip.call(f.func, list(f.args) + args, k)
    if isinstance(f, operator.itemgetter):
        raise Unsupported('itemgetter')
    self = getattr(f, '__self__', None)
    if isinstance(self, struct.Struct):
        return struct_method(ip, self.format, self.size, f.__name__, args)
    if isinstance(f, types.BuiltinFunctionType) and f.__module__ == '_struct' and not (I.host(args) and I.host(kwargs)):
        return struct_method(ip, args[0] if I.host(args[0]) else None, None, f.__name__, args[1:])
    if isinstance(self, type) and isinstance(f, types.BuiltinMethodType):
        if self is int and f.__name__ == 'from_bytes':
            return from_bytes(ip, *args, **kwargs)
        if self is bytes and f.__name__ == 'fromhex' and I.host(args):
            return ip.host_call(f, args, kwargs)
        if self is datetime.datetime:
            if f.__name__ in ('utcnow', 'now', 'today'):
                return SDatetime.arbitrary('now')
            if I.host(args) and I.host(kwargs):
                return ip.host_call(f, args, kwargs)
        if self is dict and f.__name__ == 'fromkeys':
            g = I.GDict()
            for k in ip.iterate(args[0]):
                g.setitem(k, args[1] if len(args) > 1 else None)
            return g
    if isinstance(f, (types.MethodDescriptorType, types.WrapperDescriptorType)):
        if f.__objclass__ is object:
            return object_method(ip, f.__name__, args[1:], kwargs)
        recv = args[0]
        return call_method(ip, recv, f.__name__, args[1:], kwargs)
    if isinstance(self, (str, bytes, int, float, tuple, list, dict, set, frozenset, datetime.datetime, datetime.timedelta,
                         types.MappingProxyType)) and not isinstance(self, type):
        return call_method(ip, self, f.__name__, args, kwargs)
    if f is NotImplemented or f is None or isinstance(f, (int, str, bytes, float, tuple)):
        graise(TypeError('object is not callable'))
    if is_sym(f):
        raise Unsupported('call of %r' % (f,))
    if isinstance(f, types.BuiltinFunctionType) and (f.__module__ in ('builtins', 'math', 'binascii', '_struct')) \
            and I.host(args) and I.host(kwargs) and f.__name__ not in ('open', 'exec', 'eval', 'print', 'input', '__import__', 'setattr', 'delattr'):
        return ip.host_call(f, args, kwargs)
    try:
        m = FUNCTIONS.get(f)
    except TypeError:
        m = None
    if m is not None:
        return m(ip, *args, **kwargs)
    raise Unsupported('call of %r' % (f,))


@bi(len)
def b_len(ip, x):
    if isinstance(x, (SRope, SByteArray, I.SSeq, I.GList, I.GDict, I.GSet, SRange)):
        return x.n
    if isinstance(x, I.SObj):
        m = ip.lookup_cls(x.cls, '__len__')
        if m is None:
            graise(TypeError('object has no len()'))
        n = ip.call_fn(m[0], [x], {}, m[1])
        if isint(n) and not ip.truth(n >= 0):
            graise(ValueError('__len__() should return >= 0'))
        return n
    if hasattr(x, 'guest_len'):
        return x.guest_len(ip)
    if is_sym(x):
        if isint(x) or isinstance(x, (SFloat, SDatetime, SDelta)):
            graise(TypeError('object has no len()'))
        if isinstance(x, SText8):
            h = ip.c.models.get('text8_len')
            if h is not None:
                return h(ip, x)
        if isinstance(x, SOpaque) and x.pytype in (str, bytes):
            return ip.c.fresh('opaque_len', 0)
        if isinstance(x, SOpaque) and getattr(x.pytype, '__module__', '') == 'pyvc.values':
            graise(TypeError('object has no len()'))
        raise Unsupported('len(%r)' % (x,))
    return ip.host_call(len, [x], {})


@bi(isinstance)
def b_isinstance(ip, v, t):
    return isinst(ip, v, t)


@bi(issubclass)
def b_issubclass(ip, t, u):
    if not isinstance(t, (type, I.SClass)) and not hasattr(t, 'guest_issub'):
        graise(TypeError('issubclass() arg 1 must be a class'))
    return issub(t, u)


@bi(ord)
def b_ord(ip, x):
    if isinstance(x, (SRope, SByteArray)):
        r = rope(x)
        if ip.c.decide(ze(r.n) == 1):
            return mki(r.at(0))
        graise(TypeError('ord() expected a character'))
    if is_sym(x):
        if isinstance(x, SOpaque):
            raise Unsupported('ord')
        graise(TypeError('ord() expected string of length 1'))
    return ip.host_call(ord, [x], {})


@bi(chr)
def b_chr(ip, x):
    if isinstance(x, SBool):
        x = x._i()
    if isinstance(x, SInt):
        if not ip.c.decide(z3.And(x.e >= 0, x.e < 0x110000)):
            graise(ValueError('chr() arg not in range(0x110000)'))
        return SRope('str', [Seg.vec([x.e])]).lower()
    if is_sym(x):
        graise(TypeError('an integer is required'))
    return ip.host_call(chr, [x], {})


def _minmax(ip, name, args, kwargs):
    if set(kwargs) - {'default'}:
        raise Unsupported(name + ' with key')
    if len(args) == 1:
        it = ip.iterate(args[0])
        if isinstance(it, I.SGen):
            g = I.GList()
            ip.run_gen(it, lambda v: g.m_append(v))
            it = g.seq()
        if not isinstance(it, list):
            h = ip.c.models.get(name + '_seq')
            if h is not None:
                return h(ip, it, **kwargs)
            raise Unsupported(name + ' of a symbolic sequence')
        if not it:
            if 'default' in kwargs:
                return kwargs['default']
            graise(ValueError('%s() arg is an empty sequence' % name))
    else:
        it = list(args)
    if all(I.host(x) for x in it):
        return ip.host_call(getattr(builtins, name), [it], {})
    r = it[0]
    for x in it[1:]:
        if isint(r) and isint(x):
            r = V.smin(r, x) if name == 'min' else V.smax(r, x)
        else:
            c = ip.compare(ast.Lt if name == 'min' else ast.Gt, x, r)
            r = x if ip.truth(c) else r
    return r


@bi(min)
def b_min(ip, *a, **k):
    return _minmax(ip, 'min', a, k)


@bi(max)
def b_max(ip, *a, **k):
    return _minmax(ip, 'max', a, k)


@bi(sum)
def b_sum(ip, xs, start=0):
    it = ip.iterate(xs)
    if isinstance(it, list):
        t = start
        for x in it:
            t = ip.binop(ast.Add, t, x)
        return t
    if isinstance(it, I.SGen):
        cell = Cell(start)
        fr = ip.c.frames[-1] if ip.c.frames else None
        label = 'h:sum in %s:%s' % (fr and ip.loc_label(fr), getattr(fr, 'line', 0))
        if ip.find_obj(label) is None:
            cell.__dict__['_label'] = label         # one name however often it is reached
        try:
            ip.run_gen(it, lambda v: cell.set(ip.binop(ast.Add, cell.get(), v)))
        finally:
            cell.__dict__['_label'] = ip.c.uname('h:done')
        return cell.get()
    h = ip.c.models.get('sum_seq')
    if h is not None:
        r = h(ip, it, start)
        if r is not NotImplemented:
            return r
    if hasattr(it, 'gen'):
        return b_sum(ip, it.gen, start)
    raise Unsupported('sum of a symbolic sequence')


def _anyall(ip, xs, stop):
    it = ip.iterate(xs)
    if isinstance(it, list):
        for v in it:
            if ip.truth(v) == stop:
                return stop
        return not stop
    if isinstance(it, I.SGen):
        class Stop(BaseException):
            pass

        def h(v):
            if ip.truth(v) == stop:
                raise Stop()
        try:
            ip.run_gen(it, h)
        except Stop:
            return stop
        return not stop
    # symbolic sequence: search
    h = ip.c.models.get('any_seq' if stop else 'all_seq')
    if h is not None:
        return h(ip, it)
    found = ip.c.choose(2, 'any/all')
    n = ze(it.n)
    if found:
        k = ip.c.fresh('wit', 0)
        ip.c.assume(k.e < n)
        ip.c.skolem(k)
        m = len(ip.c.mutlog)
        v = it.item(k)
        if ip.truth(v) != stop:
            raise PathAbort()
        if len(ip.c.mutlog) != m:
            raise Unsupported('search with side effects')
        return stop
    if not ip.c.decide(n > 0):
        return not stop
    # every item fails: a fact about each index, if its truth is one formula
    k, c = ip.c.fresh('index', 0), ip.c
    c.assume(k.e < n)
    steps, m = len(c.trace), len(c.mutlog)
    v = it.item(k)
    if isinstance(v, (bool, SBool)) and len(c.trace) == steps and len(c.mutlog) == m:
        if isinstance(v, bool):
            if v == stop:
                raise PathAbort()
            return not stop
        bad = V.zb(v) if stop else z3.Not(V.zb(v))
        c.skolem(k)
        c.forall(lambda j: z3.Implies(z3.And(0 <= j, j < n), z3.Not(z3.substitute(bad, (k.e, j)))))
        return not stop
    if getattr(ip.c, 'uniform', False):
        # the items are alike: none or all of them stop the search
        m = len(ip.c.mutlog)
        if ip.truth(it.item(0)) == stop:
            raise PathAbort()
        if len(ip.c.mutlog) != m:
            raise Unsupported('search with side effects')
        return not stop
    raise Unsupported('any/all over a symbolic sequence')


@bi(any)
def b_any(ip, xs):
    return _anyall(ip, xs, True)


@bi(all)
def b_all(ip, xs):
    return _anyall(ip, xs, False)


@bi(sorted)
def b_sorted(ip, xs, **kw):
    h = ip.c.models.get('sorted')
    if h is not None:
        return h(ip, xs, **kw)
    it = ip.iterate(xs)
    if isinstance(it, list) and len(it) <= 1:
        return I.GList(it)
    if isinstance(it, list) and I.host(it) and not kw:
        return I.GList(ip.host_call(sorted, [it], {}))
    raise Unsupported('sorted')


@bi(hasattr)
def b_hasattr(ip, o, n):
    h = getattr(o, 'guest_hasattr', None)
    if h is not None:
        return h(ip, n)
    try:
        ip.getattr(o, n)
        return True
    except GuestExc as g:
        if isinstance(g.exc, AttributeError):
            return False
        raise


@bi(getattr)
def b_getattr(ip, o, n, *d):
    if is_sym(n):
        raise Unsupported('getattr with a symbolic name')
    return ip.getattr(o, n, *d)


@bi(setattr)
def b_setattr(ip, o, n, v):
    if is_sym(n):
        h = ip.c.models.get('setattr_sym')
        if h is not None:
            return h(ip, o, n, v)
        raise Unsupported('setattr with a symbolic name')
    return ip.setattr(o, n, v)


@bi(delattr)
def b_delattr(ip, o, n):
    return ip.delattr(o, n)


@bi(callable)
def b_callable(ip, x):
    if isinstance(x, (I.Closure, I.Bound, I.ModelMethod, I.SClass)):
        return True
    if isinstance(x, I.SObj):
        return ip.lookup_cls(x.cls, '__call__') is not None
    if is_sym(x):
        return False
    return callable(x)


@bi(repr)
def b_repr(ip, x):
    if I.host(x):
        return ip.host_call(repr, [x], {})
    return SOpaque(str, 'repr')


BUILTINS[ascii] = b_repr


@bi(format)
def b_format(ip, x, spec=''):
    if I.host(x) and I.host(spec):
        return ip.host_call(format, [x, spec], {})
    return fmt_value(ip, x, spec)


@bi(hex)
def b_hex(ip, x):
    if I.host(x):
        return ip.host_call(hex, [x], {})
    return fmt_value(ip, x, '#x')


@bi(abs)
def b_abs(ip, x):
    if I.host(x):
        return ip.host_call(abs, [x], {})
    if isint(x):
        return abs(x)
    raise Unsupported('abs')


@bi(divmod)
def b_divmod(ip, a, b):
    if isinstance(a, (SDelta, datetime.timedelta)):
        return ip.binop(ast.FloorDiv, a, b), ip.binop(ast.Mod, a, b)
    return (ip.binop(ast.FloorDiv, a, b), ip.binop(ast.Mod, a, b))


@bi(pow)
def b_pow(ip, a, b, *m):
    if m:
        raise Unsupported('pow')
    return ip.binop(ast.Pow, a, b)


@bi(print)
def b_print(ip, *a, **k):
    f = k.get('file')
    h = ip.c.models.get('print')
    if h is not None:
        return h(ip, *a, **k)
    return None


@bi(iter)
def b_iter(ip, x):
    it = ip.iterate(x)
    return SIter(it)


class SIter(Sym):
    """An explicit iterator (iter()); position is exact."""
    pytype = types.GeneratorType

    def __init__(self, it):
        self.it, self.i = it, 0

    def guest_iter(self, ip):
        if self.i == 0:
            return self.it
        if isinstance(self.it, list):
            return self.it[self.i:]
        raise Unsupported('partly consumed iterator')


@bi(next)
def b_next(ip, x, *d):
    it = x.it if isinstance(x, SIter) else x
    if isinstance(it, I.SGen):
        if getattr(it, 'used', False):
            raise Unsupported('next() of a started generator')
        it.used = True

        class Stop(BaseException):
            pass
        got = []

        def h(v):
            got.append(v)
            raise Stop()
        try:
            ip.run_gen(it, h)
        except Stop:
            return got[0]
        if d:
            return d[0]
        graise(StopIteration())
    if isinstance(x, SIter) and isinstance(it, list):
        if x.i < len(it):
            x.i += 1
            return it[x.i - 1]
        if d:
            return d[0]
        graise(StopIteration())
    if isinstance(it, I.SSeq) and (not isinstance(x, SIter) or x.i == 0):
        if ip.truth(mkb(ze(it.n) > 0)):
            if isinstance(x, SIter):
                x.i = 1
            return it.item(0)
        if d:
            return d[0]
        graise(StopIteration())
    if not is_sym(x) and I.host(list(d)):
        raise Unsupported('next of a host iterator')
    graise(TypeError('object is not an iterator'))


@bi(id)
def b_id(ip, x):
    raise Unsupported('id')


@bi(hash)
def b_hash(ip, x):
    if I.host(x):
        return ip.host_call(hash, [x], {})
    raise Unsupported('hash')


# --------------------------------------------------------------------------- struct

INTCODES = {'b': (1, True), 'B': (1, False), 'h': (2, True), 'H': (2, False), 'i': (4, True), 'I': (4, False),
            'l': (4, True), 'L': (4, False), 'q': (8, True), 'Q': (8, False)}


def parse_fmt(fmt):
    if isinstance(fmt, bytes):
        fmt = fmt.decode()
    if not isinstance(fmt, str) or not fmt or fmt[0] not in '<>!=':
        raise Unsupported('struct format %r' % (fmt,))
    order = 'little' if fmt[0] in '<=' else 'big'
    out = []
    for m in re.finditer(r'(\d*)([a-zA-Z?])|(.)', fmt[1:].replace(' ', '')):
        if m.group(3) or m.group(2) not in tuple(INTCODES) + ('f', 'd'):
            raise Unsupported('struct format %r' % (fmt,))
        out += [m.group(2)] * int(m.group(1) or 1)
    return order, out


def csize(ch):
    return {'f': 4, 'd': 8}.get(ch) or INTCODES[ch][0]


def struct_method(ip, fmt, size, name, args):
    order, codes = parse_fmt(fmt)
    total = sum(csize(x) for x in codes)
    if name == 'calcsize':
        return total
    if name == 'pack':
        if len(args) != len(codes):
            graise(struct.error('pack expected %d items' % len(codes)))
        if I.host(args):
            return ip.host_call(struct.pack, [fmt] + list(args), {})
        out = SRope('bytes', [])
        for ch, v in zip(codes, args):
            out = rope(out + rope(pack1(ip, ch, order, v)))
        return out.lower()
    if name in ('unpack', 'unpack_from'):
        data = args[0]
        if not isinstance(data, (bytes, bytearray, SRope, SByteArray)) or rope(data).kind != 'bytes':
            graise(TypeError("a bytes-like object is required"))
        r = rope(data)
        off = args[1] if len(args) > 1 else 0
        if name == 'unpack':
            if not ip.c.decide(ze(r.n) == total):
                graise(struct.error('unpack requires a buffer of %d bytes' % total))
        else:
            if not isinstance(off, int) or off < 0:
                raise Unsupported('unpack_from offset')
            if not ip.c.decide(ze(r.n) >= total + off):
                graise(struct.error('unpack_from requires a buffer of at least %d bytes' % total))
        res = []
        for ch in codes:
            n = csize(ch)
            v = [r.at(off + i) for i in range(n)]
            if order == 'little':
                v = v[::-1]
            off += n
            if ch == 'f':
                bits = V.vec_to_int(v)
                res.append(SFloat(mki(SFloat.F64(ze(bits)))))
            elif ch == 'd':
                res.append(SFloat(V.vec_to_int(v)))
            else:
                x = V.vec_to_int(v, INTCODES[ch][1])
                # the value in a variable of its own, with its range
                if is_sym(x):
                    y = ip.c.fresh('unpacked')
                    ip.c.assume(y.e == x.e)
                    if INTCODES[ch][1]:
                        ip.c.assume(z3.And(y.e >= -(1 << (8 * n - 1)), y.e < (1 << (8 * n - 1))))
                    else:
                        ip.c.assume(z3.And(y.e >= 0, y.e < (1 << (8 * n))))
                    x = y
                res.append(x)
        return tuple(res)
    raise Unsupported('struct.%s' % name)


FOFI = z3.Function('float_of_int', V.INT, V.INT)


def pack1(ip, ch, order, v):
    c = ip.c
    if ch in 'fd':
        if isinstance(v, SBool):
            v = v._i()
        if isinstance(v, SInt):
            if not c.decide(z3.And(v.e < 2 ** 1023, v.e > -2 ** 1023)):
                graise(OverflowError('int too large to convert to float'))
            b = FOFI(v.e)
            c.assume(z3.And(b >= 0, b < 2 ** 64))
            v = SFloat(SInt(b))
        elif isinstance(v, (int, float)):
            return ip.host_call(struct.pack, [('>' if order == 'big' else '<') + ch, v], {})
        if not isinstance(v, SFloat):
            graise(struct.error('required argument is not a float'))
        b = ze(v.bits)
        if ch == 'f':
            if c.decide(SFloat.OVF(b)):
                graise(OverflowError('float too large to pack with f format'))
            t = SFloat.F32(b)
            c.assume(z3.And(t >= 0, t < 2 ** 32))
            vec = V.int_to_vec(t, 4)
        else:
            c.assume(z3.And(b >= 0, b < 2 ** 64))
            vec = V.int_to_vec(b, 8)
        return SRope('bytes', [Seg.vec(vec if order == 'big' else vec[::-1])])
    n, signed = INTCODES[ch]
    if isinstance(v, SBool):
        v = v._i()
    if isinstance(v, int):
        return ip.host_call(struct.pack, [('>' if order == 'big' else '<') + ch, v], {})
    if not isinstance(v, SInt):
        graise(struct.error('required argument is not an integer'))
    lo, hi = (-(1 << (8 * n - 1)), 1 << (8 * n - 1)) if signed else (0, 1 << (8 * n))
    if not c.decide(z3.And(v.e >= lo, v.e < hi)):
        graise(struct.error('argument out of range'))
    vec = V.int_to_vec(v.e, n, signed)
    return SRope('bytes', [Seg.vec(vec if order == 'big' else vec[::-1])]).lower()


def from_bytes(ip, data, byteorder='big', signed=False):
    if I.host(data):
        return ip.host_call(int.from_bytes, [data, byteorder], {'signed': signed})
    if not isinstance(data, (SRope, SByteArray)):
        data = t_bytes(ip, data)
    r = rope(data)
    v = r.vec(16)
    if byteorder == 'little':
        v = v[::-1]
    elif byteorder != 'big':
        raise Unsupported('byte order')
    x = V.vec_to_int(v, signed)
    n = len(v)
    if is_sym(x):
        y = ip.c.fresh('frombytes')
        ip.c.assume(y.e == x.e)
        if n:
            if signed:
                ip.c.assume(z3.And(y.e >= -(1 << (8 * n - 1)), y.e < (1 << (8 * n - 1))))
            else:
                ip.c.assume(z3.And(y.e >= 0, y.e < (1 << (8 * n))))
        x = y
    return x
