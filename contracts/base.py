"""Shared contract machinery."""
import inspect
import io
import z3
from pyvc import values as V
from pyvc.values import (Sym, SInt, SBool, SRope, SByteArray, SFloat, SDatetime, SDelta, SText8, SOpaque, Seg,
                         GuestExc, Unsupported, PathAbort, graise, ze, zb, mki, mkb, is_sym, isint, rope,
                         And, Or, Not, Implies, Ite, opaque_bytes, opaque_text)
from pyvc.interp import Interp, GList, GDict, SObj, SClass, SSeq, SGen
from pyvc.streams import SStream, SOut
from pyvc.prop import Property, Proof, Kind, Broken

import ebmlite.core as core
import ebmlite.decoding as decoding
import ebmlite.encoding as encoding


def outcome(thunk):
    try:
        return ('ok', thunk())
    except GuestExc as g:
        return ('exc', g.exc)


def show(o):
    return 'raises %s' % type(o[1]).__name__ if o[0] == 'exc' else 'returns'


def same(c, label, got, want):
    """The two outcomes are equal."""
    if want[0] != got[0]:
        c.prove(False, '%s: %s, contract: %s' % (label, show(got), show(want)))
        return
    if want[0] == 'exc':
        c.prove(isinstance(got[1], type(want[1])), '%s: raises %s' % (label, type(want[1]).__name__))
        return
    same_value(c, label, got[1], want[1])


def same_value(c, label, g, w):
    if isinstance(w, tuple):
        if not isinstance(g, tuple) or len(g) != len(w):
            c.prove(False, label + ': a tuple of %d' % len(w))
            return
        for i, (a, b) in enumerate(zip(g, w)):
            same_value(c, '%s[%d]' % (label, i), a, b)
        return
    if w is None or g is None:
        c.prove(g is w, label + ': None')
        return
    if isinstance(w, bool) or isinstance(w, SBool):
        c.prove(mkb(zb(g) == zb(w)) if isinstance(g, (bool, SBool)) else False, label)
        return
    if isint(w):
        c.prove(mkb(ze(g) == ze(w)) if isint(g) else False, label)
        return
    if isinstance(w, (SFloat, float)):
        if isinstance(w, float):
            c.prove(isinstance(g, float) and repr(g) == repr(w) or isinstance(g, SFloat) and fbits(w) == g.bits, label)
        else:
            c.prove(mkb(ze(g.bits) == ze(w.bits)) if isinstance(g, SFloat) else
                    mkb(ze(fbits(g)) == ze(w.bits)) if isinstance(g, float) else False, label)
        return
    if isinstance(w, SDatetime) or type(w).__name__ == 'datetime':
        ok = isinstance(g, SDatetime) or type(g).__name__ == 'datetime'
        c.prove(mkb(ze(SDatetime.lift(g).us) == ze(SDatetime.lift(w).us)) if ok else False, label)
        return
    if isinstance(w, SText8):
        if isinstance(g, SText8):
            c.prove_rope(g.utf8, w.utf8, label)
        elif isinstance(g, str):
            c.prove_rope(g.encode('utf8', 'surrogatepass'), w.utf8, label)
        else:
            c.prove(False, label)
        return
    if isinstance(w, (bytes, bytearray, str, SRope, SByteArray)):
        if not isinstance(g, (bytes, bytearray, str, SRope, SByteArray)):
            if isinstance(g, SText8):
                raise Unsupported('text comparison')
            c.prove(False, label + ' (type)')
            return
        c.prove_rope(g, w, label)
        return
    c.prove(g is w, label)


def fbits(f):
    import struct
    return struct.unpack('>Q', struct.pack('>d', f))[0]


def bindargs(fn, args, kwargs):
    try:
        b = inspect.signature(fn).bind(*args, **kwargs)
    except TypeError as e:
        graise(e)
    b.apply_defaults()
    return b.arguments


def contract(fn, spec):
    """Summary of fn: its specification, as a function of the bound arguments."""
    def summary(ip, args, kwargs):
        a = bindargs(fn, args, kwargs)
        return spec(ip.c, **a)
    return summary


def use(c, *names):
    """Make callers rely on these functions' contracts instead of their bodies."""
    from . import leafspec
    for n in names:
        fn, spec = leafspec.CONTRACTS[n]()
        c.summaries[fn] = contract(fn, spec)


def fn_of(cls, name):
    f = cls.__dict__.get(name)
    for k in cls.__mro__:
        if name in k.__dict__:
            f = k.__dict__[name]
            break
    return getattr(f, '__func__', f)


class Other:
    """A value of no relevant type."""
    def __repr__(self):
        return '<other>'


def other():
    return SOpaque(type('Other', (), {'__module__': 'pyvc.values'}), 'other')


def be_bytes(c, v, n):
    """The n big-endian bytes of a non-negative v < 256**n (assumed)."""
    if isinstance(v, int):
        return v.to_bytes(n, 'big')
    return SRope('bytes', [Seg.vec(V.int_to_vec(ze(v), n))]).lower()


def zeros(n, val=0):
    if isinstance(n, int):
        return bytes([val]) * max(n, 0)
    return SRope('bytes', [Seg.fun(n, lambda i: z3.IntVal(val))])


def cat(*xs):
    r = SRope('bytes', [])
    for x in xs:
        r = rope(r + rope(x))
    return r.lower()


def decide(c, x):
    return x if isinstance(x, bool) else c.decide(zb(x))


def get_fn(path):
    """'encoding.encodeSize' or 'core.IntegerElement.parse' -> function."""
    o = {'encoding': encoding, 'decoding': decoding, 'core': core}.get(path.split('.')[0])
    if o is None:
        import importlib
        o = importlib.import_module('ebmlite.' + path.split('.')[0])
    parts = path.split('.')[1:]
    for p in parts:
        if isinstance(o, type):
            for k in o.__mro__:
                if p in k.__dict__:
                    o = k.__dict__[p]
                    break
        else:
            o = getattr(o, p)
    return o


def stream_pair(c, content=None, pos=None):
    content = content if content is not None else opaque_bytes('content')
    pos = pos if pos is not None else c.fresh('pos', 0)
    a, b = SStream(content, pos, 'stream'), SStream(content, pos, 'spec_stream')
    c.inputs['data'] = SData(a)
    return a, b


class SData(Sym):
    """Concretises to the bytes of a stream from a position on (at most 64)."""
    def __init__(self, s):
        self.s, self.pos = s, s.pos

    def conc(self, m):
        n = m.eval(ze(self.s.content.n), model_completion=True).as_long()
        p = m.eval(ze(self.pos), model_completion=True).as_long()
        k = max(0, min(n - p, 64))
        return bytes(m.eval(self.s.content.at(p + i), model_completion=True).as_long() % 256 for i in range(k))


def leaf(name, path, setup, uses=(), kind=None, conv=None, spec=None, reader=False, extra=None, covers=('end',), budget=200,
         opts=None):
    """Proof that the function at `path` meets its specification.

    setup(c) -> dict of the arguments, without the stream.  For readers the
    code and the specification get two streams with the same content and
    position; the final positions must agree as well."""
    def run(c):
        from . import leafspec
        ip = Interp(c)
        use(c, *uses)
        args = setup(c)
        for k, v in args.items():
            c.inputs[k] = v
        sp = spec or leafspec.CONTRACTS[path.split('.')[-1]]()[1]
        o = path.split('.')
        fn = get_fn(path)
        if reader:
            s1, s2 = stream_pair(c)
        c.cover('start')
        if len(o) == 2:
            got = outcome(lambda: ip.call(fn, ([s1] if reader else []) + list(args.values())))
        else:
            cls = getattr(core, o[1])
            if reader:
                obj = SObj(cls, {}, 'element')
                got = outcome(lambda: ip.call(ip.getattr(obj, o[2]), [s1] + list(args.values())))
            else:
                got = outcome(lambda: ip.call(ip.getattr(cls, o[2]), list(args.values())))
        want = outcome(lambda: sp(c, *([s2] if reader else []), **args))
        if want[0] == 'ok' and want[1] is NotImplemented:
            raise PathAbort()
        same(c, name, got, want)
        if reader and got[0] == 'ok' and want[0] == 'ok':
            c.prove(mkb(ze(s1.pos) == ze(s2.pos)), name + ': bytes consumed')
        if extra:
            extra(c, got, args)
        c.cover('end')
    return Proof(name, run, [path], kind=kind, conv=conv, covers=covers, budget=budget, opts=opts)


def conv_val(v):
    return v
