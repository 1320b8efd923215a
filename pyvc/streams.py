"""Stream proxies: files, BytesIO and writable streams."""
import io
import z3
from . import values as V
from .values import (Sym, SInt, SRope, SByteArray, Seg, Unsupported, graise, ze, zb, mki, mkb, rope, isint)


class SStream(Sym):
    """A readable stream: content (a rope of any length) and position.

    Assumption: read(n) returns min(n, rest) bytes, as regular files and
    BytesIO do; seeking past the end is allowed and reading there gives b''."""
    def __init__(self, content, pos, name='stream', pytype=io.BufferedReader):
        self.content = content
        self.pos = pos
        self.pytype = pytype
        self.name = name
        self.closed = False
        V.CTX.register(self, name)

    # loop machinery
    def heap_get(self, part):
        return getattr(self, part)

    def heap_set(self, part, v):
        if part == 'pos' and not isint(v):
            v = V.CTX.fresh('pos', 0)
        setattr(self, part, v)

    def _set(self, part, v):
        V.CTX.mutate(self, part)
        setattr(self, part, v)

    def _open(self):
        if self.closed:
            graise(ValueError('I/O operation on closed file'))

    def m_read(self, n=-1):
        self._open()
        N = ze(self.content.n)
        p = ze(self.pos)
        rest = mki(z3.If(p < N, N - p, 0))
        if n is None:
            m = rest
        elif not isint(n):
            graise(TypeError('argument should be integer or None'))
        elif isinstance(n, int):
            m = rest if n < 0 else V.smin(n, rest)
        else:
            m = rest if V.CTX.decide(ze(n) < 0) else V.smin(n, rest)
        # whether the read is complete matters to nearly every caller
        if not isinstance(m, int) and n is not None and not (isinstance(n, int) and n < 0):
            if V.CTX.decide(ze(rest) >= ze(n)):
                m = n
            else:
                m = rest
        r = self.content.slice(self.pos, self.pos + m)
        if not V.is_sym(r):
            r = SRope('bytes', [Seg.const(r)]).lower()
        self._set('pos', mki(p + ze(m)))
        return r

    def m_readinto(self, *a):
        raise Unsupported('readinto')

    def m_tell(self):
        self._open()
        return self.pos

    def m_seek(self, o, whence=0):
        self._open()
        if not isint(o):
            graise(TypeError('an integer is required'))
        if whence == 0:
            t = o
        elif whence == 1:
            t = self.pos + o
        elif whence == 2:
            t = self.content.n + o
        else:
            raise Unsupported('whence')
        if not (mkb(ze(t) >= 0)):
            graise(ValueError('negative seek value'))
        self._set('pos', t)
        return t

    def m_close(self):
        self._set('closed', True)

    def m_readable(self):
        return True

    def m_seekable(self):
        return True

    def m_writable(self):
        return self.pytype is io.BytesIO

    def m___enter__(self):
        return self

    def m___exit__(self, *a):
        self.m_close()

    def m_getvalue(self):
        return self.content.lower()

    @property
    def a_closed(self):
        return self.closed

    def __bool__(self):
        return True

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    __hash__ = Sym.__hash__

    def same_as(self, ip, o):
        return o is self


class SOut(Sym):
    """A writable stream; keeps everything written, in order."""
    def __init__(self, kind='bytes', data=None, name='out', pytype=None):
        self.kind = kind
        self.data = data if data is not None else SRope(kind, [])
        self.pytype = pytype or (io.BytesIO if kind == 'bytes' else io.StringIO)
        self.closed = False
        V.CTX.register(self, name)

    def heap_get(self, part):
        return getattr(self, part)

    def heap_set(self, part, v):
        setattr(self, part, v)

    def m_write(self, x):
        if self.closed:
            graise(ValueError('I/O operation on closed file'))
        if not isinstance(x, (str, bytes, bytearray, SRope, SByteArray)) or rope(x).kind != self.kind:
            if V.is_sym(x) and not isinstance(x, (SInt,)) and x.pytype in (str, bytes):
                raise Unsupported('write of %r' % (x,))
            graise(TypeError('cannot write %r' % type(x).__name__))
        V.CTX.mutate(self, 'data')
        self.data = rope(rope(self.data) + rope(x))
        return rope(x).n

    def m_writelines(self, xs):
        for x in V.CTX.interp.iterate(xs):
            self.m_write(x)

    def m_flush(self):
        pass

    def m_close(self):
        V.CTX.mutate(self, 'closed')
        self.closed = True

    def m_getvalue(self):
        return rope(self.data).lower()

    def m_tell(self):
        return rope(self.data).n

    def __bool__(self):
        return True

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    __hash__ = Sym.__hash__
