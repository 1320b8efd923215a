"""Specifications of the leaf codecs (ebmlite.encoding / ebmlite.decoding).

Each is written from the EBML format, not from the code: a function of the
arguments that returns the required result or raises the required error."""
from .base import *
import datetime
import struct

MAXSIZE = 2 ** 56 - 2


# --- sizes and IDs -----------------------------------------------------------

def spec_getLength(c, val):
    for n in range(1, 9):
        if n == 8 or decide(c, val <= 2 ** (7 * n) - 2):
            return n


def spec_encodeSize(c, val, length=None):
    """For 0 <= val <= 2**56-2 or None, and length None, -1 or 1..8."""
    if val is None:
        n = 1 if length is None or (isint(length) and decide(c, length == -1)) else length
        return zeros(n, 0xff) if not isinstance(n, int) else b'\xff' * n
    if length is None or decide(c, length == -1):
        n = spec_getLength(c, val)
    else:
        n = c.concretize(length, 9)
        if not decide(c, val <= 2 ** (7 * n) - 2):
            graise(ValueError())
    return be_bytes(c, val + 2 ** (7 * n), n)


def marker_length(c, first, limit=8):
    for n in range(1, limit + 1):
        if decide(c, first >= 2 ** (8 - n)):
            return n
    return None


def take(c, stream, n):
    """n bytes at the stream's position, or None if there are fewer."""
    d = stream.m_read(n)
    r = rope(d)
    if not c.decide(ze(r.n) == ze(n)):
        return None
    return r


def spec_decodeIntLength(c, byte):
    n = marker_length(c, byte)
    if n is None:
        return 8, 0
    return n, byte - 2 ** (8 - n)


def spec_decodeIDLength(c, byte):
    n = marker_length(c, byte, 4)
    if n is None:
        graise(IOError())
    return n, byte


def eof():
    """What running out of data at the start of a header raises."""
    graise(TypeError('ord() expected a character, but string of length 0 found'))


def spec_readElementSize(c, stream):
    b = take(c, stream, 1)
    if b is None:
        eof()
    b0 = mki(b.at(0))
    n = marker_length(c, b0)
    if n is None:
        n, top = 8, 0          # a zero byte: eight bytes, as the library reads it
    else:
        top = b0 - 2 ** (8 - n)
    if n > 1:
        rest = stream.m_read(n - 1)
        r = rope(rest)
        k = r.size()
        if k is None:
            k = c.concretize(r.n, 9)
        v = V.vec_to_int([ze(top)] + [r.at(i) for i in range(k)])
    else:
        v = top
    if decide(c, v == 2 ** (7 * n) - 1):
        return None, n
    return v, n


def spec_readElementID(c, stream):
    b = take(c, stream, 1)
    if b is None:
        eof()
    b0 = mki(b.at(0))
    n = marker_length(c, b0, 4)
    if n is None:
        graise(IOError())
    v = b0
    if n > 1:
        r = rope(stream.m_read(n - 1))
        k = r.size()
        if k is None:
            k = c.concretize(r.n, 5)
        v = V.vec_to_int([ze(b0)] + [r.at(i) for i in range(k)])
    return v, n


def uint_width(c, v):
    for n in range(1, 9):
        if decide(c, v < 256 ** n):
            return n
    return None


def spec_encodeUInt(c, val, length=None):
    if not isint(val):
        if isinstance(val, (SFloat, float)):
            return NotImplemented
        graise(TypeError())
    if isinstance(val, SBool):
        val = val._i()
    if decide(c, val < 0):
        graise(ValueError())
    n = uint_width(c, val)
    if n is None:
        graise(ValueError())
    if length is None:
        return be_bytes(c, val, n)
    if not decide(c, length >= n):
        graise(ValueError())
    return cat(zeros(length - n), be_bytes(c, val, n))


def spec_encodeId(c, eid, length=None):
    if length is not None and not decide(c, And(length >= 1, length <= 4)):
        graise(ValueError())
    return spec_encodeUInt(c, eid, length)


def spec_readUInt(c, stream, size):
    n = c.concretize(size, 10)
    if n == 0:
        return 0
    r = rope(stream.m_read(n))
    k = r.size()
    if k is None:
        k = c.concretize(r.n, 10)
    return V.vec_to_int([r.at(i) for i in range(k)])


def int_width(c, v):
    for n in range(1, 9):
        if decide(c, And(v >= -2 ** (8 * n - 1), v < 2 ** (8 * n - 1))):
            return n
    return None


def spec_encodeInt(c, val, length=None):
    if not isint(val):
        if isinstance(val, (SFloat, float)):
            return NotImplemented
        graise(TypeError())
    if isinstance(val, SBool):
        val = val._i()
    if isinstance(length, int) and 1 <= length <= 8:
        if not decide(c, And(val >= -2 ** 63, val < 2 ** 63)):
            graise(Exception())        # an error, of whichever type
        if not decide(c, And(val >= -2 ** (8 * length - 1), val < 2 ** (8 * length - 1))):
            graise(ValueError())
        return be_bytes(c, val + 256 ** length if decide(c, val < 0) else val, length)
    n = int_width(c, val)
    if n is None:
        graise(Exception())
    neg = decide(c, val < 0)
    body = be_bytes(c, val + 256 ** n if neg else val, n)
    if length is None:
        return body
    if not decide(c, length >= n):
        graise(ValueError())
    return cat(zeros(length - n, 0xff if neg else 0), body)


def spec_readInt(c, stream, size):
    n = c.concretize(size, 10)
    if n == 0:
        return 0
    r = rope(stream.m_read(n))
    k = r.size()
    if k is None:
        k = c.concretize(r.n, 10)
    if k == 0:
        graise(IndexError())
    return V.vec_to_int([r.at(i) for i in range(k)], signed=True)


# --- floats ---------------------------------------------------------------

def float_bits(c, val):
    """64 bits of a number, or raise TypeError."""
    from pyvc import models
    if isinstance(val, SBool):
        val = val._i()
    if isinstance(val, SFloat):
        return ze(val.bits)
    if isinstance(val, (int, float)):
        try:
            return z3.IntVal(fbits(float(val)))
        except OverflowError as e:
            graise(e)
    if isinstance(val, SInt):
        if not c.decide(z3.And(val.e < 2 ** 1023, val.e > -2 ** 1023)):
            graise(OverflowError())
        b = models.FOFI(val.e)
        c.assume(z3.And(b >= 0, b < 2 ** 64))
        return b
    graise(TypeError())


def spec_encodeFloat(c, val, length=None):
    if length is None:
        if val is None or (isinstance(val, SFloat) and decide(c, val.is_zero())) or (isint(val) and decide(c, val == 0)) \
                or (isinstance(val, float) and val == 0):
            return b''
        n = 8
    else:
        if not decide(c, Or(length == 0, length == 4, length == 8)):
            graise(ValueError())
        n = c.concretize(length, 4)
    if n == 0:
        return b''
    b = float_bits(c, val)
    if n == 8:
        return SRope('bytes', [Seg.vec(V.int_to_vec(b, 8))]).lower()
    if isinstance(val, (int, float)):
        try:
            return struct.pack('>f', val)
        except OverflowError as e:
            graise(e)
    if c.decide(SFloat.OVF(b)):
        graise(OverflowError())
    t = SFloat.F32(b)
    c.assume(z3.And(t >= 0, t < 2 ** 32))
    return SRope('bytes', [Seg.vec(V.int_to_vec(t, 4))]).lower()


def spec_readFloat(c, stream, size):
    if not decide(c, Or(size == 0, size == 4, size == 8)):
        graise(IOError())
    n = c.concretize(size, 4)
    if n == 0:
        return 0.0
    r = rope(stream.m_read(n))
    if not c.decide(ze(r.n) == n):
        graise(struct.error())
    bits = V.vec_to_int([r.at(i) for i in range(n)])
    if n == 8:
        return SFloat(bits)
    return SFloat(mki(SFloat.F64(ze(bits))))


# --- dates ----------------------------------------------------------------

def spec_encodeDate(c, val, length=None):
    if length is not None and not decide(c, length == 8):
        graise(ValueError())
    if val is None:
        return NotImplemented
    if not isinstance(val, (SDatetime, datetime.datetime)):
        graise(TypeError())
    ns = SDatetime.lift(val).us * 1000
    if not decide(c, And(ns >= -2 ** 63, ns < 2 ** 63)):
        graise(Exception())
    neg = decide(c, ns < 0)
    return be_bytes(c, ns + 2 ** 64 if neg else ns, 8)


def spec_readDate(c, stream, size=8):
    if not decide(c, size == 8):
        graise(IOError())
    r = rope(stream.m_read(8))
    if not c.decide(ze(r.n) == 8):
        graise(struct.error())
    ns = V.vec_to_int([r.at(i) for i in range(8)], signed=True)
    return SDatetime(ns // 1000)


# --- text and binary --------------------------------------------------------

def isbytes(x):
    return isinstance(x, (bytes, bytearray, SByteArray)) or isinstance(x, SRope) and x.kind == 'bytes'


def istext(x):
    return isinstance(x, (str, SText8)) or isinstance(x, SRope) and x.kind == 'str'


def utf8_of(c, x):
    if isinstance(x, SText8):
        return x.utf8
    if isinstance(x, str):
        try:
            return x.encode('utf8')
        except UnicodeEncodeError as e:
            graise(e)
    return rope(x).m_encode('utf-8')


def spec_encodeBinary(c, val, length=None):
    if val is None:
        d = b''
    elif istext(val):
        d = utf8_of(c, val)
    elif isbytes(val):
        d = val
    else:
        graise(TypeError())
    r = rope(d)
    if length is None:
        return r.lower()
    if not decide(c, mkb(ze(r.n) <= ze(length))):
        graise(ValueError())
    return cat(r, zeros(length - r.n))


def fit(c, d, length):
    """Cut or pad to the length."""
    r = rope(d)
    if length is None:
        return r.lower()
    if decide(c, mkb(ze(r.n) <= ze(length))):
        return cat(r, zeros(length - r.n))
    return r.slice(0, length)


def spec_encodeString(c, val, length=None):
    if not istext(val) and not isbytes(val):
        graise(TypeError())
    if isinstance(val, SText8):
        return NotImplemented
    r = rope(val)
    d = r.map(lambda e: z3.If(z3.And(e >= 32, e < 127), e, z3.IntVal(63)), 'bytes')
    return fit(c, d, length)


def spec_encodeUnicode(c, val, length=None):
    if istext(val):
        d = utf8_of(c, val)
    elif isbytes(val):
        d = val
    else:
        graise(TypeError())
    return fit(c, d, length)


def to_nul(c, r):
    """The bytes before the first NUL."""
    r = rope(r)
    k = r.first(lambda e: e == 0)
    return rope(r.slice(0, k))


def spec_readString(c, stream, size):
    if decide(c, size == 0):
        return ''
    r = to_nul(c, stream.m_read(size))
    # one character per byte; what is not ASCII reads as U+FFFD
    return r.map(lambda e: z3.If(e < 128, e, z3.IntVal(0xFFFD)), 'str')


def spec_readUnicode(c, stream, size):
    if decide(c, size == 0):
        return ''
    return V.decode_utf8(to_nul(c, stream.m_read(size)))


CONTRACTS = {}
for _m, _names in ((encoding, ['getLength', 'encodeSize', 'encodeId', 'encodeUInt', 'encodeInt', 'encodeFloat',
                               'encodeBinary', 'encodeString', 'encodeUnicode', 'encodeDate']),
                   (decoding, ['decodeIntLength', 'decodeIDLength', 'readElementID', 'readElementSize', 'readUInt',
                               'readInt', 'readFloat', 'readString', 'readUnicode', 'readDate'])):
    for _n in _names:
        CONTRACTS[_n] = (lambda m, n: lambda: (getattr(m, n), globals()['spec_' + n]))(_m, _n)
