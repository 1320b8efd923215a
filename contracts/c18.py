"""Binary-to-text codecs. A text is a list of pieces: literal characters, the
white-space indentation, a row offset, the two digits of one byte, a stretch of
base64 digits. Encoding is proved to write every digit of the data in order,
with nothing but white space (hex: and bracketed words) between them; decoding
is proved to turn any such text back into the data."""
import ast
import base64
import binascii
import io
import re
from .base import *
from .tree import fun, known
from pyvc.models import Cell
from pyvc.streams import SOut
from . import k_misc as K
import ebmlite.xml_codecs as X

WHITE = re.compile(r'[ \t\n\r\x0b\x0c]*')
HASH = z3.Function('c18_hash', z3.IntSort(), z3.IntSort(), z3.IntSort())
OFFLEN = z3.Function('c18_offset_length', z3.IntSort(), z3.IntSort())


class Txt(SOpaque):
    """A text (or its ASCII bytes), as a list of pieces."""
    def __init__(self, w, pieces, pytype=str):
        SOpaque.__init__(self, pytype, 'text')
        self.w = w
        self.pieces = [p for p in pieces if p != ('lit', '')]

    def is_none(self):
        return False

    def length(self):
        n = 0
        for p in self.pieces:
            n = n + self.w.length(p)
        return n

    def guest_len(self, ip):
        return self.length()

    def __bool__(self):
        return self.w.c.decide(ze(self.length()) > 0)

    def guest_eq(self, o):
        if isinstance(o, (str, bytes)) and not o:
            return Not(mkb(ze(self.length()) > 0))
        raise Unsupported('comparison of an encoded text')

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return Not(self.guest_eq(o))

    def m_decode(self, encoding='utf-8', errors='strict'):
        if self.pytype is not bytes or str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'latin1'):
            raise Unsupported('decode')
        return Txt(self.w, self.pieces, str)

    def m_encode(self, encoding='utf-8', errors='strict'):
        if self.pytype is not str or str(encoding).lower().replace('_', '-') not in ('utf-8', 'utf8', 'ascii', 'latin-1', 'latin1'):
            raise Unsupported('encode')
        return Txt(self.w, self.pieces, bytes)

    def m_replace(self, old, new, *count):
        if count or isinstance(old, Sym) or old not in ('\n', b'\n') or (type(old) is bytes) != (self.pytype is bytes):
            raise Unsupported('replace')
        new = text(self.w, new).pieces
        out = []
        for p in self.pieces:
            if p[0] == 'lit':
                for i, s in enumerate(p[1].split('\n')):
                    out += (new if i else []) + [('lit', s)]
            elif p[0] == 'lines':
                if p[1] != [('lit', '\n')]:
                    raise Unsupported('replace')
                out.append(('lines', new) if new else ('b64', 0, self.w.L))
            elif p[0] in ('b64', 'hex', 'off'):
                out.append(p)
            else:
                raise Unsupported('replace of a newline in the indentation')
        return Txt(self.w, out, self.pytype)

    def guest_getitem(self, ip, k):
        w = self.w
        if not isinstance(k, slice) or k.step is not None or len(self.pieces) != 1 or self.pieces[0][0] != 'b64':
            raise Unsupported('part of a text')
        lo, hi = ze(self.pieces[0][1]), ze(self.pieces[0][2])

        def at(x, default):
            if x is None:
                return default
            if not isint(x) or not w.c.valid(mkb(ze(x) >= 0)):
                raise Unsupported('part of a text')
            return z3.If(lo + ze(x) < hi, lo + ze(x), hi)
        a, b = at(k.start, lo), at(k.stop, hi)
        return Txt(w, [('b64', a, z3.If(b < a, a, b))], self.pytype)

    __hash__ = Sym.__hash__


def text(w, x):
    if isinstance(x, Txt):
        return x
    if isinstance(x, bytes):
        return Txt(w, [('lit', x.decode('ascii'))], bytes)
    if isinstance(x, str):
        return Txt(w, [('lit', x)])
    raise Unsupported('%r as part of a text' % (x,))


class Stream(Sym):
    """A text stream: what was written so far, as the decoder sees it."""
    def __init__(self, w, pytype=io.StringIO):
        self.w = w
        self.pytype = pytype
        self.done = Cell(0)        # digits (base64) or bytes (hex) written in full
        self.word = Cell(0)        # hex: 0 after white space, 1 inside a word of digits, 2 inside a bracketed word
        self.total = Cell(0)       # characters
        self.between = Cell(0)     # hash of what was written since the last digit

    def is_none(self):
        return False

    def __bool__(self):
        return True

    def m_write(self, x):
        if not isinstance(x, (str, bytes, Txt)):
            raise Unsupported('write of %r' % (x,))
        x = text(self.w, x)
        if x.pytype is not str:
            graise(TypeError('string argument expected'))
        for p in x.pieces:
            self.w.emit(self, p)
        return x.length()

    def m_writelines(self, xs):
        for x in self.w.c.interp.iterate(xs):
            self.m_write(x)

    def m_getvalue(self):
        return Written(self)

    def m_flush(self):
        return None

    __hash__ = Sym.__hash__


class Written(SOpaque):
    """All a stream holds."""
    def __init__(self, s):
        SOpaque.__init__(self, str, 'getvalue')
        self.s = s

    def is_none(self):
        return False

    def guest_len(self, ip):
        return self.s.total.get()

    __hash__ = Sym.__hash__


class CodecWorld:
    """Any data; the codec's options; base64 of the data as an abstract text."""
    def __init__(self, c, hexa):
        self.c, self.hexa = c, hexa
        self.data = opaque_bytes('data')
        self.n = self.data.n
        self.L = c.fresh('base64 digits', 0) if not hexa else None
        self.INDLEN = c.fresh('indentation', 0)
        self.expected = None
        self.ROWS, self.PER = c.fresh('rows', 0), fun(c, 'characters between the rows', 'i', 'i')
        if not hexa:
            c.assume(mkb(z3.And(z3.Implies(ze(self.n) == 0, ze(self.L) == 0), z3.Implies(ze(self.n) > 0, ze(self.L) > 0))))
        c.inputs['data'] = self.data
        m = c.models
        m['textcat'] = lambda ip, ps: Txt(self, [p for x in ps for p in text(self, x).pieces])
        m['fmt_value'] = lambda ip, v, spec, conv: self.format(v, spec, conv)
        m['binop'] = self.binop
        m[('method', str, 'format')] = self.str_format
        m[io.StringIO] = lambda ip, *a, **k: Stream(self) if not a else NotImplemented
        m[range] = self.range
        for f in (base64.encodebytes, base64.b64encode, base64.standard_b64encode):
            c.summaries[f] = lambda ip, args, kwargs, f=f: self.b64(f, args, kwargs)
        c.summaries[binascii.hexlify] = lambda ip, args, kwargs: NotImplemented
        c.ghosts.append(self.ghosts)
        c.relate = True

    def indent(self):
        return self.c.case('indent', '', lambda: Txt(self, [('ws',)]), lambda: Txt(self, [('ws',)], bytes), b'')

    # -- the standard library
    def b64(self, f, args, kwargs):
        if kwargs or len(args) != 1 or args[0] is not self.data:
            raise Unsupported('base64 of something else')
        if f is base64.encodebytes:
            return Txt(self, [('lines', [('lit', '\n')])], bytes)
        return Txt(self, [('b64', 0, ze(self.L))], bytes)

    def format(self, v, spec, conv):
        if conv == -1 and isint(v) and isinstance(v, Sym) and isinstance(spec, str):
            if self.hexa and spec in ('02x', '02X'):
                return Txt(self, [('hex', ze(v))])
            if re.fullmatch(r'0?\d*d?', spec):
                return Txt(self, [('off', ze(v))])
        if conv in (-1, 115) and spec in ('', 's') and isinstance(v, Txt):
            return v
        raise Unsupported('format %r' % (spec,))

    def str_format(self, ip, fmt, *args, **kwargs):
        if I_host(args) and I_host(kwargs):
            return NotImplemented_call(fmt, args, kwargs)
        import string
        out, auto = [], 0
        for lit, field, spec, conv in string.Formatter().parse(fmt):
            out.append(('lit', lit))
            if field is None:
                continue
            if conv or '{' in spec:
                raise Unsupported('format')
            if field == '':
                v, auto = args[auto], auto + 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kwargs:
                v = kwargs[field]
            else:
                raise Unsupported('format field')
            if isinstance(v, Sym):
                out += self.format(v, spec, -1).pieces
            else:
                out.append(('lit', format(v, spec)))
        return Txt(self, out)

    def binop(self, ip, op, a, b, inplace):
        if op is ast.Add and (isinstance(a, Txt) or isinstance(b, Txt)):
            if not all(isinstance(x, (str, bytes, Txt)) for x in (a, b)):
                graise(TypeError('cannot concatenate'))
            a, b = text(self, a), text(self, b)
            if a.pytype is not b.pytype:
                graise(TypeError('cannot concatenate'))
            return Txt(self, a.pieces + b.pieces, a.pytype)
        if op is ast.Mod and isinstance(a, str):
            b = b if isinstance(b, tuple) else (b,)
            out, at, i = [], 0, 0
            for m in re.finditer(r'%(0?\d*[dxX]|s|%)', a):
                out.append(('lit', a[at:m.start()]))
                at = m.end()
                if m.group(1) == '%':
                    out.append(('lit', '%'))
                    continue
                if i >= len(b):
                    graise(TypeError('not enough arguments for format string'))
                v = b[i]
                i += 1
                out += self.format(v, m.group(1), -1).pieces if isinstance(v, Sym) else [('lit', '%' + m.group(1) % v)]
            if i != len(b) or '%' in a[at:]:
                raise Unsupported('%')
            return Txt(self, out + [('lit', a[at:])])
        return NotImplemented

    def range(self, ip, *a):
        """range with a symbolic step, linearly."""
        if len(a) != 3 or not isinstance(a[2], SInt) or not all(isint(x) for x in a):
            return NotImplemented
        c, (lo, hi, st) = self.c, map(ze, a)
        if c.decide(st == 0):
            graise(ValueError('range() arg 3 must not be zero'))
        if not c.decide(st > 0):
            raise Unsupported('range with a negative step')
        IT = fun(c, 'range item', 'i', 'i')
        n = c.fresh('range', 0)

        def facts(k):
            k = ze(k)
            c.assume(mkb(z3.And(IT(k + 1) == IT(k) + st, IT(k) >= lo, z3.Implies(k < ze(n), IT(k) < hi))))
        c.assume(mkb(z3.And(IT(0) == lo, IT(ze(n)) >= hi, (ze(n) == 0) == (lo >= hi))))
        facts(n - 1)

        def item(k):
            facts(k)
            return mki(IT(ze(k)))
        s = SSeq(n, item, 'range')
        s.IT, s.hi = IT, hi
        return s

    def ghosts(self, loc, sh, old, seq):
        IT = getattr(seq, 'IT', None)
        if IT is None or sh[0] != 'int':
            return []
        return [('as far as the range', lambda k: mki(z3.If(IT(ze(k)) < seq.hi, IT(ze(k)), seq.hi)))]

    # -- pieces
    def length(self, p):
        if p[0] == 'off':
            return self.offlen(p[1])
        if p[0] == 'lit':
            return len(p[1])
        if p[0] == 'ws':
            return self.INDLEN
        if p[0] == 'hex':
            return 2
        if p[0] == 'b64':
            return mki(ze(p[2]) - ze(p[1]))
        n = 0
        for q in p[1]:
            n = n + ze(self.length(q))
        n = ze(n)
        rows, per = ze(self.ROWS), self.PER(n)
        self.c.assume(mkb(z3.And(per >= 0, z3.Implies(n > 0, per >= rows), (ze(self.L) > 0) == (rows > 0))))
        return mki(ze(self.L) + per)

    def offlen(self, e):
        self.c.assume(mkb(OFFLEN(e) >= 1))
        return mki(OFFLEN(e))

    def emit(self, s, p):
        """The decoder's view of one more piece; s is a Stream."""
        c = self.c
        t = p[0]
        s.total.set(s.total.get() + self.length(p))
        if t == 'lit' and not WHITE.fullmatch(p[1]) or t == 'off':
            if not self.hexa:
                c.prove(False, 'nothing but white space between the digits')
                raise PathAbort()
            self.bracket(s, p)
            self.note(s, p)
        elif t in ('lit', 'ws'):
            if t == 'ws' or p[1]:
                c.prove(mkb(ze(s.word.get()) != 2), 'a bracketed word is not broken up')
                s.word.set(mki(z3.If(ze(self.length(p)) > 0, 0, ze(s.word.get()))))
                self.note(s, p)
        elif t == 'hex':
            i = s.done.get()
            c.prove(mkb(ze(s.word.get()) < 2), 'no digits inside a bracketed word')
            c.prove(mkb(z3.And(ze(i) >= 0, ze(i) < ze(self.n))), 'no more digits than the data has')
            c.prove(mkb(p[1] == ze(self.data.at(ze(i)))), 'the digits of the next byte')
            self.canonical(s, i)
            s.word.set(1)
            s.done.set(i + 1)
        elif t == 'b64':
            i = s.done.get()
            a, b = ze(p[1]), ze(p[2])
            c.prove(mkb(z3.Or(b <= a, a == ze(i))), 'the digits follow the ones before')
            self.canonical(s, i, b)
            s.done.set(mki(z3.If(b > a, b, ze(i))))
        elif t == 'lines':
            c.prove(mkb(z3.Or(ze(self.L) == 0, ze(s.done.get()) == 0)), 'the digits follow the ones before')
            for q in p[1]:
                if not (q == ('ws',) or q[0] == 'lit' and WHITE.fullmatch(q[1])):
                    c.prove(False, 'nothing but white space between the digits')
            for q in p[1]:
                self.note(s, q)
            s.done.set(mki(ze(self.L)))
        else:
            raise Unsupported('piece')

    def bracket(self, s, p):
        """Part of '[<number>] '."""
        c = self.c
        if p[0] == 'off':
            c.prove(mkb(ze(s.word.get()) == 2), 'a number stands inside brackets')
            return
        for x in re.findall(r'\s+|\[|\]|[^\s\[\]]+', p[1]):
            if x == '[':
                c.prove(mkb(ze(s.word.get()) == 0), 'a bracketed word starts after white space')
                s.word.set(2)
            elif x == ']':
                c.prove(mkb(ze(s.word.get()) == 2), 'brackets match')
                s.word.set(3)
            elif x.isspace():
                c.prove(mkb(ze(s.word.get()) != 2), 'a bracketed word is not broken up')
                s.word.set(0)
            else:
                c.prove(mkb(ze(s.word.get()) == 2), 'no other characters outside of brackets')

    def note(self, s, p):
        b = ze(s.between.get())
        if p[0] == 'lit':
            for ch in p[1]:
                b = HASH(b, z3.IntVal(ord(ch)))
        else:
            b = z3.If(ze(self.length(p)) > 0, HASH(b, HASH(z3.IntVal(7), p[1]) if p[0] == 'off' else z3.IntVal(-1)), b)
        s.between.set(mki(b))

    def fold(self, ps):
        class Fake:
            pass
        s = Fake()
        s.between = Plain(0)
        for p in ps:
            self.note(s, p)
        return ze(s.between.get())

    def canonical(self, s, i, end=None):
        """What stands before a digit depends on its place alone (not on where the text goes)."""
        if self.expected is not None:
            self.c.prove(self.expected(s, ze(i), end), 'the layout does not depend on where the text goes', guess=True)
        s.between.set(0)


class Plain:
    def __init__(self, v):
        self.v = v

    def get(self):
        return self.v

    def set(self, v):
        self.v = v


def I_host(x):
    from pyvc import interp
    return interp.host(x)


def NotImplemented_call(fmt, args, kwargs):
    return fmt.format(*args, **kwargs)


def finish(c, w, mode, out, got, want):
    """The result of an encode call."""
    if got[0] == 'exc':
        c.prove(False, 'encoding raises %s' % type(got[1]).__name__)
        return
    r = got[1]
    if mode == 'text':
        if isinstance(r, Written):
            s = r.s
        elif isinstance(r, (str, Txt)):
            s = Stream(w)
            for p in text(w, r).pieces:
                w.emit(s, p)
            c.prove(text(w, r).pytype is str, 'a text')
        else:
            c.prove(False, 'the text is returned')
            return
    else:
        s = out
        c.prove(isint(r) and mkb(ze(r) == ze(s.total.get())), 'the number of characters written is returned')
    c.prove(mkb(ze(s.done.get()) == ze(want)), 'all digits are there')
    c.prove(mkb(ze(s.word.get()) != 2), 'brackets match')
    tail = getattr(w, 'tail', 0)
    c.prove(mkb(ze(s.between.get()) == tail), 'the layout does not depend on where the text goes', guess=True)
    c.cover('%s, some data' % mode if c.decide(ze(w.n) > 0) else '%s, no data' % mode)


def run_hex(c):
    ip = Interp(c)
    w = CodecWorld(c, True)
    kw = {}
    cols = c.case('cols', None, 0, lambda: c.fresh('cols', 1), 'default')
    width = c.case('width', lambda: c.fresh('width', 1), 'default')
    offs = c.case('offsets', True, False, 'default')
    kw.update({n: v for n, v in (('cols', cols), ('width', width), ('offsets', offs)) if not isinstance(v, str)})
    codec = ip.call(X.HexCodec, [], kw)
    mode = c.case('to', 'text', 'stream')
    out = Stream(w) if mode == 'stream' else None
    ind = w.indent()
    off = c.fresh('offset', 0)
    kc = 32 if isinstance(cols, str) else cols
    kw_ = 2 if isinstance(width, str) else width
    ko = offs is not False and bool(kc is not None and not (isinstance(kc, int) and kc == 0))

    def expected(s, i, end):
        sp = w.fold([('lit', ' ')])
        col = z3.If(i % ze(kw_) == 0, sp, z3.IntVal(0))
        if kc is None or isinstance(kc, int) and kc == 0:
            return mkb(ze(s.between.get()) == col)
        first = [('lit', '\n')] + text(w, ind).pieces + ([('lit', '['), ('off', i + ze(off)), ('lit', '] ')] if ko else [])
        return mkb(ze(s.between.get()) == z3.If(i % ze(kc) == 0, w.fold(first), col))
    w.expected = expected
    got = outcome(lambda: ip.call(fn_of(X.HexCodec, 'encode'), [codec, w.data],
                                  dict(stream=out, indent=ind, offset=off) if mode == 'stream' else dict(indent=ind, offset=off)))
    finish(c, w, mode, out, got, w.n)


def run_base64(c):
    ip = Interp(c)
    w = CodecWorld(c, False)
    cols = c.case('cols', None, 0, 76, lambda: c.fresh('cols', 1), 'default')
    codec = ip.call(X.Base64Codec, [], {} if isinstance(cols, str) else dict(cols=cols))
    mode = c.case('to', 'text', 'stream')
    out = Stream(w) if mode == 'stream' else None
    ind = w.indent()
    kc = 76 if isinstance(cols, str) else cols
    if isinstance(cols, SInt):
        c.assume(cols != 76)
    sep = [('lit', '\n')] + text(w, ind).pieces
    w.tail = 0

    def expected(s, i, end):
        b = ze(s.between.get())
        if kc is None or isinstance(kc, int) and kc == 0:
            return mkb(z3.And(b == 0, i == 0, ze(end) == ze(w.L)))
        e = z3.If(i + ze(kc) < ze(w.L), i + ze(kc), ze(w.L))
        return mkb(z3.And(b == w.fold(sep), ze(end) == e))
    w.expected = expected
    if isinstance(kc, int) and kc == 76:
        w.tail = w.fold(sep + sep)
    got = outcome(lambda: ip.call(fn_of(X.Base64Codec, 'encode'), [codec, w.data],
                                  dict(stream=out, indent=ind) if mode == 'stream' else dict(indent=ind)))
    finish(c, w, mode, out, got, w.L)


# ------------------------------------------------------------------ decoding

class Coded(SOpaque):
    """A text that holds the data's digits: white space anywhere between words
    (hex: between bytes), bracketed words skipped."""
    def __init__(self, w, pytype):
        SOpaque.__init__(self, pytype, 'coded')
        self.w = w

    def is_none(self):
        return False

    def __bool__(self):
        return self.w.c.decide(self.w.FULL)

    def guest_len(self, ip):
        return self.w.CHARS

    def guest_eq(self, o):
        if isinstance(o, (str, bytes)) and not o:
            return Not(mkb(self.w.FULL)) if type(o) is self.pytype else False
        raise Unsupported('comparison of the text')

    def __eq__(self, o):
        return self.guest_eq(o)

    def m_encode(self, encoding='utf-8', errors='strict'):
        if self.pytype is not str:
            raise Unsupported('encode')
        return Coded(self.w, bytes)

    def m_decode(self, encoding='utf-8', errors='strict'):
        if self.pytype is not bytes:
            raise Unsupported('decode')
        return Coded(self.w, str)

    def m_strip(self):
        return Coded(self.w, self.pytype)

    def m_split(self, *a):
        if a and a[0] is not None or not self.w.hexa:
            raise Unsupported('split')
        w = self.w
        s = SSeq(w.WORDS, lambda k: Word(w, k, self.pytype), 'words')
        s.words = w
        return s

    __hash__ = Sym.__hash__


class Word(SOpaque):
    def __init__(self, w, k, pytype):
        SOpaque.__init__(self, pytype, 'word')
        self.w, self.k = w, ze(k)
        w.facts(self.k)

    def is_none(self):
        return False

    def __bool__(self):
        return True

    def guest_contains(self, ip, x):
        if x not in ('[', ']', b'[', b']'):
            raise Unsupported('search in a word')
        if type(x) is not self.pytype:
            graise(TypeError('a bytes-like object is required'))
        return mkb(self.w.SKIP(self.k))

    def m_startswith(self, x):
        if x in ('[', b'[') and type(x) is self.pytype:
            return mkb(self.w.SKIP(self.k))
        raise Unsupported('start of a word')

    def m_endswith(self, x):
        if x in (']', b']') and type(x) is self.pytype:
            return mkb(self.w.SKIP(self.k))
        raise Unsupported('end of a word')

    def guest_len(self, ip):
        return mki(z3.If(self.w.SKIP(self.k), self.w.JUNK(self.k), 2 * self.w.M(self.k)))

    def m_decode(self, *a):
        return Word(self.w, self.k, str)

    def data(self):
        w = self.w
        if not w.c.valid(Not(mkb(w.SKIP(self.k)))):
            raise Unsupported('digits of a bracketed word')
        return w.data.slice(mki(w.BASE(self.k)), mki(w.BASE(self.k + 1)))

    def guest_getitem(self, ip, i):
        w = self.w
        if not isinstance(i, slice) or i.step is not None or not isint(i.start) or not isint(i.stop):
            raise Unsupported('part of a word')
        a, b = ze(i.start), ze(i.stop)
        if not w.c.valid(Not(mkb(w.SKIP(self.k)))) \
                or not w.c.valid(mkb(z3.And(a >= 0, a % 2 == 0, b == a + 2, b <= 2 * w.M(self.k)))):
            raise Unsupported('other than two digits of a word')
        return Pair(w, w.BASE(self.k) + a / 2, self.pytype)

    __hash__ = Sym.__hash__


class Pair(SOpaque):
    """The two digits of one byte."""
    def __init__(self, w, at, pytype):
        SOpaque.__init__(self, pytype, 'two digits')
        self.w, self.at = w, at

    def is_none(self):
        return False

    def m_decode(self, *a):
        return Pair(self.w, self.at, str)

    __hash__ = Sym.__hash__


class Bin(Sym):
    """A binary stream that must receive the data, in order."""
    def __init__(self, w, own, pytype=io.BytesIO):
        self.w, self.own, self.pytype = w, own, pytype
        self.done = Cell(0)

    def is_none(self):
        return False

    def __bool__(self):
        return True

    def m_write(self, x):
        w = self.w
        if not isinstance(x, (bytes, bytearray, SRope, SByteArray)):
            raise Unsupported('write of %r' % (x,))
        r = rope(x)
        if r.kind != 'bytes':
            graise(TypeError('a bytes-like object is required'))
        i = self.done.get()
        n = ze(r.n)
        c = w.c
        c.prove(mkb(z3.Or(n == 0, z3.And(ze(i) >= 0, ze(i) + n <= ze(w.n)))), 'no more bytes than the data has')
        self.compare(r, i)
        self.done.set(i + r.n)
        return r.n

    def compare(self, r, i):
        c = self.w.c
        size = r.size()
        if size is not None and size <= 8:
            for k in range(size):
                c.prove(mkb(ze(r.at(k)) == ze(self.w.data.at(ze(i) + k))), 'the next byte of the data')
        else:
            c.prove_rope(r, self.w.data.slice(i, mki(ze(i) + ze(r.n))), 'the next bytes of the data')

    def m_getvalue(self):
        return self.w.data.slice(0, self.done.get())

    def m_flush(self):
        return None

    __hash__ = Sym.__hash__


class DecodeWorld:
    def __init__(self, c, hexa):
        self.c, self.hexa = c, hexa
        self.data = opaque_bytes('data')
        self.n = self.data.n
        self.CHARS = c.fresh('characters', 0)
        self.FULL = ze(self.CHARS) > 0
        self.WORDS = c.fresh('words', 0)
        self.SKIP, self.M, self.BASE, self.JUNK = fun(c, 'skip', 'i', 'b'), fun(c, 'bytes of word', 'i', 'i'), fun(c, 'base', 'i', 'i'), fun(c, 'junk', 'i', 'i')
        c.inputs['data'] = self.data
        c.assume(mkb(z3.Implies(z3.Not(self.FULL), ze(self.n) == 0)))
        c.assume(mkb(z3.And(self.BASE(0) == 0, self.BASE(ze(self.WORDS)) == ze(self.n))))
        c.models[io.BytesIO] = lambda ip, *a, **k: Bin(self, True) if not a else NotImplemented
        c.models['int'] = self.to_int
        c.models[bytes.fromhex] = c.models[bytearray.fromhex] = self.unhex
        c.models[binascii.unhexlify] = c.models[binascii.a2b_hex] = self.unhex
        for f in (base64.decodebytes, base64.b64decode, base64.standard_b64decode):
            c.summaries[f] = lambda ip, args, kwargs, f=f: self.b64(f, args, kwargs)
        c.models[binascii.a2b_base64] = lambda ip, *a: self.b64(binascii.a2b_base64, a, {})
        c.ghosts.append(self.ghosts)
        c.relate = True

    def facts(self, k):
        step = z3.If(self.SKIP(k), 0, self.M(k))
        # the last word's end is the data's end; words before it do not reach beyond
        self.c.assume(mkb(z3.And(self.M(k) >= 1, self.JUNK(k) >= 2, self.BASE(k + 1) == self.BASE(k) + step, self.BASE(k) >= 0,
                                 z3.Implies(z3.And(k >= 0, k < ze(self.WORDS)), self.BASE(k + 1) <= ze(self.n)))))

    def ghosts(self, loc, sh, old, seq):
        if getattr(seq, 'words', None) is None or sh[0] != 'int':
            return []
        return [('up to this word', lambda k: mki(self.BASE(ze(k))))]

    def to_int(self, ip, x, base):
        if isinstance(x, Pair):
            if base != 16:
                raise Unsupported('int of hexadecimal digits')
            v = self.data.at(x.at)
            return mki(ze(v))
        if isinstance(x, (Word, Coded)):
            raise Unsupported('int of a word')
        return NotImplemented

    def unhex(self, ip, x, *a):
        if a:
            raise Unsupported('unhexlify')
        if isinstance(x, Pair):
            return self.data.slice(mki(x.at), mki(x.at + 1))
        if isinstance(x, Word):
            return x.data()
        return NotImplemented

    def b64(self, f, args, kwargs):
        if kwargs or len(args) != 1 or not isinstance(args[0], Coded) or self.hexa:
            raise Unsupported('base64 of something else')
        if f is base64.decodebytes and args[0].pytype is not bytes:
            graise(TypeError('expected bytes-like object, not str'))
        return self.data


def run_decode(cls, hexa):
    def run(c):
        ip = Interp(c)
        w = DecodeWorld(c, hexa)
        form = c.case('form', lambda: str, lambda: bytes)
        t = Coded(w, form)
        mode = c.case('to', 'bytes', 'stream')
        out = Bin(w, False) if mode == 'stream' else None
        dec = getattr(cls, 'decode')
        got = outcome(lambda: ip.call(dec, [t], dict(stream=out) if mode == 'stream' else {}))
        if got[0] == 'exc':
            c.prove(False, 'decoding raises %s' % type(got[1]).__name__)
            return
        r = got[1]
        if mode == 'bytes':
            if not isinstance(r, (bytes, SRope, bytearray, SByteArray)):
                c.prove(False, 'bytes are returned')
                return
            c.prove_rope(rope(r), w.data, 'the data')
        else:
            c.prove(mkb(ze(out.done.get()) == ze(w.n)), 'all of the data is written')
            c.prove(isint(r) and mkb(ze(r) == ze(w.n)), 'the number of bytes written is returned')
        c.cover('%s, some data' % mode if c.decide(ze(w.n) > 0) else '%s, no data' % mode)
    return run


COVERS = ['text, some data', 'text, no data', 'stream, some data', 'stream, no data']
DCOVERS = ['bytes, some data', 'bytes, no data', 'stream, some data', 'stream, no data']

PROOFS = [
    Proof('hexadecimal text', run_hex, ['ebmlite.xml_codecs:HexCodec.__init__', 'ebmlite.xml_codecs:HexCodec.encode'], 'codec', covers=COVERS),
    Proof('base64 text', run_base64, ['ebmlite.xml_codecs:Base64Codec.__init__', 'ebmlite.xml_codecs:Base64Codec.encode'], 'codec', covers=COVERS),
    Proof('reading hexadecimal text', run_decode(X.HexCodec, True), ['ebmlite.xml_codecs:HexCodec.decode'], 'codec', covers=DCOVERS),
    Proof('reading base64 text', run_decode(X.Base64Codec, False), ['ebmlite.xml_codecs:Base64Codec.decode'], 'codec', covers=DCOVERS),
]

KINDS = [
    Kind('codec', K.check_codec, K.gen_codec, K.dir_codec, n=4000),
]

PROPERTY = Property(
    'C18', PROOFS, KINDS,
    assumptions=['The indentation is ASCII white space (or empty), as text or bytes; the width is at least 1, cols None, 0 or at least 1, the starting offset not negative.',
                 'The data is bytes or bytearray; the text stream counts characters as io.StringIO does.',
                 'The text decoded is one the encoder produced: white space between words; base64: the digits of the data; hex: words of whole bytes, bracketed words in between (what the encoding proofs establish).'],
    trusted=['base64.encodebytes: base64 digits in lines, each ended by a newline; base64.decodebytes ignores white space and inverts it',
             'str.format / % / f-string of one byte with 02x gives its two digits, int(two digits, 16) inverts it; a formatted number contains neither white space nor brackets',
             'str.split() without arguments splits at white space'],
    not_proved=['That text and stream get the same layout is proved against the present layout as a reference; another layout would be compared by the concrete search only.'])
