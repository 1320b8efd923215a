"""The schema's tables. The state before each definition is any coherent one
(classes, names, IDs, children: uninterpreted functions), so that one step
proved for it is the induction step over all histories."""
import os
from ast import literal_eval
import xml.etree.ElementTree as ET
from .base import *
from .tree import fun, known, BASES, KINDS_
from pyvc.coll import SPred
from pyvc.interp import UNBOUND, GSet
from pyvc.models import Cell
from . import k_misc as K

CODES = {'': 0, 'Void': 1}
NEWKINDS = [k for k in KINDS_ if k != 'Void']


class NameK(Sym):
    """A text of which equality and the first character matter."""
    pytype = str

    def __init__(self, w, h):
        self.w, self.h = w, h

    def is_none(self):
        return False

    def guest_eq(self, o):
        if isinstance(o, NameK):
            return mkb(ze(o.h) == ze(self.h))
        if isinstance(o, str):
            if o not in CODES:
                raise Unsupported('comparison of a name')
            return mkb(ze(self.h) == CODES[o])
        if o is None or isint(o) or isinstance(o, OtherKey):
            return False
        raise Unsupported('comparison of a name')

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return Not(self.guest_eq(o))

    def __bool__(self):
        return self.w.c.decide(ze(self.h) != 0)

    def guest_len(self, ip):
        n = self.w.c.fresh('len', 0)
        self.w.c.assume((ze(n) == 0) == (ze(self.h) == 0))
        return n

    def guest_getitem(self, ip, i):
        if not isinstance(i, int) or i != 0:
            raise Unsupported('characters of a name')
        if not self:
            graise(IndexError('string index out of range'))
        return First(self)

    def m_isalpha(self):
        return self.w.c.fresh_bool('alpha')

    def m_title(self):
        return SOpaque(str, 'title')

    __hash__ = Sym.__hash__


class First(Sym):
    """The first character of a name."""
    pytype = str

    def __init__(self, name):
        self.name = name

    def m_isalpha(self):
        return mkb(self.name.w.ALPHA(ze(self.name.h)))

    def guest_eq(self, o):
        if o == '_':
            return mkb(self.name.w.UNDER(ze(self.name.h)))
        raise Unsupported('characters of a name')

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return Not(self.guest_eq(o))

    __hash__ = Sym.__hash__


class OtherKey(Sym):
    """A value that is neither a text nor an integer, nor in a table."""
    def __init__(self, t):
        self.pytype = t

    def is_none(self):
        return False

    def guest_eq(self, o):
        return o is self

    def __eq__(self, o):
        return o is self

    def __ne__(self, o):
        return o is not self

    def __bool__(self):
        return V.CTX.decide(V.CTX.fresh_bool('truth'))

    def guest_getitem(self, ip, i):
        if issubclass(self.pytype, (bytes, bytearray)) and i == 0:
            return ip.c.fresh('byte', 0, 255)
        raise Unsupported('subscript')

    __hash__ = Sym.__hash__


ABSENT = object()


class Table(Sym):
    """A dict: what it held at first, and what was written since."""
    pytype = dict

    def __init__(self, w, initial, name):
        self.w, self.initial, self.name, self.log = w, initial, name, []

    def find(self, k, before=False):
        if not before:
            for key, v in reversed(self.log):
                if self.w.ip.truth(self.w.ip.eq(key, k)):
                    return v
        return self.initial(k)

    def guest_contains(self, ip, k):
        return self.find(k) is not ABSENT

    def guest_getitem(self, ip, k):
        v = self.find(k)
        if v is ABSENT:
            graise(KeyError('key'))
        return v

    def guest_setitem(self, ip, k, v):
        self.log.append((k, v))

    def guest_delitem(self, ip, k):
        if self.find(k) is ABSENT:
            graise(KeyError('key'))
        self.log.append((k, ABSENT))

    def m_get(self, k, d=None):
        v = self.find(k)
        return d if v is ABSENT else v

    def m_setdefault(self, k, d=None):
        v = self.find(k)
        if v is ABSENT:
            self.log.append((k, d))
            return d
        return v

    def m_pop(self, k, *d):
        v = self.find(k)
        if v is ABSENT:
            if d:
                return d[0]
            graise(KeyError('key'))
        self.log.append((k, ABSENT))
        return v

    def __bool__(self):
        raise Unsupported('truth of a table')

    __hash__ = Sym.__hash__


class Attribs(Sym):
    """A dict of attributes, keyed by texts: any content (functions HAS, VAL of
    the key), and others put over it."""
    pytype = dict

    def __init__(self, w, has, val, layers=()):
        self.w, self.HAS, self.VAL, self.layers = w, has, val, list(layers)

    def has(self, k):
        return z3.Or(self.HAS(k), *[l.has(k) for l in self.layers])

    def val(self, k):
        r = self.VAL(k)
        for l in self.layers:
            r = z3.If(l.has(k), l.val(k), r)
        return r

    def m_copy(self):
        return Attribs(self.w, self.HAS, self.VAL, self.layers)

    guest_dict = lambda self, ip: self.m_copy()

    def m_update(self, o):
        if isinstance(o, (GDict, dict)) and not (o.items if isinstance(o, GDict) else o):
            return
        if not isinstance(o, Attribs):
            raise Unsupported('dict.update')
        self.layers.append(o.m_copy())

    def differ(self, o, k):
        return z3.Or(self.has(k) != o.has(k), z3.And(self.has(k), self.val(k) != o.val(k)))

    def guest_eq(self, o):
        if o is self:
            return True
        if not isinstance(o, Attribs):
            raise Unsupported('comparison of attributes')
        c = self.w.c
        if c.decide(c.fresh_bool('equal')):
            c.forall(lambda k: z3.Not(self.differ(o, k)))
            return True
        k = ze(c.fresh('key'))
        c.skolem(k)
        c.assume(self.differ(o, k))
        return False

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return not self.guest_eq(o)

    def __bool__(self):
        raise Unsupported('truth of attributes')

    def key(self, k):
        if not isinstance(k, str):
            raise Unsupported('key of attributes')
        return z3.IntVal(self.w.code(k))

    def guest_contains(self, ip, k):
        return mkb(self.has(self.key(k)))

    def guest_getitem(self, ip, k):
        if not self.w.c.decide(self.has(self.key(k))):
            graise(KeyError(k))
        return Raw(self.w, k, self.val(self.key(k)))

    def m_get(self, k, d=None):
        return Raw(self.w, k, self.val(self.key(k))) if self.w.c.decide(self.has(self.key(k))) else d

    __hash__ = Sym.__hash__


class Raw(Sym):
    """The text of an attribute."""
    pytype = str

    def __init__(self, w, k, v, stripped=False):
        self.w, self.k, self.v, self.stripped = w, k, v, stripped

    def is_none(self):
        return False

    def m_strip(self, *a):
        if self.k == 'type':
            return self.w.type_name(self)
        if self.k == 'name':
            return NameK(self.w, mki(fun_of(self.w, 'STRIPPED')(self.v)))
        return Raw(self.w, self.k, self.v, True)

    def m_title(self):
        return SOpaque(str, 'title')

    m_lower = m_upper = lambda self: Raw(self.w, self.k, self.v, self.stripped)

    def guest_getitem(self, ip, i):
        if i != 0:
            raise Unsupported('characters of an attribute')
        if self.w.c.decide(self.w.c.fresh_bool('empty')):
            graise(IndexError('string index out of range'))
        return Letter(self.w)

    def __bool__(self):
        return self.w.c.decide(self.w.c.fresh_bool('not empty'))

    def guest_eq(self, o):
        if isinstance(o, Raw):
            return mkb(self.v == o.v) if o.stripped == self.stripped else self.w.c.fresh_bool('equal')
        return False if not isinstance(o, str) else self.w.c.fresh_bool('equal')

    def __eq__(self, o):
        return self.guest_eq(o)

    __hash__ = Sym.__hash__


class Letter(Sym):
    pytype = str

    def __init__(self, w):
        self.w = w

    def guest_eq(self, o):
        return self.w.c.fresh_bool('equal')

    m_lower = m_upper = lambda self: self

    def guest_in(self, s):
        return self.w.c.fresh_bool('among')

    def __eq__(self, o):
        return self.guest_eq(o)

    __hash__ = Sym.__hash__


class Maybe(Sym):
    """None or an integer, decided when asked for."""
    pytype = None

    def __init__(self, c, name):
        self.c, self.v = c, c.fresh(name)
        self.none = None

    def is_none(self):
        if self.none is None:
            self.none = self.c.decide(self.c.fresh_bool('none'))
        return self.none

    def guest_eq(self, o):
        if self.is_none():
            return o is None
        return mkb(ze(self.v) == ze(o)) if isint(o) else False

    def __eq__(self, o):
        return self.guest_eq(o)

    def __ne__(self, o):
        return Not(self.guest_eq(o))

    def __bool__(self):
        return not self.is_none() and bool(self.v != 0)

    __hash__ = Sym.__hash__


def fun_of(w, name):
    if name not in w.funs:
        w.funs[name] = fun(w.c, name, 'i', 'i')
    return w.funs[name]


class OldClass(SClass):
    """A class the schema has: the kind is any, chosen when asked for."""
    def __init__(self, w, eid):
        self.w, self.kind = w, None
        SClass.__init__(self, None, {}, 'known class')
        self.eid = eid
        NAME, CH = w.NAME, w.CH
        e = ze(eid)
        self.attrs.update(id=eid, name=NameK(w, mki(NAME(e))), schema=w.schema, mandatory=w.c.fresh_bool('mandatory'),
                          multiple=w.c.fresh_bool('multiple'), children=SPred(lambda x: CH(e, x), 'children'))
        self.first, self.title = self.attrs['children'], self.attrs['name']

    @property
    def base(self):
        if self.kind is None:
            self.kind = self.w.c.case('kind', *KINDS_)
        return BASES[self.kind]

    @base.setter
    def base(self, v):
        pass


class World:
    """A schema in any coherent state."""
    def __init__(self, c):
        self.c, self.ip, self.funs = c, Interp(c), {}
        self.codes = {}
        self.INE, self.INN, self.ING = fun(c, 'INE', 'i', 'b'), fun(c, 'INN', 'i', 'b'), fun(c, 'ING', 'i', 'b')
        self.NAME, self.IDOF = fun(c, 'NAME', 'i', 'i'), fun(c, 'IDOF', 'i', 'i')
        self.ALPHA, self.UNDER = fun(c, 'ALPHA', 'i', 'b'), fun(c, 'UNDER', 'i', 'b')
        self.CH, self.ROOT = fun(c, 'CHILD', 'i', 'i', 'b'), fun(c, 'ROOT', 'i', 'b')
        self.AHAS, self.AVAL = fun(c, 'AHAS', 'i', 'i', 'b'), fun(c, 'AVAL', 'i', 'i', 'i')
        self.memo, self.infos = [], []
        self.roots = SPred(lambda x: self.ROOT(x), 'roots')
        self.schema = SObj(core.Schema, {}, 'schema')
        known(self, self.schema)
        self.elements = Table(self, lambda k: self.by_id(k) if isint(k) and c.decide(self.INE(ze(k))) else ABSENT, 'elements')
        self.byname = Table(self, self.by_name, 'elementsByName')
        self.info = Table(self, lambda k: self.info_of(k) if isint(k) and c.decide(self.INE(ze(k))) else ABSENT, 'elementInfo')
        self.globals = Table(self, lambda k: self.by_id(k) if isint(k) and self.globally(k) else ABSENT, 'globals')
        self.schema.attrs.update(self.state())

    def state(self):
        return dict(elements=self.elements, elementsByName=self.byname, elementInfo=self.info, globals=self.globals,
                    children=self.roots)

    def code(self, k):
        return self.codes.setdefault(k, 1000 + len(self.codes))

    def handle(self, k):
        if isinstance(k, NameK):
            return ze(k.h)
        if isinstance(k, str) and k in CODES:
            return z3.IntVal(CODES[k])
        if k is None or isint(k) or isinstance(k, (OtherKey, bytes)):
            return None
        raise Unsupported('lookup of %r' % (k,))

    def globally(self, k):
        self.c.assume(z3.Implies(self.ING(ze(k)), self.INE(ze(k))))
        return self.c.decide(self.ING(ze(k)))

    def by_name(self, k):
        h = self.handle(k)
        if h is None:
            return ABSENT
        i = self.IDOF(h)
        self.c.assume(z3.Implies(self.INN(h), z3.And(self.INE(i), self.NAME(i) == h, h != 0)))
        return self.by_id(mki(i)) if self.c.decide(self.INN(h)) else ABSENT

    def by_id(self, i):
        for e, cls in self.memo:
            if self.c.decide(e == ze(i)):
                return cls
        n = self.NAME(ze(i))
        self.c.assume(z3.And(self.INE(ze(i)), self.INN(n), self.IDOF(n) == ze(i), n != 0, z3.Or(self.ALPHA(n), self.UNDER(n))))
        cls = OldClass(self, i)
        self.memo.append((ze(i), cls))
        return cls

    def info_of(self, i):
        for e, a in self.infos:
            if self.c.decide(e == ze(i)):
                return a
        e = ze(i)
        a = Attribs(self, lambda k: self.AHAS(e, k), lambda k: self.AVAL(e, k))
        self.infos.append((e, a))
        return a

    # -------------------------------------------------------------- checking
    def same(self, a, b):
        if a is b:
            return True
        if isinstance(a, Attribs) and isinstance(b, Attribs):
            k = ze(self.c.fresh('key'))
            self.c.skolem(k)
            return mkb(z3.Not(a.differ(b, k)))
        return False

    def tables(self):
        return ((self.elements, 'id'), (self.byname, 'name'), (self.info, 'id'), (self.globals, 'id'))

    def replaced(self):
        """The tables are still the objects they were."""
        for a, t in self.state().items():
            if self.ip.getattr(self.schema, a) is not t:
                raise Unsupported('another object as %s' % a)

    def unchanged(self, x, y):
        self.replaced()
        for t, kind in self.tables():
            if not t.log:
                self.c.prove(True, '%s is unchanged' % t.name)
            else:
                k = x if kind == 'id' else NameK(self, y)
                self.c.prove(self.same(t.find(k), t.find(k, True)), '%s is unchanged' % t.name)

    def children(self, o, x):
        """Does o list x, and did it?"""
        ch = self.ip.getattr(o, 'children')
        now = False if ch is None else self.ip.contains(ch, x)
        if o is self.schema:
            return now, self.ROOT(ze(x))
        if isinstance(o, OldClass):
            return now, z3.BoolVal(False) if o.first is None else self.CH(ze(o.eid), ze(x))
        return now, z3.BoolVal(False)

    def coherent(self, x, y, only=False):
        c, ip = self.c, self.ip
        for e, cls in self.memo:
            c.prove(cls.attrs['id'] is cls.eid and cls.attrs['name'] is cls.title and cls.attrs['schema'] is self.schema,
                    'known classes keep their ID and name')
        if only or not any(t.log for t, _ in self.tables()):
            return
        cls = self.elements.find(x)
        if cls is not ABSENT:
            c.prove(isinstance(cls, SClass), 'the table of IDs holds classes')
            if not isinstance(cls, SClass):
                return
            i, n = ip.getattr(cls, 'id'), ip.getattr(cls, 'name')
            c.prove(isint(i) and ip.eq(i, x), 'the class of an ID carries it')
            c.prove(isinstance(n, (NameK, str)) and self.byname.find(n) is cls, 'it is the class of its name')
            c.prove(ip.getattr(cls, 'schema') is self.schema, 'it belongs to the schema')
            c.prove(self.info.find(x) is not ABSENT, 'it has an entry in elementInfo')
        else:
            c.prove(self.info.find(x) is ABSENT, 'elementInfo has no more entries')
            c.prove(self.globals.find(x) is ABSENT, 'globals has no more entries')
        y = NameK(self, y)
        cls = self.byname.find(y)
        if cls is not ABSENT:
            c.prove(isinstance(cls, SClass), 'the table of names holds classes')
            if not isinstance(cls, SClass):
                return
            i, n = ip.getattr(cls, 'id'), ip.getattr(cls, 'name')
            c.prove(isinstance(n, (NameK, str)) and ip.eq(n, y), 'the class of a name carries it')
            c.prove(isint(i) and self.elements.find(i) is cls, 'it is the class of its ID')


def literal(w):
    """ast.literal_eval of an attribute: an integer, another value, an error."""
    def f(ip, args, kwargs):
        if len(args) != 1 or not isinstance(args[0], Raw):
            raise Unsupported('literal_eval')
        k = w.c.case('literal', 'int', 'SyntaxError', 'ValueError', 'other')
        if k == 'int':
            return w.c.fresh('literal')
        if k == 'other':
            return ()
        graise(SyntaxError('x') if k == 'SyntaxError' else ValueError('x'))
    w.c.summaries[literal_eval] = f


def helpers(w):
    """The inner functions that read one attribute: they return the default or
    a value of its type, and change nothing."""
    c = w.c

    def contract(ip, fn, args, kwargs):
        a = list(args) + list(kwargs.values())
        d = [x for x in a if isinstance(x, (Attribs, GDict))]
        k = [x for x in a if isinstance(x, str)]
        rest = [x for x in a if x is None or isinstance(x, bool)]
        if len(a) != 3 or len(d) != 1 or len(k) != 1 or len(rest) != 1 or isinstance(d[0], GDict):
            return NotImplemented
        flag = isinstance(rest[0], bool)
        if c.case('helper', 'contract', 'body') == 'body':
            got = outcome(lambda: ip.invoke_closure(fn, args, kwargs))
            c.prove(got[0] == 'ok' and (got[1] is rest[0] or (isinstance(got[1], (bool, SBool)) if flag else isint(got[1]))),
                    'reading an attribute', guess=True)
            x, y = c.fresh('x'), c.fresh('y')
            w.unchanged(x, y)
            c.cover('attribute')
            raise PathAbort()
        if flag:
            return c.fresh_bool(k[0])
        return Maybe(c, k[0])
    c.on_closure = contract
    c.models['str'] = lambda ip, v: v if isinstance(v, (Raw, NameK)) else NotImplemented


def define(c, which):
    w = World(c)
    ip = w.ip
    w.code('x')
    literal(w)
    helpers(w)
    eid = c.case('id', lambda: c.fresh('id'), lambda: None, lambda: OtherKey(float))
    name = c.case('name', lambda: NameK(w, c.fresh('name', 0)), lambda: None, lambda: c.fresh('number'), lambda: OtherKey(bytes))
    base, more = c.case('base', *[lambda k=k, j=j: (BASES[k], j) for j, k in enumerate(NEWKINDS)])
    more %= 2
    given = [lambda: Attribs(w, fun(c, 'HAS', 'i', 'b'), fun(c, 'VAL', 'i', 'i'))]
    attribs = c.case('attribs', *(given + [lambda: None] if which == 'new' or base in (core.MasterElement, core.UnicodeElement) else given))
    h = ze(name.h) if isinstance(name, NameK) else None
    for k in (eid, name):
        if isint(k):
            c.assume(ze(k) != 0)            # no ID: left open
            c.assume(z3.Implies(w.INE(ze(k)), z3.And(w.INN(w.NAME(ze(k))), w.IDOF(w.NAME(ze(k))) == ze(k), w.NAME(ze(k)) != 0)))
    if h is not None:
        i = w.IDOF(h)
        c.assume(z3.Implies(w.INN(h), z3.And(w.INE(i), w.NAME(i) == h, h != 0)))
    old = eid if isint(eid) and c.decide(w.INE(ze(eid))) else mki(w.IDOF(h)) if h is not None and c.decide(w.INN(h)) else None
    if (old is not None) != (which == 'again'):
        raise PathAbort()
    was = w.by_id(old) if which == 'again' else None
    parent = c.case('parent', lambda: None, lambda: w.schema, lambda: 'class')
    if parent == 'class':
        p = c.fresh('parent')
        parent = w.by_id(p)
        if c.case('parent kind', 'any', 'Void') == 'Void':
            if parent is was:
                raise PathAbort()
            parent.kind, parent.first, parent.attrs['children'] = 'Void', None, None
    target = parent or w.schema
    kw = {}
    if which == 'new' and more:
        kw['docs'] = SOpaque(str, 'docs')
    c.cover('start')
    got = outcome(lambda: ip.call(ip.getattr(w.schema, 'addElement'), [eid, name, base, attribs, parent], kw))
    # ------------------------------------------------------- what must happen
    wrong, maybe = False, False
    if which == 'again':
        for given, k in ((eid, old), (name, was.attrs['name'])):
            if given is not None and not c.decide(zb(ip.eq(given, k))):
                wrong = True
        if not wrong:
            okind = was.base
            maybe = okind is not base
            wrong = not issubclass(okind, base) and not issubclass(base, okind)
        if not wrong and attribs is not None:
            A = w.info_of(old)
            if c.decide(c.fresh_bool('contradicts')):
                k0 = ze(c.fresh('attribute'))
                c.skolem(k0)
                c.assume(z3.And(attribs.has(k0), z3.Or(z3.Not(A.has(k0)), A.val(k0) != attribs.val(k0))))
                wrong = True
            else:
                c.forall(lambda k: z3.Not(z3.And(attribs.has(k), z3.Or(z3.Not(A.has(k)), A.val(k) != attribs.val(k)))))
    else:
        # an attribute may be unreadable, a name may be no text at all
        maybe = isinstance(name, OtherKey)
        wrong = not (isint(eid) and h is not None) or c.decide(z3.Or(h == 0, z3.Not(z3.Or(w.ALPHA(h), w.UNDER(h)))))
    x, y = c.fresh('x'), c.fresh('y')
    c.skolem(x)
    w.replaced()
    everyone = [w.schema] + [k for _, k in w.memo]
    if got[0] == 'exc':
        if not maybe:
            c.prove(wrong, 'refused only if something is missing or contradicts')
        w.unchanged(x, y)
        for o in everyone:
            now, then = w.children(o, x)
            c.prove(mkb(zb(now) == then), 'a refused definition changes no children')
        c.cover('refused')
        return
    cls = got[1]
    c.prove(not wrong, 'a definition that lacks or contradicts something is refused')
    if which == 'again':
        c.prove(cls is was, 'a repeated definition returns the class there was')
        w.unchanged(x, y)
        i = old
    else:
        ok = isinstance(cls, SClass) and cls not in [k for _, k in w.memo]
        c.prove(ok, 'a new class')
        if not ok:
            return
        i = eid
        c.prove(cls.base is base, 'of the type asked for')
        same_value(c, 'with the ID', ip.getattr(cls, 'id'), eid)
        n = ip.getattr(cls, 'name')
        c.prove(isinstance(n, NameK) and mkb(ze(n.h) == h), 'with the name')
        c.prove(w.elements.find(eid) is cls, 'it is in the table of IDs')
        c.prove(w.byname.find(name) is cls, 'it is in the table of names')
        a = w.info.find(eid)
        c.prove(attribs is None and isinstance(a, GDict) and not a.items or attribs is not None and isinstance(a, Attribs) and w.same(a, attribs),
                'its attributes are kept')
        g = w.globals.find(eid)
        c.prove(g is ABSENT or g is cls, 'at most it is the global one of its ID')
        c.prove(ip.getattr(cls, 'schema') is w.schema, 'it belongs to the schema')
        only = all(c.valid(zb(ip.eq(k, name if kind == 'name' else eid))) for t, kind in w.tables() for k, _ in t.log)
        if only:
            # the others are as they were, and coherent as they were: neither
            # the ID nor the name was in a table
            for t, _ in w.tables():
                c.prove(True, '%s is unchanged' % t.name)
        elif c.decide(z3.And(ze(x) != ze(eid), ze(y) != h)):
            w.unchanged(x, y)
        everyone.append(cls)
    w.coherent(x, y, which == 'new' and only)
    for o in everyone:
        now, then = w.children(o, x)
        c.prove(mkb(zb(now) == (z3.Or(then, ze(x) == ze(i)) if o is target else then)),
                'the parent lists the element' if o is target else 'others list what they did')
    c.cover('accepted')


def lookups(c):
    w = World(c)
    ip = w.ip
    key = c.case('key', lambda: c.fresh('id'), lambda: NameK(w, c.fresh('name', 0)), lambda: None, lambda: OtherKey(float))
    cls = (w.elements if isint(key) else w.byname).find(key)
    how = c.case('how', 'in', '[]', 'get', 'get default')
    c.cover(how)
    if how == 'in':
        c.prove(ip.truth(ip.contains(w.schema, key)) == (cls is not ABSENT), 'a schema contains what is defined')
    elif how == '[]':
        got = outcome(lambda: ip.subscript(w.schema, key))
        if cls is ABSENT:
            c.prove(got[0] == 'exc' and isinstance(got[1], KeyError), 'KeyError for what is not defined')
        else:
            c.prove(got[0] == 'ok' and got[1] is cls, 'the class of an ID or name')
    else:
        d = SOpaque(object, 'default')
        got = outcome(lambda: ip.call(ip.getattr(w.schema, 'get'), [key] + [d] * (how == 'get default')))
        want = (d if how == 'get default' else None) if cls is ABSENT else cls
        c.prove(got[0] == 'ok' and got[1] is want, 'get')
    x, y = c.fresh('x'), c.fresh('y')
    w.unchanged(x, y)


# ------------------------------------------------------- definitions in XML
class XNode(Sym):
    """An XML element: number k of those below another."""
    def __init__(self, w, tag, k, n):
        self.w, self.a_tag, self.k, self.n = w, tag, k, n
        e = ze(k)
        self.a_attrib = Attribs(w, lambda x: w.XHAS(e, x), lambda x: w.XVAL(e, x))
        self.a_text = Words()

    def is_none(self):
        return False

    def guest_iter(self, ip):
        if self.n is None:
            raise Unsupported('the children of this element')
        return SSeq(self.n, self.w.child, 'children')

    def m_findall(self, tag):
        if tag != 'element' or self.n is None:
            raise Unsupported('findall')
        return self.guest_iter(None)

    m_iter = m_findall

    def m_get(self, k, d=None):
        return self.a_attrib.m_get(k, d)

    def seqkey(self):
        return self.k

    __hash__ = Sym.__hash__


class Words(Sym):
    """The text in an element: none or some."""
    pytype = str

    def __init__(self):
        self.none = None

    def is_none(self):
        if self.none is None:
            self.none = V.CTX.decide(V.CTX.fresh_bool('no text'))
        return self.none

    def guest_isinstance(self, ip, t):
        return False if self.is_none() else issubclass(str, t)

    def __bool__(self):
        return not self.is_none() and V.CTX.decide(V.CTX.fresh_bool('text'))

    def m_strip(self, *a):
        if self.is_none():
            graise(AttributeError('strip'))
        return SOpaque(str, 'docs')

    __hash__ = Sym.__hash__


class XmlWorld(World):
    def __init__(self, c):
        World.__init__(self, c)
        self.XHAS, self.XVAL = fun(c, 'XHAS', 'i', 'i', 'b'), fun(c, 'XVAL', 'i', 'i', 'i')
        self.XID, self.XBAD = fun(c, 'XID', 'i', 'i'), fun(c, 'XBAD', 'i', 'b')
        self.types = []
        self.n = c.fresh('n', 0)
        self.kids = {}
        for k in ('id', 'name', 'type'):
            self.code(k)
        c.models['int'] = self.integer
        self.seen = Cell(0)
        self.added = 0
        self.cls = SClass(core.MasterElement, dict(name=SOpaque(str, 'its name')), 'the new class')

    def integer(self, ip, x, base):
        if not isinstance(x, Raw) or x.k != 'id':
            return NotImplemented
        if base != 16:
            raise Unsupported('base of an ID')
        if self.c.decide(self.XBAD(x.v)):
            graise(ValueError('invalid literal'))
        return mki(self.XID(x.v))

    def child(self, k):
        return XNode(self, 'element', k, None)

    def type_name(self, raw):
        for v, t in self.types:
            if self.c.valid(mkb(v == raw.v)):
                return t
        t = self.c.case('type', *core.Schema.ELEMENT_TYPES, 'strange')
        self.types.append((raw.v, t))
        return t

    def definition(self, a, node, base, parent):
        """addElement is called as the XML says."""
        c = self.c
        at = node.a_attrib
        has = lambda k: c.decide(at.has(at.key(k)))
        val = lambda k: at.val(at.key(k))
        same_value(c, 'the ID given', a['eid'], mki(self.XID(val('id'))) if has('id') else None)
        if has('name'):
            c.prove(isinstance(a['ename'], NameK) and mkb(ze(a['ename'].h) == fun_of(self, 'STRIPPED')(val('name'))), 'the name given')
        else:
            c.prove(a['ename'] is None, 'no name')
        c.prove(a['baseClass'] is base, 'the type given')
        c.prove(isinstance(a['attribs'], Attribs) and self.same(a['attribs'], at), 'the attributes given')
        c.prove(a['attribs'] is not at, 'a copy of them')
        p = a['parent']
        c.prove(p is parent or p is None and parent is self.schema, 'under its parent')
        if c.case('addElement', 'returns', 'raises') == 'raises':
            graise(TypeError('definition'))
        return self.cls


def parse_xml(c):
    w = XmlWorld(c)
    ip = w.ip
    tag = c.case('tag', 'Schema', 'StrangeElement', 'Strange', *core.Schema.BASE_CLASSES)
    node = XNode(w, tag, c.fresh('k'), w.n)
    parent = c.case('parent', lambda: w.schema, lambda: SClass(core.MasterElement, {}, 'a class'))
    st = dict(first=True)
    PARSE, ADD = core.Schema._parseSchema, core.Schema.addElement

    def parse(ip, args, kwargs):
        if st['first']:
            st['first'] = False
            return NotImplemented
        a = bindargs(PARSE, args, kwargs)
        el, p = a['el'], a['parent']
        if tag != 'Schema' and tag != 'MasterElement' or not isinstance(el, XNode):
            raise Unsupported('recursion here')
        c.prove(mkb(ze(el.k) == ze(w.seen.get())), 'the children, each once, in order')
        if tag == 'Schema':
            c.prove(p is w.schema or p is None, 'elements at the top are defined under the schema')
        else:
            c.prove(w.added == 1 and p is w.cls, 'children are defined under their parent')
        if c.decide(c.fresh_bool('child refused')):
            graise(TypeError('definition'))
        w.seen.set(w.seen.get() + 1)
        return None

    def add(ip, args, kwargs):
        a = bindargs(ADD, args, kwargs)
        c.prove(tag in core.Schema.BASE_CLASSES and w.added == 0, 'one element is defined')
        w.added += 1
        return w.definition(a, node, core.Schema.BASE_CLASSES.get(tag), parent)
    c.summaries[PARSE], c.summaries[ADD] = parse, add
    c.cover('start')
    got = outcome(lambda: ip.call(ip.getattr(w.schema, '_parseSchema'), [node, parent]))
    x, y = c.fresh('x'), c.fresh('y')
    w.unchanged(x, y)
    if got[0] == 'exc':
        c.prove(tag not in ('Schema', 'MasterElement') or not isinstance(got[1], (KeyError, AttributeError)), 'no other error')
        c.cover('raises')
        return
    if tag in core.Schema.BASE_CLASSES:
        c.prove(w.added == 1, 'the element is defined')
    if tag in ('Schema', 'MasterElement'):
        c.prove(mkb(ze(w.seen.get()) == ze(w.n)), 'all children are defined')
        c.cover('children')
    c.cover('end')


def parse_legacy(c):
    w = XmlWorld(c)
    ip = w.ip
    root = XNode(w, 'table', c.fresh('k'), w.n)
    ADD = core.Schema.addElement

    def add(ip, args, kwargs):
        a = bindargs(ADD, args, kwargs)
        k = w.seen.get()
        node = w.child(k)
        at = node.a_attrib
        c.prove(mkb(z3.And(ze(k) < ze(w.n), at.has(at.key('type')))), 'an element that states its type')
        t = w.type_name(Raw(w, 'type', at.val(at.key('type'))))
        c.prove(t in core.Schema.ELEMENT_TYPES, 'a known type')
        w.definition(a, node, core.Schema.ELEMENT_TYPES.get(t), w.schema)
        w.seen.set(k + 1)
        return w.cls
    c.summaries[ADD] = add
    c.cover('start')
    got = outcome(lambda: ip.call(ip.getattr(w.schema, '_parseLegacySchema'), [root]))
    w.unchanged(c.fresh('x'), c.fresh('y'))
    if got[0] == 'exc':
        c.cover('raises')
        return
    c.prove(mkb(ze(w.seen.get()) == ze(w.n)), 'all elements are defined')
    c.cover('end')


def loading(c):
    """Schema(source): from nothing, through the definitions, to the tables."""
    w = XmlWorld(c)
    ip = w.ip
    tag = c.case('root', 'Schema', 'table', 'other')
    root = XNode(w, tag, c.fresh('k'), w.n)
    calls = []

    def tree(ip, args, kwargs):
        calls.append('tree')
        if c.case('xml', 'read', 'broken') == 'broken':
            graise(ET.ParseError('xml'))
        return Tree(root)
    c.summaries[ET.parse] = tree
    c.summaries[os.path.realpath] = lambda ip, args, kwargs: SOpaque(str, 'path')
    c.models[os.path.realpath] = lambda ip, x: SOpaque(str, 'path')

    def parse(fn, how):
        def f(ip, args, kwargs):
            a = list(bindargs(fn, args, kwargs).values())
            c.prove(how == tag and a[1] is root and calls == ['tree'], 'the root is read, once')
            calls.append(how)
            o = a[0]
            for name in ('elements', 'elementsByName', 'elementInfo', 'globals'):
                t = ip.getattr(o, name)
                c.prove(isinstance(t, GDict) and not t.items, 'at first there are no definitions')
            t = ip.getattr(o, 'children')
            c.prove(isinstance(t, GSet) and not t.items, 'and no root elements')
            w.schema = o
            o.attrs.update(w.state())
            if c.case('definitions', 'fine', 'refused') == 'refused':
                graise(ValueError('definition'))
        return f
    for name, how in (('_parseSchema', 'Schema'), ('_parseLegacySchema', 'table')):
        fn = getattr(core.Schema, name)
        c.summaries[fn] = parse(fn, how)
    source = c.case('source', lambda: SOpaque(str, 'file'), lambda: Stream())
    name = c.case('name', lambda: NameK(w, c.fresh('name', 1)), lambda: None)
    c.models['str'] = lambda ip, v: v if isinstance(v, (Raw, NameK)) else NotImplemented
    c.cover('start')
    got = outcome(lambda: ip.call(core.Schema, [source], {} if name is None else {'name': name}))
    if got[0] == 'exc':
        c.cover('raises')
        return
    s = got[1]
    c.prove(s is w.schema and calls == ['tree', tag], 'a schema of what was read')
    if s is not w.schema:
        return
    x, y = c.fresh('x'), c.fresh('y')
    w.replaced()
    w.coherent(x, y)
    v = w.byname.find('Void')
    if v is not ABSENT:
        c.prove(isinstance(v, SClass) and v.base is core.VoidElement, 'Void has its own type')
        i = w.byname.find('Void', True).eid
        c.prove(w.elements.find(i) is v, 'in both tables')
        same_value(c, 'with the ID it had', ip.getattr(v, 'id'), i)
        if c.decide(z3.And(ze(x) != ze(i), ze(y) != CODES['Void'])):
            w.unchanged(x, y)
        c.cover('Void')
    else:
        w.unchanged(x, y)
        c.cover('no Void')
    if name is not None:
        c.prove(ip.getattr(s, 'name') is name, 'it has the name given')
    doc = ip.getattr(s, 'document')
    c.prove(isinstance(doc, SClass) and doc.base is core.Document and doc.attrs.get('schema') is s, 'its documents belong to it')
    now, then = w.children(s, x)
    c.prove(mkb(zb(now) == then), 'the root elements are as defined')


class Tree(Sym):
    def __init__(self, root):
        self.root = root

    def m_getroot(self):
        return self.root

    __hash__ = Sym.__hash__


class Stream(Sym):
    """A source that is a stream without a name."""
    def guest_hasattr(self, ip, n):
        return n == 'read'

    pytype = type('TextStream', (), {'__module__': 'pyvc.values'})
    __hash__ = Sym.__hash__


KINDS = [
    Kind('define', K.check_define, K.gen_define, K.dir_define, n=4000),
    Kind('schema_xml', K.check_schema_xml, K.gen_schema_xml, (), n=1000),
]

ASSUMED = ['ast.literal_eval of an attribute gives a value or raises SyntaxError or ValueError',
           'xml.etree gives the elements, attributes and texts of the file',
           'the ID 0 is left open']

PROPERTY = Property('C16', [
    Proof('a new definition', lambda c: define(c, 'new'), ['core.Schema.addElement'], covers=['start', 'refused', 'accepted', 'attribute']),
    Proof('a repeated definition', lambda c: define(c, 'again'), ['core.Schema.addElement', 'core.Schema.__getitem__'],
          covers=['start', 'refused', 'accepted']),
    Proof('lookups', lookups, ['core.Schema.__contains__', 'core.Schema.__getitem__', 'core.Schema.get'], covers=['in', '[]', 'get', 'get default']),
    Proof('definitions in XML', parse_xml, ['core.Schema._parseSchema'], covers=['start', 'raises', 'children', 'end']),
    Proof('definitions in the old XML format', parse_legacy, ['core.Schema._parseLegacySchema'], covers=['start', 'raises', 'end']),
    Proof('loading a schema', loading, ['core.Schema.__init__', 'core.Schema._getInfo', 'core.Schema.type'],
          covers=['start', 'raises', 'Void', 'no Void']),
], KINDS, assumptions=ASSUMED)
