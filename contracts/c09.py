from .base import *
from .enc import *
from . import c01, c02
from . import k_encode as K

ENCODES = [core.Element.encode.__func__, core.MasterElement.encode.__func__]


def proofs_of(p, *names):
    return [x for x in p.PROPERTY.proofs if x.name in names]


def values_of(c, kind):
    """A single value, for the class."""
    if kind != 'm':
        return c.case('value', None, lambda: Val())
    n = c.fresh('pairs', 1)
    name = lambda: SOpaque(str, 'name')
    key = c.case('keys', lambda: name, lambda: lambda: c.fresh('key', 0))
    pairs = lambda t: SSeq(n, lambda k: (key(), Val('child')), 'pairs', t)
    return c.case('value', None, lambda: Val('dict', (dict,)), lambda: Val('something', (), (list, tuple, dict)), lambda: pairs(list), lambda: pairs(tuple))


def single(kind):
    def run(c):
        ip = Interp(c)
        c.uniform = True
        cls = element_class(c, kind)
        value = values_of(c, kind)
        length, ls, inf = options(c)
        eff = cls.attrs['length'] if length is None else length
        pay = {}

        def payload(data, ln):
            if data is not value:
                raise Unsupported('encodePayload of something else')
            key = 'none' if ln is None else 'length'
            if ln is not None:
                c.prove(same_opt(ln, eff), 'the payload is encoded with the length asked for')
            if key not in pay:
                if c.fresh_bool('refused').__bool__():
                    pay[key] = None
                else:
                    pay[key] = opaque_bytes('payload')
                    c.assume(pay[key].n <= MAXPAY)
            if pay[key] is None:
                graise(Refused('the value'))
            return pay[key]
        on_payload(c, payload)
        w = Descriptors(c, cls.attrs['id'], ls, inf)

        def want():
            if inf and kind != 'm':
                graise(ValueError())
            p = payload(value, eff)
            if eff is not None and not decide(c, mkb(ze(p.n) == ze(eff))):
                graise(ValueError())
            return cat(w.encodeId(cls.attrs['id']), w.encodeSize(None if inf else p.n, ls), p)
        kw = {}
        if length is not None or c.choose(2, 'given'):
            kw['length'] = length
        kw['lengthSize'] = ls
        kw['infinite'] = inf
        got = outcome(lambda: ip.call(ip.getattr(cls, 'encode'), [value], kw))
        ok = outcome(want)
        if ok[0] == 'exc' and got[0] == 'exc':
            if inf and kind != 'm':
                c.prove(isinstance(got[1], ValueError), 'only masters can be infinite: ValueError')
            c.prove(isinstance(got[1], Exception), 'an error')
            c.cover('refused')
            return
        same(c, 'ID, size, payload', got, ok)
        c.cover('end')
    return run


def several(kind, how='scalar', t=None):
    def run(c):
        ip = Interp(c)
        cls = element_class(c, kind)
        n = c.fresh('n', 0)
        c.uniform = True
        its = Items(c, n)
        typ = t or c.case('type', lambda: list, lambda: tuple)

        def item(k):
            if how in ('scalar', 'dictionaries'):
                return Val('item', (dict,) if kind == 'm' else (), (list, tuple), k=k)
            m = c.fresh('m', 0)
            s = SSeq(m, lambda j: (SOpaque(str, 'name'), Val('child')), 'pairs', list if how == 'lists of pairs' else tuple)
            s.k = k
            return s
        value = SSeq(n, item, 'values', typ)
        length, ls, inf = options(c)
        eff = cls.attrs['length'] if length is None else length

        def payload(data, ln):
            raise Unsupported('encodePayload for a list')
        on_payload(c, payload)

        def enc(fn):
            def s(ip, args, kwargs):
                a = bindargs(fn, args, kwargs)
                v = a.get('value', a.get('data'))
                if v is value:
                    return NotImplemented
                if not hasattr(v, 'k'):
                    raise Unsupported('encode of something else')
                c.prove(a['cls'] is cls, 'with the same class')
                ln = a['length'] if a['length'] is not None else cls.attrs['length']
                c.prove(same_opt(ln, eff), 'with the same length')
                c.prove(same_opt(a['lengthSize'], ls), 'with the same size length')
                i = a['infinite']
                c.prove(i is inf if isinstance(i, bool) else mkb(zb(i) == z3.BoolVal(inf)), 'with the same infinite flag')
                return its.encode(v.k)
            return s
        for fn in ENCODES:
            c.summaries[fn] = enc(fn)
        kw = dict(length=length, lengthSize=ls, infinite=inf)
        got = outcome(lambda: ip.call(ip.getattr(cls, 'encode'), [value], kw))
        if inf and kind != 'm':
            c.prove(got[0] == 'exc' and isinstance(got[1], ValueError), 'only masters can be infinite: ValueError')
            return
        if not c.decide(cls.attrs['multiple'].e):
            c.prove(got[0] == 'exc' and isinstance(got[1], ValueError) and not isinstance(got[1], Refused), 'a list is refused with ValueError for a type not multiple')
            c.cover('not multiple')
            return
        its.finish(got, 'a list')
    return run


KINDS = [
    Kind('element', K.check_element, K.gen_element, K.dir_element, n=2500),
    Kind('list', K.check_list, K.gen_list, K.dir_list, n=1500),
]

COVERS = ['all items', 'an item is refused', 'not multiple']
NAMES = dict(i='integer', u='unsigned', f='float', s='string', U='Unicode', d='date', b='binary', v='void', m='master')

PROPERTY = Property('C09', proofs_of(c01, 'getLength', 'encodeSize', 'encodeSize, length -1', 'encodeSize, unknown size, shortest form')
                    + proofs_of(c02, 'encodeId')
                    + [Proof('one value: ' + NAMES[k], single(k), ['core.Element.encode'] + ['core.MasterElement.encode'] * (k == 'm'), covers=['end', 'refused']) for k in BASES]
                    + [Proof('a list: ' + NAMES[k], several(k), ['core.Element.encode', 'core.Element._isMultiple'], covers=COVERS) for k in BASES if k != 'm']
                    + [Proof('a %s of %s: master' % (t.__name__, how), several('m', how, t), ['core.Element.encode', 'core.MasterElement.encode', 'core.MasterElement._isMultiple'], covers=COVERS)
                       for how in ('dictionaries', 'lists of pairs', 'tuples of pairs') for t in (list, tuple)],
                    KINDS,
                    assumptions=['payloads of at most 2**56-2 bytes; size descriptor lengths None, -1 and 1 to 8; a list given to a master class holds dictionaries, lists of pairs or tuples of pairs, all of one kind, none None'],
                    not_proved=[])
