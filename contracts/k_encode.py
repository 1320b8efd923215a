"""Executable contracts of C09, C10, C15."""
from .world import *


def classes(w, name):
    return w.byname[name], w.cls(name)


INF_FINDING = range(2, 9)


def oracle_encode(w, sp, value, length=None, sl=None, infinite=False):
    """Bytes of one element, or Refused."""
    if infinite and sp.kind != 'm':
        raise Refused
    length = sp.length if length is None else length
    if sp.kind == 'm':
        p = enc_tree(w, value)
        if length is not None and len(p) != length:
            raise Refused
    else:
        p = enc_leaf(sp.kind, value, length)
    return enc_id(sp.id), len(p), p


def check_element(desc, name, value, length=None, lengthSize=None, infinite=False, data=None):
    """One value; data: the form handed to encode (masters)."""
    w = world(desc)
    sp, cls = classes(w, name)
    given = data if sp.kind == 'm' else value
    kw = dict(length=length, lengthSize=lengthSize, infinite=infinite)
    try:
        i, n, p = oracle_encode(w, sp, value, length, lengthSize, infinite)
        s = None if infinite else enc_size(n, None if lengthSize in (None, -1) else lengthSize)
        want = None
    except Refused:
        want = 'an error'
    try:
        got = bytes(cls.encode(given, **kw))
    except Exception as e:
        if want is None:
            raise Broken('%s.encode(%r, %r) raised %r' % (name, given, kw, e))
        if infinite and sp.kind != 'm' and not isinstance(e, ValueError):
            raise Broken('%s.encode(infinite=True) raised %r instead of ValueError' % (name, e))
        return
    if want is not None:
        raise Broken('%s.encode(%r, %r) = %r instead of an error' % (name, given, kw, got))
    if infinite:
        # known finding: the descriptor of 2..8 bytes is not the unknown pattern; its length and the rest are checked
        if lengthSize in INF_FINDING:
            if got[:len(i)] != i or got[len(i) + lengthSize:] != p:
                raise Broken('%s.encode(%r, %r) = %r' % (name, given, kw, got))
            return
        s = enc_size(None)
    if got != i + s + p:
        raise Broken('%s.encode(%r, %r) = %r, expected %r' % (name, given, kw, got, i + s + p))


def check_list(desc, name, values, length=None, lengthSize=None, infinite=False, datas=None, tup=False):
    w = world(desc)
    sp, cls = classes(w, name)
    given = list(datas if sp.kind == 'm' else values)
    given = tuple(given) if tup else given
    kw = dict(length=length, lengthSize=lengthSize, infinite=infinite)
    if not sp.multiple:
        try:
            got = cls.encode(given, **kw)
        except ValueError:
            return
        raise Broken('%s (not multiple) .encode(%r) = %r instead of ValueError' % (name, given, got))
    parts, bad = [], False
    for x in (datas if sp.kind == 'm' else values):
        try:
            parts.append(bytes(cls.encode(x, **kw)))
        except Exception:
            bad = True
            break
    try:
        got = bytes(cls.encode(given, **kw))
    except Exception as e:
        if not bad:
            raise Broken('%s.encode(%r, %r) raised %r though each value encodes' % (name, given, kw, e))
        return
    if bad:
        raise Broken('%s.encode(%r, %r) = %r though one value is refused' % (name, given, kw, got))
    if got != b''.join(parts):
        raise Broken('%s.encode(%r, %r) = %r, expected %r' % (name, given, kw, got, b''.join(parts)))


def noopts(nodes):
    """The tree without options: what the plain encoder produces."""
    return [(n[0], noopts(n[1]) if isinstance(n[1], list) else n[1]) for n in nodes]


def gen_element(rng):
    while True:
        d = gen_desc(rng, .3)
        w = world(d)
        sp = rng.choice(list(w.byid.values()))
        length = rng.choice((None, None, None, 8, rng.randint(0, 12), rng.randint(100, 140)))
        sl = rng.choice((None, None, -1, rng.randint(1, 8)))
        inf = rng.random() < (.3 if sp.kind == 'm' else .05)
        if sp.kind == 'm':
            v = noopts(rand_node(rng, w, sp, 2)[1])
            if length is not None and rng.random() < .7:
                length = len(enc_tree(w, v))
            # a list of pairs is one value; a list that holds anything else is several
            yield dict(desc=d, name=sp.name, value=v, data=as_one(rng, v), length=length, lengthSize=sl, infinite=inf)
        else:
            yield dict(desc=d, name=sp.name, value=rand_value(rng, sp.kind, sp.length), length=length, lengthSize=sl, infinite=inf)


def as_one(rng, nodes):
    return as_data(rng, nodes, False)


def gen_list(rng):
    while True:
        d = gen_desc(rng, .3)
        w = world(d)
        sp = rng.choice([s for s in w.byid.values() if s.kind != 'v'])
        n = rng.choice((0, 1, 2, 3, rng.randint(0, 12)))
        a = dict(desc=d, name=sp.name, length=rng.choice((None, None, None, 8)), lengthSize=rng.choice((None, None, 1, 4)), tup=rng.random() < .3)
        if sp.kind == 'm':
            a['values'] = ()
            a['infinite'] = rng.random() < .2
            a['length'] = None
            a['datas'] = [dict(x) for x in ([(c[0], c[1] if not isinstance(c[1], list) else dict_of(c[1])) for c in noopts(rand_node(rng, w, sp, 1)[1])] for _ in range(n))]
        else:
            a['values'] = [rand_value(rng, sp.kind, sp.length) for _ in range(n)]
        yield a


def dict_of(nodes):
    return {n[0]: dict_of(n[1]) if isinstance(n[1], list) else n[1] for n in nodes}


def dir_element():
    out = []
    for sl in (None, -1, 1, 2, 3, 8):
        for inf in (False, True):
            out.append(dict(desc=BASIC, name='Root', value=[('Int', 5), ('Str', 'abc')], data=[('Int', 5), ('Str', 'abc')], lengthSize=sl, infinite=inf))
            out.append(dict(desc=BASIC, name='Sub', value=[], data={}, lengthSize=sl, infinite=inf))
            out.append(dict(desc=BASIC, name='Sub', value=[], data=None, lengthSize=sl, infinite=inf))
        for n in (0, 1, 125, 126, 127, 128, 16382, 16383, 16384, 2 ** 21 - 2, 2 ** 21 - 1):
            out.append(dict(desc=BASIC, name='Bin', value=b'x' * n, lengthSize=sl))
    for n in (0, 1, 7, 8, 9, 12):
        for name, v in (('Bin8', b'abc'), ('Bin8', b'12345678'), ('Bin8', b'123456789'), ('U4', 77), ('I1', -3), ('Int', -129), ('UInt', 2 ** 64 - 1),
                        ('Flt', 1.5), ('Date', EPOCH), ('Str', 'hello'), ('Uni', 'h\xe9llo'), ('Bin', b'abc'), ('Void', None)):
            out.append(dict(desc=BASIC, name=name, value=v, length=n))
            out.append(dict(desc=BASIC, name=name, value=v))
    for n in (3, 4, 8, 0):
        out.append(dict(desc=BASIC, name='Sub', value=[('Int', 5)], data={'Int': 5}, length=n))
    for name in ('Int', 'Bin', 'Void', 'Str'):
        out.append(dict(desc=BASIC, name=name, value=1 if name == 'Int' else None if name == 'Void' else 'x' if name == 'Str' else b'x', infinite=True))
    ids = {n: s.id for n, s in world(BASIC).byname.items()}
    two = [('Int', 5), ('Str', 'abc')]
    for data in ([(ids[k], v) for k, v in two], tuple((ids[k], v) for k, v in two), {ids[k]: v for k, v in two}, tuple(two), [(ids['Int'], 5), ('Str', 'abc')], dict(two)):
        for name in ('Root', 'Single', 'Sub'):
            out.append(dict(desc=BASIC, name=name, value=two, data=data))
    for n, v in hard_leaves(True):
        out.append(dict(desc=BASIC, name=n, value=v))
        out.append(dict(desc=BASIC, name=n, value=v, lengthSize=3))
        out.append(dict(desc=BASIC, name=n, value=v, length=8))
    big = b'q' * 200
    out.append(dict(desc=BASIC, name='Root', value=[('Bin', big), ('Sub', [('Bin', big)])], data=[('Bin', big), ('Sub', {'Bin': big})]))
    return out


def dir_list():
    out = []
    for name in ('Int', 'UInt', 'Flt', 'Str', 'Uni', 'Date', 'Bin', 'Bin8', 'U4', 'Top'):
        v = {'Int': 3, 'UInt': 4, 'Flt': 2.5, 'Str': 'ab', 'Uni': 'cd', 'Date': EPOCH, 'Bin': b'xy', 'Bin8': b'z', 'U4': 9, 'Top': 8}[name]
        for n in (0, 1, 2, 5):
            for kw in ({}, dict(length=8), dict(lengthSize=4), dict(length=8, lengthSize=2), dict(tup=True)):
                out.append(dict(desc=BASIC, name=name, values=[v] * n, **kw))
    out.append(dict(desc=BASIC, name='Int', values=[1, 2, 2 ** 70, 3]))
    for k in ('Int', 'UInt', 'Flt', 'Date', 'Str', 'Uni', 'Bin'):
        out.append(dict(desc=BASIC, name=k, values=[v for n, v in hard_leaves(True) if n == k]))
    out.append(dict(desc=BASIC, name='Int', values=[1, 300], length=1))
    for name in ('Sub', 'Single'):
        out.append(dict(desc=BASIC, name=name, values=(), datas=[{'Int': 1}, {'Int': 2, 'UInt': 3}, {}]))
        out.append(dict(desc=BASIC, name=name, values=(), datas=[[('Int', 1)], [('Int', 2), ('Int', 3)]]))
    out.append(dict(desc=BASIC, name='Sub', values=(), datas=[{'Int': 1}, {'Int': 2}], infinite=True))
    out.append(dict(desc=BASIC, name='Sub', values=(), datas=[{'Int': 1}, {'Int': 2}], lengthSize=5))
    out.append(dict(desc=BASIC, name='Sub', values=(), datas=[{'Int': 1}, {'Int': 2}], length=3))
    return out


# --- masters and documents --------------------------------------------------

def check_master(desc, name, nodes, data):
    w = world(desc)
    cls = w.cls(name)
    try:
        want = enc_tree(w, nodes)
    except Refused:
        return
    got = cls.encodePayload(data)
    if bytes(got) != want:
        raise Broken('%s.encodePayload(%r) = %r, expected %r' % (name, data, bytes(got), want))
    got = cls.encode({} if data == [] or data == () else data)
    if w.byname[name].length is None and bytes(got) != enc_id(w.byname[name].id) + enc_size(len(want)) + want:
        raise Broken('%s.encode(%r) = %r, expected payload %r' % (name, data, bytes(got), want))


def header_bytes(w):
    """The EBML header a document starts with on request."""
    if 'EBML' not in w.byname:
        return b''
    kids = []
    for n, t in (('EBMLVersion', int), ('EBMLReadVersion', int), ('DocType', str), ('DocTypeVersion', int), ('DocTypeReadVersion', int)):
        if n in w.byname and 'default' in w.byname[n].attrs:
            try:
                kids.append((n, t(w.byname[n].attrs['default'])))
            except ValueError:
                pass
    return enc_node(w, ('EBML', kids))


def check_document(desc, nodes, data, headers=False):
    w = world(desc)
    try:
        want = enc_tree(w, nodes)
    except Refused:
        return
    want = (header_bytes(w) if headers else b'') + want
    got = w.schema.encodes(data, headers=headers)
    if bytes(got) != want:
        raise Broken('encodes(%r, headers=%r) = %r, expected %r' % (data, headers, bytes(got), want))
    out = io.BytesIO()
    out.write(b'pre')
    r = w.schema.encode(out, data, headers=headers)
    if r is not out or out.getvalue() != b'pre' + want:
        raise Broken('encode(stream, %r, headers=%r) wrote %r, expected %r' % (data, headers, out.getvalue(), want))
    out = io.BytesIO()
    w.schema.document.encode(out, data, headers=headers)
    if out.getvalue() != want:
        raise Broken('Document.encode wrote %r, expected %r' % (out.getvalue(), want))


def check_missing(desc, name, data, where='master'):
    """data holds a name the schema does not define."""
    w = world(desc)
    for f in ((lambda: w.cls(name).encodePayload(data)), (lambda: w.schema.encodes(data)), (lambda: w.schema.encodes([data] if isinstance(data, dict) else data))):
        try:
            r = f()
        except TypeError:
            continue
        raise Broken('encoding %r gave %r instead of TypeError' % (data, bytes(r)))


def gen_master(rng):
    while True:
        d = gen_desc(rng, .3)
        w = world(d)
        ms = w.masters()
        sp = rng.choice(ms)
        nodes = noopts(rand_node(rng, w, sp, 3)[1])
        yield dict(desc=d, name=sp.name, nodes=nodes, data=as_data(rng, nodes))


def gen_document(rng):
    while True:
        d = gen_desc(rng, .3)
        w = world(d)
        nodes = noopts(rand_tree(rng, w, 5, 3))
        r = rng.random()
        data = as_data(rng, nodes)
        if r < .3:       # a list of dictionaries
            data = []
            for n in nodes:
                v = as_data(rng, n[1], False) if isinstance(n[1], list) else n[1]
                data.append({n[0]: v} if rng.random() < .6 else (n[0], v))
        yield dict(desc=d, nodes=nodes, data=data, headers=rng.random() < .5)


def gen_missing(rng):
    while True:
        a = next(gen_master(rng))
        w = world(a['desc'])
        pairs = list(a['data'].items()) if isinstance(a['data'], dict) else list(a['data'] or [])
        bad = rng.choice(('NoSuch', 'Nope', 0x10000000 + rng.randint(0, 1), 'int', ''))
        if bad in w.byname or bad in w.byid:
            continue
        pairs.insert(rng.randint(0, len(pairs)), (bad, rng.choice((1, 'x', None, {}, b''))))
        names = [p[0] for p in pairs]
        data = dict(pairs) if len(set(names)) == len(names) and rng.random() < .5 else pairs
        yield dict(desc=a['desc'], name=a['name'], data=data)


N1 = [('Int', 5), ('UInt', 300), ('Str', 'abc'), ('Int', -6), ('Sub', [('Int', 1), ('Deep', [('Flt', 1.5), ('Date', EPOCH)])]), ('Uni', 'h\xe9'), ('Bin', b'\0\1'), ('Int', 5)]
D1 = [('Int', 5), ('UInt', 300), ('Str', 'abc'), ('Int', -6), ('Sub', {'Int': 1, 'Deep': [('Flt', 1.5), ('Date', EPOCH)]}), ('Uni', 'h\xe9'), ('Bin', b'\0\1'), ('Int', 5)]


def dir_master():
    D, out = BASIC, []
    out.append(dict(desc=D, name='Root', nodes=N1, data=D1))
    out.append(dict(desc=D, name='Root', nodes=N1, data=tuple(D1)))
    out.append(dict(desc=D, name='Root', nodes=[], data=None))
    out.append(dict(desc=D, name='Root', nodes=[], data={}))
    out.append(dict(desc=D, name='Root', nodes=[('Int', 1), ('Int', 2), ('Int', 3)], data={'Int': [1, 2, 3]}))
    out.append(dict(desc=D, name='Root', nodes=[('Int', 1), ('Int', 2), ('UInt', 7), ('Int', 3)], data=[('Int', [1, 2]), ('UInt', 7), ('Int', 3)]))
    out.append(dict(desc=D, name='Root', nodes=[('Sub', [('Int', 1)]), ('Sub', []), ('Sub', [('Int', 2)])], data={'Sub': [{'Int': 1}, {}, {'Int': 2}]}))
    out.append(dict(desc=D, name='Root', nodes=[('Sub', [('Int', 1), ('Int', 2)])], data={'Sub': [('Int', 1), ('Int', 2)]}))
    out.append(dict(desc=D, name='Root', nodes=[('Sub', None)], data={'Sub': None}))
    out.append(dict(desc=D, name='Root', nodes=[('Int', 4), ('UInt', 5)], data={0x81: 4, 0x4082: 5}))
    out.append(dict(desc=D, name='Root', nodes=[('Void', None), ('Int', 0)], data=[('Void', None), ('Int', 0)]))
    out.append(dict(desc=D, name='Root', nodes=[('Int', 0), ('UInt', 0), ('Flt', 0.0), ('Str', ''), ('Uni', ''), ('Bin', b''), ('Sub', [])],
                    data={'Int': 0, 'UInt': 0, 'Flt': 0.0, 'Str': '', 'Uni': '', 'Bin': b'', 'Sub': {}}))
    out.append(dict(desc=D, name='Root', nodes=[('Int', i) for i in range(300)], data=[('Int', i) for i in range(300)]))
    for n, v in hard_leaves(True):
        out.append(dict(desc=D, name='Root', nodes=[(n, v)], data={n: v}))
        out.append(dict(desc=D, name='Root', nodes=[('Int', 1), (n, v), (n, v)], data=[('Int', 1), (n, [v, v])]))
    out.append(dict(desc=D, name='Root', nodes=list(hard_leaves()), data=list(hard_leaves())))
    out.append(dict(desc=D, name='Single', nodes=[('Int', i) for i in range(3)], data=[('Int', i) for i in range(3)]))
    return out


def dir_document():
    out = []
    R = [('Int', 5), ('Str', 'abc')]
    odd = (('m', 0x1A45DFA3, 'EBML', {}, (('u', 0x4286, 'EBMLVersion', {'default': 0}, ()), ('u', 0x42F7, 'EBMLReadVersion', {'default': 'none'}, ()),
                                          ('s', 0x4282, 'DocType', {'default': ''}, ()), ('u', 0x4287, 'DocTypeVersion', {'default': 0}, ()))),) + NOHEAD
    out.append(dict(desc=odd, nodes=[('Root', R)], data={'Root': R}, headers=True))
    for h in (False, True):
        for D in (BASIC, NOHEAD, (HEADER,) + NOHEAD, (('m', 0x1A45DFA3, 'EBML', {}, (('s', 0x4282, 'DocType', {'default': 'x'}, ()), ('u', 0x4286, 'EBMLVersion', {}, ()))),) + NOHEAD,
                  (('m', 0x1A45DFA3, 'EBML', {}, ()),) + NOHEAD):
            for nodes, data in (([('Root', R)], {'Root': R}), ([('Root', R)], [('Root', R)]), ([('Root', R)], [{'Root': R}]), ([], {}),
                                ([('Root', R)], [{}, {'Root': R}]), ([('Root', R), ('Root', R)], [{'Root': R}, {}, {}, ('Root', R)]), ([], []), ([], None),
                                ([('Root', R), ('Root', [])], {'Root': [dict(R), {}]}), ([('Root', R), ('Root', R), ('Root', [])], [('Root', R), {'Root': [dict(R), {}]}]),
                                ([('Root', [('Int', 1)]), ('Root', [('Int', 2)])], [('Root', {'Int': 1}), ('Root', {'Int': 2})])):
                out.append(dict(desc=D, nodes=nodes, data=data, headers=h))
        out.append(dict(desc=BASIC, nodes=[('Top', 1), ('Root', R), ('TopText', 'x'), ('Top', 2), ('Root2', [('Bin', b'abc')])],
                        data=[('Top', 1), {'Root': R, 'TopText': 'x'}, ('Top', 2), {'Root2': {'Bin': b'abc'}}], headers=h))
        out.append(dict(desc=BASIC, nodes=[('Top', 1), ('TopText', 'a'), ('TopText', 'b')], data={'Top': 1, 'TopText': ['a', 'b']}, headers=h))
    return out


def dir_missing():
    return [dict(desc=BASIC, name='Root', data=x) for x in ({'Nope': 1}, {'Int': 1, 'Nope': None}, [('Int', 1), ('Nope', 1)], {'Sub': {'Nope': 1}}, {'Sub': [{'Nope': 1}]},
                                                           [('Sub', {'Int': 1}), ('Sub', [('Nope', 1)])], {0x99: 1}, {'int': 1}, {'': 1}, {'Nope': None}, [('Nope', [])])]


# --- encode, then parse -----------------------------------------------------

def same_tree(w, els, nodes, path, deep=None):
    els = list(els)
    if len(els) != len(nodes):
        raise Broken('%s: %d elements instead of %d: %r' % (path, len(els), len(nodes), els[:10]))
    for el, n in zip(els, nodes):
        sp = w.byname[n[0]]
        p = '%s/%s' % (path, n[0])
        if el.id != sp.id or el.name != sp.name or not isinstance(el, w.cls(n[0])):
            raise Broken('%s: parsed as %r' % (p, el))
        if sp.kind == 'm':
            same_tree(w, el if deep is None else el.value, n[1] or [], p, deep)
            continue
        if sp.kind == 'v':
            continue
        v, want = el.value, parsed_value(sp, n[1])
        if not eqv(v, want):
            raise Broken('%s: value %r, encoded %r' % (p, v, n[1]))


def parsed_value(sp, v):
    if sp.kind == 'b':
        v = enc_leaf('b', v, sp.length)
    if sp.kind == 'f' and v == 0:
        return 0.0
    if sp.kind == 's':
        v = ''.join(c if 32 <= ord(c) < 127 else '?' for c in v)
    if sp.kind in 'st' and sp.length is not None:
        v = enc_leaf(sp.kind, v, sp.length).split(b'\0')[0].decode('utf8')
    return v


def check_tree(desc, nodes, data, headers=False):
    w = world(desc)
    try:
        enc_tree(w, nodes)
    except Refused:
        return
    b = w.schema.encodes(data, headers=headers)
    doc = w.schema.loads(b)
    same_tree(w, doc, nodes, '')
    same_tree(w, w.schema.load(io.BytesIO(b)).value, nodes, '', True)
    doc2 = w.schema.load(io.BytesIO(b), headers=True)
    n = len(nodes) + (1 if headers and 'EBML' in w.byname else 0)
    if len(doc2) != n:
        raise Broken('%d root elements instead of %d' % (len(doc2), n))
    if headers and 'EBML' in w.byname and doc2[0].name != 'EBML':
        raise Broken('the header is not the first root element: %r' % (doc2[0],))
    same_tree(w, list(doc2)[n - len(nodes):], nodes, '')


def gen_tree(rng):
    for a in gen_document(rng):
        yield a


def dir_tree():
    return dir_document() + [dict(desc=BASIC, nodes=[('Root', a['nodes'])], data={'Root': a['data']}) for a in dir_master()[:2] + dir_master()[3:]
                             if a['name'] == 'Root' and a['data'] is not None and not (isinstance(a['data'], dict) and not a['data'])]
