"""Executable contracts of C11-C15, C21, C24."""
import os
import tempfile
from pathlib import Path

from .world import *
import ebmlite.util as util

NAMES = {'i': 'IntegerElement', 'u': 'UIntegerElement'}


def describe(e):
    return '<%s 0x%X @%r payload %r size %r>' % (type(e).__name__, e.id or 0, e.offset, e.payloadOffset, e.size)


def match(w, data, e, n, where=''):
    """Is e what the reference parser found?"""
    cls = w.schema.elements.get(n.id)
    if n.spec is None:
        if not isinstance(e, core.UnknownElement) or isinstance(e, core.VoidElement):
            raise Broken('%sunknown ID 0x%X gave %s' % (where, n.id, describe(e)))
    elif type(e) is not cls:
        raise Broken('%sID 0x%X gave %s' % (where, n.id, describe(e)))
    if (e.id, e.offset, e.payloadOffset) != (n.id, n.offset, n.payload) or e.size != n.size:
        raise Broken('%s%s, expected ID 0x%X offset %d payload %d size %d' % (where, describe(e), n.id, n.offset, n.payload, n.size))


def check_raw(w, data, e, n, spots=(0,)):
    for p in spots:
        e.stream.seek(p)
        if bytes(e.getRaw()) != data[n.offset:n.end]:
            raise Broken('%s.getRaw() is not the bytes from %d to %d (stream at %d before)' % (describe(e), n.offset, n.end, p))
        e.stream.seek(p)
        if bytes(e.getRawValue()) != data[n.payload:n.end]:
            raise Broken('%s.getRawValue() is not the bytes from %d to %d (stream at %d before)' % (describe(e), n.payload, n.end, p))


def precached(n):
    return n.spec is not None and bool(n.spec.precache)


def document(w, data, start=0, headers=True):
    s = io.BytesIO(data)
    s.seek(start)
    return w.schema.document(s, headers=headers)


# --- C11 ----------------------------------------------------------------------

def check_parse(desc, data, pos, nocache=False, spots=(0,), hpos=0):
    """Parse one element at pos, by a document and by a fresh master."""
    w = world(desc)
    try:
        n = ref_node(w, data, pos)
        ok = readable(w, data, n) or not precached(n)
    except (Stop, End):
        return
    doc = document(w, data)
    parsers = [doc] + [w.schema.elements[m.id](doc.stream, 0, None, 0) for m in w.masters()[:2]]
    for parser in parsers:
        doc.stream.seek(pos)
        try:
            e, nxt = parser.parseElement(doc.stream, nocache=nocache) if nocache else parser.parseElement(doc.stream)
        except Exception as x:
            if ok or nocache:
                raise Broken('parseElement at %d raised %r' % (pos, x))
            return
        match(w, data, e, n)
        if nxt != n.end:
            raise Broken('parseElement at %d: next element at %r, expected %d' % (pos, nxt, n.end))
        if getattr(e, 'schema', None) is not w.schema:
            raise Broken('%s.schema is not the schema' % describe(e))
        if e.stream is not doc.stream:
            raise Broken('%s.stream is not the stream' % describe(e))
        check_raw(w, data, e, n, spots)
        if n.declared is None and data:
            # an instance that has not been measured yet
            for f, want in (('getRaw', data[n.offset:n.end]), ('getRawValue', data[n.payload:n.end])):
                fresh = type(e)(doc.stream, n.offset, None, n.payload)
                doc.stream.seek(spots[0] if spots else 0)
                if bytes(getattr(fresh, f)()) != want:
                    raise Broken('%s.%s() of a new instance is not %d bytes from %d' % (describe(fresh), f, len(want), n.offset))


def check_walk(desc, data, start=0, headers=True, spots=(0, 3)):
    """C11 and C12: every element at every level."""
    w = world(desc)
    doc = document(w, data, start, headers)
    first = start
    if not headers:
        try:
            n = ref_node(w, data, start)
            if n.spec is not None and n.spec.name == 'EBML' and readable(w, data, n):
                first = n.end
            elif n.spec is not None and n.spec.name == 'EBML':
                return
        except (Stop, End):
            pass
    walk_level(w, data, doc, None, first, spots, 0)


def expected(w, data, node, start):
    """(nodes, complete): as far as the format specifies them."""
    out = []
    p = node.payload if node is not None else start
    while node is None or p < node.end:
        try:
            n = ref_node(w, data, p)
        except End:
            return out, True
        except Stop:
            return out, False
        out.append(n)
        p = n.end
    return out, True


def levels(w, data, node, start):
    """How far the elements are readable as early as they are read."""
    nodes, complete = expected(w, data, node, start)
    for i, n in enumerate(nodes):
        if precached(n) and not readable(w, data, n):
            return nodes[:i], False
    return nodes, complete


def walk_level(w, data, e, node, start, spots, depth):
    nodes, complete = levels(w, data, node, start)
    what = 'document' if node is None else describe(e)
    got = []
    try:
        p = None
        for i, c in enumerate(e):
            got.append(c)
            if i < len(nodes):
                match(w, data, c, nodes[i], 'child %d of %s: ' % (i, what))
                if spots:
                    check_raw(w, data, c, nodes[i], spots[:1])
                e.stream.seek(spots[i % len(spots)] if spots else 0)
            elif complete:
                raise Broken('%s: more children than there are: %s' % (what, describe(c)))
            if c.offset is not None and p is not None and c.offset < p + 2:
                raise Broken('%s: no progress at %s' % (what, describe(c)))
            p = c.offset
            if i > len(data):
                raise Broken('%s: iteration does not end' % what)
    except Broken:
        raise
    except Exception as x:
        if complete:
            raise Broken('iterating %s raised %r' % (what, x))
    if len(got) < len(nodes):
        raise Broken('%s: %d children, expected %d' % (what, len(got), len(nodes)))
    if complete:
        e.stream.seek(0)
        if len(e) != len(nodes) or len(e) != len(nodes):
            raise Broken('len(%s) = %r, expected %d' % (what, len(e), len(nodes)))
        again = [c for c in e]
        if len(again) != len(nodes):
            raise Broken('%s: second iteration has %d children, expected %d' % (what, len(again), len(nodes)))
        e.stream.seek(len(data))
        vals = list(e.value)
        if len(e) != len(nodes):
            raise Broken('len(%s) = %r after its value was read, expected %d' % (what, len(e), len(nodes)))
        for c, n in zip(again, nodes):
            if n.spec is not None and n.spec.kind == 'm' and levels(w, data, n, None)[1]:
                try:
                    k = len(c.value), len(c)
                except Exception as x:
                    raise Broken('%s: %r, reading the value and then the length' % (describe(c), x))
                if k[0] != k[1]:
                    raise Broken('%s: %d children in its value, of length %d' % (describe(c), k[0], k[1]))
        for form, seq in (('second iteration', again), ('value', vals)):
            if len(seq) != len(nodes):
                raise Broken('%s: %s has %d children, expected %d' % (what, form, len(seq), len(nodes)))
            for c, n in zip(seq, nodes):
                match(w, data, c, n, '%s of %s: ' % (form, what))
        for i in {0, len(nodes) - 1, len(nodes) // 2} - {-1}:
            if i < len(nodes):
                match(w, data, e[i], nodes[i], '%s[%d]: ' % (what, i))
                if node is not None:
                    match(w, data, e[i - len(nodes)], nodes[i], '%s[%d]: ' % (what, i - len(nodes)))
        for i in (len(nodes), len(nodes) + 3):
            try:
                x = e[i]
            except IndexError:
                continue
            raise Broken('%s[%d] gave %r with %d children' % (what, i, x, len(nodes)))
        if node is not None:
            if [c.offset for c in e[1:-1]] != [n.offset for n in nodes[1:-1]]:
                raise Broken('%s[1:-1] differs' % what)
    if depth < 6:
        for c, n in zip(got, nodes):
            if n.spec is not None and n.spec.kind == 'm':
                walk_level(w, data, c, n, None, spots, depth + 1)


# --- C13 ------------------------------------------------------------------------

def check_unknown(desc, name, kids, after, sl=1, sibling=None):
    """A master of unknown size at the root or inside Root, followed by other elements."""
    w = world(desc)
    sp = w.byname[name]
    try:
        one = enc_node(w, (name, kids, {'inf': 1, 'sl': sl}))
        rest = enc_tree(w, after)
        known = enc_node(w, (name, kids))
    except Refused:
        return
    data = one + rest
    try:
        n = ref_node(w, data, 0)
        nodes = ref_children(w, data, n)
    except Stop:
        return
    doc = document(w, data)
    doc.stream.seek(0)
    try:
        e, nxt = doc.parseElement(doc.stream)
    except Exception as x:
        if precached(n):
            return
        raise Broken('parseElement raised %r' % x)
    doc.stream.seek(len(data) // 2)
    match(w, data, e, n)
    if nxt != n.end:
        raise Broken('%s: next element at %r, expected %d' % (describe(e), nxt, n.end))
    readback = [readable(w, data, c) or not precached(c) for c in nodes]
    if not all(readback):
        return
    m = len(e)
    cs = list(e)
    if m != len(nodes) or len(cs) != len(nodes):
        raise Broken('%s: length %d, %d children, expected %d' % (describe(e), m, len(cs), len(nodes)))
    for c, k in zip(cs, nodes):
        match(w, data, c, k, 'child of %s: ' % describe(e))
    for c, k in zip(e.value, nodes):
        match(w, data, c, k, 'child of %s: ' % describe(e))
    # a fresh instance asked for its length first
    f = type(e)(doc.stream, 0, None, n.payload)
    if len(f) != len(nodes) or f.size != n.size or [c.offset for c in f] != [k.offset for k in nodes]:
        raise Broken('%s: asked for the length first, len %d size %d' % (describe(e), len(f), f.size))
    # the same payload with an explicit size
    payload = data[n.payload:n.end]
    data2 = enc_id(sp.id) + enc_size(len(payload)) + payload + data[n.end:]
    g, _ = document(w, data2).parseElement(io.BytesIO(data2))
    if (g.size, len(g)) != (e.size, len(e)):
        raise Broken('%s: size %d len %d, with an explicit size %d and %d' % (describe(e), e.size, len(e), g.size, len(g)))
    d = g.payloadOffset - e.payloadOffset
    if [(type(x), x.id, x.offset + d, x.size) for x in e] != [(type(x), x.id, x.offset, x.size) for x in g]:
        raise Broken('%s: children differ from those with an explicit size' % describe(e))
    if all(readable(w, data, c) for c in nodes):
        for a, b in zip(e, g):
            if a.spec_kind() if hasattr(a, 'spec_kind') else isinstance(a, core.MasterElement):
                continue
            if not eqv(a.value, b.value):
                raise Broken('%s: value %r, with an explicit size %r' % (describe(a), a.value, b.value))


def check_declared(desc, name, size, data):
    """A declared size is reported as is, whatever the data hold."""
    w = world(desc)
    sp = w.byname[name]
    blob = enc_id(sp.id) + enc_size(size) + data
    for parser in (document(w, blob), w.schema.elements[sp.id](io.BytesIO(blob), 0, 0, 0)):
        s = io.BytesIO(blob)
        e, nxt = parser.parseElement(s, nocache=True)
        for _ in range(2):
            if e.size != size:
                raise Broken('%s: size %r, declared %d' % (name, e.size, size))
            try:
                len(e)
            except Exception:
                pass
        if nxt != len(blob) - len(data) + size:
            raise Broken('%s: next element at %d, declared end %d' % (name, nxt, len(blob) - len(data) + size))


# --- C14 ------------------------------------------------------------------------

def held(e, recurse):
    """How many values this element holds (for gc to clear)."""
    v = getattr(e, '_value', None)
    if v is None or isinstance(e, core.Document):
        return 0
    n = 1
    if recurse and isinstance(e, core.MasterElement):
        n += sum(held(c, True) for c in v)
    return n


def check_history(desc, nodes, ops, data=None):
    w = world(desc)
    if data is None:
        data = enc_tree(w, nodes)
    try:
        roots = ref_roots(w, data)
    except Stop:
        return
    if not all(readable(w, data, r) for r in roots):
        return
    doc = document(w, data)
    pool = [(doc, None)]
    kids = {}

    def children(n):
        k = n.offset if n is not None else -1
        if k not in kids:
            kids[k] = roots if n is None else ref_children(w, data, n)
        return kids[k]
    log = []
    for op, a, b in ops:
        e, n = pool[a % len(pool)]
        master = n is None or n.spec is not None and n.spec.kind == 'm'
        log.append((op, a % len(pool)))
        try:
            if op == 'value':
                v = e.value
                if not master:
                    want = ref_value(n.spec.kind if n.spec is not None else 'b', data[n.payload:n.end])
                    if n.spec is not None and n.spec.kind == 'v':
                        pass
                    elif not eqv(v, want):
                        raise Broken('%s: value %r, expected %r after %r' % (describe(e), v, want, log))
                    if n.spec is not None and n.spec.kind == 'v' and not isinstance(v, (bytes, bytearray)):
                        raise Broken('%s: value %r' % (describe(e), v))
                else:
                    v = list(v)
                    if len(v) != len(children(n)):
                        raise Broken('%s: %d children, expected %d after %r' % (describe(e) if n else 'document', len(v), len(children(n)), log))
                    for c, k in zip(v, children(n)):
                        match(w, data, c, k)
                        if len(pool) < 60:
                            pool.append((c, k))
            elif op == 'iter' and master:
                got = []
                for i, c in enumerate(e):
                    if i >= len(children(n)):
                        raise Broken('more children than expected after %r' % log)
                    match(w, data, c, children(n)[i])
                    got.append((c, children(n)[i]))
                    if b % 3 == 1:
                        e.stream.seek(b % (len(data) + 1))
                    if b % 3 == 2 and i == b % 4:
                        break
                else:
                    if len(got) != len(children(n)):
                        raise Broken('%d children, expected %d after %r' % (len(got), len(children(n)), log))
                pool.extend(got[:max(0, 60 - len(pool))])
            elif op == 'len' and master:
                if len(e) != len(children(n)):
                    raise Broken('len %d, expected %d after %r' % (len(e), len(children(n)), log))
            elif op == 'index' and master and children(n):
                i = b % len(children(n))
                c = e[i]
                match(w, data, c, children(n)[i])
                if len(pool) < 60:
                    pool.append((c, children(n)[i]))
            elif op == 'dump':
                e.dump()
            elif op == 'size' and n is not None:
                if e.size != n.size:
                    raise Broken('size %r, expected %d after %r' % (e.size, n.size, log))
            elif op == 'raw' and n is not None:
                check_raw(w, data, e, n, (b % (len(data) + 1),))
            elif op == 'gc':
                rec = bool(b % 2)
                want = held(e, rec)
                got = e.gc(recurse=rec) if b % 3 else e.gc(rec)
                if got != want:
                    raise Broken('%s.gc(%r) = %r, %d values were held, after %r' % (type(e).__name__, rec, got, want, log))
                if held(e, True) != 0:
                    raise Broken('%s still holds a value after gc, after %r' % (type(e).__name__, log))
            elif op == 'seek':
                doc.stream.seek(b % (len(data) + 1))
        except Broken:
            raise
        except Exception as x:
            raise Broken('%s raised %r after %r' % (op, x, log))


# --- C15 ------------------------------------------------------------------------

def compare_tree(w, got, nodes, path=''):
    got = list(got)
    if len(got) != len(nodes):
        raise Broken('%s: %d elements (%s), encoded %d' % (path or 'document', len(got), ', '.join(e.name for e in got), len(nodes)))
    for i, (e, n) in enumerate(zip(got, nodes)):
        sp = w.byname[n[0]]
        p = '%s/%s[%d]' % (path, n[0], i)
        if e.id != sp.id or e.name != sp.name or type(e) is not w.cls(sp.name):
            raise Broken('%s: parsed as %s' % (p, describe(e)))
        if sp.kind == 'm':
            compare_tree(w, e, n[1] or [], p)
            compare_tree(w, e.value, n[1] or [], p)
        elif sp.kind == 'v':
            pass
        else:
            want = rounded(sp, n[1])
            if want is not None and not eqv(e.value, want):
                raise Broken('%s: value %r, encoded %r' % (p, e.value, n[1]))


def rounded(sp, v):
    """What is stored: single-precision floats, cut texts, padded binaries, default for None."""
    if v is None:
        return b'' if sp.kind == 'b' else None
    if sp.kind == 'f' and sp.length == 4:
        return struct.unpack('>f', struct.pack('>f', v))[0]
    if sp.kind == 'b':
        b = v.encode('utf8') if isinstance(v, str) else bytes(v)
        return b + b'\0' * ((sp.length or 0) - len(b))
    if sp.length is not None and sp.kind in 'st':
        return None
    return v


def check_roundtrip(desc, nodes, data, headers=False):
    w = world(desc)
    try:
        want = enc_tree(w, nodes)
    except Refused:
        return
    out = w.schema.encodes(data, headers=headers)
    doc = w.schema.loads(bytes(out))
    compare_tree(w, doc, nodes)
    f = io.BytesIO(b'')
    w.schema.encode(f, data, headers=headers)
    f.seek(0)
    compare_tree(w, w.schema.load(f, headers=False), nodes)


# --- C21 ------------------------------------------------------------------------

def ref_flat(w, data, nodes, depth, d=1):
    out = []
    for n in nodes:
        out.append(n)
        if n.spec is not None and n.spec.kind == 'm' and (depth is None or depth < 0 or d < depth):
            out += ref_flat(w, data, ref_children(w, data, n), depth, d + 1)
    return out


def check_flat(desc, data, depth=None, at=None):
    w = world(desc)
    try:
        roots = ref_roots(w, data)
    except Stop:
        return
    if not all(readable(w, data, r) for r in roots):
        return
    doc = document(w, data)
    start, nodes = doc, roots
    if at is not None and roots:
        i = at % len(roots)
        start = doc[i]
        n = roots[i]
        nodes = ref_children(w, data, n) if n.spec is not None and n.spec.kind == 'm' else []
    want = ref_flat(w, data, nodes, depth) if depth != 0 else []
    got = list(util.flatiter(start, depth) if depth is not None else util.flatiter(start))
    if len(got) != len(want):
        raise Broken('flatiter(depth=%r) yields %d elements, expected %d' % (depth, len(got), len(want)))
    for e, n in zip(got, want):
        match(w, data, e, n, 'flatiter: ')


def check_verify(desc, data):
    w = world(desc)
    cut = False
    try:
        roots = ref_roots(w, data)
        allnodes = None
        if all(readable(w, data, r) for r in roots):
            allnodes = ref_flat(w, data, roots, None)
    except Stop as x:
        roots, allnodes = None, None
        cut = lenient(x)
    try:
        r = w.schema.verify(data)
    except Exception as x:
        if allnodes is not None and all(n.spec is not None for n in allnodes):
            raise Broken('verify raised %r though every element is defined and readable' % x)
        if allnodes is not None and not isinstance(x, NameError):
            raise Broken('verify raised %r, expected NameError for the unknown element' % x)
        return
    if r is not True:
        raise Broken('verify returned %r' % (r,))
    if roots is None:
        if cut:
            return
        # malformed data: an error must show up, unless it lies where no element is expected
        raise Broken('verify returned True though the data are malformed')
    if allnodes is not None and any(n.spec is None for n in allnodes):
        raise Broken('verify returned True though there is an unknown element')
    if allnodes is None and unreadable_value(w, data, roots):
        raise Broken('verify returned True though an element is not readable')


def lenient(x):
    """An incomplete header is taken for the end of the data; the reserved size 0x00... is not specified."""
    return str(x) in ('truncated id', 'truncated size', 'bad size')


def unreadable_value(w, data, nodes):
    """A leaf whose complete payload has no meaning, or that is cut off (numbers and dates)."""
    for n in nodes:
        if n.spec is None:
            continue
        if n.spec.kind == 'm':
            try:
                if unreadable_value(w, data, ref_children(w, data, n)):
                    return True
            except Stop as x:
                return lenient(x) is False
        elif n.spec.kind in 'iufd' and n.end > len(data):
            return n.spec.kind in 'fd' and n.size in (4, 8) or n.spec.kind == 'd'
        elif n.spec.kind in 'fdt' and n.end <= len(data) and ref_value(n.spec.kind, data[n.payload:n.end]) is None:
            return True
    return False


def ref_dump(w, data, nodes):
    out = {}
    for n in nodes:
        name, mult = (n.spec.name, n.spec.multiple) if n.spec is not None else ('UnknownElement', False)
        kind = n.spec.kind if n.spec is not None else 'b'
        v = ref_dump(w, data, ref_children(w, data, n)) if kind == 'm' else ref_value(kind, data[n.payload:n.end])
        if mult:
            out.setdefault(name, []).append(v)
        else:
            out[name] = v
    return out


def eqdump(a, b):
    if isinstance(b, dict):
        return isinstance(a, dict) and list(a) == list(b) and all(eqdump(a[k], b[k]) for k in b)
    if isinstance(b, list):
        return isinstance(a, list) and len(a) == len(b) and all(eqdump(x, y) for x, y in zip(a, b))
    return b is None or eqv(a, b)


def check_dump(desc, data):
    w = world(desc)
    try:
        roots = ref_roots(w, data)
    except Stop:
        return
    if not all(readable(w, data, r) for r in roots):
        return
    doc = document(w, data)
    got, want = doc.dump(), ref_dump(w, data, roots)
    if not eqdump(got, want):
        raise Broken('dump() = %r, expected %r' % (got, want))
    for e, n in zip(doc, roots):
        k = n.spec.kind if n.spec is not None else 'b'
        want = ref_dump(w, data, ref_children(w, data, n)) if k == 'm' else ref_value(k, data[n.payload:n.end])
        if want is not None and not eqdump(e.dump(), want):
            raise Broken('%s.dump() = %r, expected %r' % (describe(e), e.dump(), want))


# --- C24 ------------------------------------------------------------------------

def check_open(desc, data, how='bytesio', headers=True, start=0, ctx=0):
    """headers: True, False or None (the default: listed only by Document itself)."""
    direct = ctx == 3 and how != 'loads'
    asked = headers if headers is not None else direct
    w = world(desc)
    try:
        roots = ref_roots(w, data, start)
    except Stop:
        return
    if not all(readable(w, data, r) for r in roots):
        return
    hdr = roots[0] if roots and roots[0].spec is not None and roots[0].spec.name == 'EBML' else None
    info = ref_dump(w, data, ref_children(w, data, hdr)) if hdr is not None else {}
    listed = roots if hdr is None or asked else roots[1:]
    tmp = tempfile.mkdtemp(prefix='vk24')
    path = os.path.join(tmp, 'some.file.ebml')
    opened = None
    try:
        with open(path, 'wb') as f:
            f.write(data)
        if how in ('str', 'path'):
            if start:
                return
            src = path if how == 'str' else Path(path)
        elif how == 'file':
            opened = src = open(path, 'rb')
            src.seek(start)
        else:
            opened = src = io.BytesIO(data)
            src.seek(start)
        kw = {} if headers is None else dict(headers=headers)
        if how == 'loads':
            if start or headers:
                return
            opened = None
            doc = w.schema.loads(data)
        elif direct:
            doc = w.schema.document(src, **kw)
        elif ctx == 0 and headers is None:
            doc = w.schema(src)
        else:
            doc = w.schema.load(src, **kw)
        try:
            if not isinstance(doc, core.Document) or doc.schema is not w.schema:
                raise Broken('load gave %r' % doc)
            if not eqdump(doc.info, info) or not isinstance(doc.info, dict):
                raise Broken('info %r, expected %r' % (doc.info, info))
            if doc.type != info.get('DocType') or doc.version != info.get('DocTypeVersion'):
                raise Broken('type %r version %r, expected those of %r' % (doc.type, doc.version, info))
            got = list(doc)
            if len(got) != len(listed):
                raise Broken('%d root elements (headers=%r), expected %d' % (len(got), headers, len(listed)))
            for e, n in zip(got, listed):
                match(w, data, e, n, 'root element (headers=%r): ' % headers)
            if doc.offset != start:
                raise Broken('document offset %r, expected %d' % (doc.offset, start))
            s = doc.stream
            if opened is not None and s is not opened:
                raise Broken('the document does not use the stream it was given')
            if ctx == 0:
                doc.close()
            elif ctx == 1:
                with doc as d:
                    if d is not doc:
                        raise Broken('entering the context gives %r' % (d,))
                    list(d)
            elif ctx == 2:
                try:
                    with doc:
                        raise ZeroDivisionError
                except ZeroDivisionError:
                    pass
                else:
                    raise Broken('the context swallowed an exception')
            else:
                doc.close()
                doc.close()
            if opened is None and how != 'loads' and not s.closed:
                raise Broken('the file the document opened (%s) is still open after closing' % how)
            if opened is not None and opened.closed:
                raise Broken("the caller's stream (%s) was closed" % how)
        finally:
            if opened is None:
                doc.stream.close()
    finally:
        if opened is not None:
            opened.close()
        os.remove(path)
        os.rmdir(tmp)


class Only:
    """An object with some of the stream methods."""
    def __init__(self, names):
        for n in names:
            setattr(self, n, getattr(io.BytesIO(b''), n))


def check_refused(have):
    w = world(BASIC)
    try:
        d = w.schema.load(Only(have))
    except TypeError:
        if set(have) >= {'read', 'tell', 'seek'}:
            raise Broken('an object with %r was refused' % (have,))
        return
    if not set(have) >= {'read', 'tell', 'seek'}:
        raise Broken('an object with only %r was accepted' % (have,))


def check_other(obj):
    try:
        world(BASIC).schema.load({'none': None, 'int': 5, 'list': [], 'dict': {}, 'bytes': b'\x1a', 'object': object()}[obj])
    except TypeError:
        return
    raise Broken('a %s was accepted as a document' % obj)


# --- generators --------------------------------------------------------------------

def inf_node(rng, w, node, p=.3):
    """Some masters of unknown size."""
    if not isinstance(node[1], list) or node[0] not in w.byname or w.byname[node[0]].kind != 'm':
        return node
    o = dict(node[2]) if len(node) > 2 else {}
    if rng.random() < p:
        o['inf'] = 1
        if rng.random() < .6:
            o['sl'] = rng.randint(1, 8)
    return (node[0], [inf_node(rng, w, k, p) for k in node[1]], o)


def unknown_ids(w):
    return [i for i in (0xFE, 0x4FFF, 0x3FFFF1, 0x1FFFFFF3, 0xD0, 0x80) if i not in w.byid]


def sprinkle(rng, w, nodes, p):
    """Unknown and global elements among the others."""
    out = []
    for n in nodes:
        if isinstance(n[1], list) and not isinstance(n[0], int):
            n = (n[0], sprinkle(rng, w, n[1], p), n[2] if len(n) > 2 else {})
        out.append(n)
        r = rng.random()
        if r < p / 2:
            out.append((rng.choice(unknown_ids(w)), rng.randbytes(rng.randint(0, 9)), {}))
        elif r < p and w.globals:
            g = w.byid[rng.choice(sorted(w.globals))]
            out.append(rand_node(rng, w, g, 1, True))
    return out


def rand_doc(rng, header=None, inf=.2, noise=.15):
    """(desc, nodes): with headers, unknown sizes, unknown and global elements."""
    while True:
        d = gen_desc(rng, .35)
        w = world(d)
        nodes = rand_tree(rng, w, 4, 3, True)
        nodes = [inf_node(rng, w, n, inf if rng.random() < .5 else 0) for n in nodes]
        if rng.random() < .4:
            nodes = sprinkle(rng, w, nodes, noise)
        if 'EBML' in w.byname and (rng.random() < .5 if header is None else header):
            kids = [w.byid[i] for i in w.byname['EBML'].children]
            ks = [rand_node(rng, w, k, 1) for k in kids if rng.random() < .6]
            nodes.insert(0, ('EBML', ks, {}))
        try:
            enc_tree(w, nodes)
        except Refused:
            continue
        return d, w, nodes


def gen_parse(rng):
    while True:
        d, w, nodes = rand_doc(rng)
        data = enc_tree(w, nodes)
        if rng.random() < .3:
            data = mutate(rng, data)
        try:
            starts = [n.offset for n in ref_flat(w, data, ref_roots(w, data), None)]
        except Stop:
            starts = [0]
        pos = rng.choice(starts) if starts and rng.random() < .85 else rng.randint(0, len(data))
        yield dict(desc=d, data=data, pos=pos, nocache=rng.random() < .3, spots=(rng.randint(0, len(data)), 0))


def gen_walk(rng):
    while True:
        d, w, nodes = rand_doc(rng)
        data = enc_tree(w, nodes)
        if rng.random() < .35:
            data = mutate(rng, data)
        start = 0
        if rng.random() < .2:
            start = rng.randint(1, 9)
            data = rng.randbytes(start) + data
        yield dict(desc=d, data=data, start=start, headers=rng.random() < .7, spots=(rng.randint(0, len(data) + 2), 0, rng.randint(0, len(data))))


def gen_unknown(rng):
    while True:
        d = gen_desc(rng, .4)
        w = world(d)
        sp = rng.choice(w.masters())
        node = inf_node(rng, w, rand_node(rng, w, sp, 2, True), .3)
        kids = sprinkle(rng, w, node[1], .3) if rng.random() < .3 else node[1]
        after = []
        for _ in range(rng.randint(0, 3)):
            r = rng.random()
            if r < .2:
                after.append((rng.choice(unknown_ids(w)), rng.randbytes(rng.randint(0, 5)), {}))
            elif r < .4 and w.globals:
                after.append(rand_node(rng, w, w.byid[rng.choice(sorted(w.globals))], 1, True))
            else:
                after.append(inf_node(rng, w, rand_node(rng, w, rng.choice(list(w.byid.values())), 1, True), .2))
        yield dict(desc=d, name=sp.name, kids=kids, after=after, sl=rng.randint(1, 8))


def gen_declared(rng):
    while True:
        d = gen_desc(rng, .3)
        w = world(d)
        yield dict(desc=d, name=rng.choice(w.masters()).name, size=rng.choice((0, 1, 5, 126, 127, 128, 2 ** 21, rng.getrandbits(40))), data=rng.randbytes(rng.randint(0, 12)))


OPS = ('value', 'value', 'value', 'iter', 'iter', 'len', 'index', 'dump', 'size', 'raw', 'gc', 'gc', 'seek', 'seek')


def gen_history(rng):
    while True:
        d, w, nodes = rand_doc(rng)
        ops = [('value', 0, 0)] + [(rng.choice(OPS), rng.randint(0, 10 ** 6), rng.randint(0, 10 ** 6)) for _ in range(rng.randint(5, 40))]
        yield dict(desc=d, nodes=nodes, ops=ops)


def gen_roundtrip(rng):
    while True:
        d = gen_desc(rng, .35)
        w = world(d)
        nodes = rand_tree(rng, w, 5, 3)
        plain = [strip(n) for n in nodes]
        yield dict(desc=d, nodes=plain, data=as_data(rng, plain), headers=rng.random() < .5 and w.byname.get('EBML') is not None)


def strip(n):
    return (n[0], [strip(k) for k in n[1]] if isinstance(n[1], list) else n[1])


def gen_flat(rng):
    while True:
        d, w, nodes = rand_doc(rng)
        yield dict(desc=d, data=enc_tree(w, nodes), depth=rng.choice((None, None, -1, -5, 0, 1, 1, 2, 2, 3, 9)), at=rng.choice((None, None, rng.randint(0, 9))))


def gen_verify(rng):
    while True:
        d, w, nodes = rand_doc(rng, noise=.05)
        data = enc_tree(w, nodes)
        yield dict(desc=d, data=mutate(rng, data) if rng.random() < .4 else data)


def gen_dump(rng):
    while True:
        d, w, nodes = rand_doc(rng)
        yield dict(desc=d, data=enc_tree(w, nodes))


def gen_open(rng):
    while True:
        d, w, nodes = rand_doc(rng, header=rng.random() < .7)
        data = enc_tree(w, nodes)
        how = rng.choice(('bytesio', 'bytesio', 'file', 'str', 'path', 'loads'))
        start = 0
        if how in ('bytesio', 'file') and rng.random() < .3:
            start = rng.randint(1, 7)
            data = rng.randbytes(start) + data
        yield dict(desc=d, data=data, how=how, headers=rng.choice((None, False, True)), start=start, ctx=rng.randint(0, 3))


# --- directed ----------------------------------------------------------------------

H1 = ('EBML', [('EBMLVersion', 1), ('DocType', 'other'), ('DocTypeVersion', 9), ('DocTypeReadVersion', 2)], {})
T1 = ('Root', [('Int', 5), ('UInt', 300), ('Str', 'abc'), ('Sub', [('Int', 1), ('Deep', [('Flt', 1.5), ('Date', EPOCH)])]), ('Uni', 'h\xe9'), ('Bin', b'\0\1'), ('Void', None, {'len': 4}),
              ('Pre', [('Int', 7), ('Str', 'x')]), (0xFE, b'xyz'), ('Int', 6), ('Lazy', 'lazy'), ('ULazy', 9)], {})
T2 = ('Root2', [('Date', EPOCH), ('Inner', [('Int', -1), ('UInt', 2)]), ('Inner', [])], {})
DOCS = [[], [H1], [T1], [H1, T1], [H1, T1, T2, ('Top', 5), ('TopText', 'x'), ('TopText', '')], [T2, T2, (0xFE, b''), ('Void', None, {'len': 0}), T1],
        [('Root', T1[1], {'inf': 1}), T2], [('Root', [('Sub', T1[1][3][1], {'inf': 1, 'sl': 8}), ('Int', 3)], {'inf': 1, 'sl': 4}), T2],
        [('Root', [], {}), ('Root', [], {'inf': 1}), ('Root', [], {'inf': 1, 'sl': 3})],
        [('Root', [('Bare', [], {}), ('Pre', [], {}), ('Void', None, {'len': 130})], {'sl': 5})],
        [('Root', [('Int', i) for i in range(150)], {}), ('Root', [('Bin', bytes(130)), ('Bin', bytes(20000))], {})],
        [('Root', [(n, v, {}) for n, v in hard_leaves() if n in ('Int', 'UInt', 'Flt', 'Date')], {})],
        [('Root', [(n, v, {}) for n, v in hard_leaves() if n in ('Str', 'Uni', 'Bin')], {})]]


def docs():
    w = world(BASIC)
    return [enc_tree(w, n) for n in DOCS]


def dir_parse():
    out = []
    w = world(BASIC)
    for b in docs():
        if len(b) > 3000:
            continue
        for n in ref_flat(w, b, ref_roots(w, b), None):
            for nc in (False, True):
                out.append(dict(desc=BASIC, data=b, pos=n.offset, nocache=nc, spots=(0, n.offset + 1, len(b))))
    for k in range(1, 9):
        for name, v in (('Int', 5), ('Bin', b'abc'), ('Sub', [('Int', 1)]), (0xFE, b'q'), (0x1FFFFFF3, b'q'), ('Bin8', b'12345678')):
            b = b'zz' + enc_node(w, (name, v, {'sl': k})) + b'tail'
            out.append(dict(desc=BASIC, data=b, pos=2))
    return out


def dir_walk():
    out = []
    for b in docs():
        for h in (True, False):
            out.append(dict(desc=BASIC, data=b, headers=h))
            out.append(dict(desc=BASIC, data=b'pad' + b, start=3, headers=h))
        if len(b) < 200:
            for k in range(0, len(b)):
                out.append(dict(desc=BASIC, data=b[:k]))
    big = enc_tree(world(BASIC), [('Root', [('Int', i) for i in range(1300)])] + [('Void', None, {'len': 1})] * 1300)
    out.append(dict(desc=BASIC, data=big))
    return out


def dir_unknown():
    out = []
    for sl in range(1, 9):
        out.append(dict(desc=BASIC, name='Root', kids=T1[1], after=[T2], sl=sl))
        out.append(dict(desc=BASIC, name='Root', kids=[], after=[], sl=sl))
    for after in ([], [T1], [T2], [('Top', 4)], [(0xFE, b'x')], [('Void', None, {'len': 3})], [('CRC-32', b'abcd')], [('Void', None, {'len': 3}), T2], [('Int', 3), T1], [('TopText', 'x')],
                  [('Root', T1[1], {'inf': 1})], [('Root2', T2[1], {'inf': 1, 'sl': 5})]):
        for name in ('Root', 'Sub', 'Deep', 'Root2', 'Bare', 'Pre', 'Single'):
            for kids in ([], [('Int', 1)], [('Int', 1), ('UInt', 2), ('Str', 'abc')], [('Sub', [('Int', 1)], {'inf': 1}), ('Int', 4)], [('Int', 1), ('Void', None, {'len': 2}), ('Int', 3)],
                         [('Int', 1), (0xFE, b'abc'), ('Int', 2)], [('Deep', [('Int', 2)], {'inf': 1}), ('Deep', [], {'inf': 1, 'sl': 4})]):
                out.append(dict(desc=BASIC, name=name, kids=kids, after=after))
    for d in (LOCAL, LOCAL2):
        for after in ([('Void', None, {'len': 3})], [('Void', None, {'len': 0}), ('Root', [('Int', 3)])]):
            for name in ('Root', 'Sub', 'Root2', 'Bare'):
                for kids in ([], [('Int', 1)], [('Int', 1), ('Void', None, {'len': 2}), ('Int', 3)], [('Sub', [('Int', 1)], {'inf': 1}), ('Void', None, {'len': 2})]):
                    out.append(dict(desc=d, name=name, kids=kids, after=after))
    return out


def dir_declared():
    return [dict(desc=BASIC, name=n, size=s, data=b) for n in ('Root', 'Sub', 'Bare') for s in (0, 1, 2, 3, 5, 126, 127, 2 ** 14, 2 ** 40, 2 ** 56 - 2)
            for b in (b'', b'\x81\x81\x05', b'\x81\x81\x05\x81\x81\x06\x95\x80', b'\xfe\xfe')]


def dir_history():
    import random
    out = []
    rng = random.Random(5)
    for nodes in DOCS[:9] + DOCS[-2:]:
        for seq in (['value', 'gc', 'value', 'gc'], ['gc', 'value', 'raw', 'value'], ['len', 'value', 'len', 'gc', 'len'], ['value', 'len', 'gc', 'len'], ['iter', 'value', 'iter', 'gc', 'iter'],
                    ['size', 'value', 'size', 'gc', 'size'], ['dump', 'value', 'dump', 'gc', 'dump'], ['value', 'seek', 'value', 'gc', 'seek', 'value']):
            ops = [('value', 0, 0)]
            for o in seq:
                ops += [(o, i, b) for b in (0, 1) for i in range(40)]
            out.append(dict(desc=BASIC, nodes=nodes, ops=ops))
        for _ in range(3):
            out.append(dict(desc=BASIC, nodes=nodes, ops=[('value', 0, 0)] + [(rng.choice(OPS), rng.randint(0, 999), rng.randint(0, 999)) for _ in range(150)]))
    return out


def plainable(nodes):
    return [strip(n) for n in nodes if isinstance(n[0], str) and n[0] != 'EBML']


def dir_roundtrip():
    out = []
    base = [('Root', [('Int', 5), ('Int', -5), ('UInt', 2 ** 64 - 1), ('Flt', 0.0), ('Flt', -0.0), ('Flt', 0.1), ('Flt', float('inf')), ('Flt', float('nan')), ('Str', ''), ('Str', 'a' * 200), ('Uni', '\u20ac\U0001f600'),
                      ('Date', EPOCH), ('Date', EPOCH + datetime.timedelta(days=-5000, microseconds=7)), ('Bin', b''), ('Bin', bytes(range(256))), ('Int', -2 ** 63), ('Int', 2 ** 63 - 1), ('UInt', 0), ('Int', 0),
                      ('Bare', []), ('Sub', [('Deep', [('Int', 1)]), ('Deep', [])]), ('Bin8', b'12345678'), ('U4', 70000), ('I1', -128), ('Lazy', 'zz'), ('ULazy', 4), ('Pre', [('Int', 4)])]),
            ('Root2', []), ('Top', 5)]
    for h in (False, True):
        out.append(dict(desc=BASIC, nodes=base, data=[(n, v) for n, v in base], headers=h))
        out.append(dict(desc=BASIC, nodes=base[::-1], data=[(n, v) for n, v in base[::-1]], headers=h))
    out.append(dict(desc=BASIC, nodes=[strip(x) for x in WIDE], data=[strip(x) for x in WIDE]))
    for n, v in hard_leaves(True):
        out.append(dict(desc=BASIC, nodes=[('Root', [(n, v)])], data={'Root': {n: v}}))
        out.append(dict(desc=BASIC, nodes=[('Root', [('Sub', [('UInt', 9), (n, v), (n, v)])])], data={'Root': [('Sub', [('UInt', 9), (n, v), (n, v)])]}))
    for n in (125, 126, 127, 128, 16382, 16383, 16384, 100000, 2 ** 21 - 2, 2 ** 21 - 1, 2 ** 21):
        out.append(dict(desc=BASIC, nodes=[('Root', [('Bin', b'x' * n)])], data=[('Root', [('Bin', b'x' * n)])]))
        out.append(dict(desc=BASIC, nodes=[('Root', [('Sub', [('Str', 'x' * n)]), ('Int', 3)])], data={'Root': [('Sub', {'Str': 'x' * n}), ('Int', 3)]}))
    for v in [2 ** k + e for k in range(0, 65, 8) for e in (-1, 0, 1)] + [-2 ** k + e for k in range(7, 64, 8) for e in (-1, 0, 1)]:
        if 0 <= v < 2 ** 64:
            out.append(dict(desc=BASIC, nodes=[('Root', [('UInt', v)])], data={'Root': {'UInt': v}}))
        if -2 ** 63 <= v < 2 ** 63:
            out.append(dict(desc=BASIC, nodes=[('Root', [('Int', v)])], data={'Root': {'Int': v}}))
    ids = [0x81, 0x82, 0xFD, 0xFE, 0x407F, 0x4080, 0x7FFE, 0x203FFF, 0x204000, 0x3FFFFE, 0x101FFFFF, 0x10200000, 0x1FFFFFFD, 0x1FFFFFFE]
    D = (('m', 0x1A45DFA3, 'EBML', {}, (('s', 0x4282, 'DocType', {'default': 'x'}, ()),)),
         ('m', 0x1B000000, 'Root', {}, tuple(('u', x, 'E%X' % x, {}, ()) for x in ids)))
    for x in ids:
        out.append(dict(desc=D, nodes=[('Root', [('E%X' % x, x)])], data={'Root': {'E%X' % x: x}}))
    return [fix_empty(x) for x in out]


def fix_empty(x):
    """Empty masters are given as {} (an empty list is no element)."""
    def f(d):
        if isinstance(d, list):
            return [(k, f(v)) for k, v in d] or {}
        return d
    x['data'] = f(x['data']) if isinstance(x['data'], list) else x['data']
    return x


WIDE = [('Root', [('Int', i) for i in range(300)] + [('Sub', [('Int', 3), ('Deep', [('Int', i) for i in range(140)])], {}) for _ in range(3)] + [('Pre', [('Int', 7)]), ('Str', 'end')], {})] + [('Root', [('Int', i)], {}) for i in range(130)]


def dir_flat():
    big = enc_tree(world(BASIC), WIDE)
    return [dict(desc=BASIC, data=big, depth=dp, at=at) for dp in (None, 1, 2, 3) for at in (None, 0)] + [dict(desc=BASIC, data=b, depth=dp, at=at) for b in docs() if len(b) < 3000 for dp in (None, -1, -3, 0, 1, 2, 3, 4, 50) for at in (None, 0, 1, 2)]


def dir_verify():
    w = world(BASIC)
    out = [dict(desc=BASIC, data=b) for b in docs()]
    good = enc_tree(w, [H1, ('Root', [('Sub', [('Deep', [('Int', 3)])])])])
    for p in ([], ['Root'], ['Root', 'Sub'], ['Root', 'Sub', 'Deep']):
        for bad in ((0xFE, b'x'), ('Flt', b'abc', {'raw': 1}), ('Date', b'abc', {'raw': 1}), ('Uni', b'\xff\xfe', {'raw': 1}), ('Lazy', b'\xff', {'raw': 1})):
            node = bad
            for k in reversed(p):
                node = (k, [('Int', 1), node, ('Int', 2)])
            for after in ([], [('Root', [('Int', 1)])]):
                out.append(dict(desc=BASIC, data=enc_tree(w, [node] + after)))
                out.append(dict(desc=BASIC, data=good + enc_tree(w, [node] + after)))
    out += [dict(desc=BASIC, data=good[:k]) for k in range(len(good))]
    out.append(dict(desc=BASIC, data=b''))
    for bad in ((0xFE, b'x'), ('Flt', b'abc', {'raw': 1})):
        out.append(dict(desc=BASIC, data=enc_tree(w, WIDE + [('Root', [('Int', 1), ('Sub', [bad])], {})])))
        out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [('Int', i) for i in range(300)] + [bad], {})])))
    out.append(dict(desc=BASIC, data=enc_tree(w, WIDE)))
    return out


def dir_dump():
    return [dict(desc=BASIC, data=b) for b in docs() + [enc_tree(world(BASIC), WIDE)]]


def dir_open():
    out = []
    w = world(BASIC)
    for b in docs() + [enc_tree(w, [('EBML', [], {}), T2]), enc_tree(w, [H1, T2, H1])]:
        if len(b) > 3000:
            continue
        for how in ('bytesio', 'file', 'str', 'path', 'loads'):
            for h in (None, False, True):
                for ctx in range(4):
                    out.append(dict(desc=BASIC, data=b, how=how, headers=h, ctx=ctx))
                if how in ('bytesio', 'file'):
                    out.append(dict(desc=BASIC, data=b'abc' + b, how=how, headers=h, start=3))
    return out


DIR_REFUSED = [dict(have=h) for h in ((), ('read',), ('read', 'tell'), ('read', 'seek'), ('tell', 'seek'), ('read', 'tell', 'seek'), ('read', 'tell', 'seek', 'close'), ('seek',), ('tell',))]
DIR_OTHER = [dict(obj=o) for o in ('none', 'int', 'list', 'dict', 'bytes', 'object')]
