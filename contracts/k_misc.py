"""Executable contracts of C16-C19, C22, C23."""
import base64
import builtins
import contextlib
import os
import queue
import shutil
import tempfile
import threading
import warnings
from pathlib import Path
from xml.etree import ElementTree as ET

from .world import *
from .k_parse import compare_tree, describe, match, rand_doc, DOCS, H1, T1, T2, unknown_ids, eqdump, ref_dump, rounded
import ebmlite.util as util
import ebmlite.xml_codecs as X
import ebmlite.encoding as encoding
from ebmlite.threaded_file import ThreadAwareFile


# --- C16: schema tables -----------------------------------------------------

BASES = {k: core.Schema.BASE_CLASSES[t] for k, t in TAG.items()}


def tables(s):
    el = dict(s.elements)
    return (el, dict(s.elementsByName), {k: dict(v) for k, v in s.elementInfo.items()}, dict(s.globals),
            {'': set(s.children or ()), **{i: set(c.children or ()) for i, c in el.items()}})


def coherent(s, what):
    if set(s.elements.values()) != set(s.elementsByName.values()) or len(s.elements) != len(s.elementsByName):
        raise Broken('%s: the tables by ID and by name hold different classes' % what)
    for i, c in s.elements.items():
        if c.id != i:
            raise Broken('%s: elements[0x%X] has ID %r' % (what, i, c.id))
        if s.elementsByName.get(c.name) is not c:
            raise Broken('%s: %r is not found by its name' % (what, c))
        if s[i] is not c or s[c.name] is not c or i not in s or c.name not in s or s.get(i) is not c or s.get(c.name) is not c or c.schema is not s:
            raise Broken('%s: looking up %r fails' % (what, c))
    for k in ('nowhere', 0x7F7F, None, '', 2.5):
        try:
            raise Broken('%s: s[%r] is %r' % (what, k, s[k]))
        except KeyError:
            pass
        if k in s or s.get(k) is not None or s.get(k, 5) != 5:
            raise Broken('%s: %r seems to be defined' % (what, k))
    for n, c in s.elementsByName.items():
        if c.name != n:
            raise Broken('%s: elementsByName[%r] has name %r' % (what, n, c.name))
    if set(s.elementInfo) != set(s.elements):
        raise Broken('%s: elementInfo lists other IDs than elements' % what)


def check_define(ops, void=False, void_id=0xEC):
    """ops: (id, name, kind, attrs, parent index or None)."""
    s = core.Schema(io.StringIO('<Schema>%s</Schema>' % ('<BinaryElement name="Void" id="0x%X" multiple="1"/>' % void_id if void else '')), name='t')
    defs = {}           # id -> (name, kind, attrs)
    if void:
        defs[void_id] = ('Void', 'b', dict(s.elementInfo[void_id]))
        coherent(s, 'at first')
    log = []
    for eid, name, kind, attrs, parent in ops:
        log.append((eid, name, kind, attrs, parent))
        what = 'after %r' % (log[-1],)
        ms = [i for i, d in defs.items() if d[1] == 'm']
        pid = ms[parent % len(ms)] if isinstance(parent, int) and ms else void_id if parent == 'V' and void else None
        pcls = s.elements[pid] if pid is not None else None
        before = tables(s)
        byname = {d[0]: i for i, d in defs.items()}
        known = eid in defs or name in byname
        if known:
            old = eid if eid in defs else byname[name]
            on, ok, oa = defs[old]
            contradiction = (eid not in (None, old) or name not in (None, on) or any(k not in oa or oa[k] != v for k, v in (attrs or {}).items())
                             or not (issubclass(BASES[ok], BASES[kind]) or issubclass(BASES[kind], BASES[ok])))
            fine = not contradiction and kind == ok
        else:
            old = None
            contradiction = eid is None or not name or not isinstance(name, str) or not isinstance(eid, int) or not (name[0].isalpha() or name[0] == '_')
            fine = not contradiction
        try:
            r = s.addElement(eid, name, BASES[kind], None if attrs is None else dict(attrs), pcls)
        except Exception as x:
            if fine:
                raise Broken('%s: raised %r' % (what, x))
            if tables(s) != before:
                raise Broken('%s: raised %r but changed the tables' % (what, x))
            coherent(s, what)
            continue
        if contradiction:
            raise Broken('%s: accepted' % what)
        coherent(s, what)
        nid = old if known else eid
        if s.elements.get(nid) is not r:
            raise Broken('%s: returned %r, the table has %r' % (what, r, s.elements.get(nid)))
        now = tables(s)
        want_children = {k: set(v) for k, v in before[4].items()}
        want_children.setdefault(nid, set())
        want_children[pid if pid is not None else ''].add(nid)
        if now[4] != want_children:
            raise Broken('%s: children %r, expected %r' % (what, now[4], want_children))
        if known:
            if now[:4] != before[:4]:
                raise Broken('%s: repeating a definition changed the tables' % what)
            if r is not before[0][nid]:
                raise Broken('%s: repeating a definition gave another class' % what)
        else:
            if {k: v for k, v in now[0].items() if k != nid} != before[0] or {k: v for k, v in now[1].items() if k != name} != before[1]:
                raise Broken('%s: other definitions changed' % what)
            if not issubclass(r, BASES[kind]) or (r.id, r.name) != (eid, name) or now[2][eid] != (attrs or {}):
                raise Broken('%s: %r does not carry the definition' % (what, r))
            a = attrs or {}
            yes = lambda k, d: str(a[k])[0] in 'Tt1' if k in a else d     # noqa: E731
            if (r.multiple, r.mandatory, r.precache) != (yes('multiple', False), yes('mandatory', False), yes('precache', BASES[kind].precache)):
                raise Broken('%s: multiple, mandatory, precache of %r are %r' % (what, r, (r.multiple, r.mandatory, r.precache)))
            if r.length != (int(a['length']) if 'length' in a else None) or (eid in s.globals) != (a.get('global') == '1' or 'global' not in a and a.get('level') == '-1'):
                raise Broken('%s: length %r, global %r' % (what, r.length, eid in s.globals))
            defs[eid] = (name, kind, dict(a))


XIDS = [0x81, 0x82, 0x4082, 0x204085, 0x18538067, 0xEC, 0x83]
XNAMES = ['Aa', 'Bb', '_c', 'D1', 'Ee', 'Void', 'zz']
XATTRS = [{}, None, {}, {'multiple': '1'}, {'multiple': '0'}, {'mandatory': '1', 'multiple': 'True'}, {'precache': '1'}, {'precache': '0', 'length': '8'},
          {'global': '1'}, {'level': '-1'}, {'level': '2'}, {'note': 'x'}]


def gen_define(rng):
    while True:
        ops = []
        pairs = list(zip(rng.sample(XIDS, 7), rng.sample(XNAMES, 7)))
        seen = []
        for _ in range(rng.randint(1, 14)):
            r = rng.random()
            parent = rng.choice((None, rng.randint(0, 5))) if rng.random() < .95 else 'V'
            if seen and r < .5:
                i, n, k, a = rng.choice(seen)
                if rng.random() < .5:
                    i, n = rng.choice(((i, None), (None, n), (i, n)))
                if rng.random() < .3:
                    a = rng.choice(XATTRS)
                if rng.random() < .15:
                    k = rng.choice('iufstdbm')
                if rng.random() < .1:
                    i = rng.choice(XIDS)
                if rng.random() < .1:
                    n = rng.choice(XNAMES)
                ops.append((i, n, k, a, parent))
            else:
                i, n = rng.choice(pairs)
                if rng.random() < .1:
                    i = rng.choice((None, 'x', 1.5))
                if rng.random() < .1:
                    n = rng.choice((None, '1a', '-', '', 5))
                ops.append((i, n, rng.choice('iufstdbmmm'), rng.choice(XATTRS), parent))
                seen.append(ops[-1][:4])
        if any(o[0] in (None, 0) and not o[1] for o in ops):
            continue
        yield dict(ops=ops, void=rng.random() < .3, void_id=rng.choice((0xEC, 0xEC, 0x7F02)))


def dir_define():
    A = (0x81, 'Aa', 'u', {'multiple': '1'}, None)
    M = (0x82, 'Mm', 'm', {}, None)
    out = []
    for second in ((0x81, 'Aa', 'u', {'multiple': '1'}, 0), (0x81, None, 'u', {}, 0), (None, 'Aa', 'u', None, 0), (0x81, 'Bb', 'u', {}, 0), (0x83, 'Aa', 'u', {}, 0), (0x82, 'Aa', 'u', {}, 0),
                   (0x81, 'Mm', 'u', {}, None), (0x81, 'Aa', 'f', {}, 0), (0x81, 'Aa', 'm', {}, None), (0x81, 'Aa', 'b', {}, None), (0x81, 'Aa', 'u', {'multiple': '0'}, 0), (0x81, 'Aa', 'u', {'mandatory': '1'}, 0),
                   (0x82, 'Mm', 'm', {}, 0), (None, 'Mm', 'm', {}, 0), (0x84, None, 'u', {}, 0), (None, 'Cc', 'u', {}, 0), (0x84, '9', 'u', {}, 0), (0x84, '', 'u', {}, 0), ('q', 'Cc', 'u', {}, 0), (0x84, 5, 'u', {}, 0),
                   (0x84, 'Cc', 'u', {'global': '1'}, 0), (0x84, 'Cc', 'u', {'level': '-1'}, None), (0x82, 'Mm', 's', {}, None), (0x81, 'Aa', 's', {}, None), (0x81, 'Aa', 'i', {}, None)):
        for v in (False, True):
            out.append(dict(ops=[A, M, second], void=v))
            out.append(dict(ops=[A, M, second, (0x85, 'Zz', 'b', {}, 0), second], void=v))
    out.append(dict(ops=[A, M, (0x7F01, 'Void', 'b', {}, 0)], void=True, void_id=0x7F01))
    out.append(dict(ops=[A, (0x83, 'Odd', 'u', {}, 'V'), A[:4] + ('V',), M[:4] + ('V',), (0x84, 'Odd2', 'm', {}, 'V'), A[:4] + (1,)], void=True))
    out.append(dict(ops=[A, (1 << 40 | 0x81, 'Far', 'u', {}, None), (1 << 64, 'Farther', 'u', {}, None)]))
    return out


def check_schema_xml(desc, legacy=False):
    """The tables of a schema read from XML."""
    w = World(desc)
    if legacy:
        items, types = [], dict(i='integer', u='uinteger', f='float', s='string', t='utf-8', d='date', b='binary', m='master')
        for sp in w.byid.values():
            items.append('<element name="%s" id="0x%X" type="%s"%s/>' % (sp.name, sp.id, types['b' if sp.kind == 'v' else sp.kind], ''.join(
                ' %s="%s"' % (k, esc(str(v))) for k, v in sp.attrs.items() if k != 'global') + (' level="-1"' if sp.glob else '')))
        s = core.Schema(io.StringIO('<table>%s</table>' % ''.join(items)), name='old')
    else:
        s = w.schema
    coherent(s, 'read from XML')
    if list(s.elements) != list(w.byid):
        raise Broken('elements %r, defined %r' % (list(s.elements), list(w.byid)))
    kinds = {'v': core.VoidElement, **BASES}
    for sp in w.byid.values():
        c = s.elements[sp.id]
        if c.name != sp.name or not issubclass(c, kinds[sp.kind]) or c.multiple != sp.multiple or c.precache != bool(sp.precache) or sp.kind != 'v' and c.length != sp.length:
            raise Broken('%r does not carry the definition %r' % (c, sp))
        if not legacy and set(c.children or ()) != set(sp.children):
            raise Broken('%s has children %r, defined %r' % (sp.name, c.children, sp.children))
    if set(s.globals) != w.globals:
        raise Broken('globals %r, defined %r' % (list(s.globals), w.globals))
    if not legacy and set(s.children) != set(w.roots):
        raise Broken('roots %r, defined %r' % (s.children, w.roots))
    if s.document.schema is not s or not issubclass(s.document, core.Document):
        raise Broken('document class %r' % s.document)


def gen_schema_xml(rng):
    while True:
        yield dict(desc=gen_desc(rng, .9), legacy=rng.random() < .4)


# --- C17: loading ------------------------------------------------------------

def schema_text(tag):
    return ('<Schema><MasterElement name="EBML" id="0x1A45DFA3"><StringElement name="DocType" id="0x4282" default="%s"/></MasterElement>'
            '<UIntegerElement name="U" id="0x81"/></Schema>' % tag)


PKGS = [0]


def check_load(ops, files, style='plain'):
    """files: (dir index, name) present from the start.  dir 0 is the working
    directory.  style: how the search list names its directories."""
    import sys
    top = os.path.realpath(tempfile.mkdtemp(prefix='vk17'))
    cwd = os.getcwd()
    saved, path = dict(core.SCHEMATA), list(core.SCHEMA_PATH)
    try:
        PKGS[0] += 1
        pkg = 'vk17_%d_%d' % (os.getpid(), PKGS[0])
        dirs = [os.path.join(top, 'd%d' % i) for i in range(3)] + [os.path.join(top, pkg)]
        for d in dirs:
            os.makedirs(os.path.join(d, 'sub'))
        where, given = list(dirs), list(dirs)
        if style != 'plain':
            open(os.path.join(dirs[3], '__init__.py'), 'w').close()
            sys.path.insert(0, top)
            for i in (1, 2):
                given[i], where[i] = os.path.join('..', 'd%d' % i), os.path.join(dirs[0], '..', 'd%d' % i)
            given[3] = '{%s}' % pkg
        if style == 'module':
            import importlib
            importlib.invalidate_caches()
            given[3] = importlib.import_module(pkg)
        if style == 'sub':
            given[3], where[3] = '{%s}/sub' % pkg, os.path.join(dirs[3], 'sub')
            given[1], where[1] = Path(dirs[1]) / 'sub', os.path.join(dirs[1], 'sub')
        os.chdir(dirs[0])
        core.SCHEMATA.clear()
        have = {}

        def put(d, n):
            p = os.path.join(dirs[d], n)
            if p not in have:
                tag = 't%d' % len(have)
                with open(p, 'w') as f:
                    f.write(schema_text(tag))
                have[p] = tag
        for d, n in files:
            put(d, n)
        missing = ['{vk17.no.such.module}'] if style != 'plain' else []
        core.SCHEMA_PATH[:] = [given[1]] + missing + [given[2]]
        cache, seen, log = {}, [], []

        def fresh(s, what):
            if not isinstance(s, core.Schema):
                raise Broken('%s gave %r' % (what, s))
            if any(s is x for x in seen):
                raise Broken('%s gave an earlier schema instead of a new one, after %r' % (what, log))
            seen.append(s)
        for op in ops:
            log.append(op)
            if op[0] == 'put':
                put(op[1], op[2])
            elif op[0] == 'load':
                _, form, d, name, reload, paths = op
                arg = {'bare': name, 'abs': os.path.join(dirs[d], name), 'rel': os.path.join('sub', name), 'up': os.path.join('..', os.path.basename(dirs[d]), name)}[form]
                key = arg
                if not paths:
                    search, kw = [where[1], where[2]], {} if paths is not None else dict(paths=[])
                else:
                    search = [where[i] for i in paths]
                    kw = dict(paths=missing + [given[i] for i in paths])
                what = 'loadSchema(%s)' % (op,)
                target = os.path.normpath(os.path.join(dirs[0], arg))
                if target not in have and form == 'bare':
                    stored = next((os.path.join(s, name) for s in search if os.path.normpath(os.path.join(s, name)) in have), None)
                    target = stored and os.path.normpath(stored)
                else:
                    stored = os.path.join(dirs[0], arg)
                before = dict(core.SCHEMATA)
                try:
                    s = core.loadSchema(Path(arg) if len(log) % 3 == 0 else arg, reload=reload, **kw)
                except IOError as x:
                    if key in cache and not reload or target in have:
                        raise Broken('%s raised %r, after %r' % (what, x, log))
                    if core.SCHEMATA != before:
                        raise Broken('%s failed but changed the cache' % what)
                    continue
                if key in cache and not reload:
                    if s is not cache[key]:
                        raise Broken('%s gave another schema than before, after %r' % (what, log))
                    continue
                if target is None or target not in have:
                    raise Broken('%s gave %r though there is no such file, after %r' % (what, s.filename, log))
                if stored in cache and not reload:
                    if s is not cache[stored]:
                        raise Broken('%s gave another schema than the file was loaded as, after %r' % (what, log))
                else:
                    fresh(s, what)
                    if s.type != have[target]:
                        raise Broken('%s loaded %r instead of %r, after %r' % (what, s.filename, target, log))
                cache[key] = cache[stored] = s
            else:
                _, name, reload, stream = op
                tag = 'p%d' % len(log)
                src = schema_text(tag)
                s = core.parseSchema(io.StringIO(src) if stream else src, name=name, reload=reload)
                what = 'parseSchema(%r, reload=%r)' % (name, reload)
                if name in cache and not reload:
                    if s is not cache[name]:
                        raise Broken('%s gave another schema than before, after %r' % (what, log))
                    continue
                fresh(s, what)
                if s.type != tag:
                    raise Broken('%s parsed %r' % (what, s.type))
                if s.name != (name or tag):
                    raise Broken('%s is named %r' % (what, s.name))
                cache[name or tag] = s
                if core.parseSchema(src, name=name or tag) is not s:
                    raise Broken('%s: parsing the same name again gave another schema' % what)
    finally:
        os.chdir(cwd)
        if top in sys.path:
            sys.path.remove(top)
        sys.modules.pop(pkg, None)
        core.SCHEMATA.clear()
        core.SCHEMATA.update(saved)
        core.SCHEMA_PATH[:] = path
        shutil.rmtree(top)


XFILES = ['a.xml', 'b.xml', 'c.xml']


def gen_load(rng):
    while True:
        files = [(rng.randint(0, 3), rng.choice(('', 'sub/')) + rng.choice(XFILES)) for _ in range(rng.randint(0, 6))]
        ops = []
        for _ in range(rng.randint(1, 10)):
            r = rng.random()
            if r < .2:
                ops.append(('put', rng.randint(0, 3), rng.choice(('', '', 'sub/')) + rng.choice(XFILES)))
            elif r < .8:
                form = rng.choice(('bare', 'bare', 'bare', 'abs', 'rel', 'up'))
                ops.append(('load', form, rng.randint(0, 3), rng.choice(XFILES), rng.random() < .2, rng.choice(((), None, (3,), (2, 1), (3, 2, 1)))))
            else:
                ops.append(('parse', rng.choice(('n1', 'n2', 'a.xml', None)), rng.random() < .3, rng.random() < .5))
        yield dict(ops=ops, files=files, style=rng.choice(('plain', 'plain', 'named', 'module', 'sub')))


def dir_load():
    L = lambda form='bare', d=1, n='a.xml', r=False, p=(): ('load', form, d, n, r, p)    # noqa: E731
    out = []
    for files in ([], [(0, 'a.xml')], [(1, 'a.xml')], [(2, 'a.xml')], [(1, 'a.xml'), (2, 'a.xml')], [(0, 'a.xml'), (1, 'a.xml'), (2, 'a.xml'), (3, 'a.xml')],
                  [(1, 'sub/a.xml')], [(0, 'sub/a.xml'), (1, 'a.xml')], [(3, 'a.xml')], [(3, 'a.xml'), (1, 'a.xml')]):
        for ops in ([L()], [L(), L()], [L(), L(r=True), L()], [L(p=(3,))], [L(p=(3, 1)), L()], [L('rel')], [L('rel'), L('rel')], [L('abs', 1), L(), L(r=True), L(), L('abs', 1)],
                    [L(), ('put', 0, 'a.xml'), L(), L(r=True), L()], [L('abs', 2), L(), ('put', 1, 'a.xml'), ('put', 0, 'a.xml'), L(), L()], [L('up', 1), L('up', 1)],
                    [L(), ('put', 1, 'a.xml'), L()], [('parse', 'a.xml', False, False), L(), L(r=True), ('parse', 'a.xml', False, True)],
                    [('parse', 'n', False, True), ('parse', 'n', False, False), ('parse', 'n', True, False), ('parse', 'n', False, False)], [('parse', None, False, False), ('parse', None, True, True)]):
            out.append(dict(ops=list(ops), files=list(files)))
            if len(ops) < 3:
                out.extend(dict(ops=list(ops), files=list(files), style=s) for s in ('named', 'module', 'sub'))
        out.append(dict(ops=[L(p=None), L(p=None)], files=list(files)))
    out.append(dict(ops=[L(n='{a.xml'), L(n='{a.xml', r=True)], files=[(1, 'a.xml')]))
    return out


# --- C18: codecs ---------------------------------------------------------------

def check_codec(data, codec='hex', indent='', offset=0, **kw):
    cls = X.BINARY_CODECS[codec]
    c = cls(**kw)
    a = dict(indent=indent, offset=offset)
    text = c.encode(data, **a)
    what = '%s(%r).encode(%r, %r)' % (cls.__name__, kw, data, a)
    if not isinstance(text, str):
        raise Broken('%s = %r' % (what, text))
    out = io.StringIO()
    n = c.encode(data, stream=out, **a)
    if out.getvalue() != text or n != len(text):
        raise Broken('%s wrote %r and returned %r, the text is %r' % (what, out.getvalue(), n, text))
    for form in (text, text.encode()):
        r = cls.decode(form)
        if bytes(r) != bytes(data):
            raise Broken('%s = %r, which decodes to %r' % (what, text, r))
        out = io.BytesIO()
        n = cls.decode(form, stream=out)
        if out.getvalue() != bytes(data) or n != len(data):
            raise Broken('decoding %r to a stream wrote %r and returned %r' % (text, out.getvalue(), n))
    if bytes(c.decode(text)) != bytes(data):
        raise Broken('%s decodes differently from the instance' % what)


def rand_indent(rng):
    return rng.choice(('', '', ' ', '\t', '  ', '\t\t ', '\n', ' ' * 17, '\r\n', '\x0b\x0c'))


def gen_codec(rng):
    while True:
        n = rng.choice((0, 1, 2, 3, rng.randint(0, 40), rng.randint(50, 60), rng.randint(100, 130)))
        a = dict(data=rng.randbytes(n), codec=rng.choice(('base64', 'hex')), indent=rand_indent(rng), offset=rng.choice((0, 1, 999999, 1000000, rng.getrandbits(40))))
        if rng.random() < .2:
            a['indent'] = a['indent'].encode()
        if rng.random() < .2:
            a['data'] = bytearray(a['data'])
        if rng.random() < .8:
            a['cols'] = rng.choice((None, 0, 1, 2, 3, 4, 5, 7, 16, 32, 75, 76, 77, 78, 100, rng.randint(1, 200)))
        if a['codec'] == 'hex':
            if rng.random() < .8:
                a['width'] = rng.choice((1, 2, 3, 4, 5, 8, rng.randint(1, 40)))
            if rng.random() < .6:
                a['offsets'] = rng.random() < .6
        yield a


def dir_codec():
    out = []
    for n in (0, 1, 2, 3, 31, 32, 33, 56, 57, 58, 64, 65, 114, 115, 256):
        data = bytes((i * 7 + n) % 256 for i in range(n))
        for cols in (None, 0, 1, 2, 3, 16, 32, 75, 76, 77):
            for indent in ('', '\t'):
                out.append(dict(data=data, codec='base64', cols=cols, indent=indent))
                for width in (1, 2, 3, 4):
                    for off in (False, True):
                        out.append(dict(data=data, codec='hex', cols=cols, width=width, offsets=off, indent=indent, offset=3))
    return out


# --- C19: XML -------------------------------------------------------------------

def as_tree(w, elements):
    """(id, kind, value, children) of parsed elements."""
    out = []
    for e in elements:
        if isinstance(e, core.MasterElement):
            out.append((e.id, 'm', None, as_tree(w, e)))
        elif isinstance(e, core.VoidElement):
            out.append((e.id, 'v', e.size, []))
        else:
            out.append((e.id, type(e).__mro__[1].__name__ if not isinstance(e, core.UnknownElement) else 'unknown', e.value, []))
    return out


def diff_tree(a, b, path=''):
    if len(a) != len(b):
        return '%s: %d elements, expected %d' % (path or 'document', len(a), len(b))
    for i, (x, y) in enumerate(zip(a, b)):
        p = '%s/%X[%d]' % (path, y[0], i)
        if x[:2] != y[:2]:
            return '%s: %X %s, expected %s' % (p, x[0], x[1], y[1])
        if not eqv(x[2], y[2]) and not x[2] is y[2] is None:
            return '%s: value %r, expected %r' % (p, x[2], y[2])
        d = diff_tree(x[3], y[3], p)
        if d:
            return d
    return None


def state(w):
    """What an import must leave alone."""
    u = core.UnknownElement
    return (dict(core.Schema.BASE_CLASSES), {k: v for k, v in vars(u).items()}, tables(w.schema), u.id if not hasattr(u.id, '__get__') else None,
            [(c, c.id, c.name, c.multiple, c.length, c.precache) for c in w.schema.elements.values()], dict(X.BINARY_CODECS))


def check_xml(desc, data, headers=True, opts=(), codec='base64', codec_args=None, serialise=0, sizeLength=None, at=None, pre=b'', how='stream'):
    """opts: names of the export flags that are off."""
    w = world(desc)
    try:
        roots = ref_roots(w, data)
    except Stop:
        return
    if not all(readable(w, data, r) for r in roots):
        return
    doc = w.schema.document(io.BytesIO(data), headers=headers)
    if any(isinstance(e, core.DateElement) and (e.value - EPOCH) // datetime.timedelta(microseconds=1) * 1000 < -2 ** 63 for e in util.flatiter(doc)):
        return      # known finding
    flags = dict(offsets='offsets' not in opts, sizes='sizes' not in opts, types='types' not in opts, ids='ids' not in opts)
    if not flags['ids'] and any(isinstance(e, core.UnknownElement) for e in util.flatiter(doc)):
        return
    src = doc
    if at is not None:
        els = [e for e in util.flatiter(doc) if not isinstance(e, core.UnknownElement)]
        if not els:
            return
        src = els[at % len(els)]
    c = codec if codec_args is None else X.BINARY_CODECS[codec](**codec_args)
    xml = util.toXml(src, binary_codec=c, **flags)
    check_flags(w, xml, src, flags)
    want = as_tree(w, [src] if at is not None else doc)
    if serialise:
        xml = ET.fromstring(ET.tostring(xml, encoding=['us-ascii', 'utf-8', 'unicode'][serialise % 3]))
    before, text = state(w), ET.tostring(xml)
    if how == 'memory':
        there = os.path.lexists(':memory:')
        got = util.loadXml(xml, w.schema, ebmlFile=':memory:')
        if not there and os.path.lexists(':memory:'):
            os.remove(':memory:')
            raise Broken('loadXml wrote a file named :memory:')
        hdr = True
    elif how == 'file':
        fd, path = tempfile.mkstemp(prefix='vk19')
        os.close(fd)
        try:
            with util.loadXml(xml, w.schema, ebmlFile=path) as d:
                got = as_tree(w, d)
            with open(path, 'rb') as f:
                b = f.read()
            if len(as_tree(w, w.schema.document(io.BytesIO(b), headers=True))) < len(want):
                raise Broken('the file given has not got the document')
        finally:
            os.remove(path)
        hdr = True
    else:
        out = io.BytesIO(pre)
        out.seek(0, 2)
        if at is not None and how == 'element':
            n = util.xmlElement2ebml(xml, out, w.schema, sizeLength)
        else:
            x = ET.ElementTree(xml) if how == 'tree' else io.StringIO(ET.tostring(xml, encoding='unicode')) if how == 'text' else xml
            n = util.xml2ebml(x, out, w.schema, sizeLength=sizeLength, headers=False)
        b = out.getvalue()
        if not b.startswith(pre) or n != len(b) - len(pre):
            raise Broken('xml2ebml returned %r, wrote %d bytes (prefix kept: %r)' % (n, len(b) - len(pre), b.startswith(pre)))
        b = b[len(pre):]
        got = w.schema.document(io.BytesIO(b), headers=True)
        hdr = False
    if state(w) != before:
        raise Broken('the import changed something outside its output')
    if ET.tostring(xml) != text:
        raise Broken('the import changed the XML')
    got = got if isinstance(got, list) else as_tree(w, got)
    if hdr:         # a header is added when there is none
        got = [x for x in got if x[0] != 0x1A45DFA3]
        want = [x for x in want if x[0] != 0x1A45DFA3]
    d = diff_tree(got, want)
    if d:
        raise Broken('%s (from %s)' % (d, ET.tostring(xml)[:300]))
    if sizeLength is not None and how != 'memory' and how != 'file':
        for e in util.flatiter(w.schema.document(io.BytesIO(b), headers=True)):
            if isinstance(e, core.MasterElement) and e.payloadOffset - e.offset - len(enc_id(e.id)) != sizeLength:
                raise Broken('sizeLength=%d gave %s' % (sizeLength, describe(e)))


def xml_of(w, node, rng=None):
    """An XML element for a node (name, value, {attributes})."""
    name, v = node[0], node[1]
    e = ET.Element(name if isinstance(name, str) else 'Foreign', dict(node[2]) if len(node) > 2 else {})
    sp = w.byname.get(name)
    if isinstance(v, list):
        for k in v:
            e.append(xml_of(w, k))
    elif isinstance(v, bytes):
        e.text = base64.b64encode(v).decode()
    elif v is not None:
        e.set('value', str(v))
    return e


def check_lengths(desc, node):
    """Elements with their own sizeLength attribute, at any depth."""
    w = world(desc)
    xml = xml_of(w, node)
    out = io.BytesIO()
    n = util.xmlElement2ebml(xml, out, w.schema)
    b = out.getvalue()
    if n != len(b):
        raise Broken('xmlElement2ebml returned %d, wrote %d bytes' % (n, len(b)))
    roots = ref_roots(w, b)
    flat = ref_flat_nodes(w, b, roots)
    xs = list(xml.iter())
    if len(flat) != len(xs):
        raise Broken('%d elements from %d XML elements' % (len(flat), len(xs)))
    for x, k in zip(xs, flat):
        if k.spec is None or k.spec.name != x.tag:
            raise Broken('%r became 0x%X' % (x.tag, k.id))
        if 'sizeLength' in x.attrib and k.payload - k.offset - len(enc_id(k.id)) != int(x.get('sizeLength')):
            raise Broken('%s with sizeLength=%s got a descriptor of %d bytes' % (x.tag, x.get('sizeLength'), k.payload - k.offset - len(enc_id(k.id))))


def check_overflow(where, a, n, hint=None):
    """A size that does not fit the length asked for."""
    w = world(BASIC)
    leaf = ET.Element('Bin')
    leaf.text = base64.b64encode(bytes(n)).decode()
    root = leaf
    if where != 'leaf':
        for name in (('Root',) if where in ('attribute', 'parameter') else ('Sub', 'Root')):
            m = ET.Element(name)
            m.append(root)
            root = m
    kw = {}
    if 'parameter' in where:
        kw['sizeLength'] = a
    elif where == 'inner':
        root[0].set('sizeLength', str(a))
    else:
        root.set('sizeLength', str(a))
    if hint is not None:
        kw['sizeLength'] = hint
    out = io.BytesIO()
    try:
        util.xmlElement2ebml(root, out, w.schema, **kw)
    except ValueError:
        if n <= 2 ** (7 * a) - 16:
            raise Broken('%d bytes refused with sizeLength=%d (%s)' % (n, a, where))
        return
    if n > 2 ** (7 * a) - 2:
        raise Broken('%d bytes accepted with sizeLength=%d (%s): %s...' % (n, a, where, out.getvalue()[:12].hex()))


def dir_overflow():
    return [dict(where=x, a=a, n=n, hint=h) for x in ('leaf', 'attribute', 'parameter', 'inner', 'nested attribute', 'nested parameter')
            for a in (1, 2) for n in (90, 200, 16000, 17000) for h in ((None,) if 'parameter' in x else (None, 1, 8)) if h != 1 or n == 90 or a == 1 and x != 'inner']


def check_header(desc, tags, headers, pre=b'', nodata=True):
    """Whole documents: the EBML header is added if there is none."""
    w = world(desc)
    root = ET.Element(w.schema.document.__name__)
    n = 0
    for t in tags:
        if t == '#':
            root.append(ET.Comment('x'))
            continue
        root.append(ET.Element(t, value='5') if t != 'Root' else ET.Element(t))
        n += 1
    out = io.BytesIO(pre)
    out.seek(len(pre))
    kw = {} if headers is None else dict(headers=headers)
    r = util.xml2ebml(root, out, w.schema, **kw)
    b = out.getvalue()
    if r != len(b) - len(pre) or not b.startswith(pre):
        raise Broken('xml2ebml returned %d, wrote %d bytes' % (r, len(b) - len(pre)))
    got = [k.spec.name for k in ref_roots(w, b[len(pre):])]
    want = [t for t in tags if t != '#']
    if headers is not False and 'EBML' not in tags and 'EBML' in w.byname:
        want = ['EBML'] + want
    if got != want:
        raise Broken('%r (headers=%r) became %r' % (tags, headers, got))


def dir_header():
    return [dict(desc=d, tags=t, headers=h, pre=p) for d in (BASIC, NOHEAD) for h in (None, True, False) for p in (b'', b'abc')
            for t in ((), ('Root',), ('Root', 'Root'), ('EBML', 'Root'), ('Root', 'EBML'), ('#', 'EBML', 'Root'), ('#', 'Root'), ('Void', 'EBML')) if d is BASIC or not set(t) & {'EBML', 'Void'}]


def check_flags(w, xml, src, flags):
    """Exactly the optional attributes asked for."""
    els = [src] + list(util.flatiter(src))
    xs = list(xml.iter())
    if len(els) != len(xs):
        raise Broken('%d elements became %d XML elements' % (len(els), len(xs)))
    for e, x in zip(els, xs):
        want = {}
        if flags['offsets']:
            want['offset'] = str(e.offset)
        if flags['sizes'] or isinstance(e, core.VoidElement):
            want['size'] = str(e.size)
        if flags['ids'] and not isinstance(e, core.Document):
            want['id'] = e.id
        got = {k: v for k, v in x.attrib.items() if k in ('offset', 'size', 'id')}
        if 'id' in got:
            got['id'] = int(got['id'], 16)
        if got != want or ('type' in x.attrib) != (flags['types'] and not isinstance(e, core.Document)):
            raise Broken('attributes of %s: %r, expected %r' % (describe(e), x.attrib, want))


def ref_flat_nodes(w, data, nodes):
    out = []
    for n in nodes:
        out.append(n)
        if n.spec is not None and n.spec.kind == 'm':
            out += ref_flat_nodes(w, data, ref_children(w, data, n))
    return out


def check_foreign(desc, path, eid=None, unknown=True, whole=False, text='AAEC', more=False):
    """An element the schema does not define, below the given masters."""
    w = world(desc)
    e = ET.Element('NotInSchema', {} if eid is None else {'id': hex(eid)})
    e.text = text
    if more:
        e.attrib.update(offset='12', size='3', type='bytearray')
    names = []
    for p in reversed(path):
        m = ET.Element(p)
        m.append(ET.Element('Int', {'value': '7'}))
        m.append(e)
        e = m
    before = state(w)
    out = io.BytesIO()
    ok = unknown and eid is not None
    if whole == 'root':
        f = lambda: util.xml2ebml(e, out, w.schema, headers=False, unknown=unknown)    # noqa: E731
    elif whole:
        root = ET.Element(w.schema.document.__name__)
        root.append(e)
        f = lambda: util.xml2ebml(root, out, w.schema, headers=False, unknown=unknown)    # noqa: E731
    else:
        f = lambda: util.xmlElement2ebml(e, out, w.schema, unknown=unknown)    # noqa: E731
    try:
        f()
    except NameError:
        if ok:
            raise Broken('an unknown element with ID 0x%X was refused below %r' % (eid, path))
        if state(w) != before:
            raise Broken('the refused import changed something')
        return
    if not ok:
        raise Broken('an unknown element (id=%r, unknown=%r) was accepted below %r' % (eid, unknown, path))
    if state(w) != before:
        raise Broken('the import changed something outside its output')
    els = list(util.flatiter(w.schema.loads(out.getvalue())))
    u = [x for x in els if isinstance(x, core.UnknownElement)]
    if len(els) != 2 * len(path) + 1 or len(u) != 1 or u[0].id != eid or bytes(u[0].value) != base64.b64decode(text):
        raise Broken('the unknown element came out as %r' % [(describe(x), x.value if not isinstance(x, core.MasterElement) else '') for x in els])


def check_root(tag):
    w = world(BASIC)
    try:
        util.xml2ebml(ET.Element(tag, value='5'), io.BytesIO(), w.schema)
    except NameError:
        if tag in w.byname or tag == w.schema.document.__name__:
            raise Broken('root %r refused' % tag)
        return
    if tag not in w.byname and tag != w.schema.document.__name__:
        raise Broken('root %r accepted' % tag)


FLAGS = ('offsets', 'sizes', 'types', 'ids')


def gen_xml(rng):
    while True:
        d, w, nodes = rand_doc(rng)
        data = enc_tree(w, nodes)
        a = dict(desc=d, data=data, headers=rng.random() < .7, opts=tuple(f for f in FLAGS if rng.random() < .4), codec=rng.choice(('base64', 'hex')), serialise=rng.randint(0, 3))
        if rng.random() < .3:
            a['codec_args'] = dict(cols=rng.choice((None, 0, 3, 16, 76)))
        r = rng.random()
        if r < .25:
            a['at'] = rng.randint(0, 99)
            a['how'] = rng.choice(('element', 'root', 'memory'))
        elif r < .4:
            a['how'] = 'memory'
        elif r < .45:
            a['how'] = 'file'
        else:
            a['how'] = rng.choice(('stream', 'stream', 'tree', 'text'))
            a['pre'] = rng.choice((b'', b'', b'abc'))
        if rng.random() < .25 and len(data) < 16000:
            a['sizeLength'] = rng.randint(3, 8)
        yield a


def dir_xml():
    w = world(BASIC)
    out = []
    for nodes in DOCS:
        b = enc_tree(w, nodes)
        for opts in ((), FLAGS, ('sizes',), ('ids',), ('offsets', 'types')):
            for codec in ('base64', 'hex'):
                out.append(dict(desc=BASIC, data=b, opts=opts, codec=codec))
        for k in (3, 8):
            out.append(dict(desc=BASIC, data=b, sizeLength=k))
        for i in range(0, 16, 3):
            out.append(dict(desc=BASIC, data=b, at=i, how='root'))
        out.append(dict(desc=BASIC, data=b, how='tree'))
        out.append(dict(desc=BASIC, data=b, how='text'))
        out.append(dict(desc=BASIC, data=b, how='memory', serialise=1))
        out.append(dict(desc=BASIC, data=b, how='file', serialise=2))
    for n in range(16370, 16384):
        out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [('Sub', [], {}), ('Bin', b'x' * (n - 6), {})], {})])))
    for n in range(115, 130):
        out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [('Sub', [('Int', 5, {}), ('Bin', b'x' * n, {})], {'inf': 1}), ('Sub', [], {})], {})])))
        out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [('UInt', b'', {'raw': 1}), ('Bin', b'x' * (n - 5), {})], {})])))
        out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [('Sub', [('UInt', b'', {'raw': 1}), ('Bin', b'x' * (n - 8), {})], {})], {})])))
    for n in range(85, 112, 2):
        out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [('Sub', [('UInt', b'', {'raw': 1})] * 6 + [('Bin', b'x' * n, {})], {})], {})])))
    for n, v in hard_leaves():
        if n != 'Date' or v.year > 1709:
            out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [(n, v, {})], {})]), serialise=1))
    odd = [('Root', [('Flt', v, {}) for v in (float('inf'), float('-inf'), float('nan'), -0.0, 5e-324, 1.7976931348623157e308, 0.1)] + [('Str', 'a "<&> \'b', {}), ('Uni', '\xe9\u20ac\U0001f600 <&>"\'', {}), ('Uni', 'a\tb', {}),
                     ('Date', EPOCH + datetime.timedelta(microseconds=1), {}), ('Date', EPOCH, {}), ('Date', EPOCH + datetime.timedelta(days=-700000), {}), ('Bin', b'', {}), ('Bin', bytes(range(256)), {}),
                     ('Int', -2 ** 63, {}), ('UInt', 2 ** 64 - 1, {}), ('Str', '', {}), ('Uni', '', {}), ('UInt', b'', {'raw': 1}), ('Int', b'', {'raw': 1}), ('Flt', b'', {'raw': 1}), ('Flt', b'\x3f\x80\0\0', {'raw': 1})], {})]
    for opts in ((), FLAGS, ('sizes',), ('types',)):
        for s in range(4):
            try:
                out.append(dict(desc=BASIC, data=enc_tree(w, odd), opts=opts, serialise=s))
            except Refused:
                out.append(dict(desc=BASIC, data=enc_tree(w, [('Root', [x for x in odd[0][1] if not (x[0] == 'Date' and x[1] < EPOCH)], {})]), opts=opts, serialise=s))
    return out


def rand_attrs(rng, w, node):
    v = node[1]
    if isinstance(v, list):
        v = [rand_attrs(rng, w, k) for k in v]
    a = {'sizeLength': str(rng.randint(3, 8))} if rng.random() < .5 else {}
    return (node[0], v, a)


def gen_lengths(rng):
    while True:
        d = gen_desc(rng, .4)
        w = world(d)
        sp = rng.choice(w.masters())
        n = rand_attrs(rng, w, rand_node(rng, w, sp, 3))
        if has_void(w, n):
            continue
        yield dict(desc=d, node=n)


def has_void(w, n):
    return w.byname[n[0]].kind == 'v' or isinstance(n[1], list) and any(has_void(w, k) for k in n[1])


def dir_foreign():
    out = []
    for path in ([], ['Root'], ['Root', 'Sub'], ['Root', 'Sub', 'Deep']):
        for eid in (None, 0xFE, 0x4FFF, 0x1FFFFFF3):
            for unknown in (True, False):
                for whole in (False, True, 'root'):
                    if whole == 'root' and not path:
                        continue
                    out.append(dict(desc=BASIC, path=path, eid=eid, unknown=unknown, whole=whole))
                    out.append(dict(desc=BASIC, path=path, eid=eid, unknown=unknown, whole=whole, more=True))
    return out


def dir_lengths():
    out = []
    for a in range(1, 9):
        for b in range(1, 9):
            out.append(dict(desc=BASIC, node=('Root', [('Int', 5, {'sizeLength': str(b)}), ('Sub', [('UInt', 4, {'sizeLength': str(a)})], {'sizeLength': str(b)})], {'sizeLength': str(a)})))
    return out


# --- C22: threads -----------------------------------------------------------------

PLAIN_OPS = [('read', ()), ('read', (3,)), ('read', (-1,)), ('read', (None,)), ('readline', ()), ('readline', (4,)), ('readline', (-1,)), ('readlines', ()), ('readlines', (1,)),
             ('readlines', (20,)), ('readlines', (-1,)), ('seek', (0,)), ('seek', (17,)), ('seek', (0, 0)), ('seek', (2, 1)), ('seek', (-3, 1)), ('seek', (-5, 2)), ('seek', (0, 2)), ('seek', (-1,)),
             ('tell', ()), ('isatty', ()), ('flush', ()), ('__iter__', ()), ('name', None), ('encoding', None), ('errors', None), ('newlines', None), ('mode', None), ('read', ('x',)),
             ('__str__', ()), ('__format__', ('',)), ('__reduce__', ()), ('__reduce_ex__', (2,)), ('__sizeof__', ())]


def check_plain(ops, mode='rb', adopt=False):
    """The operations give what they give on a plain file."""
    fd, path = tempfile.mkstemp(prefix='vk22')
    os.write(fd, CONTENT)
    os.close(fd)
    taf = None
    try:
        ref = open(path, mode, buffering=0)
        taf = ThreadAwareFile.makeThreadAware(open(path, mode, buffering=0)) if adopt else ThreadAwareFile(path, mode)

        def run(f, name, args):
            try:
                x = getattr(f, name)
                if args is None:
                    return x
                r = x(*args)
                return next(iter(r), b'') if name == '__iter__' else r
            except Exception as e:
                return type(e)
        for k, i in enumerate(ops):
            name, args = PLAIN_OPS[i]
            want, got = run(ref, name, args), run(taf, name, args)
            if got != want:
                raise Broken('%s%r gave %r, not %r as on a plain file, after %r' % (name, args or (), got, want, [PLAIN_OPS[j] for j in ops[:k]]))
        ref.close()
    finally:
        if taf is not None:
            taf.close()
        os.unlink(path)


def gen_plain(rng):
    while True:
        yield dict(ops=[rng.randrange(len(PLAIN_OPS)) for _ in range(rng.randrange(1, 12))], adopt=rng.random() < .3)


def dir_plain():
    out = []
    for i in range(len(PLAIN_OPS)):
        out.append(dict(ops=[i]))
        out.append(dict(ops=[12, i, 19]))
        out.append(dict(ops=[12, i, 19], adopt=True))
    return out


class Worker:
    """A thread that runs what it is told."""
    def __init__(self):
        self.q, self.r = queue.Queue(), queue.Queue()
        self.t = threading.Thread(target=self.run, name='worker', daemon=True)
        self.t.start()

    def run(self):
        while True:
            f = self.q.get()
            if f is None:
                return
            try:
                self.r.put(('ok', f()))
            except BaseException as x:
                self.r.put(('exc', x))

    def do(self, f):
        self.q.put(f)
        return self.r.get(timeout=60)

    def stop(self):
        self.q.put(None)
        self.t.join(60)


CONTENT = b''.join(b'line %d %s\n' % (i, b'x' * (i % 7)) for i in range(40))


def check_threads(ops, adopt=False, mode='rb', size=None):
    """ops: (thread, operation, argument); the threads take turns."""
    fd, path = tempfile.mkstemp(prefix='vk22')
    os.write(fd, CONTENT)
    os.close(fd)
    main = Worker()
    workers = {}
    try:
        def make():
            if adopt:
                return ThreadAwareFile.makeThreadAware(open(path, mode, buffering=0))
            return ThreadAwareFile(path, mode)
        k, taf = main.do(make)
        if k != 'ok':
            raise Broken('opening %r with mode %r raised %r' % (path, mode, taf))
        pos, dead, fds = {}, set(), {}
        workers[0] = main
        pos[0] = 0
        log = []
        for t, op, arg in ops:
            log.append((t, op, arg))
            if t not in workers:
                workers[t] = Worker()
            w = workers[t]
            if op == 'end' and t:           # the thread ends; a new one takes its number
                w.stop()
                workers[t] = Worker()
                pos.pop(t, None)
                dead.discard(t)
                fds.pop(t, None)
                continue
            if t in dead:
                if op == 'closed' and w.do(lambda: taf.closed) != ('ok', True):
                    raise Broken('a closed file says it is open, after %r' % log)
                continue
            if op == 'closed':
                want = t not in pos
                r = w.do(lambda: taf.closed)
                if r != ('ok', want):
                    raise Broken('closed is %r in a thread that has %s, after %r' % (r[1], 'not used the file' if want else 'its stream open', log))
                continue
            if op in ('truncate', 'write', 'writelines'):
                r = w.do({'truncate': lambda: taf.truncate(*([arg] if arg % 2 else [])), 'write': lambda: taf.write(b'abc'), 'writelines': lambda: taf.writelines([b'abc'])}[op])
                if r[0] != 'exc' or not isinstance(r[1], IOError):
                    raise Broken('%s gave %r' % (op, r[1]))
                continue
            if op == 'cleanup':
                w.do(taf.cleanup)
                continue
            p = pos.setdefault(t, 0)
            if op == 'read':
                want = CONTENT[p:p + arg]
                r = w.do(lambda: taf.read(arg))
            elif op == 'readall':
                want = CONTENT[p:]
                r = w.do(lambda: taf.read())
            elif op == 'readline':
                e = CONTENT.find(b'\n', p)
                want = CONTENT[p:] if e < 0 else CONTENT[p:e + 1]
                r = w.do(lambda: taf.readline())
            elif op == 'readlines':
                want = CONTENT[p:].splitlines(True)
                r = w.do(lambda: taf.readlines())
            elif op == 'next':
                e = CONTENT.find(b'\n', p)
                want = CONTENT[p:] if e < 0 else CONTENT[p:e + 1]
                r = w.do(lambda: next(iter(taf), b''))
            elif op == 'seek':
                wh = arg % 3
                want = max(0, {0: arg, 1: p + (arg % 5), 2: len(CONTENT) - (arg % 50)}[wh])
                r = w.do(lambda: taf.seek({0: arg, 1: arg % 5, 2: -(arg % 50)}[wh], wh))
            elif op == 'tell':
                want = p
                r = w.do(lambda: taf.tell())
            elif op == 'fileno':
                r = w.do(lambda: taf.fileno())
                want = r[1]
                others = [v for k, v in fds.items() if k != t]
                if r[0] != 'ok' or r[1] in others or t in fds and fds[t] != r[1]:
                    raise Broken('fileno %r, other threads have %r, after %r' % (r[1], others, log))
                fds[t] = r[1]
            elif op == 'name':
                want, r = path, w.do(lambda: taf.name)
            elif op == 'enter':
                r = w.do(lambda: taf.__enter__() is taf)
                want = True
            elif op in ('close', 'exit'):
                r = w.do(lambda: taf.close() if op == 'close' else taf.__exit__(None, None, None))
                if r[0] != 'ok':
                    raise Broken('%s raised %r, after %r' % (op, r[1], log))
                dead.add(t)
                pos.pop(t)
                fds.pop(t, None)
                continue
            else:
                continue
            if r[0] != 'ok' or r[1] != want:
                raise Broken('%s(%r) in thread %d gave %r, expected %r, after %r' % (op, arg, t, r[1], want, log))
            if op in ('read', 'readall', 'readline', 'next'):
                pos[t] = p + len(want)
            elif op == 'readlines':
                pos[t] = max(p, len(CONTENT))
            elif op == 'seek':
                pos[t] = want
        with open(path, 'rb') as f:
            if f.read() != CONTENT:
                raise Broken('the file was changed')
    finally:
        with contextlib.suppress(Exception):
            main.do(lambda: [s.close() for s in list(taf.threads.values())])
        for w in workers.values():
            w.stop()
        os.remove(path)


TOPS = ('read',) * 4 + ('seek',) * 3 + ('tell',) * 3 + ('readline', 'readlines', 'next', 'readall', 'fileno', 'name', 'enter', 'closed', 'closed', 'cleanup', 'truncate', 'write', 'writelines', 'close', 'exit', 'end')


def gen_threads(rng):
    while True:
        n = rng.randint(1, 4)
        ops = []
        for _ in range(rng.randint(3, 25)):
            op = rng.choice(TOPS)
            if op in ('close', 'exit') and rng.random() < .5:
                op = 'tell'
            ops.append((rng.randint(0, n - 1), op, rng.choice((0, 1, 5, 17, rng.randint(0, 400)))))
        yield dict(ops=ops, adopt=rng.random() < .3, mode='rb')


def dir_threads():
    out = []
    R = [(0, 'read', 5), (1, 'read', 7), (2, 'seek', 30)]
    for last in ('close', 'exit', 'cleanup', 'end'):
        for who in (0, 1, 2):
            ops = R + [(who, last, 0), (0, 'tell', 0), (1, 'tell', 0), (2, 'tell', 0), (0, 'read', 3), (1, 'readline', 0), (2, 'next', 0), (0, 'fileno', 0), (1, 'fileno', 0), (2, 'fileno', 0)]
            for ad in (False, True):
                out.append(dict(ops=ops, adopt=ad))
                out.append(dict(ops=ops + [((who + 1) % 3, 'close', 0), ((who + 2) % 3, 'read', 4), (0, 'closed', 0), (1, 'closed', 0), (3, 'closed', 0), (3, 'read', 6)], adopt=ad))
    for op in ('truncate', 'write', 'writelines'):
        out.append(dict(ops=[(0, 'read', 3), (0, op, 1), (1, op, 2), (0, 'tell', 0), (1, 'tell', 0)]))
    return out


def check_mode(mode, form='pos', exists=True):
    """Which modes a thread-aware file accepts."""
    top = tempfile.mkdtemp(prefix='vk22')
    path = os.path.join(top, 'f')
    if exists:
        with open(path, 'wb') as f:
            f.write(b'content')
    try:
        mk = {'pos': lambda: ThreadAwareFile(path, mode), 'kw': lambda: ThreadAwareFile(path, mode=mode), 'allkw': lambda: ThreadAwareFile(file=path, mode=mode),
              'closefd': lambda: ThreadAwareFile(path, mode, True), 'new': lambda: ThreadAwareFile(path, mode=mode, _new=False), 'timeout': lambda: ThreadAwareFile(path, mode, timeout=5),
              'adopt': lambda: ThreadAwareFile.makeThreadAware(given), 'adopt buffered': lambda: ThreadAwareFile.makeThreadAware(given)}[form]
        if form.startswith('adopt'):
            try:
                given = io.FileIO(path, mode) if form == 'adopt' else open(path, mode if 'b' in mode else mode + 'b')
            except (OSError, ValueError):
                return
            with open(path, 'wb') as f:
                f.write(b'content')
            exists = True
        writing = any(c in mode for c in 'wax+')
        try:
            f = mk()
        except IOError:
            if not writing and exists:
                raise Broken('mode %r (%s) was refused' % (mode, form))
        except Exception:
            if not writing and mode in ('r', 'rb') and form != 'new' and exists:
                raise
        else:
            if writing:
                raise Broken('mode %r (%s) was accepted' % (mode, form))
            if form != 'new':
                if f.read() != b'content':
                    raise Broken('wrong content')
                f.close()
        if os.path.exists(path) != exists or exists and open(path, 'rb').read() != b'content':
            raise Broken('mode %r (%s) changed the file' % (mode, form))
    finally:
        shutil.rmtree(top)


MODES = ['r', 'rb', 'w', 'wb', 'a', 'ab', 'x', 'xb', 'r+', 'rb+', 'r+b', 'w+', 'wb+', 'a+', 'ab+', 'x+', 'xb+', '+r', 'br', 'bw', '+', 'bx', 'b+r']
DIR_MODE = [dict(mode=m, form=f, exists=e) for m in MODES for f in ('pos', 'kw', 'allkw', 'closefd', 'new', 'timeout') for e in (True, False)] + \
    [dict(mode=m, form=f, exists='x' not in m) for m in MODES for f in ('adopt', 'adopt buffered')]


def check_busy(n, rounds, close=True):
    """Threads at the same time: every one reads the whole file in its own steps."""
    fd, path = tempfile.mkstemp(prefix='vk22')
    os.write(fd, CONTENT)
    os.close(fd)
    errors = []
    taf = ThreadAwareFile(path, 'rb')
    gate = threading.Barrier(n)

    def work(i):
        try:
            gate.wait(30)
            for r in range(rounds):
                taf.seek(0)
                got = b''
                step = 3 + 2 * i + r
                while True:
                    b = taf.read(step)
                    if not b:
                        break
                    got += b
                    if taf.tell() != len(got):
                        raise Broken('thread %d at %d instead of %d' % (i, taf.tell(), len(got)))
                if got != CONTENT:
                    raise Broken('thread %d read something else' % i)
            if close and i % 2:
                taf.close()
        except BaseException as x:
            errors.append(x)
    try:
        ts = [threading.Thread(target=work, args=(i,)) for i in range(n)]
        for t in ts:
            t.start()
        for t in ts:
            t.join(60)
        if errors:
            raise Broken('in parallel: %r' % errors[0])
    finally:
        for s in list(taf.threads.values()):
            s.close()
        os.remove(path)


def gen_busy(rng):
    while True:
        yield dict(n=rng.randint(2, 6), rounds=rng.randint(1, 4), close=rng.random() < .7)


# --- C23: command line tools --------------------------------------------------------

TOOLS = ('ebml2xml', 'xml2ebml', 'view_ebml')


def snapshot(top):
    out = {}
    for d, ds, fs in os.walk(top):
        for f in fs:
            p = os.path.join(d, f)
            out[os.path.relpath(p, top)] = os.readlink(p) if os.path.islink(p) else open(p, 'rb').read()
        for x in ds:
            out[os.path.relpath(os.path.join(d, x), top) + '/'] = None
    return out


def check_cli(tool, inp='ok', schema='ok', out='new', clobber=False, extra=(), form='plain'):
    """inp: ok, missing, bad; schema: ok, missing, bad; out: none, new, exists, dir, link (to an existing file), dangling, nodir, input."""
    import importlib
    import sys as _sys
    mod = importlib.import_module('ebmlite.tools.' + tool)
    w = world(BASIC)
    top = os.path.realpath(tempfile.mkdtemp(prefix='vk23'))
    cwd, argv, so, se, home = os.getcwd(), _sys.argv, _sys.stdout, _sys.stderr, os.environ.get('HOME')
    saved = dict(core.SCHEMATA)
    real_open = builtins.open
    opened = []
    try:
        data = enc_tree(w, [H1, T1])
        if inp == 'bad':
            data = b'\x01\x02 not ebml nor <xml'
        elif tool == 'xml2ebml':
            data = ET.tostring(util.toXml(w.schema.loads(data)))
        if inp != 'missing':
            with open(os.path.join(top, 'in.dat'), 'wb') as f:
                f.write(data)
        with open(os.path.join(top, 's.xml'), 'w') as f:
            f.write(w.xml if schema != 'bad' else '<Schema><UIntegerElement name="A"')
        if schema == 'missing':
            os.remove(os.path.join(top, 's.xml'))
        target = os.path.join(top, 'out.dat')
        name = target
        if out == 'exists':
            with open(target, 'wb') as f:
                f.write(b'precious')
        elif out == 'empty':
            open(target, 'wb').close()
        elif out == 'dir':
            os.mkdir(target)
        elif out == 'link':
            with open(os.path.join(top, 'other'), 'wb') as f:
                f.write(b'precious')
            os.symlink(os.path.join(top, 'other'), target)
        elif out == 'dangling':
            os.symlink(os.path.join(top, 'nowhere'), target)
        elif out == 'nodir':
            name = os.path.join(top, 'no', 'such', 'out.dat')
        elif out == 'input':
            name = os.path.join(top, 'in.dat')
        os.chdir(top)
        if form == 'rel':
            name = os.path.relpath(name, top)
        elif form == 'home':
            os.environ['HOME'] = top
            name = '~/' + os.path.relpath(name, top)
        elif form == 'dots':
            name = os.path.join(top, '.', 'x', '..', os.path.relpath(name, top)) if False else top + '/./' + os.path.relpath(name, top)
        _sys.argv = [tool, os.path.join(top, 'in.dat'), os.path.join(top, 's.xml')] + (['-o', name] if out != 'none' else []) + (['-c'] if clobber else []) + list(extra)
        before = snapshot(top)
        core.SCHEMATA.clear()

        def spy(file, mode='r', *a, **k):
            if any(c in mode for c in 'wax+'):
                opened.append((str(file), mode))
            return real_open(file, mode, *a, **k)
        buf = io.BytesIO()
        _sys.stdout, _sys.stderr = io.TextIOWrapper(buf, write_through=True), io.StringIO()
        builtins.open = spy
        status = 0
        try:
            mod.main()
        except SystemExit as x:
            status = 0 if x.code in (None, 0) else 1
        except BaseException:
            status = 1
        finally:
            builtins.open = real_open
            _sys.stdout, _sys.stderr = so, se
        after = snapshot(top)
        what = '%s %s' % (tool, ' '.join(_sys.argv[1:]).replace(top, '.'))
        there = out in ('exists', 'empty', 'dir', 'link') or out == 'input' and inp != 'missing'
        allowed = inp != 'missing' and schema == 'ok' and out != 'none' and (clobber or not there) and out not in ('dir', 'nodir')
        if not allowed:
            if after != before:
                raise Broken('%s changed files: %r -> %r' % (what, sorted(before), sorted(after)))
            if opened and out not in ('dir', 'nodir'):
                raise Broken('%s opened %r for writing' % (what, opened))
            if out != 'none' and status == 0:
                raise Broken('%s exited with status 0' % what)
            if out == 'none' and (inp == 'missing' or schema != 'ok') and status == 0:
                raise Broken('%s exited with status 0' % what)
        else:
            if inp == 'ok' and status:
                raise Broken('%s failed' % what)
            key = 'other' if out == 'link' else 'nowhere' if out == 'dangling' else 'out.dat' if out != 'input' else 'in.dat'
            b2 = {k: v for k, v in before.items() if k != key}
            a2 = {k: v for k, v in after.items() if k != key}
            if a2 != b2:
                raise Broken('%s changed other files' % what)
            if inp == 'ok' and out != 'input' and not after.get(key):
                raise Broken('%s wrote nothing' % what)
    finally:
        os.chdir(cwd)
        _sys.argv, _sys.stdout, _sys.stderr = argv, so, se
        builtins.open = real_open
        if home is None:
            os.environ.pop('HOME', None)
        else:
            os.environ['HOME'] = home
        core.SCHEMATA.clear()
        core.SCHEMATA.update(saved)
        shutil.rmtree(top)


def dir_cli():
    out = []
    for tool in TOOLS:
        for inp in ('ok', 'missing', 'bad'):
            for sch in ('ok', 'missing', 'bad'):
                for o in ('none', 'new', 'exists', 'empty', 'dir', 'link', 'dangling', 'nodir', 'input'):
                    for cl in (False, True):
                        if o == 'none' and tool == 'xml2ebml' and inp == 'ok' and sch == 'ok':
                            continue        # binary data do not go to a text standard output (not claimed)
                        if inp == 'ok' and sch == 'ok' and tool == 'xml2ebml' and o == 'input' and cl:
                            continue
                        out.append(dict(tool=tool, inp=inp, schema=sch, out=o, clobber=cl))
        for f in ('rel', 'home', 'dots'):
            for o in ('new', 'exists', 'link'):
                for cl in (False, True):
                    out.append(dict(tool=tool, out=o, clobber=cl, form=f))
    for o in ('new', 'exists', 'none'):
        for cl in (False, True):
            for extra in (('-s',), ('-m',), ('-e', 'hex'), ('-s', '-m')):
                if o == 'none' and '-s' in extra:
                    continue
                out.append(dict(tool='ebml2xml', out=o, clobber=cl, extra=extra))
    return out


# --- C26: listing --------------------------------------------------------------

FILES = {       # what a file holds: is it a schema?
    'schema': (schema_text('listed').encode(), True),
    'nested': (b'<a><Schema/></a>', False),
    'other': (b'<Other/>', False),
    'lower': (b'<schema/>', False),
    'broken': (b'<Schema>', False),
    'empty': (b'', False),
    'encoding': (b'<?xml version="1.0" encoding="nope"?><Schema/>', False),
    'multi': (b'<?xml version="1.0" encoding="utf-32"?><Schema/>', False),
    'latin': (b'<?xml version="1.0" encoding="latin-1"?><Schema>\xe4</Schema>', True),
    'bytes': (b'<Schema>\xff\xfe</Schema>', False),
    'dir': (None, False),
}


def check_listing(dirs, search, given=None, absolute=True, how='str'):
    """dirs: what files each directory holds; search, given: directory numbers
    (-1: none such, -2: no such module, -3: a file)."""
    import sys
    top = os.path.realpath(tempfile.mkdtemp(prefix='vk26'))
    saved = list(core.SCHEMA_PATH)
    try:
        PKGS[0] += 1
        pkg = 'vk26_%d_%d' % (os.getpid(), PKGS[0])
        names = [os.path.join(top, '%s%d' % (pkg, i)) for i in range(len(dirs))]
        for d, files in zip(names, dirs):
            os.makedirs(os.path.join(d, 'deeper'))
            with open(os.path.join(d, 'deeper', 'deep.xml'), 'wb') as f:
                f.write(FILES['schema'][0])
            for n, what in files:
                if FILES[what][0] is None:
                    os.mkdir(os.path.join(d, n))
                    continue
                with open(os.path.join(d, n), 'wb') as f:
                    f.write(FILES[what][0])
        afile = os.path.join(top, 'file.xml')
        open(afile, 'wb').write(FILES['schema'][0])
        if how in ('named', 'module'):
            for d in names:
                open(os.path.join(d, '__init__.py'), 'w').close()
            sys.path.insert(0, top)
            import importlib
            importlib.invalidate_caches()

        def path(i):
            if i < 0:
                return {-1: os.path.join(top, 'nowhere'), -2: '{vk26.no.such}', -3: afile}[i]
            if how == 'named':
                return '{%s}' % os.path.basename(names[i])
            if how == 'module':
                import importlib
                return importlib.import_module(os.path.basename(names[i]))
            return Path(names[i]) if how == 'path' else names[i]
        core.SCHEMA_PATH[:] = [path(i) for i in search]
        want = {}
        for i in (given or search):
            if i < 0 or how == 'module' and not absolute:
                continue
            for n, what in dirs[i]:
                if n.lower().endswith('.xml') and FILES[what][1]:
                    want.setdefault(n, []).append(os.path.join(names[i], n) if absolute or how != 'named' else os.path.join(path(i), n))
        args = [path(i) for i in given or ()]
        before, copy = list(core.SCHEMA_PATH), list(args)
        got = core.listSchemata(*args, absolute=absolute)
        got = {k: [str(x) for x in v] for k, v in got.items()}
        if got != want:
            raise Broken('listSchemata(%r) = %r, expected %r' % (args, got, want))
        if core.SCHEMA_PATH != before:
            raise Broken('listing changed the search list')
        if absolute:
            kw = dict(paths=args) if args else {}
            for n, files in want.items():
                if all(w == 'schema' for i in (given or search) if i >= 0 for m, w in dirs[i] if m == n) and not os.path.exists(n):
                    s = core.loadSchema(n, reload=True, **kw)
                    core.SCHEMATA.pop(n, None)
                    core.SCHEMATA.pop(files[0], None)
                    if os.path.realpath(s.filename) != files[0]:
                        raise Broken('%s is listed first, %s is loaded' % (files[0], s.filename))
        for _ in range(2):
            out = io.StringIO()
            util.printSchemata(args or None, out, absolute)
            if core.SCHEMA_PATH != before or args != copy:
                raise Broken('printing changed the list of paths: %r, %r' % (core.SCHEMA_PATH, args))
            both = core.listSchemata(*(args + before), absolute=absolute)
            text = ''.join('%s\n%s' % (k, ''.join('    %s\n' % v for v in vs)) for k, vs in both.items())
            if out.getvalue() != text:
                raise Broken('printed %r, expected %r' % (out.getvalue(), text))
        util.printSchemata(core.SCHEMA_PATH, io.StringIO(), absolute)
        if core.SCHEMA_PATH != before:
            raise Broken('printing changed the search list')
    finally:
        core.SCHEMA_PATH[:] = saved
        if top in sys.path:
            sys.path.remove(top)
        for m in [m for m in sys.modules if m.startswith('vk26_')]:
            del sys.modules[m]
        shutil.rmtree(top)


def gen_listing(rng):
    while True:
        names = ['a.xml', 'b.xml', 'A.XML', 'c.Xml', 'a.xml.bak', 'axml', 'd.txt']
        dirs = [[(n, rng.choice(list(FILES))) for n in names if rng.random() < .4] for _ in range(3)]
        pick = lambda k: [rng.choice((-3, -2, -1, 0, 0, 1, 1, 2, 2)) for _ in range(k)]     # noqa: E731
        yield dict(dirs=dirs, search=pick(rng.randint(0, 4)), given=rng.choice((None, pick(rng.randint(1, 3)))), absolute=rng.random() < .6,
                   how=rng.choice(('str', 'path', 'named', 'module')))


def dir_listing():
    out = []
    one, two = [('a.xml', 'schema'), ('b.xml', 'schema')], [('a.xml', 'schema'), ('c.xml', 'other')]
    for how in ('str', 'path', 'named', 'module'):
        for ab in (True, False):
            for s, g in (([0, 1], None), ([1, 0], None), ([0], [1]), ([0, 1], [1, 0]), ([-1, 0, -2, 1, -3], None), ([], None), ([], [0]), ([0, 0], None), ([0], [-1]), ([1], [1])):
                out.append(dict(dirs=[one, two], search=s, given=g, absolute=ab, how=how))
    for what in FILES:
        for n in ('x.xml', 'X.XML', '.xml', 'x.xm', 'xml'):
            out.append(dict(dirs=[[(n, what)], one], search=[0, 1]))
    return out
