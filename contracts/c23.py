"""C23: the command line tools and the files they may write."""
import builtins
import os
import os.path
import sys
from .base import *
from . import k_misc as K
import ebmlite.util as util
import ebmlite.xml_codecs as xml_codecs
from ebmlite.tools import utils, ebml2xml, xml2ebml, view_ebml
import argparse
import xml.etree.ElementTree as ET
import xml.dom.minidom as minidom

INT = V.INT
FILE = z3.Function('FILE', INT, INT)               # the file a path names
EXISTS = z3.Function('EXISTS', INT, z3.BoolSort())
USER = z3.Function('EXPANDUSER', INT, INT)
REAL = z3.Function('REALPATH', INT, INT)


class Path(Sym):
    """A path, as text."""
    pytype = str

    def __init__(self, w, t, empty=None):
        self.w, self.t = w, t
        self.empty = empty if empty is not None else z3.BoolVal(False)

    def __bool__(self):
        return not self.w.c.decide(self.empty)

    def m_strip(self, *a):
        return Path(self.w, z3.Int(self.w.c.uname('stripped')), self.empty)

    def guest_eq(self, o):
        if isinstance(o, Path):
            return mkb(self.t == o.t)
        if isinstance(o, str):
            memo = self.w.c.notes.setdefault('patheq', {})
            k = (self.t.get_id(), o)
            if k not in memo:
                memo[k] = (self.w.c.fresh_bool('is_%s' % (o or 'empty')) if o else SBool(self.empty), self.t)
            return memo[k][0]
        return False

    def __eq__(self, o):
        return self.guest_eq(o)

    def __add__(self, o):
        return Path(self.w, z3.Int(self.w.c.uname('joined')))

    __radd__ = __add__

    def is_none(self):
        return False

    __hash__ = Sym.__hash__


class Handle(Sym):
    """An open file, or anything else opaque."""
    def __init__(self, w, name):
        self.w, self.name = w, name

    def guest_getattr(self, ip, name):
        return Method(self, name)

    def __bool__(self):
        return True

    def guest_eq(self, o):
        return o is self

    def ident_eq(self, o):
        return o is self

    __hash__ = Sym.__hash__


class Method(Sym):
    def __init__(self, h, name):
        self.h, self.name = h, name

    def guest_call(self, ip, args, kwargs):
        if self.name == '__enter__':
            return self.h
        if self.name == '__exit__':
            return None
        if self.name in ('write', 'flush', 'close', 'writexml', 'tostring', 'read'):
            return Handle(self.h.w, self.name)
        raise Unsupported('%s of %s' % (self.name, self.h.name))

    __hash__ = Sym.__hash__


class World:
    """A file system in any state, and everything the tools do to it."""
    def __init__(self, c):
        self.c = c
        self.ip = Interp(c)
        self.opened = []
        self.loaded = None
        c.assume(z3.BoolVal(True))
        w = self

        def real(ip, a, k):
            p = a[0]
            if not isinstance(p, Path):
                return NotImplemented
            t = REAL(p.t)
            c.assume(FILE(t) == FILE(p.t))
            return Path(w, t)

        def user(ip, a, k):
            if not isinstance(a[0], Path):
                return NotImplemented
            return Path(w, USER(a[0].t))

        def exists(ip, a, k):
            p = a[0]
            if not isinstance(p, Path):
                raise Unsupported('existence of %r' % (p,))
            return mkb(EXISTS(FILE(p.t)))

        def splitext(ip, a, k):
            return (Path(w, z3.Int(c.uname('stem'))), Path(w, z3.Int(c.uname('ext')), c.fresh_bool('noext').e))

        def weaker(label):
            def f(ip, a, k):
                p = a[0]
                if not isinstance(p, Path):
                    raise Unsupported('%s of %r' % (label, p))
                b = c.fresh_bool(label)
                c.assume(z3.Implies(b.e, EXISTS(FILE(p.t))))
                return b
            return f
        s = c.summaries
        for name, f in (('realpath', real), ('abspath', real), ('normpath', real), ('expanduser', user), ('exists', exists), ('lexists', exists), ('splitext', splitext),
                        ('isfile', weaker('isfile')), ('isdir', weaker('isdir')), ('islink', weaker('islink'))):
            fn = getattr(os.path, name)
            if callable(fn):
                s[fn] = f
                c.models[fn] = (lambda f: lambda ip, *a, **k: f(ip, a, k))(f)

        def load(ip, a, k):
            r = c.choose(3, 'loadSchema')
            if r == 1:
                graise(IOError('no such schema'))
            if r == 2:
                graise(ValueError('bad schema'))
            w.loaded = Handle(w, 'schema')
            return w.loaded
        s[core.loadSchema] = load
        c.models[open] = lambda ip, *a, **k: w.open(*a, **k)

        def leave(ip, code=None):
            graise(SystemExit(code))
        c.models[builtins.exit] = c.models[builtins.quit] = c.models[sys.exit] = leave
        o = c.global_override
        for m in ('stdout', 'stderr', 'stdin'):
            o[('sys', m)] = Handle(self, m)
        self.stdout = o[('sys', 'stdout')]
        self.clobber = c.fresh_bool('clobber')
        self.input = Path(self, z3.Int('input'))
        self.schema = Path(self, z3.Int('schema'))
        self.output = [None, Path(self, z3.Int('output'), z3.Bool('output_empty'))][c.choose(2, 'output')]

    def args(self, **more):
        return SObj(argparse.Namespace, dict(input=self.input, schema=self.schema, output=self.output, clobber=self.clobber, **more), 'args')

    def open(self, path, mode='r', *a, **k):
        c = self.c
        if not isinstance(mode, str):
            raise Unsupported('open with mode %r' % (mode,))
        if not isinstance(path, Path):
            raise Unsupported('open of %r' % (path,))
        if any(x in mode for x in 'wax+'):
            c.prove(self.output is not None, 'nothing is opened for writing without an output argument')
            c.prove(mkb(EXISTS(FILE(self.input.t))), 'the input exists before the output is opened')
            c.prove(self.loaded is not None, 'the schema is loaded before the output is opened')
            c.prove(Or(mkb(z3.Not(EXISTS(FILE(path.t)))), self.clobber, 'x' in mode), 'an existing file is opened for writing only if clobbering was asked for')
            if self.output is not None:
                c.prove(Not(mkb(self.output.empty)), 'nothing is opened for writing without an output argument')
                ok = z3.Or(FILE(path.t) == FILE(self.output.t), FILE(path.t) == FILE(USER(self.output.t)))
                c.prove(mkb(ok), 'opens the output asked for')
        if c.choose(2, 'open') == 1:
            graise(OSError('cannot open'))
        h = Handle(self, 'file')
        self.opened.append((path, mode, h))
        return h


def finish(w, got, reached):
    """After load_files (or a tool) is done."""
    c = w.c
    if got[0] == 'exc':
        e = got[1]
        if isinstance(e, SystemExit):
            code = e.code
            ok = not (code is None or code == 0)
            c.prove(ok, 'exits with a non-zero status')
            c.cover('exit')
        if not reached:
            c.prove(not [1 for p, m, h in w.opened if any(x in m for x in 'wax+')], 'no file touched when it gives up')
        return
    c.prove(bool(reached), 'ends normally only after the conversion')
    c.cover('done')


def load_files(c):
    w = World(c)
    args = w.args()
    binary = c.case('binary', False, True)
    reached = []

    def consumer(v):
        reached.append(v)
        if not isinstance(v, tuple) or len(v) != 2:
            c.prove(False, 'yields the schema and the output stream')
            return
        c.prove(v[0] is w.loaded and v[0] is not None, 'yields the schema')
        c.prove(mkb(EXISTS(FILE(w.input.t))), 'the input exists')
        out = v[1]
        writers = [h for p, m, h in w.opened if any(x in m for x in 'wax+')]
        if w.output is None or decide(c, mkb(w.output.empty)):
            c.prove(not writers, 'nothing opened without an output argument')
            c.prove(out is w.stdout, 'without an output argument the text goes to standard output')
            c.cover('standard output')
        else:
            c.prove(len(writers) == 1 and out is writers[0], 'yields the opened output')
            c.cover('file')
        if c.choose(2, 'conversion') == 1:
            graise(ValueError('conversion failed'))
    fn = getattr(utils.load_files, '__wrapped__', None)
    if fn is None:
        raise Unsupported('load_files is no context manager')

    def go():
        g = w.ip.call_fn(fn, [args], {'binary_output': binary})
        w.ip.run_gen(g, consumer, wrap=False)
    got = outcome(go)
    finish(w, got, reached)


class Parser(Sym):
    """argparse.ArgumentParser: the options it was given."""
    pytype = argparse.ArgumentParser

    def __init__(self, w, tool):
        self.w, self.tool, self.opts = w, tool, []

    def m_add_argument(self, *names, **kw):
        self.opts.append((names, kw))
        return Handle(self.w, 'action')

    def m_parse_args(self, *a):
        w, c = self.w, self.w.c
        if a and a[0] is not None:
            raise Unsupported('arguments of parse_args')
        for names, kw in self.opts:
            dest = kw.get('dest') or next((n[2:] for n in names if n.startswith('--')), names[0].lstrip('-'))
            if dest == 'clobber':
                c.prove(kw.get('action') != 'store_false' and not kw.get('default'), 'clobbering has to be asked for')
                if kw.get('action') != 'store_true':
                    raise Unsupported('option --clobber')
            if dest == 'output':
                c.prove(kw.get('default') is None, 'there is no default output')
        more = {}
        for names, kw in self.opts:
            dest = kw.get('dest') or next((n[2:] for n in names if n.startswith('--')), names[0].lstrip('-'))
            if dest in ('input', 'schema', 'output', 'clobber'):
                continue
            if kw.get('action') == 'store_true':
                more[dest] = c.case(dest, False, True)
            elif kw.get('choices'):
                more[dest] = c.case(dest, *w.ip.iterate(kw['choices']))
            else:
                more[dest] = Handle(w, dest)
        return w.args(**more)

    def __bool__(self):
        return True

    __hash__ = Sym.__hash__


def tool(mod, name, convert):
    def run(c):
        w = World(c)
        c.models[argparse.ArgumentParser] = lambda ip, *a, **k: Parser(w, name)
        reached = []

        def opaque(label, final=False):
            def f(ip, a, k):
                for x in a:
                    if isinstance(x, Path):
                        c.prove(x is w.input, 'reads the input given')
                if final:
                    reached.append(label)
                if c.choose(2, label) == 1:
                    graise(ValueError('failed'))
                return Handle(w, label)
            return f
        for fn, label in ((util.toXml, 'toXml'), (util.xml2ebml, 'xml2ebml'), (util.pprint, 'pprint'), (ET.tostring, 'tostring'), (minidom.parseString, 'parseString')):
            c.summaries[fn] = opaque(label, label in convert)
        c.models[('schema', 'load')] = opaque('load')
        got = outcome(lambda: w.ip.call(mod.main, []))
        if got[0] == 'exc':
            if isinstance(got[1], SystemExit):
                c.prove(got[1].code not in (None, 0), 'exits with a non-zero status')
                c.cover('exit')
            return
        c.prove(bool(reached), 'ends normally only after the conversion')
        c.cover('done')
    return Proof(name, run, ['tools.%s.main' % name, 'tools.utils.load_files'], covers=('exit', 'done'))


_old = Method.guest_call


def _call(self, ip, args, kwargs):
    if self.h.name == 'schema' and self.name in ('load', '__call__'):
        return self.h.w.c.models[('schema', 'load')](ip, args, kwargs)
    return _old(self, ip, args, kwargs)


Method.guest_call = _call

PROOFS = [
    Proof('load_files', load_files, ['tools.utils.load_files', 'tools.utils.errPrint'], covers=('exit', 'done', 'file', 'standard output')),
    tool(ebml2xml, 'ebml2xml', ('toXml',)),
    tool(xml2ebml, 'xml2ebml', ('xml2ebml',)),
    tool(view_ebml, 'view_ebml', ('pprint',)),
]

KINDS = [Kind('cli', K.check_cli, None, K.dir_cli)]

PROPERTY = Property('C23', PROOFS, KINDS,
    assumptions=['Between the test for an existing output and the opening no other process creates that file.',
                 'toXml, xml2ebml (given a stream) and pprint open nothing but the input; schema.load opens its argument for reading (see C24).'],
    trusted=['os.path.realpath, abspath and normpath name the same file as their argument; expanduser may name any file.', 'argparse sets a store_true option only if it is given, and gives no default that was not asked for.'])
