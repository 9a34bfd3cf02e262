"""F12: packets are read and written only inside the configured directory, under names that follow from the packet."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library
from .tree import short, pname, args_of, arg, SELF
from .names import ctors

# functions of the standard library that act on a path -> positions of the paths among the arguments (receiver = 'r')
CALLS = {
    'open': ('o', (0,)), 'io.open': ('o', (0,)), 'os.open': ('w', (0,)),
    'os.remove': ('w', (0,)), 'os.unlink': ('w', (0,)), 'os.rmdir': ('w', (0,)), 'os.removedirs': ('w', (0,)), 'os.mkdir': ('w', (0,)),
    'os.makedirs': ('w', (0,)), 'os.rename': ('w', (0, 1)), 'os.replace': ('w', (0, 1)), 'os.renames': ('w', (0, 1)),
    'os.link': ('w', (0, 1)), 'os.symlink': ('w', (0, 1)), 'os.truncate': ('w', (0,)), 'os.chmod': ('w', (0,)), 'os.utime': ('w', (0,)),
    'shutil.move': ('w', (0, 1)), 'shutil.copy': ('w', (0, 1)), 'shutil.copyfile': ('w', (0, 1)), 'shutil.copy2': ('w', (0, 1)), 'shutil.rmtree': ('w', (0,)),
}
METHODS = {
    'mkdir': 'w', 'unlink': 'w', 'rmdir': 'w', 'touch': 'w', 'write_bytes': 'w', 'write_text': 'w', 'read_bytes': 'r', 'read_text': 'r',
    'rename': 'w', 'symlink_to': 'w', 'hardlink_to': 'w', 'open': 'o', 'chmod': 'w', 'iterdir': 'r', 'glob': 'r', 'rglob': 'r',
}
TYPES = {'name': {'Name'}, 'content_object_hash': {'HashValue'}, 'digest': {'HashValue'}, 'body': {'ContentObject', 'Interest'}}
PATHS = ('PurePath', 'Path', 'PosixPath', 'PurePosixPath', 'os.path.join', 'posixpath.join')
SAME = ('os.fspath', 'os.path.normpath', 'os.path.abspath', 'os.path.realpath', 'str')


def f12(ctx, rep):
    f = Files(ctx)
    ks = f.stores()
    if not ks:
        rep.und('directories', 'ccnpy', 'no class keeps packets in a directory')
        return
    for k in ks:
        fixed(f, rep, k)
        inside(f, rep, k)
    agree(f, rep, ks)
    elsewhere(f, rep, ks)


class Files:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        names = {n for f in library(ctx.p) for n in [f.name] if self.acts(f)}
        self.acting = names
        self.fl = Flow(ctx, {'open', 'mkdir', 'unlink', 'rename', 'remove', 'replace', 'makedirs', 'touch', 'write_bytes', 'read_bytes'},
                       stop={'serialize', 'deserialize', 'content_object_hash', 'as_uri', 'sign', 'validation_alg', 'create_signed_content_object', 'create_link', '__init__'},
                       keep=(), also=self.helper, samename=True, nomerge=True, states=20000)
        self.runs = {}

    @staticmethod
    def acts(f):
        return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'open' or isinstance(n.func, ast.Attribute) and n.func.attr in METHODS) for n in ast.walk(f.node))

    def helper(self, f):
        """what makes paths, and what acts on them"""
        if f.name in ('__init__', 'serialize', 'deserialize', 'content_object_hash', 'as_uri'):
            return False
        if any(k in self.stores() for k in ([f.cls] + f.cls.all_subs() if f.cls is not None else [])):
            return True
        if f.name in self.acting:
            return True
        return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('replace', 'hex', 'hexdigest') for n in ast.walk(f.node)) and len(f.node.body) < 20

    def stores(self):
        def build():
            out = []
            for k in self.p.classes.values():
                m = k.methods.get('__init__')
                if m is not None and not k.qual.startswith('ccnpy.apps') and 'directory' in m.params:
                    out.append(k)
            return sorted(out, key=lambda k: k.qual)
        return self.ctx.lazy('files.stores', build)

    def roots(self, k):
        """attributes that hold the configured directory"""
        out = set()
        m = k.find('__init__')
        D = mk('param', 'directory')
        for o in self.fl.run(m, selfcls=k):
            for (ob, a), v in ((x, y) for x, y in o.st.heap.items() if isinstance(x, tuple) and len(x) == 2):
                if ob is SELF and isinstance(v, T) and mentions(canon(v), D):
                    out.add(a)
        return out

    def outs(self, f, k):
        key = (f, k)
        if key not in self.runs:
            self.runs[key] = [o for o in self.fl.run(f, selfcls=k) if not self.mistyped(o, f)]
        return self.runs[key]

    def mistyped(self, o, f):
        """the path is taken only for an argument that is not of its declared type"""
        for a, v in o.facts.items():
            if a.op != 'isa':
                continue
            x = a.a[0]
            tested = {str(c.a[0]).split('.')[-1] for c in a.a[1:] if isinstance(c, T) and c.a}
            if x.op == 'param':
                n = f.ann.get(x.a[0]) if isinstance(f.ann, dict) else None
                names = {y.id for y in ast.walk(n) if isinstance(y, ast.Name)} if n is not None else set()
                names -= {'Optional', 'Union'}
            else:
                n = x.a[1] if x.op == 'attr' else x.a[0] if x.op == 'mcall' else None
                names = TYPES.get(n.lstrip('_'), set()) if isinstance(n, str) else set()
            if names and (v and not tested & names and all(self.apart(a, b) for a in names for b in tested) or not v and names <= tested):
                return True
        return False

    def apart(self, a, b):
        """no object is of both classes"""
        x, y = [c for c in self.p.classes.values() if c.name == a], [c for c in self.p.classes.values() if c.name == b]
        return len(x) == 1 and len(y) == 1 and not x[0].isa(y[0]) and not y[0].isa(x[0]) and not any(k.isa(y[0]) for k in x[0].all_subs())

    def effects(self, o):
        """(kind, path term, event) of what a path does to files"""
        for e, ls in walk_events(o.events()):
            t = e.term
            if e.kind not in ('call', 'mut') or not isinstance(t, T):
                continue
            if t.op in ('mcall', 'mut') and t.a[0] in METHODS:
                if t.a[0] in ('open', 'rename') and not is_path(t.a[1]):
                    continue
                kind = METHODS[t.a[0]]
                if kind == 'o':
                    kind = mode_kind(arg(t, 'mode', 0))
                yield kind, t.a[1], e
                if t.a[0] == 'rename':
                    yield kind, arg(t, 'target', 0), e
            elif t.op == 'call':
                n = ext_name(t)
                if n in CALLS:
                    kind, pos = CALLS[n]
                    if kind == 'o':
                        kind = mode_kind(arg(t, 'mode', 1))
                    for p in pos:
                        v = arg(t, ('file', 'path', 'src')[0], p)
                        if v is not None:
                            yield kind, v, e


def mode_kind(m):
    if m is None:
        return 'r'
    if m.op == 'const' and isinstance(m.a[0], str):
        return 'w' if set(m.a[0]) & set('wax+') else 'r'
    return None


def ext_name(t):
    f = t.a[0]
    if isinstance(f, T) and f.op == 'ext':
        return str(f.a[0]).removeprefix('builtins.')
    if isinstance(f, T) and f.op == 'attr' and isinstance(f.a[0], T):
        return show(f)
    return show(t).split('(')[0]


def is_path(t):
    return t.op == 'call' and ext_name(t).split('.')[-1] in PATHS or t.op in ('div', 'binop') or t.op == 'mcall' and t.a[0] in ('joinpath', 'with_name', 'with_suffix')


# ------------------------------------------------------------------ texts
class Text:
    """what is known of a piece of a file name: nosep - has no separator; dots - may contain a dot; solid - surely has
    another character than a dot; None - not known"""

    def __init__(self, nosep, dots, solid, why=''):
        self.nosep, self.dots, self.solid, self.why = nosep, dots, solid, why

    def safe(self):
        if self.nosep is False:
            return False
        if self.nosep and (self.solid or self.dots is False):
            return True
        if self.nosep and self.dots:
            return False
        return None


UNKNOWN = Text(None, None, False)
HEX = Text(True, False, False)


def text(t):
    if t.op == 'const':
        s = t.a[0]
        if isinstance(s, str):
            return Text('/' not in s, '.' in s, bool(set(s) - {'.', '/'}), repr(s))
        if isinstance(s, int):
            return Text(True, False, True)
        return UNKNOWN
    if t.op in ('fstr', 'cat'):
        ps = [text(x) for x in parts(t)]
        bad = next((p for p in ps if p.nosep is False), None)
        nosep = False if bad else None if any(p.nosep is None for p in ps) else True
        dots = True if any(p.dots for p in ps) else None if any(p.dots is None for p in ps) else False
        return Text(nosep, dots, any(p.solid for p in ps), bad.why if bad else '')
    if t.op == 'slice':
        p = text(t.a[0])
        return Text(p.nosep, p.dots, False, p.why)
    if t.op in ('num', 'lin', 'mul', 'len'):
        return Text(True, False, True)
    if t.op == 'mcall':
        n = t.a[0]
        a, kw = margs(t)
        if n in ('hex', 'hexdigest'):
            return HEX
        if n == 'replace' and len(a) > 2:
            p = text(t.a[1])
            return Text(False if p.nosep is False else None, p.dots, False, p.why)
        if n == 'replace' and len(a) == 2:
            p = text(t.a[1])
            old, new = const_of(a[0]), const_of(a[1])
            if isinstance(old, str) and isinstance(new, str):
                nosep = True if old == '/' and '/' not in new else False if '/' in new else p.nosep
                dots = False if old == '.' and '.' not in new else True if '.' in new else p.dots
                return Text(nosep, dots, bool(set(new) - {'.'}) and False, p.why)
            return UNKNOWN
        if n in ('upper', 'lower', 'casefold', 'zfill', 'rjust', 'ljust'):
            return text(t.a[1])
        if n in ('strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix'):
            p = text(t.a[1])
            return Text(p.nosep, p.dots, False, p.why)
        if n == 'as_uri':
            return Text(False, True, True, show(t)[:60])
        if n == 'decode':
            r = t.a[1]
            if r.op == 'call' and ext_name(r).split('.')[-1] in ('urlsafe_b64encode', 'b32encode', 'b16encode', 'hexlify'):
                return HEX
            return Text(False, True, False, show(t)[:60]) if not (r.op == 'call' and ext_name(r).split('.')[0] in ('base64', 'binascii')) else Text(False, False, False, show(t)[:60])
    if t.op == 'call':
        n = ext_name(t).split('.')[-1]
        a, kw = cargs(t)
        if n in ('quote', 'quote_plus') and a:
            s = const_of(kw.get('safe', a[1] if len(a) > 1 else const('/' if n == 'quote' else '')))
            if isinstance(s, str) and '/' not in s:
                return Text(True, True, False)
            return text(a[0])
        if n == 'str' and a:
            return text(a[0])
        if n == 'basename':
            return Text(True, True, False)
        if n in ('hex', 'oct', 'bin'):
            return Text(True, False, True)
        if n == 'b64encode':
            return Text(False, False, False, show(t)[:60])
    if t.op == 'attr':
        if t.a[1] in ('path', 'netloc', 'query', 'fragment') and 'urlparse' in show(t.a[0]) or t.a[1] in ('path', 'query', 'fragment') and 'urlsplit' in show(t.a[0]):
            return Text(False, True, False, show(t)[:60])
        if t.a[1] in ('name', 'stem') and is_path(t.a[0]):
            return Text(True, True, False)
    return UNKNOWN


def parts(t):
    if t.op in ('fstr', 'cat'):
        for x in t.a:
            if isinstance(x, T):
                yield from parts(x)
            elif isinstance(x, str):
                yield const(x)
    else:
        yield t


def components(t, roots):
    """('root', [component terms]) of a path below the directory, or (None, ...)"""
    if t.op == 'attr' and t.a[0] is SELF and t.a[1] in roots:
        return []
    if t.op == 'call':
        n = ext_name(t)
        a, kw = cargs(t)
        if n.split('.')[-1] in PATHS or n in PATHS:
            if not a:
                return None
            h = components(a[0], roots)
            if h is None:
                return None
            return h + [y for x in a[1:] for y in split(x)]
        if n in SAME and a:
            return components(a[0], roots)
    if t.op == 'mcall' and t.a[0] in ('joinpath',):
        h = components(t.a[1], roots)
        a, kw = margs(t)
        return None if h is None else h + [y for x in a for y in split(x)]
    if t.op == 'mcall' and t.a[0] in ('with_suffix', 'with_name'):
        h = components(t.a[1], roots)
        a, kw = margs(t)
        if not h or not a:
            return None
        return h[:-1] + [a[0] if t.a[0] == 'with_name' else mk('fstr', h[-1], a[0])]
    if t.op == 'attr' and t.a[1] == 'parent':
        h = components(t.a[0], roots)
        return None if not h else h[:-1]
    if t.op == 'div' and len(t.a) == 2:
        h = components(t.a[0], roots)
        return None if h is None else h + split(t.a[1])
    if t.op in ('fstr', 'cat'):
        ps = list(parts(t))
        h = components(ps[0], roots) if ps else None
        if h is None:
            return None
        cur, out = [], list(h)
        rest = ps[1:]
        if h and rest and not (rest[0].op == 'const' and str(rest[0].a[0]).startswith('/')):
            cur = [out.pop()]
        elif not rest or not (rest[0].op == 'const' and isinstance(rest[0].a[0], str) and rest[0].a[0].startswith('/')):
            return ['glued', t]
        for x in rest:
            if x.op == 'const' and isinstance(x.a[0], str):
                bits = x.a[0].split('/')
                for i, b in enumerate(bits):
                    if i:
                        if cur:
                            out.append(mk('fstr', *cur) if len(cur) > 1 else cur[0])
                        cur = []
                    if b:
                        cur.append(const(b))
            else:
                cur.append(x)
        if cur:
            out.append(mk('fstr', *cur) if len(cur) > 1 else cur[0])
        return out
    return None


def split(x):
    if x.op == 'const' and isinstance(x.a[0], str):
        if x.a[0].startswith('/'):
            return [x]
        return [const(b) for b in x.a[0].split('/') if b not in ('', '.')]
    return [x]


def entries(k):
    """what users and the library call"""
    out = []
    for c in k.mro():
        for n, m in c.methods.items():
            if not m.abstract and n not in [x.name for x in out] and n in ('get', 'put', '__iter__', 'close', '__getitem__', '__init__'):
                out.append(k.find(n))
    return sorted(set(out), key=lambda m: m.name)


# ------------------------------------------------------------------ rules
def fixed(f, rep, k):
    rule = 'the directory is the one configured'
    con = short_cls(k)
    with rep.guard(rule, con):
        roots = f.roots(k)
        rep.check(True if roots else None, rule, con, k.find('__init__').loc(), 'the directory is not kept')
        D = mk('param', 'directory')
        for o in f.outs(k.find('__init__'), k):
            for a in roots:
                v = o.st.heap.get((SELF, a))
                if v is None:
                    continue
                others = {s for s in subs(canon(v)) if s.op == 'param' and s is not D and s is not SELF}
                rep.check(True if canon(v) is D else None if others or not mentions(canon(v), D) else True, rule, con, k.find('__init__').loc(), 'the directory is %s' % show(v)[:60])
        for c in k.mro():
            for m in c.methods.values():
                if m.name == '__init__':
                    continue
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and n.attr in roots and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == m.first:
                        rep.viol(rule, con, '%s:%d' % (m.mod.rel, n.lineno), '%s changes the directory' % m.name)


def short_cls(k):
    return k.qual.removeprefix('ccnpy.')


def inside(f, rep, k):
    rule = 'files are touched only inside the directory'
    roots = f.roots(k)
    for m in entries(k):
        con = '%s.%s' % (short_cls(k), m.name)
        with rep.guard(rule, con):
            for o in f.outs(m, k):
                for kind, path, e in f.effects(o):
                    path = canon(path)
                    where = e.loc()
                    if kind == 'r' and m.name == '__init__':
                        continue
                    cs = components(path, roots)
                    if cs is None:
                        fromparam = any(s.op == 'param' and s.a[0] == 'directory' for s in subs(path))
                        inroot = any(s.op == 'attr' and s.a[0] is SELF and s.a[1] in roots for s in subs(path))
                        rep.check(None if fromparam or inroot else False if plain(path) else None, rule, con, where, '%s is not inside the directory' % show(path)[:80])
                        continue
                    if cs and cs[0] == 'glued':
                        rep.viol(rule, con, where, '%s is next to the directory, not inside' % show(path)[:80])
                        continue
                    if not cs and pname(e.term).split('.')[-1] in ('mkdir', 'makedirs') and dict(args_of(e.term)).get('exist_ok') is TRUE:
                        rep.ok(rule, con)       # it exists
                        continue
                    if not cs:
                        rep.check(None if kind == 'r' else False, rule, con, where, 'the directory itself is changed')
                        continue
                    for x in cs:
                        s = text(x)
                        g = s.safe()
                        msg = 'the file name part %s may %s' % (show(x)[:80], 'contain a separator (%s)' % s.why[:60] if s.nosep is False else 'be ".."')
                        rep.check(g, rule, con, where, msg)
                    if m.name in ('get', '__iter__', '__getitem__'):
                        rep.check(kind == 'r' if kind else None, 'reading a packet creates and changes nothing', con, where, '%s is written' % show(path)[:80])
                if m.name == 'put':
                    own(f, rep, k, con, m, o, roots)


def plain(path):
    """a path that owes nothing to what cannot be seen"""
    return all(s.op in ('const', 'call', 'mcall', 'attr', 'param', 'ext', 'fstr', 'cat', 'slice', 'num', 'tobytes', 'kw', 'div') for s in subs(path) if s.op not in ('fn', 'cls', 'mod'))


def own(f, rep, k, con, m, o, roots):
    """what is written, and under which name"""
    rule = 'a file is named after the packet it holds'
    ps = [x for x in m.params if x != m.first]
    P = mk('param', ps[0])
    used = {}
    for e, ls in walk_events(o.events()):
        t = e.term
        if e.kind not in ('call', 'mut') or not isinstance(t, T) or t.op not in ('mcall', 'mut') or t.a[0] not in ('write', 'write_bytes'):
            continue
        data = [x for x in margs(t)[0] + list(margs(t)[1].values()) if isinstance(x, T)] if t.op == 'mcall' else [x for x in t.a[2:] if isinstance(x, T)]
        recv = t.a[1]
        if t.a[0] == 'write_bytes':
            path = recv
        else:
            opened = [s for s in subs(recv) if s.op == 'call' and ext_name(s) in ('open', 'io.open')] or [s for s in subs(recv) if s.op == 'mcall' and s.a[0] == 'open']
            if not opened:
                continue
            path = cargs(opened[0])[0][0] if opened[0].op == 'call' else opened[0].a[1]
        cs = components(canon(path), roots)
        if not cs or not data or cs[0] == 'glued':
            continue
        last = cs[-1]
        d = canon(data[0])
        whole = d.op in ('tobytes', 'mcall', 'call')
        src = [s for s in subs(d) if s.op in ('mcall', 'call') and pname(s) == 'serialize' or s.op == 'attr' and s.a[1] == '_wire_format']
        if not src:
            rep.check(False if not mentions(d, P) and d.op == 'const' else None, rule, con, e.loc(), 'what is written is %s' % show(d)[:60])
            continue
        before = used.setdefault(seqname(cs), d)
        rep.check(before is d, 'a file holds one packet', con, e.loc(), 'two packets are written to %s' % show(last)[:80])
        who = src[0].a[1] if src[0].op == 'mcall' else src[0].a[0]
        if any(s.op == 'slice' for s in subs(d)):
            rep.viol(rule, con, e.loc(), 'only part of the packet is written')
            continue
        if who is P:
            hs = [s for s in subs(last) if pname(s) == 'content_object_hash' and s.op in ('mcall', 'call')]
            mine = [s for s in hs if (s.a[1] if s.op == 'mcall' else None) is P]
            if not mine:
                rep.check(None if not plain(last) or not mentions(last, P) and last.op != 'const' else False, rule, con, e.loc(), 'the packet is kept as %s' % show(last)[:80])
                continue
            cut = any(s.op == 'slice' for s in subs(last))
            rep.check(not cut, rule, con, e.loc(), 'the packet is kept under part of its hash: %s' % show(last)[:80])
        else:
            names = mentions(last, P)
            rep.check(True if names else False if plain(last) else None, rule, con, e.loc(), 'the link is kept as %s' % show(last)[:80])


def norm(t, P, H, N):
    """a file name as a list of known pieces: whole hash, name, constants; None when something is unknown"""
    out = []
    for x in parts(t):
        x = canon(x)
        if x.op == 'const' and isinstance(x.a[0], str):
            if out and isinstance(out[-1], str):
                out[-1] += x.a[0]
            else:
                out.append(x.a[0])
        else:
            y = x
            while y.op == 'mcall' and y.a[0] in ('upper', 'lower', 'replace', 'strip', 'encode', 'hex', 'value', 'tobytes') or y.op in ('tobytes', 'slice') or y.op == 'attr' or y.op == 'call':
                if y in (H, N):
                    break
                if y.op == 'call':
                    a, kw = cargs(y)
                    if ext_name(y).split('.')[-1] not in ('urlparse', 'urlsplit', 'bytes', 'str', 'quote') or not a:
                        return None
                    y = a[0]
                elif y.op == 'mcall':
                    y = y.a[1]
                else:
                    y = y.a[0]
                if not isinstance(y, T):
                    return None
            if y not in (H, N) and not (y.op == 'mcall' and y.a[0] == 'as_uri' and y.a[1] in (H, N)):
                return None
            out.append(x)
    return out


def agree(f, rep, ks):
    """a reader looks for a packet where a writer puts it"""
    rule = 'readers look where writers write'
    H, N = mk('param', '$hash'), mk('param', '$name')
    wrote, read = {'hash': {}, 'name': {}}, {'hash': {}, 'name': {}}
    for k in ks:
        for m in entries(k):
            if m.name not in ('put', 'get'):
                continue
            roots = f.roots(k)
            ps = [x for x in m.params if x != m.first]
            P = mk('param', ps[0])
            for o in f.outs(m, k):
                for kind, path, e in f.effects(o):
                    cs = components(canon(path), roots)
                    if not cs or cs[0] == 'glued' or kind is None:
                        continue
                    y = seqname(cs)
                    if m.name == 'put' and kind == 'w':
                        h = {s: H for s in subs(y) if s.op in ('mcall',) and s.a[0] == 'content_object_hash' and s.a[1] is P}
                        n = {s: N for s in subs(y) if s.op == 'attr' and s.a[1] == '_name' and mentions(s, P) or s.op == 'mcall' and s.a[0] == 'name' and mentions(s, P)}
                        if h and not n:
                            wrote['hash'][f.fl.i.subst(y, h)] = (k, m, e)
                        elif n and not h:
                            wrote['name'][f.fl.i.subst(y, n)] = (k, m, e)
                    elif m.name == 'get' and kind == 'r':
                        h = {s: H for s in subs(y) if s.op == 'param' and s.a[0] == 'hash_restriction' or s.op in ('mcall', 'attr') and (s.a[0] == 'digest' or s.a[1] == '_digest')}
                        n = {s: N for s in subs(y) if s.op == 'param' and s.a[0] == 'name'}
                        if h and not n:
                            read['hash'][f.fl.i.subst(y, h)] = (k, m, e)
                        elif n and not h:
                            read['name'][f.fl.i.subst(y, n)] = (k, m, e)
    for what in ('hash', 'name'):
        if not wrote[what] or not read[what]:
            rep.und(rule, 'by %s' % what, 'no reader or no writer')
            continue
        for r, (k, m, e) in read[what].items():
            con = '%s.%s by %s' % (short_cls(k), m.name, what)
            a = canonical(r, H, N)
            res = []
            for w in wrote[what]:
                b = canonical(w, H, N)
                res.append(True if r is w else None if a is None or b is None else a == b)
            rep.check(True if True in res else None if None in res else False, rule, con, e.loc(), 'packets are written as %s and looked for as %s' % (', '.join(show(w)[:70] for w in wrote[what]), show(r)[:70]))


def seqname(cs):
    """the components of a path as one text"""
    if len(cs) == 1:
        return cs[0]
    xs = []
    for c in cs:
        xs += [c, const('/')]
    return mk('fstr', *xs[:-1])


def canonical(t, H, N):
    ps = norm(t, None, H, N)
    if ps is None:
        return None
    return [p if isinstance(p, str) else show(p).replace('$hash.value()', '$hash').replace('$hash._value', '$hash') for p in ps]


def elsewhere(f, rep, ks):
    """other code touches only files that its caller names"""
    rule = 'other files are touched only where the caller says'
    store = {m for k in ks for c in k.mro() for m in c.methods.values()}
    for g in sorted(library(f.p), key=lambda g: g.qual):
        if g.qual.startswith('ccnpy.apps') or g in store or g.abstract or not f.acts(g):
            continue
        con = short(g)
        with rep.guard(rule, con):
            for o in f.fl.run(g, selfcls=g.cls):
                for kind, path, e in f.effects(o):
                    path = canon(path)
                    ps = [s for s in subs(path) if s.op == 'param' and s is not SELF]
                    if ps or mentions(path, SELF):
                        rep.ok(rule, con)
                    else:
                        rep.check(False if plain(path) else None, rule, con, e.loc(), '%s is touched' % show(path)[:80])


RULES = {'F12': f12}
