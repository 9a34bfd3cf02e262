"""Loads /repo/ccnpy as a resolved program: modules, imports, classes, MRO, functions, annotations."""
import ast
import hashlib
import os

REPO = os.environ.get('CCNPY_REPO', '/repo')
PKG = 'ccnpy'


class AnalysisError(Exception):
    """the analysis cannot be carried out (a vanished anchor, an unreadable source)"""


class Func:
    def __init__(self, node, mod, cls, qual):
        self.node, self.mod, self.cls, self.qual = node, mod, cls, qual
        self.name = node.name if hasattr(node, 'name') else '<lambda>'
        decs = [d.id if isinstance(d, ast.Name) else d.attr if isinstance(d, ast.Attribute) else '' for d in
                getattr(node, 'decorator_list', [])]
        self.decs = decs
        self.kind = 'func' if cls is None else ('static' if 'staticmethod' in decs else
                                                 'class' if 'classmethod' in decs else
                                                 'prop' if 'property' in decs or 'cached_property' in decs else 'inst')
        if cls is not None and self.name == '__new__':
            self.kind = 'static'
        self.abstract = 'abstractmethod' in decs
        self.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_local(node))
        a = node.args
        self.pos = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.ann = {x.arg: x.annotation for x in a.posonlyargs + a.args + a.kwonlyargs if x.annotation is not None}
        self.defaults = {}
        p = a.posonlyargs + a.args
        for x, d in zip(p[len(p) - len(a.defaults):], a.defaults):
            self.defaults[x.arg] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                self.defaults[x.arg] = d
        self.nested = {}

    @property
    def params(self):
        """parameter names without the bound first one"""
        return (self.pos[1:] if self.kind in ('inst', 'class', 'prop') else self.pos) + self.kwonly

    @property
    def first(self):
        return self.pos[0] if self.kind in ('inst', 'class', 'prop') and self.pos else None

    def loc(self):
        return '%s:%d %s' % (self.mod.rel, self.node.lineno, self.qual)

    def __repr__(self):
        return 'Func(%s)' % self.qual


def walk_local(fn):
    """walk a function body without nested functions and classes"""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    todo = list(body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo.extend(ast.iter_child_nodes(n))


class Cls:
    def __init__(self, node, mod, qual, outer):
        self.node, self.mod, self.qual, self.outer = node, mod, qual, outer
        self.name = node.name
        self.methods, self.attrs, self.nested, self.anns = {}, {}, {}, {}
        self.bases = []        # Cls or ('ext', name)
        self.subs = []
        self.dataclass = None
        self.synth_init = None

    def __repr__(self):
        return 'Cls(%s)' % self.qual

    def mro(self):
        out, todo = [], [self]
        # linearisation good enough for this code base: C3 by depth first with duplicates kept last
        def dfs(c):
            out.append(c)
            for b in c.bases:
                if isinstance(b, Cls):
                    dfs(b)
        dfs(self)
        seen, res = set(), []
        for c in reversed(out):
            if c not in seen:
                seen.add(c)
                res.append(c)
        return res[::-1]

    def ext_bases(self):
        return [b[1] for c in self.mro() for b in c.bases if not isinstance(b, Cls)]

    def find(self, name, after=None):
        mro = self.mro()
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else []
        for c in mro:
            if name in c.methods:
                return c.methods[name]
        return None

    def find_attr(self, name):
        for c in self.mro():
            if name in c.attrs:
                return c, c.attrs[name]
            if name in c.nested:
                return c, c.nested[name]
        return None

    def isa(self, other):
        return other in self.mro()

    def all_subs(self):
        out = []
        todo = list(self.subs)
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo += c.subs
        return out

    def is_abstract(self):
        seen = set()
        for c in self.mro():
            for n, m in c.methods.items():
                if n not in seen:
                    seen.add(n)
                    if m.abstract:
                        return True
        return False

    def is_enum(self):
        return any(b.split('.')[-1] in ('Enum', 'IntEnum', 'StrEnum', 'Flag', 'IntFlag') for b in self.ext_bases())


class Mod:
    def __init__(self, name, path, rel, tree, src):
        self.name, self.path, self.rel, self.tree, self.src = name, path, rel, tree, src
        self.names = {}      # local name -> ('mod', m) ('from', m, n) ('cls', Cls) ('fn', Func) ('val', expr)
        self.is_pkg = os.path.basename(path) == '__init__.py'
        self.classes, self.funcs = {}, {}


def is_test(rel):
    return '/tests/' in '/' + rel or os.path.basename(rel).startswith('test_')


class Project:
    def __init__(self, root=None, overlay=None):
        self.root = root or REPO
        self.mods, self.classes, self.funcs = {}, {}, {}
        digest = hashlib.sha256()
        base = os.path.join(self.root, PKG)
        if not os.path.isdir(base):
            raise AnalysisError('no package directory ' + base)
        for d, ds, fs in sorted(os.walk(base)):
            ds[:] = sorted(x for x in ds if x != '__pycache__')
            for f in sorted(fs):
                if not f.endswith('.py'):
                    continue
                path = os.path.join(d, f)
                rel = os.path.relpath(path, self.root)
                if is_test(rel):
                    continue
                src = open(path, encoding='utf-8').read()
                if overlay and rel in overlay:
                    src = overlay[rel]
                digest.update(rel.encode() + b'\0' + src.encode())
                try:
                    tree = ast.parse(src, path)
                except SyntaxError as e:
                    raise AnalysisError('cannot parse %s: %s' % (rel, e))
                name = rel[:-3].replace(os.sep, '.')
                if name.endswith('.__init__'):
                    name = name[:-9]
                self.mods[name] = Mod(name, path, rel, tree, src)
        self.digest = digest.hexdigest()
        for m in self.mods.values():
            self._collect(m)
        for c in self.classes.values():
            c.bases = [self._base(c, b) for b in c.node.bases]
        for c in self.classes.values():
            for b in c.bases:
                if isinstance(b, Cls):
                    b.subs.append(c)
        for c in self.classes.values():
            self._dataclass(c)
        self.by_method = {}
        for c in self.classes.values():
            for n, f in c.methods.items():
                self.by_method.setdefault(n, []).append(f)
        self.mutable_class_attrs = self._assigned_class_attrs()

    # ---- collection ----
    def _collect(self, m):
        def scope(body, names, cls, qual, owner_fn=None):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    q = qual + '.' + s.name
                    f = Func(s, m, cls, q)
                    if cls is not None:
                        # property setters share a name; keep the getter
                        if s.name in cls.methods and any('setter' in ast.dump(d) for d in s.decorator_list):
                            continue
                        cls.methods[s.name] = f
                    else:
                        m.funcs[s.name] = f
                        names[s.name] = ('fn', f)
                    self.funcs[q] = f
                    self._nested(f, q)
                elif isinstance(s, ast.ClassDef):
                    q = qual + '.' + s.name
                    c = Cls(s, m, q, cls)
                    self.classes[q] = c
                    if cls is not None:
                        cls.nested[s.name] = c
                    else:
                        m.classes[s.name] = c
                        names[s.name] = ('cls', c)
                    scope(s.body, {}, c, q)
                elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                    targets = s.targets if isinstance(s, ast.Assign) else [s.target]
                    for t in targets:
                        if isinstance(t, ast.Name):
                            if cls is not None:
                                if isinstance(s, ast.AnnAssign):
                                    cls.anns[t.id] = s.annotation
                                if s.value is not None:
                                    cls.attrs[t.id] = s.value
                            elif s.value is not None:
                                names[t.id] = ('val', s.value)
                elif isinstance(s, (ast.Import, ast.ImportFrom)) and cls is None:
                    self._imports(m, s, names)
                elif isinstance(s, (ast.If, ast.Try)):
                    scope(s.body, names, cls, qual)
                    scope(s.orelse, names, cls, qual)
        scope(m.tree.body, m.names, None, m.name)

    def _nested(self, f, q):
        for n in walk_local(f.node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                g = Func(n, f.mod, None, q + '.' + n.name)
                f.nested[n.name] = g
                self.funcs[g.qual] = g
                self._nested(g, g.qual)

    def _imports(self, m, s, names):
        for k, v in self.import_bindings(m, s):
            names[k] = v

    def import_bindings(self, m, s):
        out = []
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    out.append((a.asname, ('mod', a.name)))
                else:
                    out.append((a.name.split('.')[0], ('mod', a.name.split('.')[0])))
        else:
            base = s.module or ''
            if s.level:
                pkg = m.name if m.is_pkg else m.name.rsplit('.', 1)[0]
                for _ in range(s.level - 1):
                    pkg = pkg.rsplit('.', 1)[0]
                base = pkg + ('.' + base if base else '')
            for a in s.names:
                out.append((a.asname or a.name, ('from', base, a.name)))
        return out

    def resolve_binding(self, b, seen=()):
        """-> ('cls', Cls) ('fn', Func) ('mod', name) ('val', mod, expr) ('ext', dotted) or None"""
        if b is None:
            return None
        k = b[0]
        if k in ('cls', 'fn'):
            return b
        if k == 'val':
            return b
        if k == 'mod':
            return ('mod', b[1]) if b[1] in self.mods else ('ext', b[1])
        if k == 'from':
            _, mod, name = b
            if mod in self.mods:
                mm = self.mods[mod]
                if name in mm.names:
                    if (mod, name) in seen:
                        return None
                    r = mm.names[name]
                    if r[0] == 'val':
                        return ('val', r[1], mm)
                    return self.resolve_binding(r, seen + ((mod, name),))
                if mod + '.' + name in self.mods:
                    return ('mod', mod + '.' + name)
                return None
            if mod.split('.')[0] == PKG:
                return ('mod', mod + '.' + name) if mod + '.' + name in self.mods else None
            return ('ext', mod + '.' + name)
        return b

    def lookup(self, m, name):
        if name not in m.names:
            return None
        b = m.names[name]
        if b[0] == 'val':
            return ('val', b[1], m)
        return self.resolve_binding(b)

    def resolve_expr(self, m, e, cls=None, fn=None):
        """statically resolve a Name/Attribute chain (types, annotations, bases)"""
        if isinstance(e, ast.Constant) and isinstance(e.value, str):
            try:
                return self.resolve_expr(m, ast.parse(e.value, mode='eval').body, cls, fn)
            except SyntaxError:
                return None
        if isinstance(e, ast.Name):
            c = cls
            while c is not None:
                if c.name == e.id and c.outer is not None:
                    return ('cls', c)
                if e.id in c.nested:
                    return ('cls', c.nested[e.id])
                c = c.outer
            return self.lookup(m, e.id)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(m, e.value, cls, fn)
            if b is None:
                return None
            if b[0] == 'mod':
                return self.lookup(self.mods[b[1]], e.attr) or (
                    ('mod', b[1] + '.' + e.attr) if b[1] + '.' + e.attr in self.mods else None)
            if b[0] == 'ext':
                return ('ext', b[1] + '.' + e.attr)
            if b[0] == 'cls':
                r = b[1].find_attr(e.attr)
                if r and isinstance(r[1], Cls):
                    return ('cls', r[1])
                f = b[1].find(e.attr)
                if f:
                    return ('fn', f)
        return None

    def _base(self, c, b):
        r = self.resolve_expr(c.mod, b, c.outer)
        if r is None and isinstance(b, ast.Name) and c.outer is not None and b.id in c.outer.nested:
            return c.outer.nested[b.id]
        if r and r[0] == 'cls':
            return r[1]
        if r and r[0] == 'ext':
            return ('ext', r[1])
        return ('ext', ast.unparse(b))

    def _dataclass(self, c):
        for d in c.node.decorator_list:
            dd = d.func if isinstance(d, ast.Call) else d
            n = dd.id if isinstance(dd, ast.Name) else getattr(dd, 'attr', '')
            if n == 'dataclass':
                c.dataclass = True
        if c.dataclass and '__init__' not in c.methods:
            fields = []
            for k in reversed(c.mro()):
                for s in k.node.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        init, default = True, s.value
                        if isinstance(s.value, ast.Call) and getattr(s.value.func, 'id', getattr(s.value.func, 'attr', '')) == 'field':
                            kw = {x.arg: x.value for x in s.value.keywords}
                            init = not (isinstance(kw.get('init'), ast.Constant) and kw['init'].value is False)
                            if 'default' in kw:
                                default = kw['default']
                            elif 'default_factory' in kw:
                                default = ast.Call(func=kw['default_factory'], args=[], keywords=[])
                            else:
                                default = None
                        fields = [f for f in fields if f[0] != s.target.id]
                        fields.append((s.target.id, s.annotation, default, init))
            args, defs, body = [ast.arg('self')], [], []
            for n, ann, default, init in fields:
                if init:
                    args.append(ast.arg(n, ann))
                    if default is not None:
                        defs.append(default)
                    body.append(ast.parse('self.%s = %s' % (n, n)).body[0])
                elif default is not None:
                    body.append(ast.Assign([ast.Attribute(ast.Name('self', ast.Load()), n, ast.Store())], default))
            if c.find('__post_init__'):
                body.append(ast.parse('self.__post_init__()').body[0])
            fn = ast.FunctionDef(name='__init__', args=ast.arguments([], args, None, [], [], None, defs),
                                 body=body or [ast.Pass()], decorator_list=[], returns=None)
            ast.copy_location(fn, c.node)
            for x in ast.walk(fn):
                if not hasattr(x, 'lineno'):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = c.node.lineno, 0, c.node.lineno, 0
            f = Func(fn, c.mod, c, c.qual + '.__init__')
            c.methods['__init__'] = f
            c.synth_init = [x[0] for x in fields]
            self.funcs[f.qual] = f

    def _assigned_class_attrs(self):
        """names of class attributes that some code assigns through a class or instance"""
        out = set()
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute):
                                out.add(x.attr)
        return out

    # ---- convenience ----
    def cls(self, name):
        """class by trailing dotted name"""
        r = [c for q, c in self.classes.items() if q == name or q.endswith('.' + name)]
        if len(r) > 1:
            r2 = [c for c in r if c.outer is None]
            r = r2 or r
        if len(r) != 1:
            raise AnalysisError('class %s: %d candidates' % (name, len(r)))
        return r[0]

    def fn(self, name):
        """'Class.method' or 'module.func'"""
        r = [f for q, f in self.funcs.items() if q == name or q.endswith('.' + name)]
        if len(r) == 1:
            return r[0]
        cn, _, mn = name.rpartition('.')
        if cn:
            try:
                f = self.cls(cn).find(mn)
            except AnalysisError:
                f = None
            if f:
                return f
        if len(r) > 1:
            r2 = [f for f in r if f.cls is None or f.cls.outer is None]
            if len(r2) == 1:
                return r2[0]
        raise AnalysisError('function %s: %d candidates' % (name, len(r)))

    def has_fn(self, name):
        try:
            return self.fn(name)
        except AnalysisError:
            return None

    def ann_types(self, m, e, cls=None):
        """annotation -> (set of Cls, nullable, elem annotation info).  Elements as ('elem', expr)"""
        return self._ann(m, e, cls)

    def _ann(self, m, e, cls):
        """-> Ty"""
        if e is None:
            return Ty()
        if isinstance(e, ast.Constant):
            if e.value is None:
                return Ty(null=True)
            if isinstance(e.value, str):
                try:
                    return self._ann(m, ast.parse(e.value, mode='eval').body, cls)
                except SyntaxError:
                    return Ty()
            return Ty()
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.BitOr):
            return self._ann(m, e.left, cls).union(self._ann(m, e.right, cls))
        if isinstance(e, ast.Subscript):
            base = e.value.id if isinstance(e.value, ast.Name) else getattr(e.value, 'attr', '')
            args = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
            if base == 'Optional':
                return self._ann(m, args[0], cls).union(Ty(null=True))
            if base == 'Union':
                t = Ty(null=False)
                first = True
                for x in args:
                    t = self._ann(m, x, cls) if first else t.union(self._ann(m, x, cls))
                    first = False
                return t
            if base in ('List', 'list', 'Iterable', 'Iterator', 'Sequence', 'Set', 'set', 'Tuple', 'tuple'):
                r = Ty(prim={base.lower()}, known=True)
                r.elem = [self._ann(m, x, cls) for x in args]
                return r
            if base in ('Dict', 'dict'):
                r = Ty(prim={'dict'}, known=True)
                r.elem = [self._ann(m, args[-1], cls)]
                return r
            return Ty()
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.resolve_expr(m, e, cls)
            if r and r[0] == 'cls':
                return Ty(classes={r[1]}, known=True)
            n = e.id if isinstance(e, ast.Name) else e.attr
            if isinstance(e, ast.Name) and e.id in ('int', 'str', 'bytes', 'bool', 'float', 'list', 'dict', 'array', 'datetime', 'List', 'Dict'):
                return Ty(prim={n.lower()}, known=True)
            if r and r[0] == 'ext':
                return Ty(prim={'ext:' + r[1]}, known=True)
        return Ty()


class Ty:
    """what is known of a value's type"""

    def __init__(self, classes=(), prim=(), null=False, known=False, exact=False):
        self.classes, self.prim, self.null, self.known, self.exact = set(classes), set(prim), null, known, exact
        self.elem = None

    def union(self, o):
        r = Ty(self.classes | o.classes, self.prim | o.prim, self.null or o.null,
               (self.known or (self.null and not self.classes and not self.prim)) and
               (o.known or (o.null and not o.classes and not o.prim)))
        r.elem = self.elem or o.elem
        return r

    def __repr__(self):
        return 'Ty(%s %s%s%s)' % ([c.name for c in self.classes], self.prim or '', '?' if self.null else '', '' if self.known else ' unknown')
