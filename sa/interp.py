"""Abstract interpreter: evaluates function bodies over the term domain (terms.py), path-sensitively in the branch
conditions, with private helpers and getters inlined and loops summarised after one abstract pass over their body.
No solver is used: a branch is dropped only when its condition contradicts an earlier one syntactically."""
import ast
import builtins
import sys

from .terms import *
from .project import Cls, Func, Ty, AnalysisError, walk_local

sys.setrecursionlimit(20000)

IMPURE_EXT = {'os.urandom', 'uuid.uuid1', 'uuid.uuid4', 'getpass.getpass', 'time.time', 'datetime.datetime.now',
              'datetime.datetime.utcnow', 'datetime.now', 'open', 'input', 'next', 'secrets.token_bytes',
              'secrets.randbits', 'random.randint', 'random.random', 'random.getrandbits', 'array.array.frombytes'}
IMPURE_METHODS = {'generate_key', 'generate_private_key', 'generate', 'read', 'write', 'put', 'urandom', 'update', 'send',
                  'sendall', 'pop', 'popleft', 'recv', 'readline', 'now', 'today', 'utcnow', 'get_next_id', 'randbytes',
                  'token_bytes', '__next__', 'next'}
LIST_MUT = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'popleft', 'appendleft',
            'frombytes', 'fromlist', 'byteswap', 'update', 'setdefault', 'popitem', 'add', 'discard', 'write_bytes'}
LOGGERS = {'debug', 'info', 'warning', 'error', 'exception', 'critical', 'log', 'warn'}
MAX_STATES = 3000
BUILTINS = set(dir(builtins))


class Budget(Exception):
    pass


class Ev:
    """an event of a trace"""
    __slots__ = ('kind', 'term', 'node', 'fn', 'x')

    def __init__(self, kind, term, node, fn, x=None):
        self.kind, self.term, self.node, self.fn, self.x = kind, term, node, fn, x

    def loc(self):
        return '%s:%s %s' % (self.fn.mod.rel if self.fn else '?', getattr(self.node, 'lineno', '?'),
                             self.fn.qual.split('.', 1)[-1] if self.fn else '')

    def __repr__(self):
        return '<%s %s>' % (self.kind, self.term)


class Loop:
    __slots__ = ('kind', 'iter', 'el', 'lid', 'outs', 'init', 'cond', 'exits')
    # outs: list of (kind, value, facts delta [(atom, bool)], trace delta [Ev], updates {var: term})


class St:
    __slots__ = ('env', 'heap', 'facts', 'trace', 'occ', 'exc', 'logs')

    def __init__(self):
        self.env, self.heap, self.facts, self.trace, self.occ, self.exc, self.logs = {}, {}, {}, None, {}, None, None

    def copy(self):
        s = St()
        s.env, s.heap, s.facts = dict(self.env), dict(self.heap), dict(self.facts)
        s.trace, s.occ, s.exc, s.logs = self.trace, dict(self.occ), self.exc, self.logs
        return s

    def ev(self, e):
        self.trace = (self.trace, e)

    def events(self):
        out, t = [], self.trace
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]

    def loglist(self):
        out, t = [], self.logs
        while t is not None:
            out.append(t[1])
            t = t[0]
        return out[::-1]


class Out:
    """an outcome of a function: kind 'return' or 'raise', the value, the final state"""
    __slots__ = ('kind', 'val', 'st')

    def __init__(self, kind, val, st):
        self.kind, self.val, self.st = kind, val, st

    @property
    def facts(self):
        return self.st.facts

    def events(self):
        return self.st.events()

    def __repr__(self):
        return '%s %s if %s' % (self.kind, self.val, ' & '.join(('' if v else '!') + show(k) for k, v in self.facts.items()))


class Frame:
    __slots__ = ('fn', 'mod', 'cls', 'selfcls', 'depth', 'parent', 'local', 'yields')

    def __init__(self, fn, selfcls, depth, parent):
        self.fn, self.mod, self.cls, self.selfcls, self.depth, self.parent = fn, fn.mod, fn.cls, selfcls, depth, parent
        self.local = {}
        self.yields = False


def exc_name(t):
    """name of the class of an exception term"""
    if t.op == 'new':
        return t.a[0].a[0]
    if t.op == 'call' and t.a[0].op == 'ext':
        return t.a[0].a[0]
    if t.op in ('cls', 'ext'):
        return t.a[0]
    return None


def tested(stmts, n, memo={}):
    """names that occur in the conditions of stmts[n:]"""
    if n >= len(stmts):
        return ()
    key = id(stmts[n])
    r = memo.get(key)
    if r is None or r[0] is not stmts[n]:
        names = set()
        for s in stmts[n:]:
            for x in ast.walk(s):
                if isinstance(x, (ast.If, ast.IfExp, ast.While)):
                    for y in ast.walk(x.test):
                        if isinstance(y, ast.Name):
                            names.add(y.id)
                        elif isinstance(y, ast.Attribute):
                            names.add(y.attr.lstrip('_'))
        r = memo[key] = (stmts[n], names)
    return r[1]


class Interp:
    def __init__(self, prj, stop=(), inline=None, depth=7, opaque_classes=()):
        self.p = prj
        self.stop = set(stop)
        self.inline_cb = inline
        self.maxdepth = depth
        self.ptypes = {}
        self.log_events = False       # output as events of the trace, not only as a note on the path
        self.running = 0
        self.nomerge = False
        self.sticky = None      # facts on which states are kept apart
        self.lvinit = {}
        self.nloop = 0
        self.try_depth = 0
        self.ctor_cache, self.ctor_busy = {}, set()
        self.fty_cache, self.rty_cache, self.val_cache = {}, {}, {}
        self.closures = {}
        self.active_iters = []
        self.steps = 0
        self.visited = set()
        self.eff = effects(prj)
        self.undecided = []
        self.max_states = MAX_STATES
        self.argfx = {}               # attributes of its arguments that a function kept opaque may change: name -> attributes
        self.samename = False         # untyped parameters have the type that methods beside them give the same name
        self.lint = None              # observer of name, attribute and call resolution

    # =============================================================== entry points
    def run(self, fn, selfcls=None, args=None, st=None):
        """abstractly evaluate fn on its own parameters (or the given argument terms)"""
        if self.running:
            old = self.ptypes
            self.ptypes = dict(old)
            try:
                return self.run1(fn, selfcls, args, st)
            finally:
                self.ptypes = old
        self.running += 1
        try:
            return self.run1(fn, selfcls, args, st)
        finally:
            self.running -= 1

    def run1(self, fn, selfcls, args, st):
        st = st or St()
        c = selfcls or fn.cls
        fr = Frame(fn, c, 0, None)
        args = args or {}
        if fn.first:
            if fn.kind == 'class':
                st.env[fn.first] = mk('cls', c.qual)
            else:
                t = args.get(fn.first, mk('param', fn.first))
                st.env[fn.first] = t
                if selfcls is not None or t.op == 'param':
                    self.ptypes[t] = Ty(classes={c}, known=True, exact=selfcls is not None)
        for n in fn.params:
            if n in args:
                st.env[n] = args[n]
            else:
                t = mk('param', n)
                st.env[n] = t
                if n in fn.ann:
                    self.ptypes[t] = self.p._ann(fn.mod, fn.ann[n], fn.cls)
                elif self.lint is not None and fn.cls is not None and self.inherited_ann(fn, n) is not None:
                    self.ptypes[t] = self.inherited_ann(fn, n)
                elif self.samename and fn.cls is not None and self.sibling_ann(fn, n) is not None:
                    self.ptypes[t] = self.sibling_ann(fn, n)
                else:
                    self.ptypes.pop(t, None)
        for n in (fn.vararg, fn.kwarg):
            if n:
                st.env[n] = args.get(n, mk('param', '*' + n))
        return self.body(fn, st, fr)

    def sibling_ann(self, fn, n):
        """annotation of a parameter of that name in another method of the class, when they agree"""
        found = {ast.dump(m.ann[n]): m for m in fn.cls.methods.values() if n in m.ann and m.name != '__init__'}
        if len(found) != 1:
            return None
        m = next(iter(found.values()))
        return self.p._ann(m.mod, m.ann[n], m.cls)

    def inherited_ann(self, fn, n):
        for c in fn.cls.mro()[1:]:
            b = c.methods.get(fn.name)
            if b is not None and n in b.ann:
                return self.p._ann(b.mod, b.ann[n], b.cls)
        return None

    def body(self, fn, st, fr):
        self.visited.add(fn.qual)
        if isinstance(fn.node, ast.Lambda):
            return [Out('return' if k == 'v' else 'raise', v, s) for k, v, s in self.ev(fn.node.body, st, fr)]
        outs = []
        for k, v, s in self.block(fn.node.body, st, fr):
            if k == 'next':
                outs.append(Out('return', NONE, s))
            elif k in ('return', 'raise'):
                outs.append(Out(k, v, s))
        return outs

    # =============================================================== statements
    def block(self, stmts, st, fr):
        """-> list of (kind, val, st) with kind next/return/raise/break/continue"""
        done, cur = [], [st]
        for n, s in enumerate(stmts):
            nxt = []
            for c in cur:
                for k, v, s2 in self.stmt(s, c, fr):
                    if k == 'next':
                        nxt.append(s2)
                    else:
                        done.append((k, v, s2))
            cur = self.merge(nxt, tested(stmts, n + 1)) if len(nxt) > 1 else nxt
            if len(cur) + len(done) > self.max_states:
                raise Budget(fr.fn.qual)
            if not cur:
                break
        return done + [('next', None, c) for c in cur]

    def merge(self, states, tests=()):
        """join the states that differ in facts only; facts on the names tested again later are kept apart"""
        if self.nomerge:
            return states
        groups, order = {}, []
        for s in states:
            key = (id(s.trace), tuple(sorted((k, id(v)) for k, v in s.env.items())),
                   frozenset((id(k[0]), k[1], id(v)) for k, v in s.heap.items()), id(s.exc),
                   frozenset((id(k), v) for k, v in s.facts.items() if k.op == 'isnone' and k.a[0].op == 'param' and k.a[0].a[0] in tests) if tests else None,
                   frozenset((id(k), v) for k, v in s.facts.items() if self.sticky(k)) if self.sticky is not None else None)
            if key in groups:
                g = groups[key]
                some = {k.a[0] for k, v in g.facts.items() if k.op == 'isa' and v} & {k.a[0] for k, v in s.facts.items() if k.op == 'isa' and v}
                g.facts = {k: v for k, v in g.facts.items() if s.facts.get(k) is v}
                for x in some:              # an instance of this class or of that class: in any case not None
                    g.facts.setdefault(mk('isnone', x), False)
                if g.logs is not s.logs:
                    for e in s.loglist():
                        g.logs = (g.logs, e)
            else:
                groups[key] = s
                order.append(s)
        return order

    def stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.max_states * 134:
            raise Budget(fr.fn.qual)
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.undecided.append((fr.fn.qual, type(s).__name__))
            return [('next', None, st)]
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return [('next', None, st)]

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return [('next', None, st)]
        return [('next', None, x) if k == 'v' else ('raise', v, x) for k, v, x in self.ev(s.value, st, fr)]

    def s_Import(self, s, st, fr):
        for k, b in self.p.import_bindings(fr.mod, s):
            r = self.p.resolve_binding(b)
            t = self.res_term(r, fr) if r else mk('ext', b[1] + '.' + b[2] if b[0] == 'from' else b[1])
            st.env[k] = t
        return [('next', None, st)]

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, st, fr):
        f = fr.fn.nested.get(s.name) or Func(s, fr.mod, None, fr.fn.qual + '.' + s.name)
        st.env[s.name] = self.closure(f, st, fr)
        return [('next', None, st)]

    def s_ClassDef(self, s, st, fr):
        return [('next', None, st)]

    def s_Return(self, s, st, fr):
        if s.value is None:
            return [('return', NONE, st)]
        return [('return' if k == 'v' else 'raise', v, x) for k, v, x in self.ev(s.value, st, fr)]

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            return [('raise', st.exc or mk('exc', const('reraise')), st)]
        out = []
        for k, v, x in self.ev(s.exc, st, fr):
            x.ev(Ev('raise', v, s, fr.fn))
            if self.lint is not None:
                self.lint.raised(v, x, fr, s)
            out.append(('raise', v, x))
        return out

    def s_Assert(self, s, st, fr):
        out = []
        for k, b, x in self.cond(s.test, st, fr):
            if k == 'raise':
                out.append((k, b, x))
            elif b:
                out.append(('next', None, x))
            else:
                out.append(('raise', mk('call', mk('ext', 'AssertionError'), 0), x))
        return out

    def s_If(self, s, st, fr):
        out = []
        for k, b, x in self.cond(s.test, st, fr):
            if k == 'raise':
                out.append((k, b, x))
            else:
                out += self.block(s.body if b else s.orelse, x, fr) if (s.body if b else s.orelse) else [('next', None, x)]
        return out

    def s_Assign(self, s, st, fr):
        out = []
        for k, v, x in self.ev(s.value, st, fr):
            if k == 'raise':
                out.append((k, v, x))
                continue
            cur = [x]
            for t in s.targets:
                cur = [y for c in cur for y in self.assign(t, v, c, fr)]
            out += [('next', None, c) for c in cur]
        return out

    def s_AnnAssign(self, s, st, fr):
        if s.value is None:
            return [('next', None, st)]
        out = []
        for k, v, x in self.ev(s.value, st, fr):
            if k == 'raise':
                out.append((k, v, x))
            else:
                if isinstance(v, T) and v not in self.ptypes and v.op in ('call', 'mcall', 'attr'):
                    ty = self.p._ann(fr.mod, s.annotation, fr.cls)
                    if ty.known:
                        self.ptypes.setdefault(v, ty)
                out += [('next', None, y) for y in self.assign(s.target, v, x, fr)]
        return out

    def s_AugAssign(self, s, st, fr):
        out = []
        load = ast.copy_location(_as_load(s.target), s.target)
        for k, a, x in self.ev(load, st, fr):
            if k == 'raise':
                out.append((k, a, x))
                continue
            for k2, b, y in self.ev(s.value, x, fr):
                if k2 == 'raise':
                    out.append((k2, b, y))
                    continue
                if isinstance(s.op, ast.Add) and (a.op in ('seq', 'app', 'pre') or self.is_list(a, y)):
                    v = self.list_extend(a, b)
                    y.ev(Ev('mut', mk('mut', 'extend', a, b), s, fr.fn))
                else:
                    if self.lint is not None:
                        self.lint.binop(type(s.op).__name__, a, b, y, fr, s)
                    v = self.binop(type(s.op).__name__, a, b, y)
                out += [('next', None, z) for z in self.assign(s.target, v, y, fr)]
        return out

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                for k, o, x in self.ev(t.value, st, fr):
                    if k == 'v':
                        for k2, i, y in self.ev(t.slice, x, fr):
                            y.ev(Ev('delitem', mk('delitem', o, i), s, fr.fn))
                            return [('next', None, y)]
        return [('next', None, st)]

    def s_With(self, s, st, fr):
        cur, out = [st], []
        for it in s.items:
            nxt = []
            for c in cur:
                for k, v, x in self.ev(it.context_expr, c, fr):
                    if k == 'raise':
                        out.append((k, v, x))
                    elif it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, v, x, fr)
                    else:
                        nxt.append(x)
            cur = nxt
        for c in cur:
            out += self.block(s.body, c, fr)
        return out

    def s_Break(self, s, st, fr):
        return [('break', None, st)]

    def s_Continue(self, s, st, fr):
        return [('continue', None, st)]

    def s_Try(self, s, st, fr):
        out = []
        handled = bool(s.handlers)
        if handled:
            self.try_depth += 1
        try:
            res = self.block(s.body, st, fr)
        finally:
            if handled:
                self.try_depth -= 1
        after = []
        for k, v, x in res:
            if k == 'next' and s.orelse:
                after += self.block(s.orelse, x, fr)
            elif k == 'raise' and handled:
                after += self.handle(s, v, x, fr)
            else:
                after.append((k, v, x))
        if not s.finalbody:
            return after
        for k, v, x in after:
            for k2, v2, y in self.block(s.finalbody, x, fr):
                out.append((k, v, y) if k2 == 'next' else (k2, v2, y))
        return out

    s_TryStar = s_Try

    def handle(self, s, exc, st, fr):
        out = []
        for h in s.handlers:
            types = []
            if h.type is None:
                m = True
            else:
                types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                m = False
                for t in types:
                    r = self.exc_match(exc, t, st, fr)
                    if r is True:
                        m = True
                        break
                    if r is None:
                        m = None
            if m is False:
                continue
            x = st.copy()
            old = x.exc
            x.exc = exc
            ht = tuple(ast.unparse(t).split('.')[-1] for t in types) if h.type is not None else ('*',)
            x.ev(Ev('except', exc, h, fr.fn, ht))
            if h.name:
                x.env[h.name] = exc
            for k, v, y in self.block(h.body, x, fr):
                y.exc = old
                out.append((k, v, y))
            if m is True:
                return out
        out.append(('raise', exc, st))
        return out

    def exc_match(self, exc, tnode, st, fr):
        """True / False / None (may match)"""
        r = self.p.resolve_expr(fr.mod, tnode, fr.cls)
        if r is None and isinstance(tnode, ast.Name):
            tv = st.env.get(tnode.id)
            tname = tv.a[0] if tv is not None and tv.op in ('cls', 'ext') else tnode.id
        elif r and r[0] == 'cls':
            tname = r[1].qual
        elif r and r[0] == 'ext':
            tname = r[1]
        else:
            tname = ast.unparse(tnode)
        if tname in ('Exception', 'BaseException'):
            return True
        if exc.op == 'exc':
            return None
        en = exc_name(exc)
        if en is None:
            return None
        return self.exc_isa(en, tname)

    def exc_isa(self, en, tname):
        names = self.exc_supers(en)
        if names is None:
            return None
        if tname in names or tname.split('.')[-1] in [n for n in names if '.' not in n]:
            return True
        return False

    def exc_supers(self, en):
        out = []
        c = self.p.classes.get(en)
        todo = [c] if c else []
        ext = [] if c else [en]
        while todo:
            c = todo.pop()
            out.append(c.qual)
            for b in c.bases:
                if isinstance(b, Cls):
                    todo.append(b)
                else:
                    ext.append(b[1])
        for e in ext:
            b = getattr(builtins, e, None)
            if isinstance(b, type):
                out += [k.__name__ for k in b.__mro__]
            else:
                out.append(e)
        return out

    def s_Match(self, s, st, fr):
        out = []
        for k, v, x in self.ev(s.subject, st, fr):
            if k == 'raise':
                out.append((k, v, x))
                continue
            cur = [x]
            for c in s.cases:
                nxt = []
                for y in cur:
                    for b, z in self.pattern(c.pattern, v, y, fr):
                        if not b:
                            nxt.append(z)
                            continue
                        if c.guard is not None:
                            for k2, g, w in self.cond(c.guard, z, fr):
                                if k2 == 'raise':
                                    out.append((k2, g, w))
                                elif g:
                                    out += self.block(c.body, w, fr)
                                else:
                                    nxt.append(w)
                        else:
                            out += self.block(c.body, z, fr)
                cur = nxt
            out += [('next', None, y) for y in cur]
        return out

    def pattern(self, p, v, st, fr):
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.env[p.name] = v
                return [(True, st)]
            res = self.pattern(p.pattern, v, st, fr)
            for b, z in res:
                if b and p.name:
                    z.env[p.name] = v
            return res
        if isinstance(p, ast.MatchOr):
            out, cur = [], [st]
            for q in p.patterns:
                nxt = []
                for y in cur:
                    for b, z in self.pattern(q, v, y, fr):
                        (out if b else nxt).append((b, z) if b else z)
                cur = nxt
            return out + [(False, y) for y in cur]
        if isinstance(p, ast.MatchValue):
            out = []
            for k, c, x in self.ev(p.value, st, fr):
                out += self.split(self.eq(v, c), x)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.split(self.isnone(v) if p.value is None else mk('is', v, const(p.value)), st)
        if isinstance(p, ast.MatchClass):
            out = []
            for k, c, x in self.ev(p.cls, st, fr):
                out += self.split(mk('isa', v, c), x)
            return out
        return [(True, st), (False, st.copy())]

    # ---- assignment ----
    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for k, o, x in self.ev(t.value, st, fr):
                if k == 'v':
                    x.heap[(o, t.attr)] = v
                    x.ev(Ev('setattr', mk('setattr', o, t.attr, v), t, fr.fn))
                    out.append(x)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for k, o, x in self.ev(t.value, st, fr):
                if k != 'v':
                    continue
                for k2, i, y in self.ev(t.slice, x, fr):
                    if k2 != 'v':
                        continue
                    y.ev(Ev('setitem', mk('setitem', o, i, v), t, fr.fn))
                    if o.op == 'dict':
                        self.rebind(t.value, self.dict_set(o, i, v), y, fr)
                    elif o.op in ('seq', 'dset'):
                        self.rebind(t.value, mk('dset', o, i, v), y, fr)
                    out.append(y)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            cur = [st]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    val = self.slice(v, const(i), const(i - n + 1) if i - n + 1 else NONE)
                    e = e.value
                elif star and i > star[0]:
                    val = self.index(v, const(i - n))
                else:
                    val = self.index(v, const(i))
                cur = [y for c in cur for y in self.assign(e, val, c, fr)]
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, fr)
        return [st]

    def rebind(self, e, v, st, fr):
        """the object that e denotes was mutated and is now v"""
        if isinstance(e, ast.Name):
            old = st.env.get(e.id)
            st.env[e.id] = v
            if old is not None and old.op in ('dict', 'seq', 'app', 'pre') and len(old.a) > 1:
                for k, x in list(st.env.items()):
                    if x is old:
                        st.env[k] = v
        elif isinstance(e, ast.Attribute):
            for k, o, x in self.ev(e.value, st.copy(), fr):
                if k == 'v':
                    st.heap[(o, e.attr)] = v
                break

    # ---- loops ----
    def s_For(self, s, st, fr):
        out = []
        for k, it, x in self.ev(s.iter, st, fr):
            if k == 'raise':
                out.append((k, it, x))
                continue
            if self.lint is not None:
                self.lint.item(it, '__iter__', x, fr, s.iter)
            items = self.static_items(it)
            if items is not None and len(items) <= 16:
                cur = [x]
                for item in items:
                    nxt = []
                    for c in cur:
                        for y in self.assign(s.target, item, c, fr):
                            for k2, v2, z in self.block(s.body, y, fr):
                                if k2 in ('next', 'continue'):
                                    nxt.append(z)
                                elif k2 == 'break':
                                    out.append(('next', None, z))
                                else:
                                    out.append((k2, v2, z))
                    cur = self.merge(nxt)
                for c in cur:
                    out += self.block(s.orelse, c, fr) if s.orelse else [('next', None, c)]
            else:
                out += self.loop(s, x, fr, it)
        return out

    s_AsyncFor = s_For

    def s_While(self, s, st, fr):
        return self.loop(s, st, fr, None)

    def static_items(self, it):
        if it.op == 'seq' and not any(i.op in ('each', 'spread', 'rev') for i in it.a[1:]):
            return list(it.a[1:])
        if it.op == 'dict' and not any(k.op == 'spread' for k in it.a[::2]):
            return list(it.a[::2])
        if it.op == 'const' and isinstance(it.a[0], (str, bytes, tuple)):
            return [const(x) for x in it.a[0]]
        if it.op == 'range' and all(num(x) is not None for x in it.a):
            r = range(*[num(x) for x in it.a])
            return [const(i) for i in r] if len(r) <= 16 else None
        if it.op == 'enumerate':
            b = self.static_items(it.a[0])
            return None if b is None else [seq('tuple', [add(it.a[1], const(i)), x]) for i, x in enumerate(b)]
        if it.op == 'zip':
            bs = [self.static_items(x) for x in it.a]
            return None if any(b is None for b in bs) else [seq('tuple', list(z)) for z in zip(*bs)]
        if it.op == 'mcall' and it.a[0] in ('items', 'values', 'keys') and it.a[1].op == 'dict':
            d = it.a[1]
            ks = list(d.a[::2])
            if it.a[0] == 'keys':
                return ks
            if it.a[0] == 'values':
                return list(d.a[1::2])
            return [seq('tuple', [d.a[i], d.a[i + 1]]) for i in range(0, len(d.a), 2)]
        if it.op == 'enumcls':
            return list(it.a)
        if it.op == 'cls':
            c = self.p.classes.get(it.a[0])
            if c is not None and c.is_enum():
                return [mk('enum', c.qual, n) for n in c.attrs if not n.startswith('_')]
        return None

    def elem(self, it):
        if it.op == 'enumerate':
            return seq('tuple', [add(it.a[1], mk('pos', it.a[0])), self.elem(it.a[0])])
        if it.op == 'zip':
            return seq('tuple', [self.elem(x) for x in it.a])
        n = sum(1 for x in self.active_iters if x is it)
        e = mk('elem', it, n) if n else mk('elem', it)
        if it.op == 'mcall' and it.a[0] == 'items' and it.a[1].op != 'dict':
            return seq('tuple', [mk('elem', mk('mcall', 'keys', it.a[1], 0)), mk('elem', mk('mcall', 'values', it.a[1], 0))])
        if it.op == 'seq' and len(it.a) == 2 and it.a[1].op == 'each' and len(it.a[1].a[1]) == 1:
            alt = it.a[1].a[1][0]
            if len(alt[1]) == 1:
                return alt[1][0]
        return e

    def norm_iter(self, it):
        """iterating list(x), iter(x), tuple(x) is iterating x"""
        while it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] in ('list', 'iter', 'tuple') and len(it.a) == 3:
            it = it.a[2]
        while it.op == 'seq' and len(it.a) == 2 and it.a[0] not in ('set', 'frozenset') and it.a[1].op == 'spread':
            it = it.a[1].a[0]
        return it

    def loop(self, s, st, fr, it):
        if it is not None:
            it = self.norm_iter(it)
        self.nloop += 1
        lid = self.nloop
        mod = set()
        for b in s.body + ([s.test] if isinstance(s, ast.While) else []):
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    mod.add(n.id)
        mod &= set(st.env)
        heapmods = set()
        base_trace, base_facts = st.trace, st.facts
        tgt = set()
        if isinstance(s, ast.For):
            tgt = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        self.active_iters.append(it)
        try:
            for _ in range(6):
                h = st.copy()
                h.trace = None
                h.occ = dict(st.occ)
                lv = {}
                for v in mod:
                    h.env[v] = lv[v] = self.havoc(lid, v, st.env[v])
                for (o, a) in heapmods:
                    init = self.getattr(o, a, st, fr)
                    h.heap[(o, a)] = lv[(o, a)] = self.havoc(lid, show(o) + '.' + a, init)
                head = h.copy()
                res, exits = [], []
                if it is not None:
                    self.active_iters.pop()
                    el = self.elem(it)
                    self.active_iters.append(it)
                    for y in self.assign(s.target, el, h, fr):
                        res += self.block(s.body, y, fr)
                    exits = [head]
                else:
                    el = None
                    for k, b, y in self.cond(s.test, h, fr):
                        if k == 'raise':
                            res.append((k, b, y))
                        elif b:
                            res += self.block(s.body, y, fr)
                        else:
                            exits.append(y)
                more_env, more_heap = set(), set()
                for k, v, y in res:
                    if k not in ('next', 'continue'):
                        continue
                    for n, val in y.env.items():
                        if n in head.env and n not in tgt and n not in mod and val is not head.env[n]:
                            more_env.add(n)
                    for hk, val in y.heap.items():
                        if hk in heapmods:
                            continue
                        if hk in head.heap:
                            if head.heap[hk] is not val:
                                more_heap.add(hk)
                        elif not self.loop_local(hk[0], head, lid, it):
                            more_heap.add(hk)
                if not more_env and not more_heap:
                    break
                mod |= more_env
                heapmods |= more_heap
        finally:
            self.active_iters.pop()

        lp = Loop()
        lp.kind = 'for' if it is not None else 'while'
        lp.iter, lp.el, lp.lid, lp.outs = it, el, lid, []
        lp.init = {v: st.env[v] for v in mod}
        lp.cond = s.test if isinstance(s, ast.While) else None

        def delta_facts(y):
            return [(k, v) for k, v in y.facts.items() if base_facts.get(k) is not v]

        lp.exits = [delta_facts(y) for y in exits] if it is None else []
        for k, v, y in res:
            ups = {n: y.env.get(n) for n in mod}
            ups.update({hk: y.heap.get(hk) for hk in heapmods})
            lp.outs.append((k, v, delta_facts(y), y.events(), ups))
        levent = Ev('loop', mk('loop', lid), s, fr.fn, lp)

        def join(y):
            t = (base_trace, levent)
            for e in y.events():
                t = (t, e)
            y.trace = t
            return y

        out = []
        cont = [(y, delta_facts(y)) for k, v, y in res if k in ('next', 'continue')]
        for x in exits:
            x = x.copy()
            x = join(x)
            # logs of the body
            for k, v, y in res:
                if y.logs is not st.logs:
                    x.logs = y.logs
            for key, l in lv.items():
                val = self.loop_result(l, self.lvinit[l], [((y.env.get(key) if isinstance(key, str) else y.heap.get(key)), d)
                                                          for y, d in cont], it, lid, el)
                if isinstance(key, str):
                    x.env[key] = val
                else:
                    x.heap[key] = val
            if it is not None:
                for n in tgt:
                    x.env.setdefault(n, mk('lv', lid, n))
                    if any(n in y.env for y, _ in cont):
                        x.env[n] = mk('last', it, const(n))
            for y, _ in cont:
                for n in y.env:
                    if n not in x.env:
                        x.env[n] = mk('lv', lid, n)
                        self.lvinit.setdefault(x.env[n], y.env[n])
            if s.orelse:
                out += self.block(s.orelse, x, fr)
            else:
                out.append(('next', None, x))
        for k, v, y in res:
            if k == 'break':
                out.append(('next', None, join(y.copy())))
            elif k in ('return', 'raise'):
                out.append((k, v, join(y.copy())))
        return out

    def loop_local(self, o, head, lid, it):
        """objects made inside the loop body need no summary at its head"""
        for s in subs(o):
            if s.op == 'new' and s.a[1]:
                # a stateful object: local when it was not known at the loop head
                if not any(s in subs(v) for v in head.env.values() if isinstance(v, T)) and \
                        not any(s in subs(v) or s in subs(k[0]) for k, v in head.heap.items()):
                    return True
            if s.op == 'elem' and it is not None and s.a[0] is it:
                return True
        return False

    def havoc(self, lid, name, init):
        if init is not None and init.op == 'dict':
            out = []
            for i in range(0, len(init.a), 2):
                t = mk('lv', lid, '%s[%s]' % (name, show(init.a[i])))
                self.lvinit[t] = init.a[i + 1]
                out += [init.a[i], t]
            d = mk('dict', *out)
            self.lvinit[d] = init
            return d
        t = mk('lv', lid, name)
        self.lvinit[t] = init
        return t

    def loop_result(self, l, init, finals, it, lid, el):
        if l.op == 'dict':
            return l
        finals = [(v, d) for v, d in finals if v is not None]
        if not finals:
            return init if init is not None else l
        if all(v is l for v, _ in finals):
            return init
        # appended / prepended lists
        apps = [self.chain(v, l) for v, _ in finals]
        ldl = set()
        if all(a is not None for a in apps) and init is not None:
            pre = any(a[0] for a in apps)
            post = any(a[1] for a in apps)
            alts = []
            for (p, q), (v, d) in zip(apps, finals):
                items = p or q
                if items:
                    alts.append((tuple(d2 for d2 in self.cond_terms(d)), tuple(items)))
            # conditions that do not tell the alternatives apart say nothing
            if len(finals) == 1:
                alts = [((), alts[0][1])] if alts else []
            if not (pre and post):
                each = mk('each', it if it is not None else mk('loop', lid), tuple(_alt(c, i) for c, i in alts))
                kind = init.a[0] if init.op == 'seq' else 'list'
                head = list(init.a[1:]) if init.op == 'seq' else [mk('spread', init)]
                if pre:
                    return seq(kind, [mk('rev', each)] + head)
                return seq(kind, head + [each])
        # big-endian number of a byte sequence: n = 256 * n | b
        if it is not None and init is not None and num(init) == 0 and len(finals) == 1:
            v = finals[0][0]
            el1 = el if el is not None else mk('elem', it)
            if v is add(mul(const(256), l), el1) or (v.op == 'bor' and set(v.a) == {mul(const(256), l), el1}):
                return mk('be_num', it)
            parts = lin_parts(v)[1] if v.op == 'lin' else {}
            if lin_parts(v)[0] == 0 and set(parts) == {l, el1} and parts[el1] == 1:
                return mk('horner', it, parts[l])
            if v.op == 'bor' and el1 in v.a and any(lin_parts(x)[0] == 0 and set(lin_parts(x)[1]) == {l} for x in v.a):
                return mk('horner', it, [lin_parts(x)[1][l] for x in v.a if set(lin_parts(x)[1]) == {l}][0])
        # sums
        if it is not None and init is not None:
            deltas = []
            for v, d in finals:
                c, parts = lin_parts(v)
                if parts.get(l) == 1:
                    rest = add(v, l, -1)
                    if not mentions(rest, l):
                        deltas.append((rest, d))
                        continue
                deltas = None
                break
            if deltas:
                alts = [_alt(tuple(self.cond_terms(d)) if len(deltas) > 1 else (), (r,)) for r, d in deltas]
                return add(init, mk('sum', it, tuple(alts)))
        return l

    def cond_terms(self, d):
        return [k if v else mk('not', k) for k, v in d]

    def chain(self, v, base):
        """v = base with items put in front / behind -> (front, behind) or None"""
        pre, post = [], []
        while v is not base:
            if v.op == 'app':
                post = list(v.a[1:]) + post
                v = v.a[0]
            elif v.op == 'pre':
                pre = pre + list(v.a[1:])
                v = v.a[0]
            else:
                return None
        return pre, post

    # =============================================================== conditions
    def cond(self, e, st, fr):
        """-> list of ('v', bool, st) or ('raise', exc, st)"""
        if isinstance(e, ast.BoolOp):
            is_and = isinstance(e.op, ast.And)
            out, cur = [], [st]
            for i, v in enumerate(e.values):
                nxt = []
                for c in cur:
                    for k, b, x in self.cond(v, c, fr):
                        if k == 'raise':
                            out.append((k, b, x))
                        elif b == is_and:
                            nxt.append(x)
                        else:
                            out.append(('v', not is_and, x))
                cur = nxt
            return out + [('v', is_and, x) for x in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(k, (not b) if k == 'v' else b, x) for k, b, x in self.cond(e.operand, st, fr)]
        if isinstance(e, ast.Constant):
            return [('v', bool(e.value), st)]
        if isinstance(e, ast.Compare) and len(e.ops) > 1:
            vals = [e.left] + e.comparators
            parts = [ast.copy_location(ast.Compare(a, [o], [b]), e) for a, o, b in zip(vals, e.ops, vals[1:])]
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), e), st, fr)
        out = []
        for k, v, x in self.ev(e, st, fr):
            if k == 'raise':
                out.append((k, v, x))
            else:
                out += [('v', b, y) for b, y in self.split(v, x)]
        return out

    def split(self, v, st):
        """split a state on the truth of a value"""
        pol = True
        while v.op == 'not':
            pol, v = not pol, v.a[0]
        if v.op in ('and', 'or'):
            res, cur = [], [st]
            is_and = v.op == 'and'
            for part in v.a:
                nxt = []
                for c in cur:
                    for b, x in self.split(part, c):
                        if b == is_and:
                            nxt.append(x)
                        else:
                            res.append((not is_and, x))
                cur = nxt
            res += [(is_and, x) for x in cur]
            return [(b == pol, x) for b, x in res]
        atom = self.truth(v, st)
        p2 = True
        while atom.op == 'not':
            p2, atom = not p2, atom.a[0]
        d = self.decide(atom, st)
        if d is not None:
            return [((d == p2) == pol, st)]
        out = []
        for val in (True, False):
            x = st.copy()
            x.facts[atom] = val
            out.append(((val == p2) == pol, x))
        return out

    def truth(self, v, st):
        """the atom that a value's truth stands for"""
        if v.op in ('isnone', 'isa', 'eq', 'lt0', 'in', 'is', 'not', 'hasattr', 'any', 'all'):
            return v
        if v.op == 'const':
            return const(bool(v.a[0]))
        if is_numeric(v):
            return mk('not', self.eq(v, const(0)))
        if v.op == 'seq':
            if any(i.op not in ('each', 'spread', 'rev') for i in v.a[1:]):
                return TRUE
            if len(v.a) == 1:
                return FALSE
        if v.op in ('new',):
            c = self.p.classes.get(v.a[0].a[0])
            if c and not c.find('__len__') and not c.find('__bool__'):
                return TRUE
        if v.op in ('fn', 'cls', 'mod', 'enum'):
            return TRUE
        return mk('truth', v)

    def isnone(self, x):
        if x.op == 'const':
            return const(x.a[0] is None)
        if x.op in ('new', 'seq', 'dict', 'lin', 'len', 'mul', 'fstr', 'cls', 'fn', 'arr', 'enum', 'mod', 'cat', 'app',
                    'pre', 'slice', 'tobytes', 'bmeth', 'closure', 'shr', 'shl', 'band', 'bor', 'sum', 'range', 'not', 'eq'):
            return FALSE
        return mk('isnone', x)

    def eq(self, a, b):
        if a is b:
            return TRUE
        if a.op == 'const' and b.op == 'const':
            return const(a.a[0] == b.a[0])
        if a.op == 'enum' and b.op == 'enum':
            return FALSE
        if a.op == 'cls' and b.op == 'cls':
            return FALSE
        for x, y in ((a, b), (b, a)):
            if x.op == 'const' and x.a[0] is None:
                return self.isnone(y)
            if x.op == 'const' and y.op == 'enum' and y.a[0] in self.p.classes:
                c = self.p.classes[y.a[0]]
                bs = {b.split('.')[-1] for b in c.ext_bases()}
                if not c.find('__eq__') and c.attrs.get(y.a[1]) is not None:
                    v = self.static_value(c.mod, c, c.attrs[y.a[1]])
                    if bs & {'StrEnum', 'IntEnum', 'IntFlag', 'str', 'int'}:
                        if v.op == 'const':
                            return const(v.a[0] == x.a[0])
                    elif bs <= {'Enum', 'ABC', 'object'}:
                        return FALSE
        if is_numeric(a) or is_numeric(b):
            c, d = lin_parts(add(a, b, -1))
            if not d:
                return const(c == 0)
        if skey(b) < skey(a):
            a, b = b, a
        return mk('eq', a, b)

    def lt(self, a, b):
        """a < b"""
        if a.op == 'const' and b.op == 'const':
            try:
                return const(a.a[0] < b.a[0])
            except TypeError:
                pass
        return self.lt0(add(a, b, -1))

    def lt0(self, l):
        n = num(l)
        if n is not None:
            return const(n < 0)
        return mk('lt0', l)

    def decide(self, atom, st):
        if atom.op == 'const':
            return bool(atom.a[0])
        if atom in st.facts:
            return st.facts[atom]
        op = atom.op
        f = st.facts
        if op == 'isnone':
            x = atom.a[0]
            for k, v in f.items():
                if v and (k.op in ('isa', 'truth')) and k.a[0] is x:
                    return False
                if k.op == 'eq' and v and x in k.a:
                    o = k.a[0] if k.a[1] is x else k.a[1]
                    if o.op in ('const', 'enum', 'cls'):
                        return False
            if x.op in ('arr', 'elem') and x.op == 'arr':
                return False
            if x.op == 'attr' and x.a[0].op == 'cls':
                return None
            return None
        if op == 'truth':
            x = atom.a[0]
            if f.get(mk('isnone', x)) is True:
                return False
            return None
        if op == 'isa':
            x, c = atom.a
            if x.op == 'const' and x.a[0] is None:
                return False
            if f.get(mk('isnone', x)) is True:
                return False
            return self.decide_isa(x, c, st)
        if op == 'eq':
            a, b = atom.a
            for x, y in ((a, b), (b, a)):
                if y.op in ('const', 'enum', 'cls'):
                    for k, v in f.items():
                        if k.op == 'eq' and v and x in k.a:
                            o = k.a[0] if k.a[1] is x else k.a[1]
                            if o is not y and o.op == y.op:
                                return False
                    if f.get(mk('isnone', x)) is True:
                        return False
            if is_numeric(a) or is_numeric(b):
                d = add(a, b, -1)
                if self.bound_neg(d, f) is True or self.bound_neg(add(const(0), d, -1), f) is True:
                    return False
            return None
        if op == 'lt0':
            r = self.bound_neg(atom.a[0], f)
            if r is None:
                c0, ts = lin_parts(atom.a[0])
                ts = dict(ts)
                if len(ts) == 1:
                    (x, k), = ts.items()
                    if x.op == 'len' and (k == -1 and c0 == 0 or k == 1 and c0 == -1):
                        z = f.get(self.eq(x, const(0)))
                        if z is not None:
                            return z == (k == 1)
            return r
        if op == 'in':
            x, c = atom.a
            if c.op == 'seq' and self.static_items(c) is not None:
                rs = [self.decide(self.eq(x, i), st) for i in self.static_items(c)]
                if any(r is True for r in rs):
                    return True
                if all(r is False for r in rs):
                    return False
            if c.op == 'dict':
                rs = [self.decide(self.eq(x, i), st) for i in c.a[::2]]
                if any(r is True for r in rs):
                    return True
                if rs and all(r is False for r in rs) or not c.a:
                    return False
        if op == 'is':
            a, b = atom.a
            if a is b:
                return True
            if a.op == 'const' and b.op == 'const':
                return a.a[0] is b.a[0]
            if a.op in ('enum', 'cls') and b.op in ('enum', 'cls'):
                return False
        return None

    def bound_neg(self, l, f):
        """is l < 0 implied true / false by simple bounds?"""
        c, v = lin_parts(l)
        if not v:
            return c < 0
        if all(k.op == 'len' and q > 0 for k, q in v.items()) and c >= 0:
            return False
        if all(k.op == 'len' and q < 0 for k, q in v.items()) and c < 0:
            return True
        neg = {k: -q for k, q in v.items()}
        for k, val in f.items():
            if k.op == 'lt0':
                c2, v2 = lin_parts(k.a[0])
                if v2 == v:
                    if val and c <= c2:
                        return True
                    if not val and c >= c2:
                        return False
                elif v2 == neg:
                    if val and c + c2 >= 0:
                        return False
                    if not val and c + c2 < 0:
                        return True
            elif k.op == 'eq' and val:
                d = add(k.a[0], k.a[1], -1) if (is_numeric(k.a[0]) or is_numeric(k.a[1])) else None
                if d is not None:
                    c2, v2 = lin_parts(d)
                    if v2 == v:
                        return c - c2 < 0
                    if v2 == neg:
                        return c + c2 < 0
        return None

    def decide_isa(self, x, c, st):
        if c.op == 'seq':
            rs = [self.decide(mk('isa', x, i), st) for i in c.a[1:]]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        tn = c.a[0] if c.op in ('cls', 'ext') else None
        if x.op == 'new':
            k = self.p.classes.get(x.a[0].a[0])
            if c.op == 'cls':
                o = self.p.classes.get(tn)
                return bool(k and o and k.isa(o))
            if k is not None and tn is not None:
                return tn in k.ext_bases() or None if k.ext_bases() else False
        prim = {'const': None, 'seq': 'list', 'lin': 'int', 'len': 'int', 'fstr': 'str', 'dict': 'dict', 'arr': 'array',
                'tobytes': 'bytes', 'shr': 'int', 'band': 'int', 'bor': 'int', 'shl': 'int', 'cls': 'type', 'fn': 'function'}
        if x.op in prim:
            pt = type(x.a[0]).__name__ if x.op == 'const' else x.a[0] if x.op == 'seq' else prim[x.op]
            if c.op == 'cls':
                return False
            tt = tn.split('.')[-1] if tn else None
            if tt == pt or (tt, pt) in (('int', 'bool'), ('float', 'float'), ('List', 'list'), ('Dict', 'dict'), ('array', 'array'), ('ArrayType', 'array')):
                return True
            if tt in ('int', 'str', 'bytes', 'list', 'dict', 'array', 'tuple', 'float', 'bool', 'List', 'set', 'datetime', 'ndarray', 'bytearray', 'memoryview'):
                return False
            return None
        # facts about other classes
        if c.op == 'cls':
            o = self.p.classes.get(tn)
            for k, v in st.facts.items():
                if k.op == 'isa' and k.a[0] is x and k.a[1].op == 'cls':
                    k2 = self.p.classes.get(k.a[1].a[0])
                    if not o or not k2:
                        continue
                    if v and k2.isa(o):
                        return True
                    if v and not o.isa(k2) and not (set(o.all_subs()) & set(k2.all_subs())):
                        return False
                    if not v and o.isa(k2):
                        return False
                elif k.op == 'isa' and v and k.a[0] is x and k.a[1].op == 'ext':
                    return False
        elif c.op == 'ext':
            for k, v in st.facts.items():
                if k.op == 'isa' and v and k.a[0] is x and k.a[1] is not c:
                    t2 = k.a[1].a[0] if k.a[1].op in ('cls', 'ext') else ''
                    if k.a[1].op == 'cls' or {t2, tn} <= {'int', 'str', 'bytes', 'list', 'dict', 'array.array', 'float'}:
                        return False
        return None

    # =============================================================== expressions
    def evs(self, exprs, st, fr):
        """evaluate several expressions -> list of ('v', [vals], st) / ('raise', exc, st)"""
        cur, out = [([], st)], []
        for e in exprs:
            nxt = []
            for vals, s in cur:
                for k, v, x in self.ev(e, s, fr):
                    if k == 'raise':
                        out.append((k, v, x))
                    else:
                        nxt.append((vals + [v], x))
            cur = nxt
        return out + [('v', vals, s) for vals, s in cur]

    def ev(self, e, st, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.undecided.append((fr.fn.qual, type(e).__name__))
            return [('v', mk('unknown', const(ast.dump(e)[:80])), st)]
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        return [('v', const(e.value), st)]

    def e_Name(self, e, st, fr):
        v = self.name(e.id, st, fr)
        if self.lint is not None:
            self.lint.name(e, v, st, fr)
        return [('v', v, st)]

    def name(self, n, st, fr):
        if n in st.env:
            return st.env[n]
        c = fr.cls
        r = self.p.lookup(fr.mod, n)
        if r is None:
            if n in BUILTINS:
                return mk('ext', n)
            return mk('undef', n)
        return self.res_term(r, fr)

    def res_term(self, r, fr):
        if r[0] == 'cls':
            return mk('cls', r[1].qual)
        if r[0] == 'fn':
            return mk('fn', r[1].qual)
        if r[0] == 'mod':
            return mk('mod', r[1])
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'val':
            m = r[2] if len(r) > 2 else fr.mod
            return self.static_value(m, None, r[1])
        return mk('unknown', const(str(r)))

    def static_value(self, m, c, expr):
        """value of a module or class level initialiser"""
        key = id(expr)
        if key in self.val_cache:
            return self.val_cache[key]
        self.val_cache[key] = mk('static', m.name, getattr(expr, 'lineno', 0))
        f = Func(ast.copy_location(ast.Lambda(ast.arguments([], [], None, [], [], None, []), expr), expr), m, c,
                 (c.qual if c else m.name) + '.<init>')
        st = St()
        if c is not None:
            for n in c.attrs:
                if c.attrs[n] is expr:
                    break
            for n, x in c.attrs.items():
                if x is expr or getattr(x, 'lineno', 0) >= getattr(expr, 'lineno', 0):
                    continue
                st.env[n] = self.static_value(m, c, x)
        outs = self.ev(expr, st, Frame(f, c, 1, None))
        v = outs[0][1] if len(outs) == 1 and outs[0][0] == 'v' else mk('static', m.name, getattr(expr, 'lineno', 0))
        self.val_cache[key] = v
        return v

    def e_NamedExpr(self, e, st, fr):
        out = []
        for k, v, x in self.ev(e.value, st, fr):
            if k == 'v':
                x.env[e.target.id] = v
            out.append((k, v, x))
        return out

    def e_Tuple(self, e, st, fr, kind='tuple'):
        out = []
        exprs = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for k, vs, x in self.evs(exprs, st, fr):
            if k == 'raise':
                out.append((k, vs, x))
                continue
            items = [self.spread(v) if isinstance(n, ast.Starred) else v for n, v in zip(e.elts, vs)]
            out.append(('v', seq(kind, items), x))
        return out

    def e_List(self, e, st, fr):
        return self.e_Tuple(e, st, fr, 'list')

    def e_Set(self, e, st, fr):
        return self.e_Tuple(e, st, fr, 'set')

    def spread(self, v):
        v = self.norm_iter(v)
        return mk('spread', v)

    def e_Dict(self, e, st, fr):
        out = []
        ks = [k for k in e.keys if k is not None]
        for k, vs, x in self.evs([z for kk, vv in zip(e.keys, e.values) for z in ([kk, vv] if kk is not None else [vv])], st, fr):
            if k == 'raise':
                out.append((k, vs, x))
                continue
            vs = list(vs)
            items = []
            for kk in e.keys:
                if kk is None:
                    d = vs.pop(0)
                    items += list(d.a) if d.op == 'dict' else [mk('spread', d), d]
                else:
                    items += [vs.pop(0), vs.pop(0)]
            d = mk('dict')
            for i in range(0, len(items), 2):
                d = self.dict_set(d, items[i], items[i + 1])
            out.append(('v', d, x))
        return out

    def dict_set(self, d, k, v):
        items = list(d.a)
        for i in range(0, len(items), 2):
            if items[i] is k:
                items[i + 1] = v
                return mk('dict', *items)
        if k.op not in ('const', 'enum', 'cls', 'spread') and items:
            return mk('dset', d, k, v)
        return mk('dict', *(items + [k, v]))

    def e_JoinedStr(self, e, st, fr):
        parts = [p.value if isinstance(p, ast.FormattedValue) else p for p in e.values]
        out = []
        for k, vs, x in self.evs(parts, st, fr):
            if k == 'raise':
                out.append((k, vs, x))
            elif all(v.op == 'const' for v in vs) and not any(isinstance(p, ast.FormattedValue) and p.format_spec for p in e.values):
                out.append(('v', const(''.join(str(v.a[0]) for v in vs)), x))
            else:
                out.append(('v', mk('fstr', *vs), x))
        return out

    def e_FormattedValue(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_IfExp(self, e, st, fr):
        out = []
        for k, b, x in self.cond(e.test, st, fr):
            if k == 'raise':
                out.append((k, b, x))
            else:
                out += self.ev(e.body if b else e.orelse, x, fr)
        return out

    def e_BoolOp(self, e, st, fr):
        is_and = isinstance(e.op, ast.And)
        # a boolean used as a value: keep the deciding value
        out, cur = [], [st]
        for i, v in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for c in cur:
                for k, val, x in self.ev(v, c, fr):
                    if k == 'raise':
                        out.append((k, val, x))
                    elif last:
                        out.append(('v', val, x))
                    else:
                        for b, y in self.split(val, x):
                            if b == is_and:
                                nxt.append(y)
                            else:
                                out.append(('v', const(not is_and) if val.op in ('eq', 'lt0', 'isnone', 'isa', 'in', 'not') else val, y))
            cur = nxt
        return out

    def e_UnaryOp(self, e, st, fr):
        out = []
        for k, v, x in self.ev(e.operand, st, fr):
            if k == 'raise':
                out.append((k, v, x))
            elif isinstance(e.op, ast.Not):
                a = self.truth(v, x)
                out.append(('v', const(not a.a[0]) if a.op == 'const' else a.a[0] if a.op == 'not' else mk('not', a), x))
            elif isinstance(e.op, ast.USub):
                out.append(('v', add(const(0), v, -1), x))
            elif isinstance(e.op, ast.Invert):
                out.append(('v', add(const(-1), v, -1), x))
            else:
                out.append(('v', v, x))
        return out

    def e_BinOp(self, e, st, fr):
        out = []
        for k, vs, x in self.evs([e.left, e.right], st, fr):
            if k == 'raise':
                out.append((k, vs, x))
            else:
                if self.lint is not None:
                    self.lint.binop(type(e.op).__name__, vs[0], vs[1], x, fr, e)
                out.append(('v', self.binop(type(e.op).__name__, vs[0], vs[1], x), x))
        return out

    def is_list(self, t, st):
        if t.op == 'seq' or t.op in ('app', 'pre'):
            return True
        if t.op == 'lv':
            i = self.lvinit.get(t)
            return i is not None and self.is_list(i, st)
        if t.op == 'attr':
            ty = self.typeof(t, st)
            return bool(ty.prim & {'list'})
        return False

    def list_extend(self, a, b):
        items = list(b.a[1:]) if b.op == 'seq' else [self.spread(b)]
        if a.op == 'seq':
            return seq(a.a[0], list(a.a[1:]) + items)
        if a.op == 'app':
            return mk('app', *(a.a + tuple(items)))
        return mk('app', a, *items)

    def binop(self, op, a, b, st):
        if a.op == 'const' and b.op == 'const':
            try:
                x, y = a.a[0], b.a[0]
                r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'FloorDiv': lambda: x // y,
                     'Div': lambda: x / y, 'Mod': lambda: x % y, 'LShift': lambda: x << y, 'RShift': lambda: x >> y,
                     'BitAnd': lambda: x & y, 'BitOr': lambda: x | y, 'BitXor': lambda: x ^ y, 'Pow': lambda: x ** y}[op]()
                if not isinstance(r, (str, bytes)) or len(r) < 2000:
                    return const(r)
            except Exception:
                pass
        strish = lambda t: (t.op == 'const' and isinstance(t.a[0], (str, bytes))) or t.op in ('fstr', 'cat', 'tobytes', 'arr')
        if op == 'Add':
            if a.op == 'seq' or b.op == 'seq':
                kind = a.a[0] if a.op == 'seq' else b.a[0]
                ia = list(a.a[1:]) if a.op == 'seq' else [self.spread(a)]
                ib = list(b.a[1:]) if b.op == 'seq' else [self.spread(b)]
                return seq(kind, ia + ib)
            if strish(a) or strish(b):
                la = a.a if a.op == 'cat' else (a,)
                lb = b.a if b.op == 'cat' else (b,)
                return mk('cat', *(la + lb))
            if is_numeric(a) or is_numeric(b) or self.numeric_ty(a, st) or self.numeric_ty(b, st):
                return add(a, b)
            return mk('plus', a, b)
        if op == 'Sub':
            return add(a, b, -1)
        if op == 'Mult':
            if a.op == 'seq' or b.op == 'seq':
                s, n = (a, b) if a.op == 'seq' else (b, a)
                if num(n) is not None and num(n) * (len(s.a) - 1) <= 64:
                    return seq(s.a[0], list(s.a[1:]) * int(num(n)))
                return mk('repeat', s, n)
            return mul(a, b)
        if op == 'Mod' and a.op == 'const' and isinstance(a.a[0], str):
            vals = list(b.a[1:]) if b.op == 'seq' else [b]
            return mk('fstr', a, *vals)
        if op == 'BitOr' and (a.op in ('cls', 'ext') or b.op in ('cls', 'ext')):
            return seq('tuple', [a, b])
        if op == 'RShift' and num(b) == 0 or op == 'LShift' and num(b) == 0:
            return a
        if op == 'LShift' and num(b) is not None:
            return mul(a, const(1 << int(num(b))))
        if op == 'FloorDiv' and num(b) is not None and num(b) > 0 and int(num(b)) & (int(num(b)) - 1) == 0 and isinstance(num(b), int):
            return mk('shr', a, const(int(num(b)).bit_length() - 1)) if num(b) > 1 else mk('fdiv', a, b)
        if op == 'RShift' and a.op == 'shr' and num(b) is not None and num(a.a[1]) is not None:
            return mk('shr', a.a[0], const(num(b) + num(a.a[1])))
        if op == 'Mod' and num(b) is not None and isinstance(num(b), int) and num(b) > 1 and num(b) & (num(b) - 1) == 0:
            return mk('band', a, const(num(b) - 1))
        name = {'RShift': 'shr', 'LShift': 'shl', 'BitAnd': 'band', 'BitOr': 'bor', 'BitXor': 'bxor', 'FloorDiv': 'fdiv',
                'Div': 'div', 'Mod': 'mod', 'Pow': 'pow', 'MatMult': 'matmul'}[op]
        if name in ('band', 'bor', 'bxor') and (skey(b) < skey(a) and num(b) is None or num(a) is not None):
            a, b = b, a
        return mk(name, a, b)

    def numeric_ty(self, t, st):
        if t.op == 'lv':
            i = self.lvinit.get(t)
            return i is not None and (is_numeric(i))
        if t.op in ('param', 'attr', 'mcall', 'call', 'pos'):
            if t.op == 'pos':
                return True
            ty = self.typeof(t, st)
            return ty.known and not ty.classes and bool(ty.prim) and ty.prim <= {'int', 'float'}
        return False

    def e_Compare(self, e, st, fr):
        if len(e.ops) > 1:
            return [(k, const(b) if k == 'v' else b, x) for k, b, x in self.cond(e, st, fr)]
        out = []
        op = type(e.ops[0]).__name__
        for k, vs, x in self.evs([e.left, e.comparators[0]], st, fr):
            if k == 'raise':
                out.append((k, vs, x))
                continue
            a, b = vs
            neg = op in ('NotEq', 'IsNot', 'NotIn', 'GtE', 'LtE')
            if self.lint is not None:
                self.lint.binop(op, a, b, x, fr, e)
            if op in ('Eq', 'NotEq'):
                t = self.eq(a, b)
                # classes with == operators on repo objects are events too
            elif op in ('Is', 'IsNot'):
                if b.op == 'const' and b.a[0] is None:
                    t = self.isnone(a)
                elif a.op == 'const' and a.a[0] is None:
                    t = self.isnone(b)
                elif a.op == 'const' and b.op == 'const':
                    t = const(a.a[0] is b.a[0])
                elif a is b:
                    t = TRUE
                elif {a.op, b.op} <= {'enum'}:
                    t = self.eq(a, b)
                elif 'enum' in (a.op, b.op):
                    t = self.eq(a, b)
                else:
                    t = mk('is', *sorted((a, b), key=skey))
            elif op in ('In', 'NotIn'):
                t = mk('in', a, b)
                d = self.decide(t, x)
                if d is not None:
                    t = const(d)
                elif b.op == 'seq' and self.static_items(b) is not None and len(b.a) <= 12:
                    t = mk('or', *[self.eq(a, i) for i in b.a[1:]]) if len(b.a) > 2 else self.eq(a, b.a[1]) if len(b.a) == 2 else FALSE
            elif op == 'Lt':
                t = self.lt(a, b)
            elif op == 'GtE':
                t = self.lt(a, b)
            elif op == 'Gt':
                t = self.lt(b, a)
            else:
                t = self.lt(b, a)
            if neg:
                t = const(not t.a[0]) if t.op == 'const' else mk('not', t)
            out.append(('v', t, x))
        return out

    def e_Attribute(self, e, st, fr):
        out = []
        for k, o, x in self.ev(e.value, st, fr):
            if k == 'raise':
                out.append((k, o, x))
                continue
            if self.lint is not None:
                self.lint.attr(o, e.attr, x, fr, e)
            p = self.property_of(o, e.attr, x)
            if p is not None:
                out += self.call_fn(p, o, [], {}, x, fr, e)
            else:
                out.append(('v', self.getattr(o, e.attr, x, fr), x))
        return out

    def property_of(self, o, name, st):
        if o.op in ('cls', 'mod', 'ext') or (o, name) in st.heap:
            return None
        for c in self.typeof(o, st).classes:
            f = c.find(name)
            if f is not None and f.kind == 'prop':
                return f
        return None

    def getattr(self, o, name, st, fr=None):
        if (o, name) in st.heap:
            return st.heap[(o, name)]
        if o.op == 'cls':
            c = self.p.classes.get(o.a[0])
            if c is None:
                return mk('attr', o, name)
            if c.is_enum() and name in c.attrs:
                return mk('enum', c.qual, name)
            r = c.find_attr(name)
            if r is not None:
                if isinstance(r[1], Cls):
                    return mk('cls', r[1].qual)
                return self.class_attr(r[0], name, r[1])
            f = c.find(name)
            if f is not None:
                return mk('bmeth', o, name)
            return mk('attr', o, name)
        if o.op == 'mod':
            m = self.p.mods.get(o.a[0])
            r = self.p.lookup(m, name) if m else None
            if r is None and m is not None and o.a[0] + '.' + name in self.p.mods:
                return mk('mod', o.a[0] + '.' + name)
            return self.res_term(r, fr or Frame(Func(ast.parse('def f(): pass').body[0], m, None, m.name), None, 0, None)) if r else mk('attr', o, name)
        if o.op == 'ext':
            return mk('ext', o.a[0] + '.' + name)
        if o.op == 'super':
            return mk('bmeth', o, name)
        if o.op == 'enum' and name in ('value', 'name'):
            c = self.p.classes[o.a[0]]
            return const(o.a[1]) if name == 'name' else self.static_value(c.mod, c, c.attrs[o.a[1]])
        if o.op == 'new':
            v = self.ctor_attr(o, name)
            if v is not None:
                return v
        ty = self.typeof(o, st)
        for c in ty.classes:
            f = c.find(name)
            if f is not None and f.kind != 'prop':
                return mk('bmeth', o, name)
            if not self.has_field(c, name):
                r = c.find_attr(name)
                if r is not None:
                    if isinstance(r[1], Cls):
                        return mk('cls', r[1].qual)
                    return self.class_attr(r[0], name, r[1])
        return mk('attr', o, name)

    def class_attr(self, c, name, expr):
        if name in self.p.mutable_class_attrs or (isinstance(expr, ast.Constant) and isinstance(expr.value, bool)):
            return mk('attr', mk('cls', c.qual), name)
        if isinstance(expr, ast.Call):
            v = self.static_value(c.mod, c, expr)
            if v.op in ('const', 'seq', 'dict', 'new'):
                return v
            return mk('attr', mk('cls', c.qual), name)
        return self.static_value(c.mod, c, expr)

    # ---- class summaries ----
    def ctor(self, c):
        """outcomes of the constructor of c on symbolic parameters, self = param('self')"""
        if c in self.ctor_cache:
            return self.ctor_cache[c]
        if c in self.ctor_busy:
            return []
        f = c.find('__init__')
        if f is None:
            self.ctor_cache[c] = []
            return []
        self.ctor_busy.add(c)
        saved = (self.try_depth, self.active_iters)
        self.try_depth, self.active_iters = 0, []
        try:
            st = St()
            me = mk('param', 'self')
            fr = Frame(f, c, 1, None)
            st.env[f.pos[0]] = me
            oldty = dict(self.ptypes)
            self.ptypes[me] = Ty(classes={c}, known=True, exact=True)
            for n in f.params:
                t = mk('param', n)
                st.env[n] = t
                self.ptypes[t] = self.p._ann(f.mod, f.ann.get(n), f.cls)
            for n in (f.vararg, f.kwarg):
                if n:
                    st.env[n] = mk('param', '*' + n)
            try:
                outs = [o for o in self.body(f, st, fr) if o.kind == 'return']
            except Budget:
                outs = []
            self.ptypes = oldty
        finally:
            self.ctor_busy.discard(c)
            self.try_depth, self.active_iters = saved
        self.ctor_cache[c] = outs
        return outs

    def ctor_params(self, c):
        f = c.find('__init__')
        return f

    def has_field(self, c, name):
        me = mk('param', 'self')
        if any((me, name) in o.st.heap for o in self.ctor(c)):
            return True
        key = ('assigned', c)
        if key not in self.fty_cache:
            names = set()
            for k in c.mro():
                for f in k.methods.values():
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == (f.first or 'self'):
                            names.add(n.attr)
            self.fty_cache[key] = names
        return name in self.fty_cache[key]

    def ctor_attr(self, o, name):
        """value of an attribute just after construction, for a new(...) term"""
        c = self.p.classes.get(o.a[0].a[0])
        if c is None:
            return None
        me = mk('param', 'self')
        m = {mk('param', o.a[i]): o.a[i + 1] for i in range(2, len(o.a), 2)}
        m[me] = o
        vals = []
        st = St()
        for out in self.ctor(c):
            if (me, name) not in out.st.heap:
                continue
            v = out.st.heap[(me, name)]
            ok = True
            for a, b in out.facts.items():
                d = self.decide(self.subst(a, m), st)
                if d is not None and d != b:
                    ok = False
                    break
            if ok and v not in vals:
                vals.append(v)
        if len(vals) == 1:
            r = self.subst(vals[0], m)
            return r
        if vals:
            return mk('attr', o, name)
        return None

    def subst(self, t, m, cache=None):
        if cache is None:
            cache = {}
        if t in m:
            return m[t]
        if t in cache:
            return cache[t]
        if not any(isinstance(x, (T, tuple)) for x in t.a):
            return t
        args = []
        for x in t.a:
            if isinstance(x, T):
                args.append(self.subst(x, m, cache))
            elif isinstance(x, tuple):
                args.append(tuple(self.subst(y, m, cache) if isinstance(y, T) else
                                  tuple(self.subst(z, m, cache) if isinstance(z, T) else z for z in y) if isinstance(y, tuple) else y for y in x))
            else:
                args.append(x)
        r = self.rebuild(t.op, args, t)
        cache[t] = r
        return r

    def rebuild(self, op, a, t=None):
        if op == 'lin':
            r = const(a[0])
            for i in range(1, len(a), 2):
                r = add(r, mul(a[i], const(a[i + 1])))
            return r
        if op == 'mul':
            return mul(a[0], a[1])
        if op == 'seq':
            return seq(a[0], a[1:])
        if op == 'eq':
            return self.eq(a[0], a[1])
        if op == 'lt0':
            return self.lt0(a[0])
        if op == 'isnone':
            return self.isnone(a[0])
        if op == 'len':
            return self.length(a[0])
        if op == 'idx':
            return self.index(a[0], a[1])
        if op == 'slice':
            return self.slice(a[0], a[1], a[2])
        if op == 'arr':
            return self.arr(a[0])
        if op == 'elem' and len(a) == 1:
            return self.elem(a[0])
        if op == 'attr' and len(a) == 2 and a[0].op == 'new':
            v = self.ctor_attr(a[0], a[1])
            return v if v is not None else mk('attr', *a)
        if op == 'not':
            x = a[0]
            return const(not x.a[0]) if x.op == 'const' else x.a[0] if x.op == 'not' else mk('not', x)
        return mk(op, *a)

    # ---- types ----
    def typeof(self, t, st=None, seen=()):
        op = t.op
        if st is not None:
            got = None
            for k, v in st.facts.items():
                if v and k.op == 'isa' and k.a[0] is t:
                    if k.a[1].op == 'cls':
                        c = self.p.classes.get(k.a[1].a[0])
                        if c is not None and (got is None or c.isa(got)):
                            got = c
                    elif k.a[1].op == 'ext':
                        return Ty(prim={k.a[1].a[0].split('.')[-1]}, known=True)
            if got is not None:
                return Ty(classes={got}, known=True)
        if t in self.ptypes:
            return self.ptypes[t]
        if op == 'new':
            c = self.p.classes.get(t.a[0].a[0])
            return Ty(classes={c} if c else (), known=True, exact=True)
        if op == 'const':
            if t.a[0] is None:
                return Ty(null=True)
            return Ty(prim={type(t.a[0]).__name__}, known=True)
        if op in ('seq', 'app', 'pre'):
            return Ty(prim={t.a[0] if op == 'seq' else 'list'}, known=True)
        if op in NUMERIC_OPS:
            return Ty(prim={'int'}, known=True)
        if op in ('fstr', 'cat'):
            return Ty(prim={'str'}, known=True)
        if op == 'dict':
            return Ty(prim={'dict'}, known=True)
        if op == 'arr':
            return Ty(prim={'array'}, known=True)
        if op == 'tobytes':
            return Ty(prim={'bytes'}, known=True)
        if len(seen) > 12 or t in seen:
            return Ty()
        seen = seen + (t,)
        if op == 'attr':
            bt = self.typeof(t.a[0], st, seen)
            r = None
            for c in bt.classes:
                x = self.field_type(c, t.a[1])
                r = x if r is None else r.union(x)
            if t.a[0].op == 'cls':
                c = self.p.classes.get(t.a[0].a[0])
                if c:
                    ra = c.find_attr(t.a[1])
                    if ra and not isinstance(ra[1], Cls):
                        return self.typeof(self.static_value(ra[0].mod, ra[0], ra[1]), None, seen)
            return r or Ty()
        if op == 'mcall':
            fs = self.method_impls(t.a[1], t.a[0], st, seen)
            return self.ret_types(fs)
        if op == 'call':
            f = t.a[0]
            if f.op == 'fn':
                return self.ret_types([self.p.funcs[f.a[0]]])
            if f.op == 'ext':
                n = f.a[0].split('.')[-1]
                if n in ('int', 'len', 'str', 'bytes', 'float', 'bool', 'list', 'dict'):
                    return Ty(prim={n}, known=True)
            return Ty()
        if op in ('elem', 'idx'):
            bt = self.typeof(t.a[0], st, seen)
            if bt.elem:
                if op == 'idx' and len(bt.elem) > 1 and num(t.a[1]) is not None and 0 <= num(t.a[1]) < len(bt.elem):
                    return bt.elem[num(t.a[1])]
                if len(bt.elem) == 1:
                    return bt.elem[0]
            for c in bt.classes:
                f = c.find('__getitem__') if op == 'idx' else c.find('__iter__')
                if f is not None and f.node.returns is not None:
                    ty = self.p._ann(f.mod, f.node.returns, f.cls)
                    return ty if op == 'idx' else (ty.elem[0] if ty.elem else self.next_type(ty))
                if op == 'elem' and c.find('__iter__') is not None:
                    return self.iter_elem(c)
                if f is not None:
                    return self.ret_types([f])
            return Ty()
        if op == 'lv':
            i = self.lvinit.get(t)
            if i is not None and not (i.op == 'const'):
                return self.typeof(i, st, seen)
        if op == 'enum':
            return Ty(classes={self.p.classes[t.a[0]]}, known=True)
        return Ty()

    def next_type(self, ty):
        for c in ty.classes:
            f = c.find('__next__')
            if f is not None:
                return self.ret_types([f])
        return Ty()

    def iter_elem(self, c):
        f = c.find('__iter__')
        key = ('iter', f)
        if key in self.rty_cache:
            return self.rty_cache[key]
        self.rty_cache[key] = Ty()
        r = Ty()
        for v in self.plain_returns(f, c):
            t = self.typeof(v)
            if v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0] == 'iter' and len(v.a) > 2:
                b = self.typeof(v.a[2])
                if b.elem:
                    r = b.elem[0]
            elif t.classes:
                r = self.next_type(t)
        self.rty_cache[key] = r
        return r

    def field_type(self, c, name):
        key = (c, name)
        if key in self.fty_cache:
            return self.fty_cache[key]
        self.fty_cache[key] = Ty()
        r = None
        me = mk('param', 'self')
        f = c.find('__init__')
        if f is not None:
            old = dict(self.ptypes)
            for n in f.params:
                self.ptypes[mk('param', n)] = self.p._ann(f.mod, f.ann.get(n), f.cls)
            for o in self.ctor(c):
                v = o.st.heap.get((me, name))
                if v is not None:
                    t = self.typeof(v, o.st)
                    r = t if r is None else r.union(t)
            self.ptypes = old
            # annotations on self.x: T = ...
            for k in c.mro():
                for g in k.methods.values():
                    for n in ast.walk(g.node):
                        if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Attribute) and n.target.attr == name:
                            r = self.p._ann(g.mod, n.annotation, g.cls)
        for k in c.mro():
            if name in k.anns:
                r = self.p._ann(k.mod, k.anns[name], k)
        r = r or Ty()
        self.fty_cache[key] = r
        return r

    def plain_returns(self, f, c):
        """the values a function may return, evaluated without inlining"""
        sub = Interp.__new__(Interp)
        sub.__dict__.update(self.__dict__)
        sub.inline_cb = lambda *a: False
        sub.lint = None
        sub.ptypes = dict(self.ptypes)
        sub.try_depth, sub.active_iters, sub.steps = 0, [], 0
        try:
            return [o.val for o in sub.run(f, selfcls=c) if o.kind == 'return']
        except (Budget, RecursionError):
            return []

    def ret_types(self, fs):
        r = None
        for f in fs:
            if f in self.rty_cache:
                t = self.rty_cache[f]
            else:
                self.rty_cache[f] = Ty()
                if f.node.returns is not None if hasattr(f.node, 'returns') else False:
                    t = self.p._ann(f.mod, f.node.returns, f.cls)
                else:
                    t = None
                    sub_old = self.ptypes
                    for v in self.plain_returns(f, f.cls):
                        x = self.typeof(v)
                        t = x if t is None else t.union(x)
                    self.ptypes = sub_old
                    t = t or Ty()
                self.rty_cache[f] = t
            r = t if r is None else r.union(t)
        return r or Ty()

    def method_impls(self, o, name, st, seen=()):
        """the functions a method call may reach"""
        if o.op == 'cls':
            c = self.p.classes.get(o.a[0])
            f = c.find(name) if c else None
            return [f] if f else []
        ty = self.typeof(o, st, seen)
        out = []
        for c in ty.classes:
            f = c.find(name)
            if f is not None and f not in out:
                out.append(f)
            if not ty.exact:
                for s in c.all_subs():
                    g = s.methods.get(name)
                    if g is not None and g not in out:
                        out.append(g)
        if len(out) > 1:
            conc = [f for f in out if not f.abstract]
            if conc:
                out = conc
        return out

    # ---- sequences ----
    def arr(self, v):
        if v.op == 'arr':
            return v
        if v.op == 'seq':
            return mk('arr', seq('list', v.a[1:]))
        return mk('arr', v)

    def length(self, v):
        if v.op == 'seq' or v.op == 'dict':
            items = v.a[1:] if v.op == 'seq' else v.a[::2]
            n, r = 0, const(0)
            for i in items:
                if i.op == 'spread':
                    r = add(r, self.length(i.a[0]))
                elif i.op == 'each' and len(i.a[1]) == 1 and not i.a[1][0][0]:
                    r = add(r, mul(const(len(i.a[1][0][1])), mk('len', i.a[0])))
                elif i.op in ('each', 'rev'):
                    return mk('len', v)
                else:
                    n += 1
            return add(r, const(n))
        if v.op == 'const' and isinstance(v.a[0], (str, bytes, tuple)):
            return const(len(v.a[0]))
        if v.op == 'arr' or v.op == 'tobytes':
            return self.length(v.a[0])
        if v.op == 'repeat':
            return mul(self.length(v.a[0]), v.a[1])
        if v.op == 'cat':
            r = const(0)
            for x in v.a:
                r = add(r, self.length(x))
            return r
        if v.op == 'mcall' and v.a[0] == 'tobytes':
            return self.length(v.a[1])
        return mk('len', v)

    def index(self, o, i):
        if o.op == 'seq' and num(i) is not None:
            items = list(o.a[1:])
            n = int(num(i))
            part = items[:n + 1] if n >= 0 else items[n:]
            if len(items) > (n if n >= 0 else -n - 1) and not any(x.op in ('each', 'spread', 'rev') for x in part):
                return items[n]
        if o.op == 'dict':
            for k in range(0, len(o.a), 2):
                if o.a[k] is i:
                    return o.a[k + 1]
        if o.op == 'const' and isinstance(o.a[0], (str, bytes, tuple)) and num(i) is not None:
            try:
                return const(o.a[0][int(num(i))])
            except IndexError:
                pass
        if i.op == 'elem' and i.a[0].op == 'range' and len(i.a[0].a) == 2 and num(i.a[0].a[0]) == 0 and i.a[0].a[1] is self.length(o):
            return self.elem(o)
        if i.op == 'pos' and i.a[0] is o:
            return self.elem(o)
        if o.op == 'arr':
            return self.index(o.a[0], i)
        return mk('idx', o, i)

    def slice(self, o, lo, hi, step=NONE):
        if lo is NONE and hi is NONE and step is NONE and o.op in ('param', 'attr', 'mcall', 'lv'):
            return mk('copyof', o)
        if lo.op == 'const' and lo.a[0] is None:
            lo = const(0)
        if is_const(hi) and hi.a[0] is not None and hi is self.length(o):
            hi = NONE
        if num(lo) == 0 and hi is NONE and o.op != 'seq':
            return mk('copyof', o) if self.typeof(o).prim & {'list'} else o if step is NONE else mk('slice', o, lo, hi, step)
        if o.op == 'seq' and step is NONE and num(lo) is not None and (hi is NONE or num(hi) is not None) and \
                not any(x.op in ('each', 'spread', 'rev') for x in o.a[1:]):
            return seq(o.a[0], list(o.a[1:])[num(lo):(None if hi is NONE else num(hi))])
        if hi is not NONE and hi is self.length(o):
            hi = NONE
        if step is not NONE and num(step) != 1:
            return mk('slice', o, lo, hi, step)
        return mk('slice', o, lo, hi)

    def e_Subscript(self, e, st, fr):
        out = []
        for k, o, x in self.ev(e.value, st, fr):
            if k == 'raise':
                out.append((k, o, x))
                continue
            if isinstance(e.slice, ast.Slice):
                parts = [p or ast.Constant(None) for p in (e.slice.lower, e.slice.upper, e.slice.step)]
                for k2, vs, y in self.evs(parts, x, fr):
                    out.append((k2, self.slice(o, *vs) if k2 == 'v' else vs, y))
                continue
            for k2, i, y in self.ev(e.slice, x, fr):
                if k2 == 'raise':
                    out.append((k2, i, y))
                    continue
                out += self.subscript(o, i, y, fr, e)
        return out

    def subscript(self, o, i, y, fr, e):
        out = []
        if o.op == 'dict' and i.op not in ('const', 'enum', 'cls') and len(o.a) <= 40:
            # a table lookup: one case per entry
            cur = y
            for n in range(0, len(o.a), 2):
                if cur is None:
                    break
                nxt = None
                for b, z in self.split(self.eq(i, o.a[n]), cur):
                    if b:
                        out.append(('v', o.a[n + 1], z))
                    else:
                        nxt = z
                cur = nxt
            if cur is not None:
                out.append(('raise', mk('call', mk('ext', 'KeyError'), 0, i), cur))
            return out
        v = self.index(o, i)
        if self.lint is not None:
            self.lint.item(o, '__getitem__', y, fr, e)
        if v.op == 'idx':
            for f in self.method_impls(o, '__getitem__', y):
                if len(self.method_impls(o, '__getitem__', y)) == 1 and self.should_inline(f, fr):
                    return self.call_fn(f, o, [i], {}, y, fr, e)
            if o.op in ('cls', 'ext'):
                return [('v', v, y)]
            y.ev(Ev('index', v, e, fr.fn))
            if self.try_depth:
                z = y.copy()
                out.append(('raise', mk('exc', v), z))
        out.append(('v', v, y))
        return out

    def e_Starred(self, e, st, fr):
        return self.ev(e.value, st, fr)

    def e_Lambda(self, e, st, fr):
        f = Func(e, fr.mod, None, fr.fn.qual + '.<lambda>')
        f.cls = None
        return [('v', self.closure(f, st, fr), st)]

    def closure(self, f, st, fr):
        n = len(self.closures) + 1
        t = mk('closure', n, f.qual)
        self.closures[t] = (f, dict(st.env), fr)
        return t

    def e_Yield(self, e, st, fr):
        if e.value is None:
            st.ev(Ev('yield', NONE, e, fr.fn))
            return [('v', NONE, st)]
        out = []
        for k, v, x in self.ev(e.value, st, fr):
            if k == 'v':
                x.ev(Ev('yield', v, e, fr.fn))
                v = NONE
            out.append((k, v, x))
        return out

    def e_YieldFrom(self, e, st, fr):
        out = []
        for k, v, x in self.ev(e.value, st, fr):
            if k == 'v':
                x.ev(Ev('yieldfrom', self.norm_iter(v), e, fr.fn))
                v = NONE
            out.append((k, v, x))
        return out

    def e_Await(self, e, st, fr):
        return self.ev(e.value, st, fr)

    # ---- comprehensions ----
    def comp(self, e, st, fr, kind, elts):
        gens = e.generators
        saved = dict(st.env)
        res = self.comp_gen(gens, elts, st, fr, kind)
        for k, v, x in res:
            # comprehension variables are local
            for n in list(x.env):
                if n not in saved:
                    del x.env[n]
                else:
                    x.env[n] = saved[n]
        return res

    def comp_gen(self, gens, elts, st, fr, kind):
        g = gens[0]
        out = []
        for k, it, x in self.ev(g.iter, st, fr):
            if k == 'raise':
                out.append((k, it, x))
                continue
            if self.lint is not None:
                self.lint.item(it, '__iter__', x, fr, g.iter)
            it = self.norm_iter(it)
            items = self.static_items(it)
            if items is not None and len(items) <= 32:
                cur = [([], x)]
                for item in items:
                    nxt = []
                    for acc, c in cur:
                        for y in self.assign(g.target, item, c, fr):
                            for k2, b, z in self.comp_ifs(g.ifs, y, fr):
                                if k2 == 'raise':
                                    out.append((k2, b, z))
                                elif not b:
                                    nxt.append((acc, z))
                                else:
                                    for k3, vals, w in self.comp_inner(gens, elts, z, fr, kind):
                                        if k3 == 'raise':
                                            out.append((k3, vals, w))
                                        else:
                                            nxt.append((acc + vals, w))
                    cur = nxt
                for acc, c in cur:
                    out.append(('v', acc, c))
                continue
            el = self.elem(it)
            self.active_iters.append(it)
            base = x
            alts, inner_tr = [], []
            y0 = x.copy()
            y0.trace = None
            try:
                for y in self.assign(g.target, el, y0, fr):
                    for k2, b, z in self.comp_ifs(g.ifs, y, fr):
                        if k2 == 'raise':
                            continue
                        d = [(a, v) for a, v in z.facts.items() if base.facts.get(a) is not v]
                        if not b:
                            inner_tr.append(('continue', None, d, z.events(), {}))
                            continue
                        for k3, vals, w in self.comp_inner(gens, elts, z, fr, kind):
                            d = [(a, v) for a, v in w.facts.items() if base.facts.get(a) is not v]
                            if k3 == 'raise':
                                inner_tr.append(('raise', vals, d, w.events(), {}))
                            else:
                                inner_tr.append(('next', None, d, w.events(), {}))
                                alts.append((tuple(self.cond_terms(d)), tuple(vals)))
            finally:
                self.active_iters.pop()
            if len(inner_tr) == 1 and len(alts) == 1:
                alts = [((), alts[0][1])]
            x = x.copy()
            if any(t[3] for t in inner_tr):
                lp = Loop()
                self.nloop += 1
                lp.kind, lp.iter, lp.el, lp.lid, lp.outs, lp.init, lp.cond, lp.exits = 'for', it, el, self.nloop, inner_tr, {}, None, []
                x.ev(Ev('loop', mk('loop', self.nloop), g.iter, fr.fn, lp))
            each = mk('each', it, tuple(_alt(c, i) for c, i in alts))
            out.append(('v', [each], x))
        return out

    def comp_ifs(self, ifs, st, fr):
        if not ifs:
            return [('v', True, st)]
        e = ifs[0] if len(ifs) == 1 else ast.copy_location(ast.BoolOp(ast.And(), ifs), ifs[0])
        return self.cond(e, st, fr)

    def comp_inner(self, gens, elts, st, fr, kind):
        if len(gens) > 1:
            return self.comp_gen(gens[1:], elts, st, fr, kind)
        return self.evs(elts, st, fr)

    def e_ListComp(self, e, st, fr):
        return [(k, seq('list', v) if k == 'v' else v, x) for k, v, x in self.comp(e, st, fr, 'list', [e.elt])]

    def e_SetComp(self, e, st, fr):
        return [(k, seq('set', v) if k == 'v' else v, x) for k, v, x in self.comp(e, st, fr, 'set', [e.elt])]

    def e_GeneratorExp(self, e, st, fr):
        return [(k, seq('list', v) if k == 'v' else v, x) for k, v, x in self.comp(e, st, fr, 'list', [e.elt])]

    def e_DictComp(self, e, st, fr):
        out = []
        for k, v, x in self.comp(e, st, fr, 'dict', [e.key, e.value]):
            if k == 'v':
                if any(i.op == 'each' for i in v):
                    v = mk('dictcomp', *v)
                else:
                    d = mk('dict')
                    for i in range(0, len(v), 2):
                        d = self.dict_set(d, v[i], v[i + 1])
                    v = d
            out.append((k, v, x))
        return out

    # =============================================================== calls
    def e_Call(self, e, st, fr):
        out = []
        f = e.func
        # logging and printing are side remarks, not events
        if self.is_log(f, st, fr):
            for k, vs, x in self.evs([a.value if isinstance(a, ast.Starred) else a for a in e.args] + [kw.value for kw in e.keywords], st, fr):
                if k == 'raise':
                    out.append((k, vs, x))
                else:
                    x.logs = (x.logs, Ev('log', mk('log', ast.unparse(f), tuple(vs)), e, fr.fn))
                    if self.log_events:
                        x.ev(Ev('call', mk('call', mk('ext', 'print'), 0, *vs), e, fr.fn))
                    out.append(('v', NONE, x))
            return out
        if isinstance(f, ast.Name) and f.id == 'super' and 'super' not in st.env:
            if not e.args:
                me = st.env.get(fr.fn.first) if fr.fn.first else None
                return [('v', mk('super', me if me is not None else NONE, fr.cls.qual if fr.cls else ''), st)]
        if isinstance(f, ast.Attribute):
            for k, o, x in self.ev(f.value, st, fr):
                if k == 'raise':
                    out.append((k, o, x))
                    continue
                for k2, (args, kw), y in self.args(e, x, fr):
                    if k2 == 'raise':
                        out.append((k2, args, y))
                    else:
                        out += self.call_method(o, f.attr, args, kw, y, fr, e)
            return out
        for k, v, x in self.ev(f, st, fr):
            if k == 'raise':
                out.append((k, v, x))
                continue
            for k2, (args, kw), y in self.args(e, x, fr):
                if k2 == 'raise':
                    out.append((k2, args, y))
                else:
                    out += self.call_value(v, args, kw, y, fr, e)
        return out

    def is_log(self, f, st, fr):
        if isinstance(f, ast.Name) and f.id == 'print' and 'print' not in st.env:
            return True
        if isinstance(f, ast.Attribute) and f.attr in LOGGERS:
            v = f.value
            n = v.id if isinstance(v, ast.Name) else v.attr if isinstance(v, ast.Attribute) else ''
            return 'log' in n.lower()
        return False

    def args(self, e, st, fr):
        exprs = [a.value if isinstance(a, ast.Starred) else a for a in e.args] + [k.value for k in e.keywords]
        out = []
        for k, vs, x in self.evs(exprs, st, fr):
            if k == 'raise':
                out.append((k, (vs, None), x))
                continue
            pos, kw = [], {}
            for a, v in zip(e.args, vs):
                if isinstance(a, ast.Starred):
                    items = self.static_items(v)
                    if items is not None:
                        pos += items
                    else:
                        pos.append(mk('spread', v))
                else:
                    pos.append(v)
            for a, v in zip(e.keywords, vs[len(e.args):]):
                if a.arg is None:
                    if v.op == 'dict':
                        for i in range(0, len(v.a), 2):
                            kw[v.a[i].a[0] if v.a[i].op == 'const' else show(v.a[i])] = v.a[i + 1]
                    else:
                        kw['**'] = v
                else:
                    kw[a.arg] = v
            out.append(('v', (pos, kw), x))
        return out

    def bind(self, f, args, kw):
        """positional + keyword -> {param: term} with defaults, or None when they do not fit"""
        ps = f.pos[1:] if f.kind in ('inst', 'class', 'prop') else f.pos
        b = {}
        if any(a.op == 'spread' for a in args) or '**' in kw:
            return None
        if len(args) > len(ps):
            if not f.vararg:
                return None
            b[f.vararg] = seq('tuple', args[len(ps):])
        for n, v in zip(ps, args):
            b[n] = v
        extra = {}
        for n, v in kw.items():
            if n in ps or n in f.kwonly:
                if n in b:
                    return None
                b[n] = v
            elif f.kwarg:
                extra[n] = v
            else:
                return None
        if f.vararg and f.vararg not in b:
            b[f.vararg] = seq('tuple', [])
        if f.kwarg:
            b[f.kwarg] = mk('dict', *[z for n, v in extra.items() for z in (const(n), v)])
        for n in ps + f.kwonly:
            if n not in b:
                if n not in f.defaults:
                    return None
                b[n] = self.static_value(f.mod, f.cls, f.defaults[n])
        return b

    def should_inline(self, f, fr):
        if f.abstract or f.is_gen:
            return False
        if f.name in self.stop or f.qual in self.stop:
            # the inherited implementation of the function being evaluated (super().f()) is part of it
            up = f.name == fr.fn.name and f is not fr.fn and fr.cls is not None and f.cls is not None and fr.cls is not f.cls \
                and f.cls in fr.cls.mro() and fr.selfcls is not None and fr.cls in fr.selfcls.mro()
            if not up:
                return False
        if fr.depth >= self.maxdepth:
            return False
        p = fr
        while p is not None:
            if p.fn is f:
                return False
            p = p.parent
        if self.inline_cb is not None:
            return self.inline_cb(f)
        return True

    def call_fn(self, f, recv, args, kw, st, fr, e, selfcls=None):
        b = self.bind(f, args, kw)
        if self.lint is not None:
            self.lint.call(f, args, kw, b, st, fr, e)
        if b is None or not self.should_inline(f, fr):
            return self.opaque(f, recv, args, kw, b, st, fr, e)
        return self.inline(f, recv, b, st, fr, selfcls)

    def inline(self, f, recv, b, st, fr, selfcls=None, env=None):
        c = selfcls
        if c is None and f.cls is not None:
            if recv is not None and recv.op == 'cls':
                c = self.p.classes.get(recv.a[0])
            elif recv is not None:
                ty = self.typeof(recv, st)
                c = next(iter(ty.classes)) if len(ty.classes) == 1 else f.cls
            c = c or f.cls
        nfr = Frame(f, c, fr.depth + 1, fr)
        saved = st.env
        st = st.copy()
        st.env = dict(env) if env else {}
        if f.first:
            if f.kind == 'class' and (recv is None or recv.op != 'cls'):
                st.env[f.first] = mk('cls', c.qual)
            else:
                st.env[f.first] = recv
        st.env.update(b)
        out = []
        for o in self.body(f, st, nfr):
            o.st.env = dict(saved)
            out.append(('v' if o.kind == 'return' else 'raise', o.val, o.st))
        return out

    def norm_args(self, f, args, kw, b):
        if b is not None:
            ps = f.params
            out = [mk('kw', n, b[n]) for n in ps if n in b]
            for n in (f.vararg, f.kwarg):
                if n and n in b and len(b[n].a) > (1 if b[n].op == 'seq' else 0):
                    out.append(mk('kw', '*' + n, b[n]))
            return out
        return list(args) + [mk('kw', n, kw[n]) for n in sorted(kw)]

    def opaque(self, f, recv, args, kw, b, st, fr, e):
        na = self.norm_args(f, args, kw, b)
        impure = self.eff.impure(f)
        if f.kind in ('inst', 'prop') or (f.kind == 'class'):
            r = recv if recv is not None else mk('cls', f.cls.qual)
            mkc = lambda n: mk('mcall', f.name, r, n, *na)
        elif f.kind == 'static':
            mkc = lambda n: mk('mcall', f.name, mk('cls', f.cls.qual), n, *na)
        else:
            mkc = lambda n: mk('call', mk('fn', f.qual), n, *na)
        out = self.emit(mkc, impure, st, fr, e, recv, self.eff.attrs(f) if f.kind == 'inst' else ())
        if f.name in self.argfx:
            for k, v, y in out:
                for x in (b.values() if b is not None else list(args) + list(kw.values())):
                    for a in self.argfx[f.name]:
                        if any(self.has_attr(c, a) for c in self.typeof(x, y).classes):
                            n = y.occ.get(('fx', x, a), 0) + 1
                            y.occ[('fx', x, a)] = n
                            y.heap[(x, a)] = mk('attr', x, a, n)
                            y.ev(Ev('setattr', mk('setattr', x, a, y.heap[(x, a)]), e, fr.fn, 'fx'))
        return out

    def has_attr(self, c, a):
        return any((mk('param', 'self'), a) in o.st.heap for o in self.ctor(c)) if a not in c.anns else True

    def emit(self, mkc, impure, st, fr, e, recv=None, attrs=()):
        base = mkc(0)
        if impure:
            n = st.occ.get(base, 0) + 1
            st.occ[base] = n
            t = mkc(n)
        else:
            t = base
        st.ev(Ev('call', t, e, fr.fn))
        out = []
        if self.try_depth:
            z = st.copy()
            out.append(('raise', mk('exc', t), z))
        for a in attrs:
            old = st.heap.get((recv, a))
            k = 1
            if old is not None and old.op == 'attr' and len(old.a) > 2:
                k = old.a[2] + 1
            st.heap[(recv, a)] = mk('attr', recv, a, k)
        out.append(('v', t, st))
        return out

    def new(self, c, args, kw, st, fr, e):
        f = c.find('__init__')
        if c.is_enum():
            return self.emit(lambda n: mk('call', mk('cls', c.qual), n, *args), False, st, fr, e)
        stateful = self.eff.stateful(c)
        if self.lint is not None:
            self.lint.new(c, f, args, kw, st, fr, e)
        if f is not None:
            b = self.bind(f, args, kw)
            if b is not None:
                items = []
                for n in f.params + [x for x in (f.vararg, f.kwarg) if x]:
                    if n in b:
                        items += [n, b[n]]
            else:
                items = []
                for i, a in enumerate(args):
                    items += ['arg%d' % i, a]
                for n in sorted(kw):
                    items += [n, kw[n]]
        else:
            items = []
            for i, a in enumerate(args):
                items += ['arg%d' % i, a]
            for n in sorted(kw):
                items += [n, kw[n]]
        n = 0
        ct = mk('cls', c.qual)
        if stateful:
            base = mk('new', ct, 0, *items)
            n = st.occ.get(base, 0) + 1
            st.occ[base] = n
        t = mk('new', ct, n, *items)
        st.ev(Ev('new', t, e, fr.fn))
        out = [('v', t, st)]
        if self.try_depth:
            z = st.copy()
            out.insert(0, ('raise', mk('exc', t), z))
        return out

    def call_value(self, v, args, kw, st, fr, e):
        if v.op == 'cls':
            c = self.p.classes.get(v.a[0])
            if c is not None:
                return self.new(c, args, kw, st, fr, e)
        if v.op == 'fn':
            return self.call_fn(self.p.funcs[v.a[0]], None, args, kw, st, fr, e)
        if v.op == 'closure':
            f, env, cfr = self.closures[v]
            b = self.bind(f, args, kw)
            if self.lint is not None:
                self.lint.call(f, args, kw, b, st, fr, e)
            if b is not None and fr.depth < self.maxdepth:
                if cfr.fn is fr.fn:
                    env = {**env, **{k: x for k, x in st.env.items()}}
                nf = f
                res = self.inline(nf, None, b, st, Frame(fr.fn, fr.selfcls, fr.depth, fr.parent), fr.selfcls, env)
                return res
        if v.op == 'bmeth':
            return self.call_method(v.a[0], v.a[1], args, kw, st, fr, e)
        if v.op == 'ext':
            return self.call_ext(v, args, kw, st, fr, e)
        if self.lint is not None:
            self.lint.value(v, args, kw, st, fr, e)
        na = list(args) + [mk('kw', n, kw[n]) for n in sorted(kw)]
        return self.emit(lambda n: mk('call', v, n, *na), True, st, fr, e)

    def call_ext(self, v, args, kw, st, fr, e):
        n = v.a[0]
        s = n.split('.')[-1]
        one = args[0] if args else None
        V = lambda t: [('v', t, st)]
        if self.lint is not None and n in ('isinstance', 'len', 'iter', 'next', 'list', 'tuple', 'bytes', 'enumerate', 'sorted', 'reversed', 'set', 'sum', 'min', 'max', 'array.array'):
            self.lint.builtin(n, args, kw, st, fr, e)
        if n == 'len' and one is not None:
            return V(self.length(one))
        if n == 'isinstance' and len(args) == 2:
            c = args[1]
            if c.op == 'seq' and self.static_items(c) is not None:
                ats = [mk('isa', one, x) for x in c.a[1:]]
                if len(ats) == 1:
                    return V(ats[0])
                ds = [self.decide(a, st) for a in ats]
                if any(d is True for d in ds):
                    return V(TRUE)
                if all(d is False for d in ds):
                    return V(FALSE)
                return V(mk('or', *ats))
            d = self.decide(mk('isa', one, c), st)
            return V(const(d) if d is not None else mk('isa', one, c))
        if n in ('array.array', 'array') and len(args) >= 1:
            if len(args) == 1:
                return V(self.arr(seq('list', [])))
            return V(self.arr(args[1]))
        if n == 'range':
            a = list(args)
            if len(a) == 1:
                a = [const(0)] + a
            if len(a) == 3 and num(a[2]) == 1:
                a = a[:2]
            return V(mk('range', *a))
        if n == 'enumerate':
            return V(mk('enumerate', self.norm_iter(one), args[1] if len(args) > 1 else kw.get('start', const(0))))
        if n == 'zip':
            return V(mk('zip', *[self.norm_iter(a) for a in args]))
        if n in ('list', 'tuple', 'set', 'dict') and not args and not kw:
            return V(mk('dict') if n == 'dict' else seq(n, []))
        if n in ('list', 'tuple', 'set', 'frozenset') and len(args) == 1:
            items = self.static_items(one)
            return V(seq(n, items) if items is not None else seq(n, one.a[1:]) if one.op == 'seq' else seq(n, [self.spread(one)]))
        if n == 'dict' and not args:
            return V(mk('dict', *[z for k, x in kw.items() for z in (const(k), x)]))
        if n == 'bytes' and len(args) == 1:
            if one.op == 'const' and isinstance(one.a[0], bytes):
                return V(one)
            return V(mk('tobytes', one.a[0] if one.op == 'arr' else one))
        if n in ('int', 'str', 'float', 'bool') and len(args) == 1 and one.op == 'const':
            try:
                return V(const(getattr(builtins, n)(one.a[0])))
            except Exception:
                pass
        if n == 'int' and len(args) == 1 and is_numeric(one) and one.op not in ('div', 'round', 'ceil', 'floor', 'mul', 'lin'):
            return V(one)
        if n == 'int' and len(args) == 1:
            return V(mk('int', one))
        if n in ('math.ceil', 'math.floor', 'round') and len(args) == 1:
            return V(mk(s, one))
        if n in ('min', 'max') and len(args) >= 2 and not kw:
            return V(mk(n, *sorted(args, key=skey)))
        if n == 'divmod' and len(args) == 2:
            return V(seq('tuple', [self.binop('FloorDiv', args[0], args[1], st), self.binop('Mod', args[0], args[1], st)]))
        if n in ('abs', 'sum', 'pow') and n == 'pow' and len(args) == 2:
            return V(self.binop('Pow', args[0], args[1], st))
        if n == 'sum' and one is not None and one.op == 'seq':
            r = args[1] if len(args) > 1 else const(0)
            for i in one.a[1:]:
                if i.op == 'each':
                    r = add(r, mk('sum', i.a[0], i.a[1]))
                elif i.op == 'spread':
                    r = add(r, mk('sum', i.a[0], (_alt((), (mk('elem', i.a[0]),)),)))
                else:
                    r = add(r, i)
            return V(r)
        if n == 'object.__setattr__' and len(args) == 3 and args[1].op == 'const':
            st.heap[(args[0], args[1].a[0])] = args[2]
            st.ev(Ev('setattr', mk('setattr', args[0], args[1].a[0], args[2]), e, fr.fn))
            return V(NONE)
        if n == 'setattr' and len(args) == 3 and args[1].op == 'const':
            st.heap[(args[0], args[1].a[0])] = args[2]
            st.ev(Ev('setattr', mk('setattr', args[0], args[1].a[0], args[2]), e, fr.fn))
            return V(NONE)
        if n == 'getattr' and len(args) >= 2 and args[1].op == 'const' and isinstance(args[1].a[0], str):
            return V(self.getattr(args[0], args[1].a[0], st, fr))
        if n == 'type' and len(args) == 1:
            ty = self.typeof(one, st)
            if ty.exact and len(ty.classes) == 1:
                return V(mk('cls', next(iter(ty.classes)).qual))
        if n == 'reversed' and one is not None:
            items = self.static_items(one)
            if items is not None:
                return V(seq('list', items[::-1]))
        if n == 'any' or n == 'all':
            if one is not None and one.op == 'seq' and self.static_items(one) is not None:
                its = self.static_items(one)
                return V(mk('or' if n == 'any' else 'and', *its) if len(its) > 1 else its[0] if its else const(n == 'all'))
        if n == 'iter' and len(args) == 1:
            return V(mk('call', v, 0, self.norm_iter(one)))
        if n == 'bytes.fromhex' or n == 'int.from_bytes' or n == 'int.to_bytes':
            pass
        na = list(args) + [mk('kw', k, kw[k]) for k in sorted(kw)]
        impure = n in IMPURE_EXT or s in IMPURE_METHODS
        return self.emit(lambda c: mk('call', v, c, *na), impure, st, fr, e)

    def call_method(self, o, name, args, kw, st, fr, e):
        if self.lint is not None:
            self.lint.method(o, name, args, kw, st, fr, e)
        V = lambda t: [('v', t, st)]
        if o.op == 'super':
            me, lex = o.a
            lexc = self.p.classes.get(lex)
            c = fr.selfcls or lexc
            f = c.find(name, after=lexc) if c and lexc else None
            if f is None and lexc:
                f = lexc.find(name, after=lexc)
            if f is None:
                if name in ('__init__', '__init_subclass__', '__post_init__'):
                    return V(NONE)
                return self.emit(lambda n: mk('mcall', name, o, n, *args), False, st, fr, e)
            return self.call_fn(f, me if f.kind != 'static' else None, args, kw, st, fr, e, c)
        if o.op == 'cls':
            c = self.p.classes.get(o.a[0])
            f = c.find(name) if c else None
            if f is not None:
                if f.kind in ('class', 'static'):
                    return self.call_fn(f, o if f.kind == 'class' else None, args, kw, st, fr, e, c)
                if args:
                    ty = self.typeof(args[0], st)
                    sc = next(iter(ty.classes)) if len(ty.classes) == 1 else None
                    if sc is None and args[0] is st.env.get(fr.fn.first or '') :
                        sc = fr.selfcls
                    return self.call_fn(f, args[0], args[1:], kw, st, fr, e, sc)
            if f is None and c is not None:
                r = c.find_attr(name)
                if r is not None and isinstance(r[1], Cls):
                    return self.new(r[1], args, kw, st, fr, e)
                if r is not None:
                    return self.call_value(self.getattr(o, name, st, fr), args, kw, st, fr, e)
                if name == '__init__':
                    return V(NONE)
            return self.emit(lambda n: mk('mcall', name, o, n, *(list(args) + [mk('kw', k, kw[k]) for k in sorted(kw)])), False, st, fr, e)
        if o.op == 'ext':
            return self.call_ext(mk('ext', o.a[0] + '.' + name), args, kw, st, fr, e)
        if o.op == 'mod':
            return self.call_value(self.getattr(o, name, st, fr), args, kw, st, fr, e)
        # methods of repo classes
        if not (o.op in ('seq', 'dict', 'const', 'arr', 'fstr', 'cat')):
            if (o, name) in st.heap:
                return self.call_value(st.heap[(o, name)], args, kw, st, fr, e)
            fs = self.method_impls(o, name, st)
            me = st.env.get(fr.fn.first) if fr.fn.first else None
            if me is not None and o is me and fr.selfcls is not None and o.op == 'param':
                f = fr.selfcls.find(name)
                fs = [f] if f is not None else fs
                if f is not None and f.abstract:
                    subs_ = [s.methods[name] for s in fr.selfcls.all_subs() if name in s.methods and not s.methods[name].abstract]
                    fs = subs_ or fs
                elif f is not None and not self.typeof(o, st).exact:
                    over = [s.methods[name] for s in fr.selfcls.all_subs() if name in s.methods]
                    if over:
                        fs = [f] + over
            if len(fs) == 1:
                f = fs[0]
                if f.kind == 'static':
                    return self.call_fn(f, None, args, kw, st, fr, e, f.cls)
                if f.kind == 'class':
                    ty = self.typeof(o, st)
                    c = next(iter(ty.classes)) if ty.classes else f.cls
                    return self.call_fn(f, mk('cls', c.qual), args, kw, st, fr, e, c)
                return self.call_fn(f, o, args, kw, st, fr, e)
            if len(fs) > 1:
                bs = [self.bind(f, args, kw) for f in fs]
                if self.lint is not None:
                    for f, b in zip(fs, bs):
                        self.lint.call(f, args, kw, b, st, fr, e)
                b = bs[0] if all(x is not None for x in bs) else None
                na = self.norm_args(fs[0], args, kw, b)
                return self.emit(lambda n: mk('mcall', name, o, n, *na), any(self.eff.impure(f) for f in fs), st, fr, e,
                                 o, set().union(*[self.eff.attrs(f) for f in fs]))
        # builtin containers
        r = self.builtin_method(o, name, args, kw, st, fr, e)
        if r is not None:
            return r
        # a constructor attribute holding a class or function
        cands = self.p.by_method.get(name, [])
        b = None
        na = None
        if cands and o.op not in ('seq', 'dict', 'const', 'arr', 'fstr', 'cat') and not (self.typeof(o, st).known and not self.typeof(o, st).classes):
            sigs = {tuple(f.params) for f in cands}
            if len(sigs) == 1:
                b = self.bind(cands[0], args, kw)
                na = self.norm_args(cands[0], args, kw, b)
        if na is None:
            na = list(args) + [mk('kw', k, kw[k]) for k in sorted(kw)]
        impure = name in IMPURE_METHODS or any(self.eff.impure(f) for f in cands)
        return self.emit(lambda n: mk('mcall', name, o, n, *na), impure, st, fr, e)

    def builtin_method(self, o, name, args, kw, st, fr, e):
        V = lambda t: [('v', t, st)]
        one = args[0] if args else None
        recv = e.func.value if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) else None
        listy = o.op in ('seq', 'app', 'pre', 'arr', 'mcall', 'call', 'slice', 'copyof', 'cat', 'plus') or self.is_list(o, st) or (o.op == 'lv')
        if name in LIST_MUT:
            ty = self.typeof(o, st)
            if not ty.classes:
                st.ev(Ev('mut', mk('mut', name, o, *args), e, fr.fn))
                nv = None
                if name == 'append' and one is not None and listy:
                    nv = self.list_app(o, [one])
                elif name in ('extend', 'frombytes', 'fromlist') and one is not None and listy:
                    nv = self.list_app(o, list(one.a[1:]) if one.op == 'seq' else [self.spread(one)])
                elif name == 'insert' and len(args) == 2 and listy and num(args[0]) == 0:
                    nv = seq(o.a[0], [args[1]] + list(o.a[1:])) if o.op == 'seq' else mk('pre', o, args[1])
                elif name == 'appendleft' and listy:
                    nv = mk('pre', o, one)
                elif name == 'update' and o.op == 'dict' and one is not None and one.op == 'dict':
                    nv = o
                    for i in range(0, len(one.a), 2):
                        nv = self.dict_set(nv, one.a[i], one.a[i + 1])
                elif name == 'reverse':
                    nv = mk('reversed', o)
                elif name in ('pop', 'remove', 'clear', 'sort', 'insert'):
                    nv = mk('mutated', name, o, *args)
                if nv is not None and recv is not None:
                    self.rebind(recv, nv, st, fr)
                elif recv is not None and o.op == 'attr' and name in ('append', 'extend'):
                    self.rebind(recv, self.list_app(o, [one] if name == 'append' else [self.spread(one)]), st, fr)
                if name in ('pop', 'popleft', 'popitem', 'setdefault'):
                    return self.emit(lambda n: mk('mcall', name, o, n, *args), True, st, fr, e)
                return V(NONE)
        if o.op == 'dict':
            if name == 'get' and one is not None:
                if one.op in ('const', 'enum', 'cls'):
                    for i in range(0, len(o.a), 2):
                        if o.a[i] is one:
                            return V(o.a[i + 1])
                    if not any(k.op == 'spread' for k in o.a[::2]):
                        return V(args[1] if len(args) > 1 else kw.get('default', NONE))
                else:
                    out, cur = [], st
                    for i in range(0, len(o.a), 2):
                        nxt = None
                        for b, z in self.split(self.eq(one, o.a[i]), cur):
                            if b:
                                out.append(('v', o.a[i + 1], z))
                            else:
                                nxt = z
                        cur = nxt
                        if cur is None:
                            break
                    if cur is not None:
                        out.append(('v', args[1] if len(args) > 1 else NONE, cur))
                    return out
            if name == 'copy':
                return V(o)
            if name in ('items', 'keys', 'values'):
                return V(mk('mcall', name, o, 0))
        if name == 'tobytes':
            return V(mk('tobytes', o.a[0] if o.op == 'arr' else o))
        if name == 'copy' and o.op == 'seq':
            return V(o)
        if name == 'copy' and not args and not kw and not self.typeof(o, st).classes and o.op in ('param', 'attr', 'mcall', 'lv'):
            return V(mk('copyof', o))
        if name == 'to_bytes':
            ln = one if one is not None else kw.get('length', const(1))
            bo = args[1] if len(args) > 1 else kw.get('byteorder', const('big'))
            sg = kw.get('signed', FALSE)
            return self.emit(lambda n: mk('to_bytes', o, ln, bo, sg), False, st, fr, e)
        if o.op == 'const' and isinstance(o.a[0], (str, bytes)) and all(a.op == 'const' for a in args) and not kw:
            if name in ('encode', 'decode', 'upper', 'lower', 'startswith', 'endswith', 'strip', 'replace', 'join', 'split', 'hex'):
                try:
                    r = getattr(o.a[0], name)(*[a.a[0] for a in args])
                    if isinstance(r, (str, bytes, bool)):
                        return V(const(r))
                except Exception:
                    pass
        if name == 'format' and o.op == 'const':
            return V(mk('fstr', o, *(list(args) + list(kw.values()))))
        if name == 'join' and o.op == 'const':
            return V(mk('fstr', o, *args))
        return None

    def list_app(self, o, items):
        if o.op == 'arr':
            return self.arr(self.list_app(o.a[0] if o.a[0].op == 'seq' else seq('list', [self.spread(o.a[0])]), items))
        if o.op == 'seq':
            return seq(o.a[0], list(o.a[1:]) + items)
        if o.op == 'app':
            return mk('app', *(o.a + tuple(items)))
        return mk('app', o, *items)


def _alt(conds, items):
    return (tuple(conds), tuple(items))


def _as_load(t):
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    return t


class Effects:
    """which functions change state outside themselves (by name, transitively)"""

    def __init__(self, prj):
        self.p = prj
        self.dir_attrs, self.calls, self.ext = {}, {}, {}
        for f in prj.funcs.values():
            attrs, calls, ext = set(), set(), False
            me = f.first
            for n in walk_local(f.node) if not isinstance(f.node, ast.Lambda) else ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    if isinstance(n.value, ast.Name) and n.value.id == me:
                        attrs.add(n.attr)
                    else:
                        ext = True
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    b = n.value
                    if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name) and b.value.id == me:
                        attrs.add(b.attr)
                if isinstance(n, ast.Call):
                    fn = n.func
                    if isinstance(fn, ast.Attribute):
                        if fn.attr in LIST_MUT and isinstance(fn.value, ast.Attribute) and isinstance(fn.value.value, ast.Name) and fn.value.value.id == me:
                            attrs.add(fn.value.attr)
                        calls.add(fn.attr)
                        d = ast.unparse(fn)
                        if d in IMPURE_EXT or fn.attr in ('generate_key', 'generate_private_key', 'read', 'write', 'send', 'sendall', 'recv', 'urandom', 'now'):
                            ext = True
                        if isinstance(fn.value, ast.Name) and fn.value.id in ('self', 'cls', me):
                            pass
                    elif isinstance(fn, ast.Name):
                        calls.add(fn.id)
                        if fn.id in IMPURE_EXT:
                            ext = True
            self.dir_attrs[f], self.calls[f], self.ext[f] = attrs, calls, ext
        self._imp = {}
        imp_names = set()
        changed = True
        bad = {f for f in self.calls if (self.dir_attrs[f] and f.name not in ('__init__', '__post_init__')) or self.ext[f]}
        skip = {'get', 'add', 'append', 'debug', 'info', 'print', 'update', 'close', 'copy', 'remove', 'items', 'keys', 'values', 'run', 'build'}
        while changed:
            changed = False
            names = {f.name for f in bad} - skip - {'__init__'}
            for f in self.calls:
                if f not in bad and self.calls[f] & names:
                    bad.add(f)
                    changed = True
        self.bad = bad

    def impure(self, f):
        return f in self.bad

    def attrs(self, f, seen=None):
        seen = seen or set()
        if f in seen:
            return set()
        seen.add(f)
        out = set(self.dir_attrs.get(f, ()))
        if f.cls is not None:
            for n in walk_local(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == f.first:
                    g = f.cls.find(n.func.attr)
                    if g is not None:
                        out |= self.attrs(g, seen)
        return out

    def stateful(self, c):
        for k in c.mro():
            for f in k.methods.values():
                if f.name not in ('__init__', '__post_init__', '__new__') and self.dir_attrs.get(f):
                    return True
        return False


def effects(prj):
    if not hasattr(prj, '_effects'):
        prj._effects = Effects(prj)
    return prj._effects
