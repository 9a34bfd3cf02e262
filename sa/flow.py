"""Relevance-driven evaluation: a function is evaluated with the helpers that matter to the question inlined (those from
which a call of interest can be reached) and everything else left opaque, so that large orchestration functions stay
small enough to enumerate their paths."""
import ast
from .terms import *
from .interp import *
from .project import *
from .wire import STOP, canon, kwargs


def called_names(f):
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Attribute):
                out.add(n.func.attr)
            elif isinstance(n.func, ast.Name):
                out.add(n.func.id)
    return out


def calls_of(f, name):
    return [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and
            (isinstance(n.func, ast.Attribute) and n.func.attr == name or isinstance(n.func, ast.Name) and n.func.id == name)]


def body_of(f):
    b = f.node.body if isinstance(f.node.body, list) else [f.node.body]
    return [s for s in b if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]


def trivial(f):
    """an accessor or plain delegation: straight-line code without loops"""
    b = body_of(f)
    if len(b) > 4:
        return False
    for s in b:
        for n in ast.walk(s):
            if isinstance(n, (ast.For, ast.While, ast.Try, ast.With, ast.If, ast.IfExp, ast.comprehension, ast.Yield)):
                return False
    return True


class Flow:
    """names: the calls of interest; stop: functions kept opaque even when relevant"""

    def __init__(self, ctx, names, stop=(), depth=8, also=None, keep=STOP, ctors=True, nomerge=False, logs=False, samename=False, states=None):
        self.ctx, self.p = ctx, ctx.p
        self.names = set(names)
        self.rel = reach(ctx, self.names)
        stop = set(stop) | set(keep) | self.names
        self.i = Interp(ctx.p, stop=stop, inline=self.want, depth=depth)
        self.also = also
        self.i.nomerge = nomerge
        self.i.log_events = logs
        self.i.samename = samename
        if states:
            self.i.max_states = states
        self.cache = {}

    def want(self, f):
        if self.also is not None and self.also(f):
            return True
        return f.name in self.rel or trivial(f)

    def run(self, f, selfcls=None, args=None, st=None):
        """outcomes of f; [] when there are too many paths"""
        k = (f, selfcls, tuple(sorted(args.items())) if args else None)
        if st is None and k in self.cache:
            outs, self.i.ptypes = self.cache[k][0], dict(self.cache[k][1])      # what the caller asks next is about this run
            return outs
        outs = self.i.run(f, selfcls=selfcls, args=args, st=st)
        if st is None:
            self.cache[k] = outs, dict(self.i.ptypes)
        return outs


def reach(ctx, names):
    """names of project functions from which a call of one of the names can be reached (by name)"""
    def build():
        return {f: called_names(f) for f in ctx.p.funcs.values()}
    cn = ctx.lazy('called_names', build)
    rel = set(names)
    byname = {}
    for f, ns in cn.items():
        byname.setdefault(f.name, set()).update(ns)
    ch = True
    while ch:
        ch = False
        for n, ns in byname.items():
            if n not in rel and ns & rel:
                rel.add(n)
                ch = True
    return rel - set(names)


def walk_events(evs, loops=()):
    """all events, including those inside loops: (event, enclosing loops)"""
    for e in evs:
        yield e, loops
        if e.kind == 'loop':
            for q in e.x.outs:
                yield from walk_events(q[3], loops + (e.x,))


def walk_facts(evs, facts):
    """all events with the conditions of the path they are on, those of enclosing loop passes included"""
    for e in evs:
        yield e, facts
        if e.kind == 'loop':
            L = e.x
            els = {s for s in subs(L.el) if s.op in ('elem', 'lv', 'idx')} | {L.el} if L.el is not None else set()
            out = [(a, b) for a, b in facts if not any(s in els or s.op == 'lv' and s.a[0] == L.lid for s in subs(a))]
            for q in L.outs:
                yield from walk_facts(q[3], out + list(q[2]))


def mcalls(o, name):
    """method calls of that name on the path of outcome o: (event, enclosing loops, receiver, positional args, keywords)"""
    for e, ls in walk_events(o.events()):
        t = e.term
        if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == name:
            pos, kw = margs(t)
            yield e, ls, t.a[1], pos, kw


def split_args(xs):
    pos, kw = [], {}
    for x in xs:
        if x.op != 'kw':
            pos.append(x)
        elif x.a[0].startswith('*') and x.a[1].op == 'seq':
            pos += list(x.a[1].a[1:])
        else:
            kw[x.a[0]] = x.a[1]
    return pos, kw


def margs(t):
    return split_args(t.a[3:])


def cargs(t):
    return split_args(t.a[2:])


def is_ext(t, *names):
    """call of an external function with one of these (dotted or last) names"""
    return t.op == 'call' and t.a[0].op == 'ext' and (t.a[0].a[0] in names or t.a[0].a[0].split('.')[-1] in names)


def serialized(t):
    """x when t is the encoding of x"""
    t = canon(t)
    while t.op in ('arr', 'tobytes', 'spread') or t.op == 'seq' and len(t.a) == 2 and t.a[1].op == 'spread':
        t = t.a[1].a[0] if t.op == 'seq' else t.a[0]
    if t.op == 'mcall' and t.a[0] == 'serialize':
        return t.a[1]
    if t.op == 'attr' and t.a[1] == '_wire_format':
        return t.a[0]
    return None


def pieces(t):
    """the byte strings a byte-string term is the concatenation of"""
    t = canon(t)
    if t.op in ('arr', 'tobytes', 'spread'):
        return pieces(t.a[0])
    if t.op == 'seq':
        out = []
        for x in t.a[1:]:
            out += pieces(x.a[0]) if x.op == 'spread' else [x]
        return out
    return [t]


def hash_input(o, h, until=None):
    """what was fed to the hash object h on the path of o: byte-string terms, ('each', loop, term) for a loop; None unknown"""
    out = []
    a, k = cargs(h) if h.op == 'call' else ([], {})
    nm = h.a[0].a[0].split('.')[-1] if h.op == 'call' and h.a[0].op == 'ext' else ''
    if nm not in ('Hash',):
        rest = a[1:] if nm == 'new' else a
        for x in rest:
            out += pieces(x)

    def go(evs, dst, loop):
        for e in evs:
            if e.kind == 'call' and e.term is h and loop is None:
                del dst[:]                      # a new object of the same kind
                for x in (a[1:] if nm == 'new' else a) if nm != 'Hash' else []:
                    dst += pieces(x)
            elif e.kind == 'mut' and e.term.a[0] == 'update' and e.term.a[1] is h:
                if loop is None:
                    for x in e.term.a[2:]:
                        dst += pieces(x)
                else:
                    dst += list(e.term.a[2:])
            elif e.kind == 'loop':
                bodies = []
                for q in e.x.outs:
                    b = []
                    go(q[3], b, e.x)
                    if q[0] in ('next', 'continue'):
                        bodies.append(tuple(b))
                if any(bodies):
                    dst.append(('each', e.x, bodies))
            elif e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[0] in ('digest', 'finalize', 'hexdigest') \
                    and e.term.a[1] is h:
                return True
        return False
    go(o.events(), out, None)
    return out


def joined(t):
    """the byte strings t concatenates (bytes, array or list concatenation)"""
    t = canon(t)
    if t.op in ('cat', 'plus'):
        return [y for x in t.a for y in joined(x)]
    if t.op in ('arr', 'tobytes', 'spread'):
        return joined(t.a[0])
    if t.op == 'const' and t.a[0] == b'':
        return []
    if t.op == 'seq' and all(x.op == 'spread' for x in t.a[1:]):
        return [y for x in t.a[1:] for y in joined(x.a[0])]
    return [t]


def base(t):
    """the root of a chain of attributes and accessor calls"""
    while t.op in ('attr', 'mcall', 'idx', 'elem', 'slice', 'arr', 'tobytes'):
        t = t.a[1] if t.op == 'mcall' else t.a[0]
    return t


def news(t, name):
    """constructions of class `name` inside t"""
    return [s for s in subs(t) if s.op == 'new' and s.a[0].a[0].split('.')[-1] == name]


def const_of(t):
    return t.a[0] if t is not None and t.op == 'const' else None
