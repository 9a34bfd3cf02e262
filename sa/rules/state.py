"""C11 protocol objects do not change: attribute stores, in-place mutation, aliasing of lists, pure iteration."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *
from .keys import library, short
from .objects import ctor_only

ME = mk('param', 'self')
MUTATORS = {'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'appendleft', 'extendleft', 'popleft', 'rotate', 'fromlist', 'frombytes', 'byteswap', 'fromfile', '__setitem__', '__delitem__', '__iadd__'}
COPIES = {'copy', 'tobytes', 'tolist', 'hex', 'to_bytes', 'split', 'encode', 'decode', 'join', 'items', 'keys', 'values', 'digest'}
STORED_COPIES = ('list', 'tuple', 'sorted', 'dict', 'set', 'frozenset', 'bytes', 'bytearray', 'array.array', 'copy.copy', 'copy.deepcopy')


def protocol(ctx):
    """classes whose objects go on the wire"""
    def build():
        return {c for c in ctx.p.classes.values() if 'test' not in c.mod.name.lower().split('.')[-1] and not c.is_enum() and
                (c.find('serialize') is not None or c.name in ('FixedHeader',))}
    return ctx.lazy('protocol classes', build)


def kind_tests(a, b):
    """the isinstance tests one of which holds when the fact (a, b) does"""
    if a.op in ('truth',):
        return kind_tests(a.a[0], b)
    if a.op == 'not':
        return kind_tests(a.a[0], not b)
    if a.op == 'isa':
        return [a] if b else []
    if a.op == 'or' and b or a.op == 'and' and b:
        return [y for x in a.a if isinstance(x, T) for y in kind_tests(x, True)]
    return []


class Owner:
    """who else can see a value"""

    def __init__(self, ctx, fl):
        self.ctx, self.fl, self.i, self.p = ctx, fl, fl.i, ctx.p
        self.busy = set()
        self.cls = None

    def of(self, t, st):
        """'fresh', ('state', object, attribute) for a value that the object keeps, ('param', p), or None"""
        if t.op in ('const', 'seq', 'dict', 'arr', 'dictcomp', 'tobytes', 'to_bytes', 'be_bytes', 'copyof', 'fstr', 'cat', 'plus', 'new', 'slice', 'sum', 'each', 'repeat'):
            return 'fresh'
        if t.op in ('app', 'pre'):
            return self.of(t.a[0], st)
        if t.op == 'lv':
            x = self.i.lvinit.get(t)
            return self.of(x, st) if x is not None and x is not t else None
        if t.op == 'param':
            return ('param', t)
        if t.op == 'attr':
            return ('state', t.a[0], t.a[1])
        if t.op == 'call':
            f = t.a[0]
            if f.op == 'ext':
                return 'fresh'
            if f.op in ('fn', 'cls'):
                g = self.p.funcs.get(f.a[0])
                return self.result(g, None, t, st) if g is not None else None
            return None
        if t.op == 'mcall':
            if t.a[0] in COPIES:
                return 'fresh'
            cs = self.i.typeof(t.a[1], st).classes or self.stored_types(t.a[1], st)
            gs = {c.find(t.a[0]) for c in cs} | {k.find(t.a[0]) for c in cs for k in c.all_subs()}
            gs.discard(None)
            rs = {self.result(g, t.a[1], t, st) for g in gs}
            for r in rs:
                if isinstance(r, tuple):
                    return r
            return 'fresh' if rs == {'fresh'} else None
        return None

    def stored_types(self, x, st):
        """classes that the constructor checks for before it stores the attribute"""
        out = set()
        if x.op != 'attr':
            return out
        pt = dict(self.i.ptypes)
        cs = self.i.typeof(x.a[0], st).classes
        if x.a[0] is ME and self.cls is not None:
            cs = {self.cls}
        for c in cs:
            for o in self.i.ctor(c) if not c.is_abstract() else ():
                v = o.st.heap.get((ME, x.a[1]))
                for a, b in o.facts.items():
                    if o.kind == 'raise' or v is None:
                        continue
                    for x2 in kind_tests(a, b):
                        for s in subs(x2.a[1]) if x2.a[0] is v and isinstance(x2.a[1], T) else ():
                            if s.op == 'cls' and s.a[0] in self.p.classes:
                                out.add(self.p.classes[s.a[0]])
                if o.kind != 'raise' and v is not None and v.op == 'param' and not out:
                    for n in ast.walk(c.find('__init__').node):
                        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2 and \
                                isinstance(n.args[0], ast.Name) and n.args[0].id == v.a[0]:
                            for q in ast.walk(n.args[1]):
                                if isinstance(q, ast.Name):
                                    out |= {k for k in self.p.classes.values() if k.name == q.id and k in protocol(self.ctx)}
        self.i.ptypes = pt
        return out

    def result(self, g, recv, t, st):
        if g in self.busy or g.abstract or g.is_gen or len(self.busy) > 6:
            return None
        self.busy.add(g)
        pt = dict(self.i.ptypes)
        try:
            rs = set()
            for o in self.fl.run(g):
                if o.kind == 'return' and isinstance(o.val, T):
                    r = self.of(o.val, o.st)
                    if isinstance(r, tuple) and r[0] == 'state' and len(r) == 3:
                        r += (frozenset(of_protocol(self.ctx, self.i, r[1], o.st, g)),)
                    rs.add(r)
            for r in rs:
                if isinstance(r, tuple) and r[0] == 'state':
                    return ('state', self.i.subst(r[1], {ME: recv}) if recv is not None else r[1], r[2], r[3])
            return 'fresh' if rs == {'fresh'} else None
        finally:
            self.busy.discard(g)
            self.i.ptypes = pt


def c11(ctx, rep):
    with rep.guard('attributes are set by the constructor only', ''):
        stores(ctx, rep)
    lists(ctx, rep)
    iteration(ctx, rep)
    shared_defaults(ctx, rep)


def of_protocol(ctx, i, x, st, f):
    """protocol classes that the object x may belong to"""
    P = protocol(ctx)
    if x is ME or x.op == 'param' and f.cls is not None and x.a[0] == f.first and f.kind not in ('static', 'class'):
        return {f.cls} & P
    if x.op == 'cls':
        c = ctx.p.classes.get(x.a[0])
        return {c} & P
    return {c for c in i.typeof(x, st).classes if c in P}


def candidates(f):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and (x.func.attr in MUTATORS or x.func.attr == '__setattr__') or isinstance(x, (ast.AugAssign, ast.Delete)) \
                or isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, (ast.Store, ast.Del)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr', 'next'):
            return True
    return False


def stores(ctx, rep):
    fl = ctx.lazy('c11 flow', lambda: Flow(ctx, set()))
    own = Owner(ctx, fl)
    P = protocol(ctx)
    inits = {m for c in ctx.p.classes.values() for m in ctor_only(c)} | {c.methods['__init__'] for c in ctx.p.classes.values() if '__init__' in c.methods} \
        | {c.methods['__post_init__'] for c in ctx.p.classes.values() if '__post_init__' in c.methods}
    for f in library(ctx.p):
        if f.abstract or not candidates(f):
            continue
        con = short(f)
        with rep.guard('objects are not changed in place', con):
            outs = fl.run(f)
            own.cls = f.cls
            if not outs:
                rep.und('objects are not changed in place', con, 'too many paths')
            for o in outs:
                for e, ls in walk_events(o.events()):
                    if e.kind == 'setattr':
                        attribute(ctx, rep, fl, f, con, o, e, f in inits)
                    elif e.kind in ('mut', 'setitem'):
                        inplace(ctx, rep, own, f, con, o, e, f in inits)


def attribute(ctx, rep, fl, f, con, o, e, init):
    rule = 'attributes are set by the constructor only'
    x, n, v = e.term.a[0], e.term.a[1], e.term.a[2]
    cs = of_protocol(ctx, fl.i, x, o.st, f)
    if not cs or x.op in ('new', 'cls'):
        rep.ok(rule, con)
        return
    if init and (x is ME or x.op == 'param' and x.a[0] == f.first):
        rep.ok(rule, con)
        return
    if e.fn is not None and e.fn is not f and is_init(e.fn) and x.op != 'param':
        rep.ok(rule, con)
        return
    name = '%s.%s' % (sorted(c.name for c in cs)[0], n)
    if memo(o, x, n, v):
        rep.ok(rule, con)
        return
    if not read_by_value(ctx, sorted(cs, key=lambda c: c.name)[0], n if isinstance(n, str) else show(n)):
        rep.ok(rule, con)
        return
    rep.viol(rule, name, e.loc(), '%s changes the attribute %s of an existing object to %s' % (con, name, show(v)[:80]))


def is_init(f):
    return f.name in ('__init__', '__post_init__')


def memo(o, x, n, v):
    """a value computed from the object alone, filled in once: if self._x is None: self._x = g(self)"""
    if not any(a.op == 'isnone' and a.a[0].op == 'attr' and a.a[0].a[0] is x and a.a[0].a[1] == n and b for a, b in o.facts.items()):
        return False
    return not any(s.op == 'param' and s is not x for s in subs(v)) and not any(s.op in ('lv', 'elem') for s in subs(v))


def read_by_value(ctx, c, n):
    """is the attribute read by a method of the class (other than by diagnostics)?"""
    for k in c.mro() + list(c.all_subs()):
        for m in k.methods.values():
            if m.name in ('__repr__', '__str__', '__init__'):
                continue
            for a in ast.walk(m.node):
                if isinstance(a, ast.Attribute) and a.attr == n and isinstance(a.ctx, ast.Load):
                    return True
                if isinstance(a, ast.Attribute) and a.attr == '__dict__':
                    return True
    return False


def inplace(ctx, rep, own, f, con, o, e, init):
    rule = 'objects are not changed in place'
    r = e.term.a[1] if e.kind == 'mut' else e.term.a[0]
    if not isinstance(r, T):
        return
    who = own.of(r, o.st)
    P = protocol(ctx)
    if who == 'fresh':
        rep.ok(rule, con)
        return
    if who is None:
        rep.und(rule, con, 'who keeps %s?' % show(r)[:80])
        return
    what = show(e.term)[:100]
    if who[0] == 'param':
        if f.cls in P and f.kind in ('inst', 'class', None) and r is not ME and (init or f.kind == 'class') and isinstance(r, T):
            cs = own.i.typeof(r, o.st).classes
            rep.viol(rule, con, e.loc(), '%s changes its argument %s in place: %s' % (con, r.a[0], what))
        else:
            rep.ok(rule, con)
        return
    obj, attr = who[1], who[2]
    cs = of_protocol(ctx, own.i, obj, o.st, f) or (set(who[3]) if len(who) > 3 else set())
    if cs and obj.op != 'new':
        if init and obj is ME:
            rep.ok(rule, con)       # before the object exists for anybody else; the stored value is checked by the alias rule
            v = o.st.heap.get((ME, attr))
            return
        rep.viol(rule, con, e.loc(), '%s changes what %s.%s holds: %s' % (con, sorted(c.name for c in cs)[0], attr, what))
        return
    # the state of a helper object: was it given to it by somebody else?
    oc = {f.cls} if obj is ME and f.cls is not None else own.i.typeof(obj, o.st).classes
    bad = None
    pt = dict(own.i.ptypes)
    for c in oc:
        for q in own.i.ctor(c) if not c.is_abstract() and '__init__' in [m for k in c.mro() for m in k.methods] else ():
            v = q.st.heap.get((ME, attr))
            if v is None or q.kind == 'raise':
                continue
            w = own.of(v, q.st)
            if isinstance(w, tuple) and w[0] == 'param':
                bad = bad or given_state(ctx, own, c, v.a[0], attr)
            if isinstance(w, tuple) and w[0] == 'state':
                xs = of_protocol(ctx, own.i, w[1], q.st, c.find('__init__')) - {c}
                if xs and w[1] is not ME:
                    bad = '%s.%s is %s.%s' % (c.name, attr, sorted(k.name for k in xs)[0], w[2])
    own.i.ptypes = pt
    rep.check(bad is None, rule, con, e.loc(), '%s: %s, which %s changes in place' % (what, bad, con))


def given_state(ctx, own, c, p, attr):
    """does some place give the parameter p of c's constructor what a protocol object keeps?"""
    fl = own.fl
    for g in library(ctx.p):
        if g.abstract or c.name not in called_names(g):
            continue
        for o in fl.run(g):
            for e, ls in walk_events(o.events()):
                if e.kind == 'new' and e.term.a[0].a[0] == c.qual:
                    v = kwargs(e.term).get(p)
                    w = own.of(v, o.st) if isinstance(v, T) else None
                    if isinstance(w, tuple) and w[0] == 'state':
                        xs = of_protocol(ctx, fl.i, w[1], o.st, g)
                        if xs:
                            return '%s.%s is %s.%s (given in %s)' % (c.name, attr, sorted(k.name for k in xs)[0], w[2], short(g))
    return None


def may_be_list(i, v, o, f):
    for a, b in o.facts.items():
        if a.op == 'isa' and a.a[0] is v and b and 'list' in show(a.a[1]):
            return True
    for a, b in o.facts.items():
        if a.op == 'isa' and a.a[0] is v:
            return False        # another kind on this path, or not a list
    if f is None:
        return False
    ann = {x.arg: x.annotation for x in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs}.get(v.a[0])
    if ann is not None and any(isinstance(n, ast.Name) and n.id in ('list', 'List', 'Iterable', 'Sequence', 'MutableSequence') or isinstance(n, ast.Constant) and isinstance(n.value, str) and 'ist[' in n.value for n in ast.walk(ann)):
        return True
    ty = i.typeof(v, o.st)
    return bool(ty.prim & {'list'})


def given_lists(ctx):
    """(class, parameter) that the library itself gives a list"""
    def build():
        fl = ctx.lazy('c11 flow', lambda: Flow(ctx, set()))
        out = set()
        for c in protocol(ctx):
            for m in c.methods.values():
                if m.kind != 'class' or m.abstract:
                    continue
                for o in fl.run(m):
                    for x in subs(o.val) if isinstance(o.val, T) else ():
                        if x.op == 'new':
                            for k, v in kwargs(x).items():
                                v0 = fl.i.lvinit.get(v, v) if isinstance(v, T) and v.op == 'lv' else v
                                while isinstance(v0, T) and v0.op in ('app', 'pre'):
                                    v0 = v0.a[0]
                                if isinstance(v0, T) and v0.op == 'seq' and v0.a[0] == 'list':
                                    out.add((x.a[0].a[0], k))
        return out
    return ctx.lazy('given lists', build)


def lists(ctx, rep):
    rule = 'lists given to the constructor are copied'
    i = ctx.wire.i
    for c in sorted(protocol(ctx), key=lambda c: c.qual):
        if c.is_abstract():
            continue
        with rep.guard(rule, c.name):
            f = c.find('__init__')
            for o in i.ctor(c):
                if o.kind == 'raise':
                    continue
                for (x, n), v in o.st.heap.items():
                    if x is not ME or not isinstance(v, T):
                        continue
                    for p in aliased(v):
                        rep.check(not (may_be_list(i, p, o, f) or (c.qual, p.a[0]) in given_lists(ctx) and not lists_excluded(o, p)), rule, '%s.%s' % (c.name, n), f.loc() if f else c.name,
                                  '%s keeps the list %s that it was given: changing that list changes the object' % (c.name, p.a[0]))
                    if not aliased(v):
                        rep.ok(rule, '%s.%s' % (c.name, n))


def lists_excluded(o, p):
    return any(a.op == 'isa' and a.a[0] is p and (not b and 'list' in show(a.a[1]) or b and 'list' not in show(a.a[1])) for a, b in o.facts.items())


def aliased(v):
    """the parameters that the stored value is (not a copy of)"""
    if v.op == 'param' and v is not ME:
        return [v]
    if v.op in ('or', 'and'):
        return [p for x in v.a if isinstance(x, T) for p in aliased(x)]
    return []


def shared_defaults(ctx, rep):
    rule = 'no shared default list'
    for f in library(ctx.p):
        a = f.node.args
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if not isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp)) and not (isinstance(d, ast.Call) and isinstance(d.func, ast.Name) and d.func.id in ('list', 'dict', 'set', 'bytearray')):
                continue
            mutated = False
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name) and n.func.value.id == p.arg:
                    mutated = True
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == p.arg and any(isinstance(t, ast.Attribute) for t in n.targets):
                    mutated = True
                if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == p.arg:
                    mutated = True
            rep.check(not mutated, rule, '%s(%s)' % (short(f), p.arg), f.loc(), 'the default of %s is one list shared by all calls, and it is kept or changed' % p.arg)


def iteration(ctx, rep):
    rule = 'iteration does not change the object'
    P = protocol(ctx)
    fl = ctx.lazy('c11 flow', lambda: Flow(ctx, set()))
    for c in sorted(ctx.p.classes.values(), key=lambda c: c.qual):
        if 'test' in c.mod.name.lower().split('.')[-1]:
            continue
        it, nx = c.methods.get('__iter__'), c.methods.get('__next__')
        if nx is not None and c in P:
            rep.viol('iteration keeps its position outside the object', c.name, nx.loc(), '%s is its own iterator: its position is state of the object' % c.name)
        if it is None or it.abstract:
            continue
        con = c.name
        if it.is_gen:
            rep.ok(rule, con)
            continue
        with rep.guard(rule, con):
            own = Owner(ctx, fl)
            for o in fl.run(it):
                if o.kind != 'return' or not isinstance(o.val, T):
                    continue
                v = o.val
                if v is ME:
                    rep.check(nx is not None and c not in P or c.find('__next__') is not None and c not in P, rule, con, it.loc(), '%s returns itself as iterator' % con)
                    continue
                w = own.of(v, o.st)
                if w == 'fresh' or v.op in ('elem', 'each') or v.op == 'mcall' and v.a[0] == '__iter__':
                    rep.ok(rule, con)
                elif isinstance(w, tuple):
                    rep.viol(rule, con, it.loc(), '%s.__iter__ returns the stored %s: iterations share their position' % (con, show(v)[:60]))
                else:
                    rep.und(rule, con, show(v)[:80])


RULES = {'C11': c11}
