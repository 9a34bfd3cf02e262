"""C13: an object made by a creation function is of the kind, and carries the arguments, that the creation function was asked for."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *

WORDS = ('create', 'is', 'type', 'segment', 'new', 'an', 'a', 'id')


def kind(name):
    """create_chunk_segment, is_chunk_id_segment -> chunk"""
    return ''.join(w for w in name.lower().split('_') if w not in WORDS)


def holds(i, a, sub):
    t = canon(i.subst(a, sub))
    while t.op == 'not':
        t2 = holds_bool(t.a[0])
        return None if t2 is None else not t2
    return holds_bool(t)


def holds_bool(t):
    if t.op == 'const':
        return bool(t.a[0])
    if t.op == 'isnone':
        x = t.a[0]
        if x is NONE:
            return True
        if x.op in ('new', 'seq', 'const', 'lin', 'cls', 'fn', 'be_bytes', 'be_num', 'cat', 'arr'):
            return False
    if t.op == 'eq':
        a, b = (num(x) for x in t.a)
        if a is not None and b is not None:
            return a == b
        if any(x is NONE for x in t.a) and any(x.op in ('new', 'seq', 'const') and x is not NONE for x in t.a):
            return False
    if t.op == 'truth':
        x = t.a[0]
        if x.op == 'const':
            return bool(x.a[0])
    return None


def made(i, f, c):
    """[(outcome, new term)] of a creation function of class c; None if something else is returned"""
    out = []
    for o in i.run(f, selfcls=c):
        if o.kind == 'return':
            out.append((o, o.val))
    return out


def values(i, c, m, val, depth=0):
    """the values method m may return on the object val = new(c, ...)"""
    sub = {mk('param', n): v for n, v in kwargs(val).items()}
    got = set()
    for o in i.ctor(c):
        if any(h is not None and h != b for h, b in ((holds(i, a, sub), b) for a, b in o.facts.items())):
            continue
        for x in i.run(m, selfcls=c, st=o.st.copy()):
            if x.kind != 'return':
                continue
            if any(h is not None and h != b for h, b in ((holds(i, a, sub), b) for a, b in x.facts.items())):
                continue
            got.add(reduced(i, canon(i.subst(x.val, sub)), depth))
    return got


def reduced(i, t, depth=0):
    """calls of argument-less methods on objects built here are replaced by what they return"""
    for s in sorted((s for s in subs(t) if s.op == 'mcall' and s.a[1].op == 'new'), key=lambda s: len(show(s))):
        k = i.p.classes.get(s.a[1].a[0].a[0])
        m = k.find(s.a[0]) if k is not None else None
        if m is None or m.params or depth > 3 or k.find('__init__') is None:
            continue
        vs = values(i, k, m, s.a[1], depth + 1)
        if len(vs) == 1:
            return reduced(i, canon(i.subst(t, {s: vs.pop()})), depth + 1)
    return t


def answers(i, c, m, val):
    """the answers of the predicate m on the object val = new(c, ...): a set of True / False / None (unknown)"""
    got = set()
    for v in values(i, c, m, val):
        if v.op == 'const' and isinstance(v.a[0], bool):
            got.add(v.a[0])
        elif v is NONE:
            got.add(False)
        else:
            got.add(holds_bool(v))
    return got


def c13(ctx, rep):
    w, p = ctx.wire, ctx.p
    i = w.i
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if c.is_abstract() or c.find('__init__') is None:
            continue
        fac = [f for n, f in c.methods.items() if n.startswith('create_') and f.kind == 'class']
        preds = [f for k in c.mro() for n, f in k.methods.items() if n.startswith('is_') and not f.params and not f.abstract]
        if fac:
            with rep.guard('a creation function keeps its arguments', c.name):
                for f in fac:
                    arguments(w, p, rep, c, f)
        for f in [f for k in c.mro()[:1] for n, f in k.methods.items() if n.startswith('create_') and f.kind in ('class', 'static') and not f.abstract]:
            with rep.guard('a creation function makes an object', '%s.%s' % (c.name, f.name)):
                makes(i, rep, c, f)
        if fac and len(fac) > 1:
            with rep.guard('creation functions make different kinds', c.name):
                different(w, rep, c, fac)
        if preds and not c.find('serialize') is None:
            with rep.guard('kind predicates', c.name):
                predicates(w, p, rep, c, fac, preds)


def makes(i, rep, c, f):
    con = '%s.%s' % (c.name, f.name)
    for o in made(i, f, c):
        o = o[0]
        if canon(o.val) is NONE and not any(a.op == 'isnone' and b for a, b in o.facts.items()) and 'None' not in (ast.unparse(f.node.returns) if f.node.returns else '') \
                and 'Optional' not in (ast.unparse(f.node.returns) if f.node.returns else ''):
            rep.viol('a creation function makes an object', con, f.loc(), '%s() returns None' % f.name)
        else:
            rep.ok('a creation function makes an object', con)


def arguments(w, p, rep, c, f):
    i = w.i
    outs = i.run(f, selfcls=c)
    vals = [o for o in outs if o.kind == 'return']
    con = '%s.%s' % (c.name, f.name)
    if not vals:
        return
    init = c.find('__init__')
    for n in f.params:
        P = mk('param', n)
        lost = unk = None
        carry = False
        for o in vals:
            if o.val.op != 'new':
                unk = o
                continue
            if mentions(o.val, P):
                carry = True
                kw = kwargs(o.val)
                if n in init.params and o.val.a[0].a[0] == c.qual and n in kw and not mentions(kw[n], P):
                    other = [m for m, v in kw.items() if mentions(v, P)]
                    if other and (kw[n] is NONE or any(mentions(kw[n], mk('param', m)) for m in f.params if m != n)):
                        rep.viol('a creation function keeps its arguments', '%s(%s)' % (con, n), f.loc(),
                                 '%s passes %s as %s and %s as %s' % (con, n, '/'.join(other), show(kw[n])[:40], n))
                continue
            ok = gone(p, f, o.facts, P)
            if ok is None:
                unk = o
            elif not ok:
                lost = o
        if lost is not None:
            rep.viol('a creation function keeps its arguments', '%s(%s)' % (con, n), f.loc(),
                     '%s loses its argument %s (when %s): it makes %s' %
                     (con, n, ', '.join(('' if b else 'not ') + show(a)[:50] for a, b in lost.facts.items()) or 'always', show(lost.val)[:120]))
        elif unk is not None:
            rep.und('a creation function keeps its arguments', '%s(%s)' % (con, n), 'made: %s' % show(unk.val)[:80])
        else:
            rep.ok('a creation function keeps its arguments', '%s(%s)' % (con, n))
        # an argument that may be left out may be left out
        d = default_of(f, n)
        if d:
            out_ok = [o for o in vals if not any((a.op == 'isnone' and a.a[0] is P and not b) or (a.op == 'truth' and a.a[0] is P and b) or
                                                 (a.op == 'isa' and a.a[0] is P and b) for a, b in o.facts.items())]
            if out_ok:
                rep.ok('an optional argument may be left out', '%s(%s)' % (con, n))
            elif all(o.val.op == 'new' for o in vals):
                rep.viol('an optional argument may be left out', '%s(%s)' % (con, n), f.loc(),
                         '%s raises when its optional argument %s is left out' % (con, n))


def default_of(f, n):
    """is the default of parameter n None?"""
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if x.arg == n and d is not None:
            return getattr(d, 'value', 0) is None
    return False


def gone(p, f, facts, P):
    """may the argument be missing from the object under these facts? True: it has no value, False: it has one, None: unknown"""
    other = None
    for a, b in facts.items():
        if a.op == 'not':
            a, b = a.a[0], not b
        if not mentions(a, P):
            continue
        if a.op == 'isnone' and a.a[0] is P:
            if b:
                return True
            continue
        if a.op == 'truth' and a.a[0] is P and not b:
            return True
        if a.op in ('isa', 'truth') and a.a[0] is P:
            continue
        other = a
    return None if other is not None else False


def different(w, rep, c, fac):
    i = w.i
    seen = {}
    for f in fac:
        if [n for n in f.params if default_of(f, n) is False]:
            continue        # made from a value, not a constant kind
        vs = {canon(o.val) for o in i.run(f, selfcls=c) if o.kind == 'return'}
        if len(vs) != 1:
            continue
        v = vs.pop()
        if v.op != 'new' or not all(num(x) is not None or x.op in ('const', 'enum', 'param') or x is NONE for x in kwargs(v).values()):
            rep.und('creation functions make different kinds', '%s.%s' % (c.name, f.name), show(v)[:80])
            continue
        key = (v.a[0], tuple(sorted((n, skey(x)) for n, x in kwargs(v).items())))
        if key in seen and kind(seen[key].name) != kind(f.name):
            rep.viol('creation functions make different kinds', '%s.%s' % (c.name, f.name), f.loc(),
                     '%s.%s and %s.%s both make %s' % (c.name, f.name, c.name, seen[key].name, show(v)[:80]))
        else:
            rep.ok('creation functions make different kinds', '%s.%s' % (c.name, f.name))
        seen.setdefault(key, f)


def predicates(w, p, rep, c, fac, preds):
    i = w.i
    names = {kind(f.name) for f in preds}
    base = kind_of_class(c)
    done = set()
    for m in preds:
        if m.name in done:
            continue
        done.add(m.name)
        con = '%s.%s' % (c.name, m.name)
        # a predicate about the class itself: is_interest of Interest
        if kind(m.name) == base or any(kind(m.name) == kind_of_class(k) for k in sibling(w, c, m)):
            got = {canon(x.val) for o in i.ctor(c) for x in i.run(m, selfcls=c, st=o.st.copy()) if x.kind == 'return'}
            vals = {v.a[0] if v.op == 'const' else '?' for v in got}
            if vals <= {True, False} and len(vals) == 1:
                rep.check(vals == {kind(m.name) == base}, 'kind predicates', con, m.loc(), '%s() of %s answers %s' % (m.name, c.name, vals.pop()))
                continue
            if not fac:
                rep.und('kind predicates', con, str([show(v)[:60] for v in got][:3]))
        for f in fac:
            want = kind(f.name) == kind(m.name)
            for o, v in made(i, f, c):
                if v.op != 'new' or v.a[0].a[0] != c.qual:
                    continue
                got = answers(i, c, m, v)
                k2 = '%s of %s' % (con, f.name)
                if want and kind(f.name) not in names:
                    continue
                if got == {want}:
                    rep.ok('kind predicates', k2)
                elif (not want) in got and None not in got:
                    rep.viol('kind predicates', k2, m.loc(), '%s() of an object made by %s answers %s' % (m.name, f.name, not want))
                else:
                    rep.und('kind predicates', k2, str(got))


def kind_of_class(c):
    return c.name.lower()


def sibling(w, c, m):
    """other wire classes that answer the same predicate"""
    return [k for k in w.classes() if k is not c and any(m.name in q.methods for q in k.mro())]


RULES = {'C13': c13}
