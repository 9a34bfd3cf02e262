"""C10 - C12: equality, immutability and timestamps of the protocol objects."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *
from .codec import strip, params_of

OTHER = mk('param', '$other')
KEYS = ('Name', 'HashValue', 'KeyId', 'KeyNumber')      # what key stores and caches are asked for


def owner(c, name):
    for k in c.mro():
        if name in k.methods:
            return k
    return None


def hashable(c):
    """True when instances of c can be hashed (a class that defines __eq__ without __hash__ cannot)"""
    e, h = owner(c, '__eq__'), owner(c, '__hash__')
    for k in c.mro():
        if '__hash__' in k.attrs and k.attrs['__hash__'] is not None and '__hash__' not in k.methods:
            v = k.attrs['__hash__']
            if isinstance(v, ast.Constant) and v.value is None:
                return False
    if e is None:
        return True
    if h is None:
        return False
    m = c.mro()
    return m.index(h) <= m.index(e)


def attrs_of(o):
    return {k[1]: canon(v) for k, v in o.st.heap.items() if k[0] is SELF}


SELF = mk('param', 'self')


class Equality:
    """what __eq__ of a class compares"""

    def __init__(self, w, c):
        self.w, self.c, self.i = w, c, w.i
        self.f = c.find('__eq__')
        self.true = []          # (set of attributes compared equal, facts) for every way to return True
        self.odd = []           # True without any comparison
        self.bad = []           # not understood
        self.identity = set()   # attributes compared by identity
        q = self.f.params[0]
        for o in self.i.run(self.f, selfcls=c, args={q: OTHER}):
            if o.kind != 'return':
                continue
            facts = {self.resolve(canon(a)): b for a, b in o.facts.items()}
            self.add(self.resolve(canon(o.val)), facts)

    def resolve(self, t):
        """t with accessor calls on the other object evaluated as for the class itself"""
        m = {}
        for x in subs(t):
            if x.op == 'mcall' and x.a[1] is OTHER and len(x.a) == 3 and x.a[0] not in ('serialize',):
                f = self.c.find(x.a[0])
                if f is None or f.kind in ('class', 'static') or f.abstract:
                    continue
                vs = {canon(o.val) for o in self.i.run(f, selfcls=self.c) if o.kind == 'return'}
                if len(vs) == 1:
                    m[x] = canon(self.i.subst(vs.pop(), {SELF: OTHER}))
        return canon(self.i.subst(t, m)) if m else t

    def add(self, v, facts):
        if v is FALSE or v.op == 'ext' and v.a[0].endswith('NotImplemented') or v is NONE:
            return
        if v is TRUE:
            self.finish(facts)
            return
        if v.op == 'const':
            self.bad.append(v)
            return
        if v.op == 'and':
            f2 = dict(facts)
            for x in v.a:
                f2[x] = True
            self.finish(f2)
            return
        f2 = dict(facts)
        if v.op == 'not':
            f2[v.a[0]] = False
        else:
            f2[v] = True
        self.finish(f2)

    def finish(self, facts):
        xs, unknown = set(), []
        for a, b in facts.items():
            if not b:
                continue
            if a.op == 'and':
                facts = dict(facts)
                for y in a.a:
                    pr = self.pair(y)
                    if pr:
                        xs.add(pr)
                continue
            pr = self.pair(a)
            if pr:
                xs.add(pr)
            elif mentions(a, OTHER) and a.op not in ('isa', 'isnone', 'hasattr') and not any(class_of(y) is not None for y in flat(a)):
                unknown.append(a)
        if any(a.op in ('is', 'eq') and set(a.a) == {SELF, OTHER} for a, b in facts.items() if b):
            return
        if xs:
            self.true.append((frozenset(xs), facts))
        elif unknown:
            self.bad += unknown
        else:
            self.odd.append(facts)

    def pair(self, a):
        """the attribute that the atom a compares on both sides"""
        if a.op not in ('eq', 'is') or len(a.a) != 2:
            return None
        x, y = a.a
        if class_of(x) is not None or class_of(y) is not None:
            return None
        for s, t in ((x, y), (y, x)):
            u = self.other_view(s)
            if u is not None and u is t:
                if a.op == 'is':
                    self.identity.add(s)
                return s
        return None

    def other_view(self, s):
        if not mentions(s, SELF) or mentions(s, OTHER):
            return None
        return canon(self.i.subst(s, {SELF: OTHER}))

    def type_checked(self, facts):
        return [a.a[1] for a, b in facts.items() if b and a.op == 'isa' and a.a[0] is OTHER and a.a[1].op == 'cls'] + \
               ['type' for a, b in facts.items() if b and a.op in ('eq', 'is') and any(class_of(x) is OTHER for x in a.a)]


def class_of(x):
    """y when x is type(y) or y.__class__"""
    if is_ext(x, 'type') and len(cargs(x)[0]) == 1:
        return cargs(x)[0][0]
    if x.op == 'attr' and x.a[1] == '__class__':
        return x.a[0]
    return None


def value_in(i, s, A, E):
    """the compared expression s (over self) as a term over the constructor's parameters; E: the encoding"""
    m = {x: E for x in subs(s) if x.op == 'mcall' and x.a[0] == 'serialize' and x.a[1] is SELF}
    if m:
        s = canon(i.subst(s, m))
    return canon(i.subst(s, {mk('attr', SELF, n): t for n, t in A.items()}))


def covered_by(E, known):
    """free parameters of E that stay when the terms in known are given"""
    left = set()

    def go(t):
        if t in known:
            return
        if t.op == 'param':
            left.add(t)
            return
        if t.op in ('const', 'cls', 'fn', 'mod', 'ext'):
            return
        if t.op in ('call', 'mcall') and fresh(t):
            left.add(t)
        if t.op == 'attr' and t in known:
            return
        for x in flat(t):
            go(x)
    go(E)
    return left


def flat(t):
    for x in t.a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield y
                elif isinstance(y, tuple):
                    for z in y:
                        if isinstance(z, T):
                            yield z
                        elif isinstance(z, tuple):
                            for q in z:
                                if isinstance(q, T):
                                    yield q


def fresh(t):
    """a call whose result differs from call to call"""
    return any(isinstance(x, int) and not isinstance(x, bool) for x in t.a[1:3]) and t.op in ('call', 'mcall') and t.a[1 if t.op == 'call' else 2]


def is_bytes_like(ty):
    return None


def c10(ctx, rep):
    w, p, i = ctx.wire, ctx.p, ctx.wire.i
    mutated = written_outside(ctx)
    for c in list(w.classes()) + [w.tlv]:
        f = c.find('__eq__')
        con = c.name
        if f is None:
            rep.viol('equal bytes compare equal', con, (c.find('__init__') or c.find('serialize')).loc(), '%s has no __eq__, so equal encodings compare different' % con)
            continue
        with rep.guard('equality', con):
            eq = Equality(w, c)
            for x in eq.bad:
                rep.und('equality', con, 'compares %s' % show(x)[:100])
            for x in eq.odd:
                rep.viol('equal objects have equal bytes', con, f.loc(), '__eq__ returns True without comparing anything')
            if not eq.true:
                rep.und('equality', con, 'no way to be equal found')
                continue
            outs = []
            for o in i.ctor(c):
                A = attrs_of(o)
                for r in i.run(c.find('serialize'), selfcls=c, st=o.st.copy()):
                    if r.kind == 'return':
                        outs.append((o, A, canon(r.val)))
            for xs, facts in eq.true:
                for o, A, E in outs:
                    equal_means_same(w, rep, c, f, con, eq, xs, facts, A, E, o)
                    same_means_equal(w, rep, c, f, con, eq, xs, A, E, o)
                none_or_empty(w, rep, c, f, con, xs, outs)
                # state that changes after construction
                names = {s.a[1] for x in xs for s in subs(x) if s.op == 'attr' and s.a[0] is SELF}
                for k in c.mro():
                    for n, loc in mutated.get(k, {}).items():
                        if n in names or '__dict__' in names:
                            rep.viol('equality ignores changing state', con, loc, '%s compares the attribute %s, which changes after construction' % (con, n))
                rep.ok('equality ignores changing state', con)
        with rep.guard('hash agrees with equality', con):
            hashing(w, rep, c, con)
    keys(ctx, rep)


def equal_means_same(w, rep, c, f, con, eq, xs, facts, A, E, o):
    rule = 'equal objects have equal bytes'
    i = w.i
    if any(x.op == 'attr' and x.a[1] == '__dict__' for x in xs):
        known = set(A.values())
        whole = True
    else:
        known = {value_in(i, x, A, E) for x in xs}
        whole = False
    ks = set(known)
    for k in known:
        ks |= same_info(k)
    E2 = E
    left = covered_by(E2, ks)
    # facts of the constructor may fix a parameter
    left = {x for x in left if not (o.facts.get(mk('isnone', x)) is True)}
    left = {x for x in left if not any(y in ks for y in forms(x))}
    if not left:
        rep.ok(rule, con)
    else:
        rep.viol(rule, con, f.loc(), 'two %s objects that differ in %s compare equal' % (con, ', '.join(sorted(show(x)[:40] for x in left))))
    # the type number
    if whole or any(carries_code(w, c, k, E) for k in known):
        rep.ok('type number compared', con)
        return
    tc = eq.type_checked(facts)
    ks2 = {k for k in [c] + [x for t in tc if isinstance(t, T) for x in cls_and_subs(w.p, t)] if not k.is_abstract() and k.find('__eq__') is f}
    if not tc:
        rep.viol('type number compared', con, f.loc(), '__eq__ compares %s but neither the class nor the type number' % ', '.join(sorted(show(x) for x in xs)))
        return
    codes = {w.outer_code(k) for k in ks2}
    rep.check(len(codes) == 1 or 'type' in tc, 'type number compared', con, f.loc(),
              'objects of %s with the same %s compare equal although their type numbers differ' % (
                  ', '.join(sorted(k.name for k in ks2))[:120], ', '.join(sorted(show(x) for x in xs))))


def cls_and_subs(p, t):
    k = p.classes.get(t.a[0])
    return [k] + list(k.all_subs()) if k is not None else []


def same_info(k):
    """terms with the same information as k"""
    out = {k}
    x = k
    while True:
        y = None
        if x.op == 'mcall' and x.a[0] == 'serialize':
            y = x.a[1]
        elif x.op in ('arr', 'tobytes', 'spread') or (x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].split('.')[-1] in ('bytes', 'tuple', 'list', 'str')):
            y = x.a[0] if x.op != 'call' else cargs(x)[0][0]
        elif x.op == 'new' and x.a[0].a[0].endswith('.Tlv'):
            k2 = kwargs(x)
            if k2['tlv_type'].op == 'const':
                y = k2['value']
        elif x.op == 'seq' and len(x.a) == 2 and x.a[1].op == 'spread':
            y = x.a[1].a[0]
        elif x.op == 'be_bytes':
            y = x.a[0]
        if y is None:
            break
        out.add(y)
        x = y
    if x.op == 'seq':
        for z in x.a[1:]:
            if z.op in ('spread',):
                out |= same_info(z.a[0]) if z.a[0].op != 'be_bytes' else {z.a[0].a[0]}
            else:
                out.add(z)
    return out


def forms(x):
    return [mk('spread', x), mk('seq', 'list', mk('spread', x)), mk('arr', x), mk('tobytes', x)]


def carries_code(w, c, k, E):
    """does the compared term k include the type number?"""
    if k is E:
        return True
    code = w.outer_code(c)
    x = k
    while x.op in ('arr', 'tobytes') or x.op == 'mcall' and x.a[0] == 'serialize':
        x = x.a[0] if x.op != 'mcall' else x.a[1]
    y = E
    while y.op in ('arr', 'tobytes') or y.op == 'mcall' and y.a[0] == 'serialize':
        y = y.a[0] if y.op != 'mcall' else y.a[1]
    return x is y


def same_means_equal(w, rep, c, f, con, eq, xs, A, E, o):
    rule = 'equal bytes compare equal'
    i = w.i
    if any(x.op == 'attr' and x.a[1] == '__dict__' for x in xs):
        items = list(A.items())
    else:
        items = [(show(x), value_in(i, x, A, E)) for x in xs]
        for x in xs & eq.identity:
            t = value_in(i, x, A, E)
            rep.check(t.op in ('const', 'cls', 'enum', 'fn') or t.op == 'param' and o.facts.get(mk('isnone', t)) is True or None if
                      t.op not in ('new', 'seq', 'arr', 'tobytes', 'dict', 'param') else False, rule, '%s %s' % (con, show(x)), f.loc(),
                      '__eq__ of %s compares %s by identity, so separately built objects compare different' % (con, show(x)))
    info = same_info(E)
    for n, t in items:
        if t in info and not (t.op == 'param') or t.op == 'const' or t.op in ('cls', 'fn', 'ext', 'mod'):
            rep.ok(rule, '%s %s' % (con, n))
            continue
        if t.op in ('arr', 'tobytes') or t.op == 'new' or t.op == 'mcall' and t.a[0] == 'serialize':
            left = {x for x in subs(t) if x.op == 'param' and not mentions(E, x)}
            if left:
                rep.viol(rule, '%s %s' % (con, n), f.loc(), '__eq__ of %s compares %s, which depends on %s although that is not encoded' % (con, n, ', '.join(show(x) for x in left)))
            else:
                rep.ok(rule, '%s %s' % (con, n))
            continue
        ps = {x for x in subs(t) if x.op == 'param'}
        gone = {x for x in ps if not mentions(E, x)}
        if gone and o.facts.get(mk('isnone', t)) is True:
            rep.ok(rule, '%s %s' % (con, n))
            continue
        if gone:
            if all(o.facts.get(mk('isnone', x)) is True or empty_fact(o, x) for x in gone):
                rep.ok(rule, '%s %s' % (con, n))
            elif ps - gone or t.op == 'param':
                rep.viol(rule, '%s %s' % (con, n), f.loc(), '__eq__ of %s compares %s, which depends on %s although that is not encoded' % (con, n, ', '.join(show(x) for x in gone)))
            else:
                rep.und(rule, '%s %s' % (con, n), show(t)[:80])
            continue
        if any(fresh(x) and not mentions(E, x) for x in subs(t) if x.op in ('call', 'mcall')):
            rep.viol(rule, '%s %s' % (con, n), f.loc(), '__eq__ of %s compares %s, which is made anew for every object' % (con, n))
            continue
        if t.op == 'param':
            kind = value_kind(w, c, t, E, o)
            if kind == 'buffer':
                rep.viol(rule, '%s %s' % (con, n), f.loc(),
                         '__eq__ of %s compares the byte buffer %s as it was given, so a list and an array of the same bytes compare different' % (con, n))
            elif kind:
                rep.ok(rule, '%s %s' % (con, n))
            else:
                rep.und(rule, '%s %s' % (con, n), 'parameter %s of unknown kind' % show(t))
            continue
        if t.op == 'seq' or t.op in ('be_bytes', 'each', 'app', 'pre', 'dict'):
            rep.ok(rule, '%s %s' % (con, n))
            continue
        if lossy(t):
            rep.viol(rule, '%s %s' % (con, n), f.loc(), '__eq__ of %s compares %s, which is finer than what is encoded' % (con, show(t)[:60]))
            continue
        if not ps:
            rep.ok(rule, '%s %s' % (con, n))
            continue
        if t.op == 'attr' or t.op in ('idx', 'mul', 'lin', 'call', 'mcall'):
            rep.und(rule, '%s %s' % (con, n), show(t)[:80])
            continue
        rep.und(rule, '%s %s' % (con, n), show(t)[:80])


def lossy(t):
    return False


def empty_fact(o, x):
    for a, b in o.facts.items():
        if a.op == 'eq' and b and mk('len', x) in a.a and const(0) in a.a:
            return True
        if a.op == 'truth' and a.a[0] is x and not b:
            return True
        if a.op == 'lt0' and not b and a.a[0] in (mul(const(-1), mk('len', y)) for y in [x] + forms(x)):
            return True
    return False


def value_kind(w, c, P, E, o):
    """what kind of value the parameter P is: 'object' (wire object), 'number', 'buffer' (raw bytes), None"""
    i, p = w.i, w.p
    init = c.find('__init__')
    for a, b in o.facts.items():
        if a.op == 'isa' and b and a.a[0] is P:
            if a.a[1].op == 'cls':
                k = p.classes.get(a.a[1].a[0])
                return 'object' if k is not None else None
            n = a.a[1].a[0] if a.a[1].op == 'ext' else ''
            if n.split('.')[-1] in ('int', 'str', 'bool', 'bytes', 'array'):
                return 'number'
            if n.split('.')[-1] == 'list':
                return 'list'
    ty = p._ann(init.mod, init.ann.get(P.a[0]), init.cls) if init.ann.get(P.a[0]) is not None else None
    if ty is not None and ty.classes:
        return 'object'
    # how it is used in the encoding
    for s in subs(E):
        if s.op == 'be_bytes' and mentions(s.a[0], P):
            return 'number'
        if s.op == 'mcall' and s.a[0] == 'serialize' and s.a[1] is P:
            return 'object'
        if s.op == 'new' and s.a[0].a[0].endswith('.Tlv'):
            k = kwargs(s)
            if k['tlv_type'] is P:
                return 'number'
            if k['value'] is P:
                if ty is not None and ty.prim and ty.prim & {'bytes', 'array', 'list'} if ty is not None and hasattr(ty.prim, '__and__') else False:
                    return 'buffer'
                r = raw_use(w, c, P)
                return 'buffer' if r else None
    for s in subs(E):
        if s.op == 'seq' and P in s.a:
            return 'object'
        if s.op == 'spread' and s.a[0] is P and raw_use(w, c, P):
            return 'buffer'
    return None


def raw_use(w, c, P):
    """is P known to be raw bytes: the class hands it out or takes it in as the value of the TLV"""
    for o in w.reader(c).outs:
        if o.kind == 'return' and o.val.op == 'new':
            k = kwargs(canon(o.val))
            v = k.get(P.a[0])
            while v is not None and v.op in ('slice', 'arr', 'tobytes'):
                v = v.a[0]
            if v is not None and v.op == 'attr' and v.a[1] == '_value':
                return True
    return False


def none_or_empty(w, rep, c, f, con, xs, outs):
    """an absent list and an empty list have the same encoding; they must compare equal too"""
    i = w.i
    by = {}
    for o, A, E in outs:
        items = list(A.items()) if any(x.op == 'attr' and x.a[1] == '__dict__' for x in xs) else [(show(x), value_in(i, x, A, E)) for x in xs]
        for n, t in items:
            by.setdefault(n, []).append((o, t, E))
    for n, rows in by.items():
        nones = [r for r in rows if r[1] is NONE or r[1].op == 'param' and r[0].facts.get(mk('isnone', r[1])) is True]
        if not nones:
            continue
        for o, t, E in rows:
            P = None
            if t.op == 'param' and o.facts.get(mk('isnone', t)) is not True:
                P = t
            elif t.op == 'seq' and len(t.a) == 2 and t.a[1].op == 'spread' and t.a[1].a[0].op == 'param':
                P = t.a[1].a[0]
            if P is None:
                continue
            if empty_fact(o, P):
                Ns = [r for r in nones if r[0].facts.get(mk('isnone', P)) is True]
                if any(r[2] is E for r in Ns):
                    rep.viol('absent and empty compare equal', '%s %s' % (con, n), f.loc(),
                             '%s with an empty %s and without one encode to the same bytes but compare different' % (con, P.a[0]))
                continue
            if not any(s.op == 'spread' and s.a[0] is P for s in subs(E)):
                continue
            # spread among other items, not the whole value of a TLV of its own
            whole = any(s.op == 'seq' and len(s.a) == 2 and s.a[1].op == 'spread' and s.a[1].a[0] is P for s in subs(E))
            nonempty = any((a.op == 'eq' and not b and mk('len', P) in a.a and const(0) in a.a) or (a.op == 'truth' and a.a[0] is P and b) or
                           (a.op == 'lt0' and mentions(a, mk('len', P))) for a, b in o.facts.items())
            Ns = [r for r in nones if r[0].facts.get(mk('isnone', P)) is True]
            if not Ns:
                continue
            if nonempty:
                rep.ok('absent and empty compare equal', '%s %s' % (con, n))
            else:
                same = any(r[2] is E for r in Ns) or not whole
                rep.check(not same or None if whole else False, 'absent and empty compare equal', '%s %s' % (con, n), f.loc(),
                          '%s with an empty %s and without one encode to the same bytes but compare different' % (con, P.a[0]))


def hashing(w, rep, c, con):
    rule = 'hash agrees with equality'
    i = w.i
    if not hashable(c):
        return
    h = c.find('__hash__')
    if h is None or h.cls is None or owner(c, '__hash__') is None:
        if c.find('__eq__') is not None:
            rep.und(rule, con, 'no hash found')
        return
    eq = Equality(w, c)
    for r in i.run(h, selfcls=c):
        if r.kind != 'return':
            continue
        t = canon(r.val)
        bad = [s for s in subs(t) if s.op in ('call', 'mcall') and (fresh(s) or s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0].split('.')[-1] == 'id')]
        if bad:
            rep.viol(rule, con, h.loc(), 'the hash is %s, which is different for equal objects' % show(t)[:60])
            continue
        for o in i.ctor(c):
            A = attrs_of(o)
            E = [canon(q.val) for q in i.run(c.find('serialize'), selfcls=c, st=o.st.copy()) if q.kind == 'return']
            if not E:
                continue
            used = canon(i.subst(t, {mk('attr', SELF, n): x for n, x in A.items()}))
            for xs, facts in eq.true:
                if any(x.op == 'attr' and x.a[1] == '__dict__' for x in xs):
                    known = set(A.values())
                else:
                    known = {value_in(i, x, A, E[0]) for x in xs}
                ks = set(known)
                for k in known:
                    ks |= same_info(k)
                if not covered_by(E[0], ks):
                    for e in E:
                        ks |= same_info(e)
                left = covered_by(used, ks)
                left = {x for x in left if not any(y in ks for y in forms(x))}
                left = {x for x in left if not o.facts.get(mk('isnone', x))}
                rep.check(not left, rule, con, h.loc(), 'equal objects can have different hashes: the hash depends on %s' % ', '.join(sorted(show(x)[:40] for x in left)))


def keys(ctx, rep):
    p, i = ctx.p, ctx.wire.i
    rule = 'lookup keys are hashable'
    for n in KEYS:
        c = p.cls(n)
        rep.check(hashable(c), rule, n, (c.find('__eq__') or c.find('__init__')).loc(), '%s defines __eq__ without __hash__, so it cannot be used as a key' % n)
    # annotated dictionaries and sets
    for f in library(p):
        pass
    for m in p.mods.values():
        if 'test' in m.name.split('.')[-1].lower():
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and n.value.id in ('Dict', 'Set', 'dict', 'set', 'FrozenSet'):
                s = n.slice
                k = s.elts[0] if isinstance(s, ast.Tuple) and s.elts else s
                for x in ([k] if not isinstance(k, ast.Subscript) else list(getattr(k.slice, 'elts', [k.slice]))):
                    ty = p._ann(m, x, None)
                    for c in (ty.classes if ty is not None else ()):
                        rep.check(hashable(c), rule, '%s %s' % (m.name.split('.')[-1], c.name), '%s:%d' % (m.rel, n.lineno),
                                  '%s is used as a key but defines __eq__ without __hash__' % c.name)
    # stores into dictionaries
    fl = ctx.lazy('flow.keys', lambda: Flow(ctx, set()))
    for f in library(p):
        if not any(isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)) or f.is_gen or f.abstract:
            continue
        with rep.guard(rule, f.qual):
            for o in fl.run(f):
                for e, ls in walk_events(o.events()):
                    if e.kind == 'setitem' and isinstance(e.term, T) and len(e.term.a) >= 2:
                        k = e.term.a[1]
                        for c in fl.i.typeof(k, o.st).classes:
                            rep.check(hashable(c), rule, '%s %s' % (f.qual.split('.')[-1], c.name), e.loc(), '%s is used as a key but defines __eq__ without __hash__' % c.name)


def library(p):
    return [f for f in sorted(p.funcs.values(), key=lambda f: f.qual) if 'test' not in f.mod.name.lower().split('.')[-1]]


def written_outside(ctx):
    """class -> {attribute: location} written by a method other than the constructor (or what only the constructor calls)"""
    def build():
        p = ctx.p
        out = {}
        for c in p.classes.values():
            inits = ctor_only(c)
            for m in c.methods.values():
                if m.name == '__init__' or m in inits or m.kind in ('class', 'static'):
                    continue
                first = m.first
                for n in ast.walk(m.node):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else n.targets if isinstance(n, ast.Delete) else []
                    for t in ts:
                        for u in ast.walk(t):
                            if isinstance(u, ast.Attribute) and isinstance(u.value, ast.Name) and u.value.id == first and isinstance(u.ctx, (ast.Store, ast.Del)):
                                out.setdefault(c, {})[u.attr] = m.loc()
        return out
    return ctx.lazy('written_outside', build)


def ctor_only(c):
    """private methods that are called from the constructor only"""
    out = set()
    users = {}
    for m in c.methods.values():
        for n in ast.walk(m.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ('self', 'cls'):
                users.setdefault(n.func.attr, set()).add(m.name)
    ch = True
    names = {'__init__'}
    while ch:
        ch = False
        for m in c.methods.values():
            if m.name not in names and m.name.startswith('_') and users.get(m.name) and users[m.name] <= names:
                names.add(m.name)
                ch = True
    return {c.methods[n] for n in names if n in c.methods and n != '__init__'}


RULES = {'C10': c10}
