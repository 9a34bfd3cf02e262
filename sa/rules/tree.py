"""F01 - F03: reading a tree (validate before use, fetch by hash, traversal order)."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library
from .state import Owner
from . import keys

SELF = mk('param', 'self')
READ = {'get', 'validate_packet', 'write', 'decrypt_manifest', 'decrypt_node', 'from_content_object', 'get_name', 'get_or_create', 'from_ncdef'}
QUIET = {'print', 'debug', 'info', 'warning', 'error', 'format', 'repr', 'str', 'isEnabledFor', 'hexlify', 'len', 'isinstance', 'type', 'id', 'log', 'exception', 'getLogger'}


def short(f):
    return f.qual.split('.', 1)[1] if '.' in f.qual else f.qual


def pname(t):
    """name of the callee of a call term"""
    if t.op == 'mcall':
        return t.a[0]
    if t.op == 'call' and t.a[0].op in ('fn', 'ext'):
        return t.a[0].a[0].split('.')[-1]
    if t.op == 'new':
        return t.a[0].a[0].split('.')[-1]
    return ''


def args_of(t):
    """argument terms (receiver first) of a call, with their names"""
    if t.op == 'mcall':
        pos, kw = margs(t)
        return [('self', t.a[1])] + [(None, x) for x in pos] + sorted(kw.items())
    if t.op == 'call':
        pos, kw = cargs(t)
        return [(None, x) for x in pos] + sorted(kw.items())
    if t.op == 'new':
        return [(t.a[i], t.a[i + 1]) for i in range(2, len(t.a), 2)]
    return []


def arg(t, name, pos=None):
    """argument of a call by name (or position among the non-receiver arguments)"""
    xs = args_of(t)
    if t.op == 'mcall':
        xs = xs[1:]
    for n, x in xs:
        if n == name:
            return x
    if pos is not None:
        ps = [x for n, x in xs if n is None]
        if pos < len(ps):
            return ps[pos]
    return None


def readers(p):
    cs = [c for c in p.classes.values() if 'get' in c.methods and 'hash_restriction' in c.methods['get'].params]
    R = next((c for c in cs if all(x.isa(c) for x in cs)), None)
    if R is None:
        return set(cs)
    return {R} | set(R.all_subs())


def model(ctx):
    return ctx.lazy('tree.read', lambda: Flow(ctx, READ))


def is_get(fl, t, o, rs):
    """a fetch from a packet source"""
    if t.op != 'mcall' or t.a[0] != 'get':
        return False
    ty = fl.i.typeof(t.a[1], o.st)
    if ty.classes:
        return bool(ty.classes & rs)
    return not ty.known and (arg(t, 'hash_restriction') is not None)


def fetchers(ctx, fl):
    """functions outside the packet sources from which a packet is fetched"""
    def build():
        p = ctx.p
        rs = readers(p)
        direct = set()
        for f in library(p):
            if f.cls in rs or f.abstract:
                continue
            if calls_of(f, 'get'):
                try:
                    outs = fl.run(f)
                except (Budget, RecursionError):
                    outs = []
                if any(is_get(fl, e.term, o, rs) for o in outs for e, ls in walk_events(o.events()) if e.kind == 'call' and isinstance(e.term, T)):
                    direct.add(f)
        # callers inside the same class (they see what the fetchers return)
        todo, out = list(direct), set(direct)
        while todo:
            f = todo.pop()
            for g in library(p):
                if g not in out and g.cls is f.cls and f.cls is not None and not g.abstract and calls_of(g, f.name):
                    out.add(g)
                    todo.append(g)
        return sorted(out, key=lambda f: f.qual)
    return ctx.lazy('tree.fetchers', build)


# ------------------------------------------------------------------ F01
def f01(ctx, rep):
    p = ctx.p
    fl = model(ctx)
    rs = readers(p)
    rule = 'packet validated before use'
    n = 0
    for f in fetchers(ctx, fl):
        with rep.guard(rule, short(f)):
            for o in fl.run(f):
                for pt, good, e, why in uses(fl, o, rs):
                    n += 1
                    rep.check(good, rule, short(f), e.loc(), why)
    if not n:
        rep.und(rule, 'packet source', 'no code fetches packets')
    validators(ctx, rep, fl)
    output(ctx, rep, fl)
    keys.swallow(ctx, rep)
    keys.k04(ctx, rep)


def strip_valid(a, valid):
    """the argument with the validated packets taken out"""
    return [s for s in walk_skip(a, valid)]


def walk_skip(t, skip):
    if t in skip:
        return
    yield t
    for x in t.a:
        for y in (x if isinstance(x, tuple) else (x,)):
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T):
                    yield from walk_skip(z, skip)


def uses(fl, o, rs):
    """(packet, validated before?, event, text) for every use of a fetched packet on the path of o"""
    out = []

    def go(evs, fetched, valid):
        for n, e in enumerate(evs):
            t = e.term
            if e.kind == 'loop':
                for q in e.x.outs:
                    go(q[3], set(fetched), set(valid))
                continue
            if e.kind == 'except' and isinstance(t, T):
                for s in subs(t):
                    if s.op == 'mcall' and s.a[0] == 'validate_packet':
                        for nm, x in args_of(s)[1:]:
                            valid.discard(x)
                continue
            if not isinstance(t, T):
                continue
            if e.kind == 'call' and is_get(fl, t, o, rs):
                fetched.add(t)
                continue
            if e.kind == 'call' and t.op == 'mcall' and t.a[0] == 'validate_packet':
                for nm, x in args_of(t)[1:]:
                    valid.add(x)
                continue
            if e.kind not in ('call', 'new', 'mut', 'setattr', 'setitem', 'yield'):
                continue
            if e.kind in ('call', 'new') and (pname(t) in QUIET or is_error(t)):
                continue
            if e.kind == 'mut' and t.a[0] in ('append', 'extend'):
                continue                # collected for later
            if e.kind == 'call' and t.op == 'mcall' and t.a[0] in ('content_object_hash', '__repr__', '__str__', 'serialize', '__len__') and t.a[1] in fetched:
                continue                # its identity, not its contents
            for pk in fetched:
                if not mentions(t, pk):
                    continue
                hit = any(s is pk for x in t.a for y in (x if isinstance(x, tuple) else (x,)) if isinstance(y, T) for s in walk_skip(y, valid))
                out.append((pk, not hit, e, 'the packet fetched by %s is used by %s before it is validated' % (show(pk)[:50], show(t)[:60] if not hit else pname(t) or e.kind)))
    go(o.events(), set(), set())
    return out


def is_error(t):
    n = pname(t)
    return n.endswith('Error') or n.endswith('Exception') or n == 'StopIteration'


def validators(ctx, rep, fl):
    """what validates is a PacketValidator working with the key store of the traversal"""
    p = ctx.p
    rule = 'validated against the configured key store'
    V = p.cls('PacketValidator')
    for f in library(p):
        if f.cls is V or f.abstract or not calls_of(f, 'validate_packet'):
            continue
        with rep.guard(rule, short(f)):
            seen = set()
            for o in fl.run(f):
                for e, ls, recv, pos, kw in mcalls(o, 'validate_packet'):
                    if recv in seen:
                        continue
                    seen.add(recv)
                    v = recv
                    if v.op == 'attr' and v.a[0] is SELF and f.cls is not None:
                        vals = {q.st.heap[(SELF, v.a[1])] for q in fl.i.ctor(f.cls) if (SELF, v.a[1]) in q.st.heap}
                        if len(vals) != 1:
                            rep.und(rule, short(f), 'the validator is not set by the constructor')
                            continue
                        v = next(iter(vals))
                        if any(v2.op == 'attr' for v2 in vals):
                            rep.und(rule, short(f), 'validator not followed')
                            continue
                    if v.op != 'new' or p.classes.get(v.a[0].a[0]) is None or not p.classes[v.a[0].a[0]].isa(V):
                        rep.check(True if any(c.isa(V) for c in fl.i.typeof(v, o.st).classes) else None, rule, short(f), e.loc(), 'validator is %s' % show(v)[:60])
                        continue
                    ks = arg(v, 'keystore', 0)
                    init = f.cls.find('__init__') if f.cls is not None else None
                    has = init is not None and any('keystore' in x.lower() for x in init.params) or any('keystore' in x.lower() for x in f.params)
                    good = None if ks is NONE or not has else ks is not None and ks is not NONE
                    if good and ks.op == 'new':
                        good = False        # another store than the one configured
                    rep.check(good, rule, short(f), e.loc(), 'packets are validated without the key store that was configured')


def writers(ctx):
    """classes that are given an output to write application data to: class -> attribute"""
    def build():
        fl = model(ctx)
        out = {}
        for c in ctx.p.classes.values():
            init = c.methods.get('__init__')
            if init is None or 'data_writer' not in init.params:
                continue
            for o in fl.i.ctor(c):
                for (r, a), v in o.st.heap.items():
                    if r is SELF and v is mk('param', 'data_writer'):
                        out[c] = a
        return out
    return ctx.lazy('tree.writers', build)


def payload_of(t):
    """x when t is the whole payload value of packet x"""
    t = canon(t)
    while t.op in ('tobytes', 'arr', 'copyof', 'spread') or t.op == 'seq' and len(t.a) == 2 and t.a[1].op == 'spread':
        t = t.a[1].a[0] if t.op == 'seq' else t.a[0]
    if t.op == 'attr' and t.a[1] in ('_value',) or t.op == 'mcall' and t.a[0] == 'value':
        y = t.a[0] if t.op == 'attr' else t.a[1]
        if y.op == 'attr' and y.a[1] == '_payload' or y.op == 'mcall' and y.a[0] == 'payload':
            b = y.a[0] if y.op == 'attr' else y.a[1]
            if b.op == 'attr' and b.a[1] == '_body' or b.op == 'mcall' and b.a[0] == 'body':
                return b.a[0] if b.op == 'attr' else b.a[1]
    return None


def is_data_path(facts, pk):
    """is the payload known to be application data (True), is it possible or certain that it is something else (False)?"""
    seen, possible = False, set(range(256))
    last = {}
    for a, b in facts:
        if a.op == 'not':
            a, b = a.a[0], not b
        last[a] = b                     # the innermost pass counts
    for a, b in last.items():
        if not mentions(a, pk):
            continue
        if a.op == 'truth' and a.a[0].op == 'mcall' and a.a[0].a[0].startswith('is_'):
            n = a.a[0].a[0]
            if n == 'is_data' and b:
                return True
            if n in ('is_data', 'is_manifest', 'is_link', 'is_key'):
                seen = True
            continue
        if not any(s.op in ('mcall', 'attr') and 'payload_type' in (s.a[0], s.a[1]) or s.op == 'attr' and s.a[1] == '_payload_type' for s in subs(a)):
            continue
        ks = None
        if a.op == 'eq' and any(x.op == 'const' and isinstance(x.a[0], int) for x in a.a):
            ks = {next(x.a[0] for x in a.a if x.op == 'const')}
        elif a.op == 'lt0':
            c, d = lin_parts(a.a[0])
            if len(d) == 1:
                k, = d.values()
                ks = {n for n in range(256) if c + k * n < 0}
        elif a.op == 'truth' and a.a[0].op == 'attr' and a.a[0].a[1] == '_payload_type':
            ks = set(range(1, 256))
        elif a.op == 'truth':
            continue
        if ks is not None:
            seen = True
            possible &= ks if b else possible - ks
        elif a.op not in ('isnone', 'isa'):
            return None
    return possible == {0} if seen else None


def output(ctx, rep, fl):
    p = ctx.p
    rule = 'output is the payload of a data packet'
    ws = writers(ctx)
    if not ws:
        rep.und(rule, 'data_writer', 'no class takes an output')
    for c, a in ws.items():
        w = mk('attr', SELF, a)
        for f in c.methods.values():
            if f.name == '__init__' or f.abstract or f.kind != 'inst':
                continue
            if not any(isinstance(n, ast.Attribute) and n.attr == a for n in ast.walk(f.node)) and f not in fetchers(ctx, fl):
                continue
            with rep.guard(rule, short(f)):
                for o in fl.run(f, selfcls=c):
                    for e, facts in walk_facts(o.events(), list(o.facts.items())):
                        t = e.term
                        if e.kind not in ('call', 'mut') or not isinstance(t, T) or t.op not in ('mcall', 'mut'):
                            continue
                        recv = t.a[1]
                        if recv is not w:
                            if e.kind == 'call' and any(x is w for n, x in args_of(t)[1:]):
                                rep.und(rule, short(f), 'the output is handed to %s' % pname(t))
                            continue
                        if t.op == 'mcall' and t.a[0] in ('close', 'flush', '__enter__', '__exit__'):
                            continue
                        xs = [x for n, x in args_of(t)[1:]] if t.op == 'mcall' else list(t.a[2:])
                        if len(xs) != 1:
                            rep.und(rule, short(f), show(t)[:80])
                            continue
                        pk = payload_of(xs[0])
                        if pk is not None:
                            d = is_data_path(facts, pk)
                            rep.check(d if d is not None else None, rule, short(f), e.loc(), 'the payload of a packet that is not data can be written')
                        elif xs[0].op == 'param' or xs[0].op in ('attr', 'mcall') and base(xs[0]).op == 'param' and base(xs[0]) is not SELF and not mentions(xs[0], mk('param', 'packet')):
                            rep.ok('output is a value handed in by the visitor', short(f))
                        else:
                            rep.check(bad_output(xs[0]), rule, short(f), e.loc(), 'what is written is %s, not the payload value of a packet' % show(canon(xs[0]))[:80])


def bad_output(t):
    """False when t is certainly not the whole payload value"""
    t = canon(t)
    if t.op in ('slice', 'idx', 'const', 'cat', 'plus', 'fstr', 'lin', 'reversed') or t.op == 'mcall' and t.a[0] in ('serialize', 'to_bytes', 'encode', 'hex'):
        return False
    return None


# ------------------------------------------------------------------ F02
def hash_of(t, v):
    return t.op == 'mcall' and t.a[0] == 'content_object_hash' and t.a[1] is v


def part(t, h):
    """some of the bytes of h"""
    return t.op == 'slice' and mentions(t, h) and (t.a[1] is not NONE and num(t.a[1]) != 0 or t.a[2] is not NONE and num(t.a[2]) is not None and num(t.a[2]) < 32) or t.op == 'idx' and mentions(t, h) or \
        t.op == 'len' and mentions(t, h)


def hashed(t, v):
    return any(hash_of(s, v) for s in subs(t))


def name_of(t, v):
    """is t the name of packet v"""
    if t.op == 'mcall' and t.a[0] == 'name' or t.op == 'attr' and t.a[1] == '_name':
        b = t.a[1] if t.op == 'mcall' else t.a[0]
        if b.op == 'mcall' and b.a[0] == 'body' or b.op == 'attr' and b.a[1] == '_body':
            return (b.a[1] if b.op == 'mcall' else b.a[0]) is v
    return False


def eqs(facts):
    for a, b in facts.items():
        if a.op == 'eq':
            yield a.a[0], a.a[1], b


def f02(ctx, rep):
    p = ctx.p
    fl = ctx.lazy('tree.source', lambda: Flow(ctx, {'get', 'load', 'from_buffer', 'content_object_hash', 'deserialize', 'put', 'save', 'to_path'}, nomerge=True))
    rs = readers(p)
    rule = 'hash compared before the packet is returned'
    n = 0
    for c in sorted(rs, key=lambda c: c.qual):
        g = c.find('get')
        if g is None or g.abstract:
            continue
        con = c.qual.split('.')[-1] + '.get'
        with rep.guard(rule, con):
            for o in fl.run(g, selfcls=c):
                if o.kind != 'return':
                    continue
                n += 1
                source(ctx, rep, fl, c, con, g, o)
    if not n:
        rep.und(rule, 'PacketReader', 'no packet source')
    indexes(ctx, rep, fl, rs)
    passes_on(ctx, rep)


def source(ctx, rep, fl, c, con, g, o):
    rule = 'hash compared before the packet is returned'
    h, nm = mk('param', 'hash_restriction'), mk('param', 'name')
    v = o.val
    loc = g.loc()
    if v is NONE:
        rep.check(False, rule, con, loc, 'returns None instead of raising when there is no such packet')
        return
    if o.st.facts.get(fl.i.isnone(h)) is not True:
        good = None
        if any(b and (hash_of(x, v) and y is h or hash_of(y, v) and x is h) for x, y, b in eqs(o.facts)):
            good = True
        elif v.op == 'idx' and v.a[1] is h or v.op == 'mcall' and v.a[0] == 'get' and v.a[1].op in ('attr', 'app') and [x for k, x in args_of(v)[1:] if x is not NONE] == [h]:
            good = True             # the table it comes from is checked by 'indexes'
        elif is_source_call(fl, v, o, ctx):
            x = arg(v, 'hash_restriction', 1)
            good = True if x is h else None if x is not None and mentions(x, h) else False
        elif any(not b and (hash_of(x, v) and y is h or hash_of(y, v) and x is h) for x, y, b in eqs(o.facts)):
            good = False
        elif not any(h in walk_skip(a, {v}) for a in o.facts if a.op not in ('isnone', 'isa')):
            good = False
        elif any(part(x, h) and hashed(y, v) or part(y, h) and hashed(x, v) for x, y, b in eqs(o.facts) if b) and not any(
                mentions(a, h) and not (a.op == 'eq' and (part(a.a[0], h) or part(a.a[1], h))) for a in o.facts if a.op not in ('isnone', 'isa')):
            good = False
        rep.check(good, rule, con, loc, 'the packet %s is returned without comparing its hash with the requested one' % show(v)[:90])
    rule = 'name compared before the packet is returned'
    if is_source_call(fl, v, o, ctx):
        x, y = arg(v, 'name', 0), arg(v, 'hash_restriction', 1)
        rep.check(x is nm, rule, con, loc, 'the packet behind the link is requested under another name')
        if o.st.facts.get(fl.i.isnone(h)) is True:
            r2 = 'the target of a link is fetched by its hash'
            if y is None or y is NONE:
                rep.check(False, r2, con, loc, 'the target of the link is fetched without a hash')
            else:
                rep.check(True if o.st.facts.get(fl.i.isnone(y)) is False else None if y.op != 'attr' and y.op != 'mcall' else False, r2, con, loc,
                          'the link may have no hash: its target is then fetched by name only')
        return
    skip = {v} | {s for s in subs(v) if s.op in ('call', 'mcall') and pname(s) == 'load'}
    if o.st.facts.get(fl.i.isnone(h)) is True and len(skip) > 1:
        good = True if any(b and (hash_of(x, v) or hash_of(y, v)) for x, y, b in eqs(o.facts)) else None if any(hash_of(s, v) for a in o.facts for s in subs(a)) else False
        rep.check(good, 'the target of a link is fetched by its hash', con, loc, 'the target of the link is returned without comparing its hash')
    good = None
    unnamed = any(a.op == 'isnone' and b and name_of(a.a[0], v) for a, b in o.facts.items())
    same = any(b and (name_of(x, v) and y is nm or name_of(y, v) and x is nm) for x, y, b in eqs(o.facts))
    if unnamed or same:
        good = True
    elif any(not b and (name_of(x, v) and y is nm or name_of(y, v) and x is nm) for x, y, b in eqs(o.facts)):
        good = False
    elif not any(nm in walk_skip(a, skip) for a in o.facts if a.op not in ('isnone', 'isa')):
        good = False
    rep.check(good, rule, con, loc, 'the packet is returned without comparing its name with the requested one')


def is_source_call(fl, v, o, ctx):
    return v.op == 'mcall' and v.a[0] == 'get' and (v.a[1] is SELF or bool(fl.i.typeof(v.a[1], o.st).classes & readers(ctx.p)))


def indexes(ctx, rep, fl, rs):
    """tables of packets are keyed by the hash of the packet"""
    p = ctx.p
    rule = 'table of packets keyed by their own hash'
    tables = set()
    for c in rs:
        g = c.find('get')
        if g is None or g.abstract:
            continue
        for o in fl.run(g, selfcls=c):
            if o.kind == 'return' and o.val.op in ('idx', 'mcall'):
                t = o.val.a[0] if o.val.op == 'idx' else o.val.a[1]
                if t.op == 'attr' and t.a[0] is SELF and not is_source_call(fl, o.val, o, ctx):
                    tables.add((c, t.a[1]))
    names = {a for c, a in tables}
    for f in library(p):
        if f.cls is None or f.abstract or not any(isinstance(n, ast.Attribute) and n.attr in names for n in ast.walk(f.node)):
            continue
        if not any(f.cls.isa(c) or c.isa(f.cls) for c, a in tables):
            continue
        with rep.guard(rule, short(f)):
            for o in fl.run(f):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'setitem' and isinstance(t, T) and table_of(t.a[0], o, names):
                        good = hash_of(t.a[1], t.a[2]) or None
                        if not good and not mentions(t.a[1], t.a[2]):
                            good = False
                        rep.check(good, rule, short(f), e.loc(), 'stored under %s, which is not its own hash' % show(t.a[1])[:60])
                    if e.kind == 'setattr' and isinstance(t, T) and t.a[0] is SELF and t.a[1] in names:
                        v = t.a[2]
                        good = None
                        if v.op == 'dict' and len(v.a) == 0 or v.op == 'attr' and v.a[1] == t.a[1] or v.op == 'param':
                            good = True
                        rep.check(good, rule, short(f), e.loc(), 'table set to %s' % show(v)[:60])


def table_of(x, o, names):
    if x.op == 'attr' and x.a[1] in names:
        return True
    if x.op == 'lv':
        return x.a[1].split('.')[-1] in names
    return any(k[1] in names and v is x for k, v in o.st.heap.items() if isinstance(k, tuple))


def passes_on(ctx, rep):
    """who asks for a packet on behalf of a caller passes on what the caller asked for"""
    p = ctx.p
    fl = model(ctx)
    rs = readers(p)
    rule = 'requested name and hash are passed on'
    for f in fetchers(ctx, fl):
        if not {'hash_restriction', 'hash_value'} & set(f.params):
            continue
        with rep.guard(rule, short(f)):
            for o in fl.run(f):
                for e, ls in walk_events(o.events()):
                    if e.kind == 'call' and isinstance(e.term, T) and is_get(fl, e.term, o, rs) and not ls and e.fn is f:
                        for want, k, pos in (({'hash_restriction', 'hash_value'}, 'hash_restriction', 1), ({'root_name', 'name'}, 'name', 0)):
                            if not want & set(f.params):
                                continue
                            x = arg(e.term, k, pos)
                            hs = [mk('param', w) for w in want if w in f.params]
                            good = True if x in hs else False if x is None or not any(mentions(x, q) for q in hs) else None
                            rep.check(good, rule, short(f), e.loc(), '%s of the request is %s' % (k, show(x)[:60] if x is not None else 'missing'))


# ------------------------------------------------------------------ F03
def cycle(ctx):
    """functions of a traversal class that visit packets recursively: class -> set of functions"""
    def build():
        p = ctx.p
        fl = model(ctx)
        out = {}
        for f in fetchers(ctx, fl):
            if f.cls is None:
                continue
            ms = set(f.cls.methods.values())
            def succ(g):
                ns = called_names(g)
                return {m for m in ms if m.name in ns}
            def reachable(g):
                seen, todo = set(), list(succ(g))
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += succ(x)
                return seen
            for g in ms:
                r = reachable(g)
                if g in r and f in (r | {g}):
                    out.setdefault(f.cls, set()).add(g)
        return out
    return ctx.lazy('tree.cycle', build)


def f03(ctx, rep):
    iterator(ctx, rep)
    cyc = cycle(ctx)
    if not cyc:
        rep.und('every pointer fetched and visited once', 'Traversal', 'no recursive traversal')
    for c, fs in cyc.items():
        # keep the members of the cycle opaque, except the ones that only wrap
        fl = ctx.lazy('tree.cycle.%s' % c.qual, lambda: Flow(ctx, READ, stop={f.name for f in fs}))
        children(ctx, rep, fl, c, fs)
        visits(ctx, rep, ctx.lazy('tree.visits.%s' % c.qual, lambda: apart(Flow(ctx, READ, stop={f.name for f in fs}), c, ctx)), c, fs)
        scoping(ctx, rep, fl, c, fs)


def loops_of(outs):
    """(outcome, loop, enclosing loops) once per loop"""
    seen = set()
    for o in outs:
        for e, ls in walk_events(o.events()):
            if e.kind == 'loop' and id(e.x) not in seen:
                seen.add(id(e.x))
                yield o, e, e.x, ls


def whole(it):
    """the sequence that is iterated completely and in order; None when that is not certain, False when it certainly is not"""
    while True:
        if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] in ('enumerate', 'iter', 'list', 'tuple') and it.a[2:3]:
            pos, kw = cargs(it)
            it = pos[0]
            continue
        if it.op in ('copyof',):
            it = it.a[0]
            continue
        if it.op == 'seq' and len(it.a) == 2 and it.a[1].op == 'spread':
            it = it.a[1].a[0]
            continue
        break
    if it.op in ('slice', 'rev', 'sorted', 'set') or it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] in ('reversed', 'sorted', 'set', 'frozenset', 'islice', 'itertools.islice', 'filter'):
        return False
    if it.op == 'seq' and any(x.op == 'rev' for x in it.a[1:] if isinstance(x, T)):
        return False
    return it


def children(ctx, rep, fl, c, fs):
    rule = 'every pointer fetched and visited once'
    rs = readers(ctx.p)
    names = {f.name for f in fs}
    found = 0
    for f in sorted(fs, key=lambda f: f.name):
        with rep.guard(rule, short(f)):
            outs = fl.run(f, selfcls=c)
            for o, ev, lp, ls in loops_of(outs):
                gets = [e for q in lp.outs for e, l2 in walk_events(q[3]) if e.kind == 'call' and isinstance(e.term, T) and (is_get(fl, e.term, o, rs) or e.term.op == 'mcall' and e.term.a[0] in names and mentions(e.term, lp.el or NONE))]
                if not gets or lp.kind != 'for' and lp.iter is None:
                    continue
                found += 1
                con = short(f)
                w = whole(lp.iter) if lp.iter is not None else None
                if w is False:
                    rep.check(False, rule, con, ev.loc(), 'the pointers visited are %s' % show(lp.iter)[:80])
                    continue
                if w is None:
                    rep.und(rule, con, 'loop over %s' % (show(lp.iter) if lp.iter is not None else 'a condition')[:80])
                    continue
                if ls:
                    rep.und(rule, con, 'nested loops')
                    continue
                el = lp.el
                for q in lp.outs:
                    if q[0] == 'raise':
                        continue
                    if q[0] in ('break', 'return'):
                        rep.check(False, rule, con, ev.loc(), 'the remaining pointers are not visited (the loop ends with %s)' % q[0])
                        continue
                    evs = list(walk_events(q[3]))
                    gs = [e for e, l2 in evs if e.kind == 'call' and isinstance(e.term, T) and is_get(fl, e.term, o, rs)]
                    if any(l2 for e, l2 in evs if e in gs):
                        rep.und(rule, con, 'fetched in an inner loop')
                        continue
                    if len(gs) != 1:
                        rep.check(False, rule, con, ev.loc(), 'a pointer is fetched %s' % ('not at all' if not gs else '%d times' % len(gs)))
                        continue
                    g = gs[0].term
                    vs = [e for e, l2 in evs if e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[1] is SELF and e.term.a[0] in names and any(x is g for k, x in args_of(e.term))]
                    rep.check(len(vs) == 1, rule, con, ev.loc(), 'the packet of a pointer is visited %s' % ('not at all' if not vs else '%d times' % len(vs)))
                    pointer(ctx, rep, fl, c, f, con, ev, el, g, q)
    if not found:
        rep.und(rule, c.qual, 'no loop over pointers found')


def fieldof(x, el, name):
    """x is field `name` of the loop element"""
    e = el
    return x.op == 'attr' and x.a[0] is e and x.a[1] == name or x.op == 'mcall' and x.a[0] == name and x.a[1] is e or \
        x.op == 'attr' and x.a[1] == name and x.a[0].op in ('idx', 'elem') and mentions(x.a[0], e) or \
        x.op == 'attr' and x.a[1] == name and x.a[0].op == 'elem'


def pointer(ctx, rep, fl, c, f, con, ev, el, g, q):
    """one pointer is requested by its own hash, under the name of its own group and segment"""
    rule = 'pointer requested by its own hash, name constructor and segment'
    hv, nm = arg(g, 'hash_restriction', 1), arg(g, 'name', 0)
    rep.check(False if hv is None or hv is NONE else True if fieldof(hv, el, 'hash_value') else None if mentions(hv, el) else False, rule, con, ev.loc(),
              'the hash requested is %s' % (show(hv)[:60] if hv is not None else 'missing'))
    if nm is None or nm is NONE:
        rep.check(False, rule, con, ev.loc(), 'no name is requested')
        return
    if nm.op != 'mcall' or nm.a[0] != 'get_name':
        rep.check(None if mentions(nm, el) else False, rule, con, ev.loc(), 'the name requested is %s' % show(nm)[:60])
        return
    xs = [x for k, x in args_of(nm)[1:]]
    sg = xs[0] if xs else None
    good = None
    if sg is None or sg is NONE:
        good = False
    elif fieldof(sg, el, 'segment_id'):
        good = True
    elif sg.op == 'lin' or not mentions(sg, el):
        good = False
    rep.check(good, rule, con, ev.loc(), 'the segment number of the name is %s' % (show(sg)[:60] if sg is not None else 'missing'))
    im = nm.a[1]
    good = None
    if im.op == 'idx' or im.op == 'mcall' and im.a[0] == 'get':
        k = im.a[1] if im.op == 'idx' else ([x for kk, x in args_of(im)[1:]] or [None])[0]
        good = True if k is not None and fieldof(k, el, 'nc_id') else None if k is not None and mentions(k, el) else False
        tb = im.a[0] if im.op == 'idx' else im.a[1]
        if good and not (tb.op == 'attr' and tb.a[0].op == 'param' and tb.a[0] is not SELF or tb.op == 'param'):
            good = False if mentions(tb, SELF) and not any(s.op == 'param' and s is not SELF for s in subs(tb)) else None
    elif not mentions(im, el):
        good = False
    rep.check(good, rule, con, ev.loc(), 'the name constructor is %s' % show(im)[:70])


def partname(x):
    return str(x.a[1] if x.op == 'attr' else x.a[0] if x.op == 'mcall' else '').lstrip('_')


def apart(fl, c, ctx):
    w = writers(ctx).get(c)
    fl.i.sticky = lambda a: a.op in ('isnone', 'truth') and (a.a[0] is mk('attr', SELF, w) or partname(a.a[0]) == 'payload')
    return fl


def visits(ctx, rep, fl, c, fs):
    """what a visited packet leads to: its payload is written once, or its children are visited once"""
    rule = 'a visited packet is written or descended into once'
    names = {f.name for f in fs}
    a = writers(ctx).get(c)
    w = mk('attr', SELF, a) if a else None
    n = 0
    for f in sorted(fs, key=lambda f: f.name):
        if 'packet' not in f.params:
            continue
        pk = mk('param', 'packet')
        with rep.guard(rule, short(f)):
            for o in fl.run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                ws, ds, unknown = 0, [], False
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if not isinstance(t, T):
                        continue
                    if e.kind in ('call', 'mut') and t.op in ('mcall', 'mut') and w is not None and t.a[1] is w:
                        ws += 1
                        unknown |= bool(ls)
                    if e.kind == 'call' and t.op == 'mcall' and t.a[1] is SELF and t.a[0] in names:
                        ds.append(e)
                        unknown |= bool(ls)
                if unknown:
                    rep.und(rule, short(f), 'in a loop')
                    continue
                n += 1
                k = ws + len(ds)
                nowriter = w is not None and o.st.facts.get(fl.i.isnone(w)) is True
                nowriter = nowriter or any(partname(a.a[0]) == 'payload' and mentions(a, pk) and (a.op == 'isnone') is v for a, v in o.facts.items() if a.op in ('isnone', 'truth'))
                rep.check(k == 1 or k == 0 and nowriter and is_data_path(o.facts.items(), pk) is not False, rule, short(f), f.loc(),
                          'a packet is %s' % ('neither written nor descended into' if k == 0 else 'written or descended into %d times' % k))
                for e in ds:
                    m = [x for kk, x in args_of(e.term)[1:] if kk != 'parent_packet' and kk != 'nc_cache' and mentions(x, pk) and x is not pk]
                    g = next((q for q in fs if q.name == e.term.a[0]), None)
                    if g is not None and any('manifest' in x or 'node' in x for x in g.params):
                        rep.check(True if m else None, rule, short(f), e.loc(), 'the children visited are not those of the packet')
    if not n:
        rep.und(rule, c.qual, 'no visiting function with a packet parameter')
    # where the traversal starts: a packet that is fetched is visited
    rs = readers(ctx.p)
    for f in sorted(c.methods.values(), key=lambda f: f.name):
        if f in fs or f.abstract or f not in fetchers(ctx, model(ctx)):
            continue
        with rep.guard(rule, short(f)):
            for o in fl.run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                evs = [(e, ls) for e, ls in walk_events(o.events()) if isinstance(e.term, T)]
                got = {e.term for e, ls in evs if e.kind == 'call' and is_get(fl, e.term, o, rs) and not ls}
                for pk in got:
                    vs = [(e, ls) for e, ls in evs if e.kind == 'call' and e.term.op == 'mcall' and e.term.a[1] is SELF and e.term.a[0] in names and mentions(e.term, pk)]
                    other = mentions(o.val, pk) or any(e.kind in ('mut', 'setattr', 'setitem', 'yield') and mentions(e.term, pk) or
                                                       e.kind in ('call', 'mut') and e.term.op == 'mcall' and w is not None and e.term.a[1] is w for e, ls in evs)
                    if any(ls for e, ls in vs) or not vs and other:
                        rep.und(rule, short(f), 'the fetched packet is used in another way')
                    else:
                        rep.check(len(vs) == 1, rule, short(f), f.loc(), 'the packet fetched is visited %d times%s' % (
                            len(vs), ''.join(' (when %s)' % ', '.join(('' if b else 'not ') + show(a)[:40] for a, b in o.facts.items()) if o.facts else '')))


def scoping(ctx, rep, fl, c, fs):
    """name constructors of a manifest are added to a copy, and the copy is what its branch is visited with"""
    p = ctx.p
    rule = 'name constructors apply to their own branch only'
    caches = {k for k in [c] + list(c.nested.values()) + list(p.classes.values()) if isinstance(k, Cls) and k.methods and any(calls_of(m, 'from_ncdef') for m in k.methods.values()) and k is not c}
    for k in sorted(caches, key=lambda k: k.qual):
        con = k.qual.split('.')[-1]
        upd, tables = set(), set()
        with rep.guard(rule, con):
            for m in k.methods.values():
                if m.name == '__init__' or not calls_of(m, 'from_ncdef'):
                    continue
                for o in fl.run(m, selfcls=k):
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind != 'setitem' or not isinstance(t, T) or not mentions(t.a[0], SELF) and t.a[0].op != 'lv':
                            continue
                        upd.add(m.name)
                        tables |= {t.a[0].a[1].split('.')[-1]} if t.a[0].op in ('attr', 'lv') else set()
                        stored(rep, fl, 'definitions are stored under their own number', con, e, t, ls)
            for o in fl.i.ctor(k):
                if o.kind == 'raise':
                    continue
                for (r, a), v in o.st.heap.items():
                    if r is SELF and v.op in ('param', 'attr') and a in tables:
                        rep.check(False, rule, con, '%s' % k.methods['__init__'].loc(), 'the new scope shares the table of the enclosing scope (%s)' % show(v))
                    elif r is SELF:
                        rep.ok(rule, con)
        # whose tables are updated
        for f in library(p):
            if f.cls is k or f.abstract or not any(calls_of(f, u) for u in upd):
                continue
            if f.cls is not c:
                continue
            with rep.guard(rule, short(f)):
                f2 = ctx.lazy('tree.scope', lambda: Flow(ctx, upd | {'nc_defs'}, nomerge=True))
                for o in f2.run(f):
                    for u in upd:
                        for e, ls, recv, pos, kw in mcalls(o, u):
                            if k not in f2.i.typeof(recv, o.st).classes:
                                continue
                            rep.check(True if recv.op == 'new' else False if recv.op in ('param', 'attr') else None, rule, short(f), e.loc(), 'the definitions are added to the table of the enclosing scope')
                            if recv.op == 'new':
                                cp = arg(recv, 'copy', 0)
                                src = [x for x in f.params if x != 'self' and k in f2.i.typeof(mk('param', x), o.st).classes]
                                if src:
                                    rep.check(True if cp is not None and any(mentions(cp, mk('param', x)) for x in src) else False if cp is None or cp is NONE else None, rule, short(f), e.loc(),
                                              'the definitions of the enclosing scope are not visible in the branch')
                                if o.kind == 'return' and isinstance(o.val, T) and f.ret_is(k) if hasattr(f, 'ret_is') else o.kind == 'return' and o.val is not NONE:
                                    rep.check(True if o.val is recv else False if o.val.op == 'param' else None, rule, short(f), e.loc(), 'the branch is not visited with the new definitions')
                if 'nc_defs' in called_names(f):
                    for o in f2.run(f):
                        if o.kind != 'return':
                            continue
                        if any(True for u in upd for _ in mcalls(o, u)):
                            continue
                        rep.check(True if no_defs(o.facts) else False if not any(a.op not in ('lt0', 'isnone', 'isa', 'truth', 'eq') for a in o.facts) else None, rule, short(f), f.loc(), 'the definitions of a manifest are ignored')
    with rep.guard(rule, c.qual):
        branch(ctx, rep, fl, c, fs, rule, caches)


def no_defs(facts):
    """do the facts say that the manifest has no definitions"""
    for a, b in facts.items():
        x = show(a)
        if a.op == 'truth' and not b and ('node_data' in x or 'nc_defs' in x) or a.op == 'isnone' and b and ('node_data' in x or 'nc_defs' in x):
            return True
        if a.op == 'eq' and b and any(y is const(0) for y in a.a) and any(y.op == 'len' for y in a.a):
            return True
        if a.op == 'lt0':
            k, parts = lin_parts(a.a[0])
            if len(parts) == 1:
                (t, m), = parts.items()
                if t.op == 'len' and (m == -1 and not b and k <= 0 or m == 1 and b and -k - 1 <= 0):
                    return True
    return False


def stored(rep, fl, rule, con, e, t, ls):
    v, key = t.a[2], t.a[1]
    if v.op == 'idx' and v.a[0] is t.a[0] or v.op == 'mcall' and v.a[1] is t.a[0] and v.a[0] in ('get', 'setdefault', 'pop'):
        rep.check(False, rule, con, e.loc(), 'a definition of the manifest is ignored when the enclosing scope has one of the same number')
        return
    if v.op not in ('call', 'mcall') or pname(v) != 'from_ncdef':
        rep.und(rule, con, show(v)[:60])
        return
    xs = [x for k, x in args_of(v) if x is not SELF]
    d = xs[-1] if xs else None
    good = None
    if d is not None and mentions(key, d) and any(s.op in ('mcall', 'attr') and s.a[0 if s.op == 'mcall' else 1] in ('nc_id', '_nc_id') for s in subs(key)):
        good = not (key.op == 'lin')
    elif d is not None and not mentions(key, d):
        good = False
    rep.check(good, rule, con, e.loc(), 'a definition is stored under %s' % show(key)[:60])
    if ls and ls[-1].iter is not None:
        w = whole(ls[-1].iter)
        rep.check(w is not False, rule, con, e.loc(), 'not every definition is stored')
        for q in ls[-1].outs:
            if q[0] in ('break', 'return'):
                rep.check(False, rule, con, e.loc(), 'the remaining definitions are not stored')
            elif q[0] in ('next', 'continue') and not any(x.kind == 'setitem' for x, l in walk_events(q[3])):
                rep.check(False if any(mentions(a, t.a[0]) or mentions(a, ls[-1].el) and a.op != 'isa' for a, b in q[2]) else None, rule, con, e.loc(),
                          'a definition is not stored (when %s)' % ', '.join(('' if b else 'not ') + show(a)[:60] for a, b in q[2]))


def branch(ctx, rep, fl, c, fs, rule, caches):
    """a branch is visited with its own table: the parameter is handed on, never kept in the traversal itself"""
    names = {f.name for f in fs}
    for f in sorted(fs, key=lambda f: f.name):
        ps = [x for x in f.params if x != 'self']
        if not any('cache' in x for x in ps):
            continue
        for o in fl.run(f, selfcls=c):
            for e, ls in walk_events(o.events()):
                t = e.term
                if e.kind == 'setattr' and isinstance(t, T) and t.a[0] is SELF and fl.i.typeof(t.a[2], o.st).classes & caches:
                    rep.check(False, rule, short(f), e.loc(), 'the table of one branch is kept in the traversal')
                if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[1] is SELF and t.a[0] in names:
                    g = next(q for q in fs if q.name == t.a[0])
                    k = next((x for x in g.params if 'cache' in x), None)
                    if k is None:
                        continue
                    x = arg(t, k, [y for y in g.params if y != 'self'].index(k))
                    if x is None or x is NONE:
                        rep.check(False, rule, short(f), e.loc(), 'the branch is visited without the table of its parent')
                    elif x.op == 'new' and (arg(x, 'copy', 0) in (None, NONE)):
                        own = next((mk('param', y) for y in f.params if 'cache' in y), None)
                        rep.check(own is not None and o.st.facts.get(fl.i.isnone(own)) is True, rule, short(f), e.loc(), 'the branch is visited with an empty table')
                    else:
                        rep.ok(rule, short(f))


def iterator(ctx, rep):
    """the iterator over the pointers of a node is a walk over (group, position)"""
    p = ctx.p
    rule = 'iterator yields every pointer once, in order'
    its = [c for c in p.classes.values() if '__next__' in c.methods and any(isinstance(x, ast.Attribute) and x.attr in ('pointers', '_pointers') for x in ast.walk(c.node))]
    if not its:
        rep.und(rule, 'NodeIterator', 'no iterator class over pointers')
    for c in its:
        con = c.qual.split('.')[-1]
        fl = ctx.lazy('tree.iter.%s' % c.qual, lambda: Flow(ctx, set(), also=lambda f: f.cls is c or f.name in ('value', 'pointers', 'group_data', 'nc_id', 'id', 'start_segment_id')))
        with rep.guard(rule, con):
            walk(ctx, rep, fl, c, con, rule)
    made(ctx, rep, its)


def made(ctx, rep, its):
    """the iterator is made over all the groups of the node"""
    p = ctx.p
    rule = 'iterator covers all hash groups'
    fl = ctx.lazy('tree.plain', lambda: Flow(ctx, set()))
    for c in its:
        for f in library(p):
            if f.cls is None or not called_names(f) & {c.name}:
                continue
            with rep.guard(rule, short(f)):
                for o in fl.run(f):
                    for e, ls in walk_events(o.events()):
                        if e.kind == 'new' and isinstance(e.term, T) and e.term.a[0].a[0] == c.qual:
                            xs = [x for n, x in args_of(e.term)]
                            for x in xs:
                                w = whole(x)
                                rep.check(False if w is False else True if w is not None and w.op in ('attr', 'mcall', 'param', 'app') else None, rule, short(f), e.loc(), 'the iterator is made over %s' % show(x)[:60])


def linear(t):
    """an untyped sum as a linear form"""
    if t.op == 'plus':
        r = const(0)
        for x in t.a:
            r = add(r, linear(x))
        return r
    return t


def posvar(t):
    """the attribute of the iterator that a position term stands for"""
    if t.op == 'attr' and t.a[0] is SELF:
        return t.a[1]
    if t.op == 'lv' and t.a[1].startswith('self.'):
        return t.a[1][5:]
    return None


def where(v, groups):
    """(group position, pointer position, group term) of the pointer v"""
    for s in subs(v):
        if s.op == 'idx' and s.a[0].op in ('attr', 'mcall', 'idx') and s is v:
            g = next((x for x in subs(s.a[0]) if x.op == 'idx' and x.a[0] is groups), None)
            if g is not None:
                return g.a[1], s.a[1], g
    return None


def limit(facts, pos, of):
    """True: pos >= len(of); False: pos < len(of); None: unknown.  of: predicate on the term whose length is taken"""
    for a, b in facts:
        if a.op != 'lt0' and a.op != 'eq':
            continue
        d = a.a[0] if a.op == 'lt0' else add(a.a[0], mul(const(-1), a.a[1]))
        k, parts = lin_parts(d)
        parts = dict(parts)
        ln = [x for x in parts if x.op == 'len' and of(x.a[0])]
        if len(ln) != 1:
            continue
        m = parts.pop(ln[0])
        rest = mklin(k, parts)
        if a.op == 'eq':
            c = add(rest, mul(const(-1), pos)) if m == -1 else add(rest, pos)
            if c is const(0) and b:
                return True
            continue
        if m == -1:                             # pos + c - len < 0
            c = add(rest, mul(const(-1), pos))
            if c.op == 'const' and (c.a[0] >= 0 if b else c.a[0] <= 0):
                return not b
        if m == 1:                              # len - pos + c < 0, that is len < pos - c
            c = add(rest, pos)
            if c.op == 'const' and (c.a[0] >= -1 if b else c.a[0] <= -1):
                return b
    return None


def walk(ctx, rep, fl, c, con, rule):
    # the attribute that holds the groups
    init = None
    for o in fl.i.ctor(c):
        if o.kind != 'raise':
            init = {a: v for (r, a), v in o.st.heap.items() if r is SELF}
    nx = c.methods['__next__']
    outs = fl.run(nx, selfcls=c)
    rets = [o for o in outs if o.kind == 'return']
    if init is None or not rets:
        rep.und(rule, con, 'no constructor or no value')
        return
    params = [a for a, v in init.items() if v.op == 'param' or v.op == 'copyof']
    groups = None
    for o in rets:
        for s in subs(o.val):
            if s.op == 'idx' and s.a[0].op == 'attr' and s.a[0].a[0] is SELF and s.a[0].a[1] in params:
                groups = s.a[0]
    if groups is None:
        rep.und(rule, con, 'not a walk over a list of groups')
        return
    W = whole(init[groups.a[1]])
    rep.check(False if W is False else True, rule, con, c.methods['__init__'].loc(), 'the groups are %s' % show(init[groups.a[1]])[:60])
    isgroups = lambda x: x is groups
    gvar = pvar = None
    for o in rets:
        hv = arg(o.val, 'hash_value', 1) if o.val.op == 'new' else None
        if hv is None:
            rep.und(rule, con, 'value is %s' % show(o.val)[:60])
            continue
        wh = where(hv, groups)
        if wh is None:
            rep.und(rule, con, 'pointer is %s' % show(hv)[:60])
            continue
        J, K, G = wh
        gv, pv = posvar(J), posvar(K)
        free = not any(mentions(a, G) and a.op not in ('lt0', 'isnone', 'isa') for a in o.facts)
        if limit(o.facts.items(), K, lambda x: any(s is G for s in subs(x))) is not False and free:
            rep.check(False, rule, con, nx.loc(), 'the pointer at %s of the group at %s is read without knowing that the group has it (it may have none)' % (show(K)[:40], show(J)[:40]))
        if gv is None or pv is None or gv == pv:
            rep.check(None if gv is None or pv is None or J.op != 'lin' else False, rule, con, nx.loc(), 'positions are %s, %s' % (show(J), show(K)))
            continue
        gvar, pvar = gv, pv
        J2 = o.st.heap.get((SELF, gv), mk('attr', SELF, gv))
        K2 = o.st.heap.get((SELF, pv), mk('attr', SELF, pv))
        ispts = lambda x: any(s is G for s in subs(x))
        nxt = None
        if J2 is J and K2 is add(K, const(1)):
            nxt = True
        elif J2 is add(J, const(1)) and K2 is const(0):
            full = limit(o.facts.items(), add(K, const(1)), ispts)
            vague = any(a.op not in ('lt0', 'isnone', 'isa') and mentions(a, G) and not any(s.op == 'len' for s in subs(a)) for a in o.facts)
            nxt = True if full else False if full is False or not vague else None
        elif all(x.op in ('const', 'lin', 'lv', 'attr') for x in (J2, K2)):
            nxt = False
        rep.check(nxt, rule, con, nx.loc(), 'after the pointer at (%s, %s) the position is (%s, %s)' % (gv, pv, show(J2)[:40], show(K2)[:40]))
        rep.check(True if limit(o.facts.items(), J, isgroups) is False else None, rule, con, nx.loc(), 'group position not bounded')
        # the constructor and number that go with it
        r2 = 'pointer goes with its own group and segment number'
        nc, sg = arg(o.val, 'nc_id', 0), arg(o.val, 'segment_id', 2)
        rep.check(False if nc is None or nc is NONE else True if mentions(nc, G) and nc.op != 'lin' else False if nc.op == 'const' or any(s.op == 'idx' and s.a[0] is groups for s in subs(nc)) or nc.op == 'lin' else None, r2, con, nx.loc(),
                  'the name constructor is %s' % (show(nc)[:60] if nc is not None else 'missing'))
        good = None
        if sg is None:
            good = False
        elif sg is NONE:
            st = [a for a, b in o.facts.items() if a.op == 'isnone' and b and mentions(a, G)]
            good = True if any('segment' in show(a) or 'group_data' in show(a) for a in st) else False
        else:
            k, parts = lin_parts(linear(sg))
            parts = dict(parts)
            m = parts.pop(K, None)
            rest = list(parts.items())
            if m == 1 and k == 0 and len(rest) == 1 and rest[0][1] == 1 and mentions(rest[0][0], G):
                good = True
            elif linear(sg).op in ('lin', 'const', 'lv', 'attr', 'mul') or m is not None:
                good = False
            elif rest and len(rest) == 1 and mentions(rest[0][0], G):
                good = False
        rep.check(good, r2, con, nx.loc(), 'the segment number is %s' % (show(sg)[:70] if sg is not None else 'missing'))
    if gvar is None:
        return
    for v, x in ((gvar, init.get(gvar)), (pvar, init.get(pvar))):
        rep.check(True if x is const(0) else False if x is not None and x.op == 'const' else None, rule, con, c.methods['__init__'].loc(), 'the walk starts at %s = %s' % (v, show(x) if x is not None else '?'))
    gk, pk = (SELF, gvar), (SELF, pvar)
    # skipping to the next group
    for o, e, lp, ls in loops_of(outs):
        for q in lp.outs:
            if q[0] not in ('next', 'continue'):
                continue
            g0 = next((s for a, b in q[2] for s in subs(a) if s.op == 'lv' and posvar(s) == gvar), None)
            J2, K2 = q[4].get(gk), q[4].get(pk)
            if J2 is None and K2 is None:
                continue
            J = next((x for x in (subs(J2) if J2 is not None else ()) if x.op == 'lv' and posvar(x) == gvar), g0) or mk('lv', lp.lid, 'self.' + gvar)
            if J2 is J or J2 is None:
                rep.check(False if K2 is not None and not (K2.op == 'lv' and posvar(K2) == pvar) else None, rule, con, e.loc(), 'pointers of a group are skipped')
                continue
            Kp = [s for a, b in q[2] for s in subs(a) if s.op == 'lv' and posvar(s) == pvar]
            ispts = lambda x: any(s.op == 'idx' and s.a[0] is groups for s in subs(x))
            full = limit(q[2], Kp[0], ispts) if Kp else None
            # a group without a list of pointers has none
            full = full or any(a.op == 'isnone' and b and ispts(a.a[0]) and a.a[0].op in ('attr', 'mcall') and 'pointers' in str(a.a[0].a[1] if a.a[0].op == 'attr' else a.a[0].a[0]) for a, b in q[2])
            good = None
            if J2 is add(J, const(1)) and K2 is const(0):
                good = True if full else False
            elif J2.op in ('lin', 'const') and (K2 is None or K2.op in ('const', 'lin', 'lv')):
                good = False
            rep.check(good, rule, con, e.loc(), 'from (%s, %s) the walk moves to (%s, %s)%s' % (gvar, pvar, show(J2)[:30], show(K2)[:30] if K2 is not None else 'same', '' if full else ' although pointers may be left in the group'))
    for o in outs:
        if o.kind == 'raise' and isinstance(o.val, T) and 'StopIteration' in show(o.val):
            J = o.st.heap.get(gk, mk('attr', SELF, gvar))
            done = limit(o.facts.items(), J, isgroups)
            if done is None:
                done = any(limit(o.facts.items(), s, isgroups) for a in o.facts for s in subs(a) if s.op == 'lv' and posvar(s) == gvar) or None
            rep.check(True if done else False if done is False else None, rule, con, nx.loc(), 'the walk ends although groups are left')


def kept(ctx, rep):
    """what a manifest points to is what its encoding said: decoding drops no group and no pointer"""
    from .codec import c02_class
    w = ctx.wire
    for c in w.classes():
        if c.name in ('Manifest', 'Node', 'HashGroup', 'Pointers'):
            with rep.guard('decoding keeps every pointer', c.name):
                c02_class(w, ctx.p, rep, c)


RULES = {'F01': f01, 'F02': f02, 'F03': [f03, kept]}
