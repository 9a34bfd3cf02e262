"""F09: the name a reader constructs for a pointer is the name the packet was published under."""
import ast
import itertools
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .tree import short, pname, args_of, arg, SELF, iterator
from .build import *
from .build import short_c
from .publish import chunk_runs, data_chunks, body_of_packet, pub_flow, publisher_classes, paths_in, at_end


def role(t):
    """which of the two name constructors a receiver is: 'data', 'manifest', None"""
    if t is None:
        return None
    if t.op == 'attr':
        if t.a[1].startswith('data_schema'):
            return 'data'
        if t.a[1].startswith('manifest_schema'):
            return 'manifest'
    return None


def nc_role(t):
    """the role of the name constructor whose id term t is; '' when t is no name constructor's id"""
    if t is None or t is NONE or t.op == 'const':
        return ''
    if t.op == 'mcall' and t.a[0] == 'nc_id':
        return role(t.a[1])
    if t.op == 'attr' and t.a[1] in ('_nc_id', 'nc_id'):
        return role(t.a[0])
    return None


def upd(q, lv):
    """what a step makes of loop variable lv"""
    n = lv.a[1]
    if n in q[4]:
        return q[4][n]
    for k, v in q[4].items():
        if isinstance(k, tuple) and '%s.%s' % (show(k[0]), k[1]) == n:
            return v
    return lv


SAMPLE = [*range(0, 9), *range(126, 130), *range(254, 258), 1023, 1024, 65534, 65535, 65536, 16777214, 16777215]


def moved(t, v, d):
    """False when the term t is not v + d for some value of v; None when that cannot be told"""
    for n in SAMPLE:
        x = value_at(t, {v: n})
        if x is not None and x != n + d and not (d < 0 and n + d < 0 and x < 0):
            return False
    return None


def plain(t):
    """a term made of numbers, attributes, parameters and lengths only"""
    return all(x.op in ('const', 'lin', 'max', 'min', 'attr', 'param', 'len', 'cls') for x in subs(t))


def start(t):
    """the number in a start segment id"""
    if t.op == 'new' and pname(t) == 'StartSegmentId':
        return arg(t, 'value')
    return None


def no_numbers(facts):
    """the path knows that the names carry no number"""
    return any(a.op == 'truth' and v is False and a.a[0].op == 'mcall' and a.a[0].a[0] == 'uses_name_id' for a, v in facts.items())


def asks_numbers(facts):
    return any(has_op(a, 'mcall') and any(s.op == 'mcall' and s.a[0] == 'uses_name_id' for s in subs(a)) for a in facts)


def f09(ctx, rep):
    chunk_names(ctx, rep)
    manifest_names(ctx, rep)
    leaf_start(ctx, rep)
    interior_start(ctx, rep)
    pair_groups(ctx, rep)
    group_fields(ctx, rep)
    id_factory(ctx, rep)
    levels(ctx, rep)
    root_start(ctx, rep)
    schema_kinds(ctx, rep)
    schema_names(ctx, rep)
    context(ctx, rep)


# ------------------------------------------------------------------ data
def chunk_names(ctx, rep):
    rule = 'a data packet is named by its chunk number'
    for f, c, fl, outs in chunk_runs(ctx):
        con = short(f)
        with rep.guard(rule, con):
            for o in outs:
                if o.kind != 'return':
                    continue
                for e, q, cm, ps, fs in data_chunks(o):
                    if q[0] == 'raise' or len(cm) != 1 or len(ps) != 1:
                        continue
                    body = body_of_packet(ps[0][1])
                    name = body.get('name') if body else None
                    n = canon(arg(cm[0].term, 'chunk_number'))
                    if name is None:
                        rep.und(rule, con, 'body of %s' % show(ps[0][1])[:60])
                        continue
                    name = canon(name)
                    named(rep, rule, con, cm[0], name, n)
                    steps(rep, con, e, q, n)
                    final(rep, con, e, q, body, n, fs)


def named(rep, rule, con, ev, name, n):
    if name.op == 'mcall' and name.a[0] == 'get_name':
        x = arg(name, 'chunk_id', 0)
        x = canon(x) if x is not None else None
        good = x is n
        if not good and x is not None and x.op not in ('lin', 'const') and not (x.op == 'lv' and n.op == 'lv') and not mentions(x, n):
            good = None
        rep.check(good, rule, con, ev.loc(), 'listed as chunk %s, named as chunk %s' % (show(n)[:40], show(x)[:40] if x is not None else '?'))
        rep.check(True if name.a[1] is SELF else None, rule, con, ev.loc(), 'named by %s' % show(name.a[1])[:40])
    else:
        rep.check(False if name.op == 'const' else None, rule, con, ev.loc(), 'named %s' % show(name)[:60])


def steps(rep, con, e, q, n):
    """chunk numbers go up by one"""
    rule = 'chunk numbers are consecutive'
    if q[0] not in ('next', 'continue'):
        return
    lv = [s for s in subs(n) if s.op == 'lv' and s.a[0] == e.x.lid]
    if n.op == 'lv' and n.a[0] == e.x.lid or n.op == 'lin' and len(lv) == 1:
        x = lv[0]
        up = upd(q, x)
        d = add(up, mul(const(-1), x)) if up is not None else None
        k = num(d) if d is not None else None
        if k is None and d is not None and any(y.op in ('eq', 'lt0', 'isnone', 'truth', 'not', 'is') for y in lin_parts(d)[1]):
            k = 'one or more'
        good = None if k is None else k == 1
        if good is None and up is not None:
            good = moved(up, x, 1)
        rep.check(good, rule, con, e.loc(), 'the number goes up by %s per chunk' % (k if k is not None else '%s (not one for every number)' % show(d)[:60]))
    elif n.op == 'elem' or n.op == 'idx':
        rep.und(rule, con, 'number is %s' % show(n)[:60])
    elif not any(s.op in ('elem', 'mcall', 'call') for s in subs(n)):
        rep.check(False, rule, con, e.loc(), 'each chunk gets number %s' % show(n)[:60])
    else:
        rep.und(rule, con, 'number is %s' % show(n)[:60])


def final(rep, con, e, q, body, n, fs):
    """a final chunk id is the number of the last chunk"""
    rule = 'the final chunk id is the number of the last chunk'
    v = body.get('final_chunk_id')
    if v is None or v is NONE:
        return
    if v.op != 'new':
        rep.und(rule, con, show(v)[:60])
        return
    x = canon(args_of(v)[0][1])
    d = num(add(x, mul(const(-1), n)))
    good = None if d is None else d == 0
    if good is None and x.op in ('len', 'lv', 'lin', 'param', 'attr', 'const') and not mentions(x, n) and not any(y.op in ('mcall', 'call') for y in subs(x)):
        good = False            # a count of its own, that need not start with the first chunk's number
    rep.check(good, rule, con, e.loc(), 'chunk %s has final chunk id %s' % (show(n)[:40], show(x)[:40]))
    # it is given where no data is left
    pay = body.get('payload')
    reads = [x.term for x in q[3] if x.kind == 'call' and isinstance(x.term, T) and x.term.op == 'mcall' and x.term.a[0] == 'read']
    if len(reads) != 1 or pay is not None and mentions(pay, reads[0]):
        return
    R = reads[0]
    has = [(a, b) for a, b in fs.items() if mentions(a, R)]
    known = at_end(has, R)
    rep.check(known if known is not None or has else False, rule, con, e.loc(), 'the final chunk id is given while data is left')


# ------------------------------------------------------------------ manifests
def tree_runs(ctx):
    for c, (cyc, entry) in builders(ctx).items():
        fl = tree_flow(ctx, c)
        for f in sorted(entry | outer(ctx, c), key=lambda f: f.qual):
            yield c, fl, f, entry


def manifest_names(ctx, rep):
    rule = 'a manifest is named by the manifest constructor and its own number'
    for c, fl, f, entry in tree_runs(ctx):
        con = short(f)
        with rep.guard(rule, con):
            seen = set()
            for o in fl.run(f):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind != 'call' or not isinstance(t, T) or t.op != 'mcall':
                        continue
                    if t.a[0] == 'build_packet' and t not in seen:
                        seen.add(t)
                        v = arg(t, 'name')
                        v = canon(v) if v is not None else NONE
                        if v.op == 'mcall' and v.a[0] == 'get_name':
                            x = canon(arg(v, 'chunk_id', 0))
                            r = role(v.a[1])
                            rep.check(None if r is None else r == 'manifest', rule, con, e.loc(), 'a manifest is named by the %s constructor' % r)
                            if x.op == 'mcall' and x.a[0] == 'get_next_id':
                                rep.ok(rule, con)
                            else:
                                ids = [s for s in subs(x) if s.op == 'mcall' and s.a[0] == 'get_next_id']
                                rep.check(False if x.op == 'lin' and ids or x.op == 'const' or x.op == 'attr' else None, rule, con, e.loc(), 'a manifest is named with number %s' % show(x)[:60])
                        else:
                            rep.check(False if v is NONE else None, rule, con, e.loc(), 'a manifest is named %s' % show(v)[:60])
                    elif t.a[0] == 'get_next_id':
                        pass
                # a number serves one name
                ids = {}
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'build_packet':
                        v = arg(t, 'name')
                        if v is not None and v.op == 'mcall':
                            ids.setdefault(v, set()).add(t)
                for v, ts in ids.items():
                    rep.check(len(ts) == 1 or None, 'each manifest has its own name', con, f.loc(), 'two manifests are named %s' % show(v)[:60])


def id_state(ctx, c):
    """attribute of the builder that remembers the number of the last manifest: attr -> set of (good) values"""
    def build():
        out = {}
        fl = tree_flow(ctx, c)
        for f in builders(ctx)[c][1] | outer(ctx, c):
            for o in fl.run(f):
                named_ = {canon(arg(t, 'chunk_id', 0)) for e, ls in walk_events(o.events()) for t in [e.term]
                          if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'get_name' and arg(t, 'chunk_id', 0) is not None}
                sets = [(e.term.a[1], e.term.a[2], e) for e, ls in walk_events(o.events()) if e.kind == 'setattr' and e.term.a[0] is SELF]
                for n, v, e in sets:
                    out.setdefault(n, {}).setdefault(canon(v) in named_, []).append((v, e, f))
                out.setdefault('', []).append((f, o, named_, sets))
        return out
    return ctx.lazy('names.state.%s' % c.qual, build)


def groups_of(o, name):
    for e, ls in walk_events(o.events()):
        t = e.term
        if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == name:
            yield e, t


def leaf_start(ctx, rep):
    rule = 'the start number of a leaf is the number of its first chunk'
    for c, fl, f, entry in tree_runs(ctx):
        con = short(f)
        with rep.guard(rule, con):
            done = set()
            for o in fl.run(f):
                if o.kind != 'return':
                    continue
                gs = list(groups_of(o, 'hash_group'))
                if not gs:
                    continue
                for e, t in gs:
                    R = t.a[1]
                    own = [(ev, ls, point(ev)) for ev, ls in walk_events(o.events()) if point(ev) is not None and point(ev)[1] is R]
                    s = canon(arg(t, 'start_segment_id') or NONE)
                    k = (t, s, tuple((ev.term, tuple(l.lid for l in ls)) for ev, ls, p in own), no_numbers(o.facts))
                    if k in done:
                        continue
                    done.add(k)
                    kinds = {p[0] for ev, ls, p in own}
                    if not kinds:
                        continue
                    want = {'data' if m in TAKE else 'manifest' for m in kinds}
                    r = nc_role(canon(arg(t, 'nc_id') or NONE))
                    rep.check(None if r is None or len(want) > 1 else r in want, 'a leaf names the data constructor', con, e.loc(), 'pointers to %s are put under %s' % (', '.join(want), 'the %s constructor' % r if r else 'no constructor'))
                    if want != {'data'}:
                        continue
                    if s is NONE:
                        rep.check(True if no_numbers(o.facts) else None if asks_numbers(o.facts) and not has_true(o.facts) else False, rule, con, e.loc(), 'the group has no start number')
                        continue
                    n = start(s)
                    if n is None:
                        rep.und(rule, con, show(s)[:60])
                        continue
                    for ev, ls, p in own:
                        ch = chunk_of(p[2])
                        if ch is None or not ls:
                            rep.und(rule, con, show(p[2])[:60])
                            continue
                        first(rep, rule, con, fl, o, e, ev, ls[-1], p[0], ch, canon(n))


def has_true(facts):
    return any(a.op == 'truth' and v is True and a.a[0].op == 'mcall' and a.a[0].a[0] == 'uses_name_id' for a, v in facts.items())


def first(rep, rule, con, fl, o, e, ev, loop, meth, ch, n):
    """n is the number of the first chunk the loop collects"""
    M, pos = ch
    if n.op == 'attr' and n.a[1] == 'chunk_number' and n.a[0].op == 'idx' and n.a[0].a[0] is M:
        at = n.a[0].a[1]
        if pos.op == 'elem':
            r = rng(pos.a[0])
            if r is not None:
                lo, hi, desc = r
                asc = meth.startswith('append') != desc
                if not asc:
                    rep.und(rule, con, 'pointers in descending order')
                    return
                d = num(add(at, mul(const(-1), lo)))
                good = True if at is lo or d == 0 else False if d is not None else same(at, lo, dict(o.facts))
                if good is None and (at is hi or num(add(at, mul(const(-1), hi))) is not None):
                    good = False
                rep.check(good, rule, con, e.loc(), 'the start number is that of chunk %s, the first pointer is to chunk %s' % (show(at)[:80], show(lo)[:80]))
                return
        for x in [n] :
            last_value(rep, rule, con, fl, e, ev, loop, meth, M, pos, n)
        return
    if pos.op == 'elem' and rng(pos.a[0]) is not None:
        k = num(add(n, mul(const(-1), rng(pos.a[0])[0])))
        if k == 0 or k is None and plain(n) and not any(y.op == 'attr' and y.a[1] == 'chunk_number' for y in subs(n)):
            rep.check(False, rule, con, e.loc(), 'the start number is a position in the file, %s: chunks need not be numbered from 0' % show(n)[:60])
            return
        if k:
            rep.check(False, rule, con, e.loc(), 'the start number is that of chunk %s, the first pointer is to chunk %s' % (show(n)[:80], show(rng(pos.a[0])[0])[:80]))
            return
    if n.op == 'lv' or n.op == 'attr' or n.op == 'lin':
        last_value(rep, rule, con, fl, e, ev, loop, meth, M, pos, n)
        return
    if n.op == 'const':
        rep.check(False, rule, con, e.loc(), 'the start number is %s' % show(n))
        return
    rep.und(rule, con, 'start number %s' % show(n)[:60])


def last_value(rep, rule, con, fl, e, ev, loop, meth, M, pos, n):
    """n is made of what a loop that adds pointers at the front leaves behind"""
    mine = [s for s in subs(n) if s.op == 'lv' and s.a[0] == loop.lid]
    want = canon(mk('attr', mk('idx', M, pos), 'chunk_number'))
    if not mine:
        # nothing of the loop in it
        if n.op == 'lv' or any(s.op == 'lv' for s in subs(n)):
            rep.und(rule, con, 'start number %s' % show(n)[:60])
        else:
            rep.und(rule, con, 'start number %s' % show(n)[:60])
        return
    if not meth.startswith('prepend'):
        rep.und(rule, con, 'pointers are added at the end')
        return
    for q in loop.outs:
        if q[0] not in ('next', 'continue'):
            continue
        if not any(x is ev or x.term is ev.term for x, l in walk_events(q[3])):
            # no pointer is added in this step, the value stays
            m = {s: upd(q, s) for s in mine}
            rep.check(True if canon(fl.i.subst(n, m)) is n else None, rule, con, e.loc(), 'a step that adds no pointer changes the start number')
            continue
        m = {s: upd(q, s) for s in mine}
        got = canon(fl.i.subst(n, m))
        good = got is want
        if not good:
            good = None
            g = got
            if g.op == 'attr' and g.a[1] == want.a[1] and g.a[0].op == 'idx' and g.a[0].a[0] is M:
                d = num(add(g.a[0].a[1], mul(const(-1), pos)))
                if d is not None:
                    good = d == 0
            elif got.op == 'lin' and num(add(got, mul(const(-1), want))) is not None:
                good = num(add(got, mul(const(-1), want))) == 0
            elif got.op == 'const' or got in mine:
                good = False
            elif got.op == 'attr' and got.a[0] is want.a[0]:
                good = False            # another field of the chunk
            elif n.op == 'lv' and e is not None:
                # keeps the first one it sees
                if any(got is s for s in mine):
                    good = False
        rep.check(good, rule, con, e.loc(), 'after a step the start number is %s, the first pointer is to chunk %s' % (show(got)[:80], show(pos)[:60]))


def pair_roles(ctx):
    """pointer collections with two groups: class -> {parameter of hash_groups: role}, {attribute: roles}"""
    def build():
        out = {}
        fl = ctx.lazy('names.pair', lambda: Flow(ctx, POINT | {'hash_group', 'nc_id', 'hash_group_count'}, samename=True))
        for c in sorted(pointed(ctx), key=lambda c: c.qual):
            if 'hash_groups' not in c.methods:
                continue
            attrs = {}
            for m in c.methods.values():
                if m.name not in POINT:
                    continue
                for o in fl.run(m, selfcls=c):
                    for e, ls in walk_events(o.events()):
                        p = point(e)
                        if p is not None and p[1].op == 'attr' and p[1].a[0] is SELF:
                            attrs.setdefault(p[1].a[1], set()).add('data' if m.name in TAKE else 'manifest')
                            if p[0] in POINT and (p[0] in TAKE) != (m.name in TAKE):
                                attrs.setdefault('!', set()).add(m.name)
            out[c] = attrs
        return out
    return ctx.lazy('names.pairs', build)


def one_group(o):
    """the path knows there is one group for both kinds of pointers"""
    for a, v in o.facts.items():
        if v and a.op == 'eq' and any(x.op == 'mcall' and x.a[0] == 'hash_group_count' for x in a.a) and any(num(x) == 1 for x in a.a):
            return True
    return False


def starts_of(ctx):
    """parameter of hash_groups -> role of the group it goes to"""
    def build():
        out = {}
        fl = ctx.lazy('names.pair', lambda: None)
        for c, attrs in pair_roles(ctx).items():
            f = c.methods['hash_groups']
            for o in ctx.lazy('names.pair', None).run(f, selfcls=c):
                if o.kind != 'return' or one_group(o):
                    continue
                for e, t in groups_of(o, 'hash_group'):
                    r = attrs.get(t.a[1].a[1]) if t.a[1].op == 'attr' and t.a[1].a[0] is SELF else None
                    s = canon(arg(t, 'start_segment_id') or NONE)
                    if r is not None and len(r) == 1 and s.op == 'param':
                        out.setdefault(s.a[0], set()).update(r)
        return out
    pair_roles(ctx)
    return ctx.lazy('names.starts', build)


def pair_groups(ctx, rep):
    rule = 'each group carries the constructor and the start number of its pointers'
    for c, attrs in pair_roles(ctx).items():
        f = c.methods['hash_groups']
        con = short(f)
        with rep.guard(rule, con):
            rep.check('!' not in attrs, 'pointers go to the group of their kind', con, f.loc(), 'a pointer of one kind is added as the other: %s' % ', '.join(sorted(attrs.get('!', ()))))
            mixed = sorted(a for a, rs in attrs.items() if a != '!' and len(rs) > 1)
            if mixed:
                rep.check(False if len(other_collections(ctx, c)) > 1 else None, 'pointers go to the group of their kind', con, f.loc(), '%s collects pointers of both kinds' % ', '.join(mixed))
            params = {}
            for o in ctx.lazy('names.pair', None).run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                for e, t in groups_of(o, 'hash_group'):
                    r = attrs.get(t.a[1].a[1]) if t.a[1].op == 'attr' and t.a[1].a[0] is SELF else None
                    nc = nc_role(canon(arg(t, 'nc_id') or NONE))
                    if one_group(o):
                        rep.check(None if nc is None else nc != '', rule, con, e.loc(), 'the group has no name constructor')
                        continue
                    if r is None or len(r) != 1:
                        rep.und(rule, con, 'group of %s' % show(t.a[1])[:60])
                        continue
                    r = next(iter(r))
                    rep.check(None if nc is None else nc == r, rule, con, e.loc(), 'the group of %s pointers names %s' % (r, 'the %s constructor' % nc if nc else 'no constructor'))
                    s = canon(arg(t, 'start_segment_id') or NONE)
                    if s.op == 'param':
                        params.setdefault(s.a[0], set()).add(r)
                    else:
                        rep.check(False if s is NONE else None, rule, con, e.loc(), 'the group of %s pointers has start number %s' % (r, show(s)[:40]))
            for n, rs in sorted(params.items()):
                rep.check(len(rs) == 1, rule, con, f.loc(), '%s is the start number of both groups' % n)
        # the two collections are one exactly when the two constructors are
        rule2 = 'two groups are kept apart'
        with rep.guard(rule2, con):
            names = sorted(a for a in attrs if a != '!')
            if len(names) == 2:
                for o in ctx.lazy('names.pair', None).i.ctor(c):
                    if o.kind == 'raise':
                        continue
                    x, y = (o.st.heap.get((SELF, a)) for a in names)
                    if x is None or y is None:
                        rep.und(rule2, short_c(c), 'not set')
                        continue
                    if not one_group(o) and any('hash_group_count' in show(a) for a in o.facts):
                        rep.check(x is not y, rule2, short_c(c), c.methods['__init__'].loc(), 'one collection for two groups')


def other_collections(ctx, c):
    """attributes of a pair that hold different collections"""
    best = set()
    for o in ctx.lazy('names.pair', None).i.ctor(c):
        if o.kind != 'raise' and not one_group(o):
            hs = {v for (r, a), v in o.st.heap.items() if r is SELF and v.op == 'new' and ctx.p.classes.get(v.a[0].a[0]) in pointed(ctx)}
            if len(hs) > len(best):
                best = hs
    return best


def group_fields(ctx, rep):
    rule = 'the group data carries the constructor and start number it is given'
    fl = Flow(ctx, SIZES | {'hash_group'}, samename=True)
    for c in sorted(pointed(ctx), key=lambda c: c.qual):
        f = c.methods.get('hash_group')
        if f is None:
            continue
        con = short(f)
        with rep.guard(rule, con):
            ps = {n: mk('param', n) for n in ('nc_id', 'start_segment_id') if n in f.params}
            for o in fl.run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                gd = arg(o.val, 'group_data') if o.val.op == 'new' else None
                for n, P in ps.items():
                    no = next((v if a.op == 'isnone' else not v for a, v in o.facts.items() if a.op in ('isnone', 'truth') and a.a[0] is P), None)
                    if gd is NONE:
                        rep.check(True if no else None if any(mentions(a, P) for a in o.facts) else False, rule, con, f.loc(), '%s is dropped with the group data' % n)
                        continue
                    if gd is None or gd.op != 'new':
                        rep.und(rule, con, show(o.val)[:60])
                        continue
                    v = arg(gd, n)
                    good = v is P or v is NONE and no is True
                    if not good and v is not None and v is not NONE and v.op not in ('param', 'const'):
                        good = None
                    rep.check(good, rule, con, f.loc(), '%s is %s' % (n, show(v)[:40] if v is not None else 'not given'))


def interior_start(ctx, rep):
    rule = 'the start numbers of a node are those of its first pointers'
    roles = starts_of(ctx)
    for c, fl, f, entry in tree_runs(ctx):
        con = short(f)
        names = {g.name for g in entry}
        with rep.guard(rule, con):
            st = id_state(ctx, c)
            done = set()
            for o in fl.run(f):
                if o.kind != 'return':
                    continue
                for e, t in groups_of(o, 'hash_groups'):
                    R = t.a[1]
                    evs = list(walk_events(o.events()))
                    own = [(ev, ls, point(ev)) for ev, ls in evs if point(ev) is not None and point(ev)[1] is R]
                    calls = [(ev, ls) for ev, ls in evs if ev.kind == 'call' and isinstance(ev.term, T) and ev.term.op == 'mcall' and ev.term.a[0] in names]
                    vs = {r: canon(arg(t, n) or NONE) for n, rs in roles.items() if len(rs) == 1 for r in rs}
                    k = (t, tuple(ev.term for ev, ls, p in own), tuple(ev.term for ev, ls in calls), no_numbers(o.facts), tuple((a, v) for a, v in o.facts.items() if a.op == 'isnone'))
                    if k in done:
                        continue
                    done.add(k)
                    if 'data' in vs:
                        direct(rep, rule, con, fl, o, e, own, vs['data'])
                    else:
                        rep.und(rule, con, 'no start number of the data group')
                    if 'manifest' in vs:
                        indirect(rep, rule, con, c, fl, o, e, own, calls, vs['manifest'], st)
                    else:
                        rep.und(rule, con, 'no start number of the manifest group')


def direct(rep, rule, con, fl, o, e, own, s):
    takes = [(ev, ls, p) for ev, ls, p in own if p[0] in TAKE]
    if s is NONE:
        if no_numbers(o.facts) or not takes:
            rep.ok(rule, con)
            return
        lids = {l.lid for ev, ls, p in takes for l in ls}
        if any(a.op in ('isnone', 'truth', 'eq', 'lt0') and any(x.op == 'lv' and x.a[0] in lids for x in subs(a)) for a in o.facts):
            # known to have collected nothing
            for a, v in o.facts.items():
                if a.op == 'isnone' and v and a.a[0].op == 'lv' and a.a[0].a[0] in lids or a.op == 'truth' and v is False and a.a[0].op == 'lv' and a.a[0].a[0] in lids:
                    rep.check(None if a.op == 'truth' else True, rule, con, e.loc(), '')
                    return
            rep.und(rule, con, 'no start number')
            return
        rep.check(None if asks_numbers(o.facts) and not has_true(o.facts) else False, rule, con, e.loc(), 'the group of direct pointers has no start number')
        return
    n = start(s)
    if n is None:
        rep.und(rule, con, show(s)[:60])
        return
    n = canon(n)
    if any(x.op == 'mcall' and x.a[0] == 'get_next_id' for x in subs(n)) or any(x.op == 'lv' and x.a[1].startswith('self._last') for x in subs(n)):
        rep.check(False, rule, con, e.loc(), 'the group of direct pointers starts with a manifest number')
        return
    for ev, ls, p in takes:
        ch = chunk_of(p[2])
        if ch is None:
            rep.und(rule, con, show(p[2])[:60])
        elif not ls:
            rep.und(rule, con, 'direct pointer outside a loop')
        else:
            first(rep, rule, con, fl, o, e, ev, ls[-1], p[0], ch, n)


def indirect(rep, rule, con, c, fl, o, e, own, calls, s, st):
    links = [(ev, ls, p) for ev, ls, p in own if p[0] in LINK]
    if s is NONE:
        if no_numbers(o.facts) or not links:
            rep.ok(rule, con)
        else:
            rep.check(None if asks_numbers(o.facts) and not has_true(o.facts) or any(a.op == 'isnone' for a in o.facts) and not has_true(o.facts) else False, rule, con, e.loc(), 'the group of manifest pointers has no start number')
        return
    n = start(s)
    if n is None:
        rep.und(rule, con, show(s)[:60])
        return
    n = canon(n)
    off = 0
    if n.op == 'lin':
        off, d = lin_parts(n)
        if len(d) == 1 and list(d.values()) == [1]:
            n = list(d)[0]
        else:
            last = [x for x, k in d.items() if k == 1 and (x.op == 'lv' and x.a[1].startswith('self.') or x.op == 'attr' and x.a[0] is SELF)]
            if len(last) == 1:
                rest = mklin(off, {x: k for x, k in d.items() if x is not last[0]})
                at = [value_at(rest, {x: j for x in lin_parts(rest)[1]}) for j in (1, 2, 3)]
                if all(x is not None for x in at) and any(at):
                    rep.check(False, rule, con, e.loc(), 'the start number is %s off the number of the manifest made last' % show(rest)[:80])
                    return
            rep.und(rule, con, show(n)[:60])
            return
    if off:
        rep.check(False, rule, con, e.loc(), 'the start number is off by %d' % off)
        return
    if n.op == 'const':
        rep.check(False, rule, con, e.loc(), 'the group of manifest pointers starts with %s' % show(n))
        return
    if n.op == 'mcall' and n.a[0] == 'get_next_id':
        rep.check(False, rule, con, e.loc(), "the group of manifest pointers starts with the node's own number")
        return
    if n.op == 'attr' and n.a[1] == 'chunk_number' or n.op == 'lv' and any('chunk_number' in show(upd(q, n)) for l in loops_of(o) if l.lid == n.a[0] for q in l.outs):
        rep.check(False, rule, con, e.loc(), 'the group of manifest pointers starts with a chunk number')
        return
    A = None
    if n.op == 'lv' and n.a[1].startswith('self.'):
        A = n.a[1][5:]
    elif n.op == 'attr' and n.a[0] is SELF:
        A = n.a[1]
    if A is None:
        rep.und(rule, con, 'start number %s' % show(n)[:60])
        return
    remembered(rep, con, c, A, st)
    # all links must be at the front, the last one made first
    bad = [p[0] for ev, ls, p in links if ls and not p[0].startswith('prepend')]
    if bad:
        rep.und(rule, con, 'children are added at the end')
        return
    lids = [l.lid for ev, ls in calls for l in ls[-1:]]
    outside = [ev for ev, ls in calls if not ls]
    if n.op == 'lv':
        if n.a[0] in lids:
            rep.check(True if lids[-1] == n.a[0] and not outside else None, rule, con, e.loc(), '')
        elif lids:
            # a loop around or before the children
            rep.und(rule, con, 'start number %s' % show(n)[:60])
        else:
            rep.ok(rule, con)
    elif len(n.a) > 2:
        rep.check(True if not lids else None, rule, con, e.loc(), '')
    else:
        rep.check(not lids and not outside, rule, con, e.loc(), 'the start number is the one from before the children were built')


def loops_of(o):
    for e, ls in walk_events(o.events()):
        if e.kind == 'loop':
            yield e.x


def remembered(rep, con, c, A, st):
    """attribute A holds the number of the manifest named last"""
    rule = 'the builder remembers the number of the last manifest'
    seen = set()
    for f, o, ids, sets in st.get('', ()):
        k = (f, frozenset(ids), tuple((n, v) for n, v, e in sets if n == A))
        if k in seen:
            continue
        seen.add(k)
        vals = [(v, e) for n, v, e in sets if n == A]
        for v, e in vals:
            x = canon(v)
            d = [num(add(x, mul(const(-1), i))) for i in ids]
            good = x in ids or 0 in d
            if not good:
                good = False if any(y is not None for y in d) or x.op == 'const' or ids and x.op in ('lin', 'attr') else None
            rep.check(good, rule, con, e.loc(), 'remembered is %s' % show(x)[:60])
        if o.kind == 'return' and ids and not vals:
            rep.check(False, rule, con, f.loc(), 'a manifest is named and its number is not remembered')


# ------------------------------------------------------------------ numbers
def id_factory(ctx, rep):
    rule = 'manifest numbers of a level are handed out in descending order, each once'
    p = ctx.p
    fl = ctx.lazy('build.shallow', lambda: Flow(ctx, set(), samename=True))
    for f in sorted((f for f in p.funcs.values() if f.name == 'get_next_id' and f.cls is not None and not f.abstract), key=lambda f: f.qual):
        con = short(f)
        with rep.guard(rule, con):
            H = mk('param', next(n for n in f.params if n != f.first))
            for o in fl.run(f, selfcls=f.cls):
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                if v.op == 'lin':
                    off, d = lin_parts(v)
                    base_ = list(d)[0] if len(d) == 1 and list(d.values()) == [1] else None
                else:
                    off, base_ = 0, v
                if base_ is None or base_.op != 'idx':
                    rep.check(False if v.op == 'const' else None, rule, con, f.loc(), 'the number is %s' % show(v)[:60])
                    continue
                rep.check(True if base_.a[1] is H else False if base_.a[1].op in ('const', 'lin') else None, rule, con, f.loc(), 'the number is taken from level %s' % show(base_.a[1])[:40])
                sets = [e for e, ls in walk_events(o.events()) if e.kind == 'setitem']
                if not sets:
                    rep.check(False, rule, con, f.loc(), 'the number handed out is not used up')
                for e in sets:
                    t = e.term
                    tab, at, val = t.a[0], t.a[1], canon(t.a[2])
                    if tab is not base_.a[0]:
                        rep.und(rule, con, show(t)[:60])
                        continue
                    rep.check(True if at is base_.a[1] else False if at.op in ('const', 'lin', 'param') else None, rule, con, e.loc(), 'the number of level %s is used up for level %s' % (show(base_.a[1])[:40], show(at)[:40]))
                    k = num(add(val, mul(const(-1), base_)))
                    good = None if k is None else k == -1
                    if good is None:
                        good = moved(val, base_, -1)
                    rep.check(good, rule, con, e.loc(), 'the next number differs by %s' % (k if k is not None else 'other than one: %s' % show(val)[:80]))


def levels(ctx, rep):
    rule = 'children are one level below their node'
    for c, (cyc, entry) in builders(ctx).items():
        fl = tree_flow(ctx, c)
        names = {g.name for g in entry}
        lev = {g.name: 'level' for g in entry if 'level' in g.params}
        if not lev:
            continue
        for f in sorted(entry | outer(ctx, c), key=lambda f: f.qual):
            con = short(f)
            with rep.guard(rule, con):
                seen = set()
                for o in fl.run(f):
                    prev = None
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind != 'call' or not isinstance(t, T) or t.op != 'mcall' or t.a[0] not in names:
                            if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'get_next_id' and f in entry:
                                h = canon(arg(t, 'height', 0))
                                if h in seen:
                                    continue
                                seen.add(h)
                                c0, d = lin_parts(h)
                                k = d.get(mk('param', 'level'))
                                whole = k is not None and not any(mentions(x, mk('param', 'level')) for x in d if x is not mk('param', 'level'))
                                part = k is None and (not mentions(h, mk('param', 'level')) and not any(x.op in ('mcall', 'call', 'lv') for x in subs(h)) or any(x.op in ('fdiv', 'mod', 'shr', 'band', 'div') and mentions(x, mk('param', 'level')) for x in subs(h)))
                                rep.check(k == -1 if whole else False if part else None, 'each level has its own numbers', con, e.loc(), 'the numbers of level n are taken from %s' % show(h)[:60])
                            continue
                        L = arg(t, lev[t.a[0]])
                        if L is None:
                            rep.und(rule, con, 'no level')
                            continue
                        L = canon(L)
                        if f in entry:
                            k = num(add(L, mul(const(-1), mk('param', 'level'))))
                            if (L, 'sub') not in seen:
                                seen.add((L, 'sub'))
                                rep.check(None if k is None else k == -1, rule, con, e.loc(), 'a child of a level n node is level n%+d' % (k or 0))
                            continue
                        if (t, prev) in seen:
                            prev = L
                            continue
                        seen.add((t, prev))
                        lvs = [s for s in subs(L) if s.op == 'lv' and ls and s.a[0] == ls[-1].lid]
                        if ls and lvs:
                            x = lvs[0]
                            init = ls[-1].init.get(x.a[1])
                            if init is not None and prev is not None:
                                k = num(add(fl.i.subst(L, {x: init}), mul(const(-1), prev)))
                                rep.check(None if k is None else k == 1, rule, con, e.loc(), 'the first level above the leaf is %s higher' % k)
                            for q in ls[-1].outs:
                                if q[0] in ('next', 'continue') and any(z.term is t for z, l in walk_events(q[3])):
                                    u = upd(q, x)
                                    k = num(add(fl.i.subst(L, {x: u}), mul(const(-1), L)))
                                    rep.check(None if k is None else k == 1, rule, con, e.loc(), 'the next level is %s higher' % k)
                        elif ls:
                            rep.check(False if num(L) is not None else None, rule, con, e.loc(), 'every step builds level %s' % show(L)[:40])
                        prev = L


def root_start(ctx, rep):
    rule = 'the root names the top manifest'
    fl = pub_flow(ctx)
    for c in publisher_classes(ctx):
        for f in sorted(c.methods.values(), key=lambda f: f.qual):
            con = short(f)
            with rep.guard(rule, con):
                seen = set()
                for o in fl.run(f, selfcls=c):
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind != 'call' or not isinstance(t, T) or t.op != 'mcall' or t.a[0] != 'build_packet':
                            continue
                        k = (t, no_numbers(o.facts), has_true(o.facts))
                        if k in seen:
                            continue
                        seen.add(k)
                        r = nc_role(canon(arg(t, 'nc_id') or NONE))
                        rep.check(None if r is None else r == 'manifest', rule, con, e.loc(), 'the pointer to the top manifest is under %s' % ('the %s constructor' % r if r else 'no constructor'))
                        s = canon(arg(t, 'start_segment_id') or NONE)
                        if s is NONE:
                            rep.check(True if no_numbers(o.facts) else None if asks_numbers(o.facts) and not has_true(o.facts) else False, rule, con, e.loc(), 'the pointer to the top manifest has no number')
                            continue
                        n = start(s)
                        P = {child_of(x) for x in subs(canon(arg(t, 'source') or NONE)) if x.op == 'mcall' and child_of(x) is not None}
                        if n is None or len(P) != 1:
                            rep.und(rule, con, show(s)[:60])
                            continue
                        n = canon(n)
                        P = next(iter(P))
                        rep.check(number_of(n, P), rule, con, e.loc(), 'the number given for the top manifest is %s' % show(n)[:100])


def number_of(n, P):
    """n is the number in the last component of packet P's name"""
    if n.op == 'const':
        return False
    if n.op == 'lin':
        c, d = lin_parts(n)
        if c and len(d) == 1 and number_of(list(d)[0], P):
            return False
        return None
    if n.op != 'mcall' or n.a[0] != 'value_as_number':
        return None
    x = n.a[1]
    if x.op == 'mcall' and x.a[0] == 'component':
        N, i = x.a[1], arg(x, 'index', 0)
    elif x.op == 'idx':
        N, i = x.a
    else:
        return None
    if i is None or not mentions(N, P):
        return None
    k = num(i)
    c, d = lin_parts(i)
    if k is not None:
        return None if k == -1 else False
    if len(d) == 1 and list(d.values()) == [1]:
        z = list(d)[0]
        if z.op == 'len' or z.op == 'mcall' and z.a[0] in ('count', '__len__'):
            return c == -1
    return None


# ------------------------------------------------------------------ constructors
def impl_flow(ctx):
    return ctx.lazy('names.impl', lambda: Flow(ctx, {'get_name', 'nc_id'}, samename=True))


def schema_kinds(ctx, rep):
    """a reader makes the same kind of constructor from a schema as the writer that announced it"""
    rule = 'reader and writer use the same constructor for a schema'
    p = ctx.p
    B_ = p.cls('SchemaImpl')
    S = p.cls('NcSchema')
    impls = {c.qual for c in B_.all_subs()}
    w, r = {}, {}
    fl = impl_flow(ctx)
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.cls is None or f.cls.name != 'SchemaImplFactory':
            continue
        con = short(f)
        reads = 'nc_def' in f.params
        with rep.guard(rule, con):
            for o in fl.run(f, selfcls=f.cls):
                if o.kind != 'return' or o.val.op != 'new' or o.val.a[0].a[0] not in impls:
                    continue
                v = o.val
                k = p.classes[v.a[0].a[0]]
                s = canon(arg(v, 'schema') or NONE)
                n = canon(arg(v, 'nc_id') or NONE)
                if reads:
                    P = mk('param', 'nc_def')
                    kinds = [a.a[1] for a, b in o.facts.items() if a.op == 'isa' and b and a.a[0] is s]
                    for x in kinds:
                        r.setdefault(x.a[0], set()).add((k, f))
                    rep.check(True if kinds and mentions(s, P) else None, rule, con, f.loc(), 'schema %s' % show(s)[:60])
                    rep.check(True if mentions(n, P) and 'nc_id' in show(n) else False if n.op in ('const', 'new') else None, rule, con, f.loc(), 'the constructor read gets id %s' % show(n)[:60])
                else:
                    ty = fl.i.typeof(s, o.st).classes
                    for x in ty:
                        w.setdefault(x.qual, set()).add((k, f))
                    if not ty:
                        rep.und(rule, con, 'schema %s' % show(s)[:60])
    for q in sorted(set(w) | set(r)):
        con = q.split('.', 1)[1]
        a, b = {k for k, f in w.get(q, ())}, {k for k, f in r.get(q, ())}
        if not a:
            continue
        loc = next(iter(r.get(q, w[q])))[1].loc()
        rep.check(a == b if b else False if any(k in r for k in r) else None, rule, con, loc, 'written with %s, read with %s' % (', '.join(k.name for k in a), ', '.join(k.name for k in b) or 'nothing'))


def schema_names(ctx, rep):
    """names depend on the announced schema and the number only"""
    p = ctx.p
    fl = ctx.lazy('build.shallow', lambda: Flow(ctx, set(), samename=True))
    for c in sorted(p.cls('SchemaImpl').all_subs(), key=lambda c: c.qual):
        g = c.find('get_name')
        if g is None or g.abstract:
            continue
        con = short_c(c)
        rule = 'a name depends on the announced schema and the number only'
        with rep.guard(rule, con):
            num_ = mk('param', next(n for n in g.params if n != g.first))
            S = mk('param', 'schema')
            made = [o for o in ctors(ctx).ctor(c) if o.kind != 'raise']
            heaps = [{a: v for (r, a), v in o.st.heap.items() if r is SELF} for o in made]
            numbered = set()
            for o in fl.run(g, selfcls=c):
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                numbered.add(mentions(v, num_))
                used = {s.a[1] for s in subs(v) if s.op == 'attr' and s.a[0] is SELF}
                if v.op == 'const' and v is not NONE:
                    rep.check(False, rule, con, g.loc(), 'the name is %s' % show(v)[:40])
                for a in sorted(used):
                    for h in heaps:
                        x = h.get(a)
                        if x is None:
                            rep.und(rule, con, a)
                            continue
                        x = canon(x)
                        leaf = {s for s in subs(x) if s.op == 'param'}
                        rep.check(True if leaf == {S} else False if leaf - {S} or x.op == 'const' else None, rule, con, g.loc(), '%s is %s' % (a, show(x)[:60]))
                    for w in writes_of(p, c, a):
                        rep.check(None, rule, con, w.loc(), '%s is changed by %s' % (a, w.name))
                    for o1, o2 in itertools.combinations(made, 2):
                        x, y = o1.st.heap.get((SELF, a)), o2.st.heap.get((SELF, a))
                        if x is y or x is None or y is None:
                            continue
                        apart = [q for q, b in o1.facts.items() if o2.facts.get(q) is (not b)]
                        if apart and not any(mentions(q, S) for q in apart):
                            rep.check(False, rule, con, g.loc(), '%s is %s or %s depending on %s' % (a, show(x)[:50], show(y)[:50], show(apart[0])[:50]))
                if not used and v is not NONE:
                    rep.und(rule, con, show(v)[:60])
                if mentions(v, num_):
                    rep.check(numbering(v, num_), 'different numbers give different names', con, g.loc(), 'the name is %s' % show(v)[:80])
            u = c.find('uses_name_id')
            rule2 = 'a constructor says whether its names carry a number'
            if u is not None and len(numbered) == 1:
                for o in fl.run(u, selfcls=c):
                    if o.kind == 'return':
                        k = const_of(canon(o.val))
                        rep.check(None if not isinstance(k, bool) else k == next(iter(numbered)), rule2, con, u.loc(), 'uses_name_id is %s, its names %s a number' % (k, 'carry' if True in numbered else 'do not carry'))
        rule3 = 'a constructor announces its own schema and id'
        with rep.guard(rule3, con):
            for n, want in (('nc_id', {'nc_id'}), ('nc_def', {'nc_id', 'schema'})):
                f = c.find(n)
                if f is None or f.abstract:
                    continue
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    for h in heaps:
                        v = canon(fl.i.subst(canon(o.val), {mk('attr', SELF, a): x for a, x in h.items()}))
                        if n == 'nc_id':
                            rep.check(True if v is mk('param', 'nc_id') else False if v.op in ('const', 'param', 'new') else None, rule3, con, f.loc(), '%s is %s' % (n, show(v)[:60]))
                        elif v.op == 'new':
                            got = {k: arg(v, k) for k in want}
                            good = all(got[k] is mk('param', k) for k in want)
                            rep.check(good or (None if any(x is not None and x.op not in ('const', 'new', 'param') for x in got.values()) else False), rule3, con, f.loc(), '%s is %s' % (n, show(v)[:60]))
                        else:
                            rep.check(False if v is NONE else None, rule3, con, f.loc(), '%s is %s' % (n, show(v)[:60]))


def ctors(ctx):
    return ctx.lazy('names.ctors', lambda: Interp(ctx.p, stop=STOP, inline=lambda f: f.name == '__init__' or trivial(f)))


def numbering(v, n):
    """does a name carry the number itself"""
    inj = 'number_to_array'
    for s in subs(v):
        if s.op in ('mcall', 'call') and pname(s) in (inj, 'to_bytes'):
            xs = [x for k, x in args_of(s)]
            if n in xs:
                return True
            if any(x.op in ('lin', 'mod', 'band', 'fdiv', 'shr') and mentions(x, n) for x in xs):
                return False
            if any(mentions(x, n) for x in xs):
                return None
        if s.op == 'mcall' and s.a[0] in ('create_name_component', 'create_chunk_id', 'create_manifest_id') or s.op == 'call' and pname(s).startswith('create'):
            xs = [x for k, x in args_of(s)[1:]] if s.op == 'mcall' else [x for k, x in args_of(s)]
            for x in xs:
                if x is n:
                    return True
                if mentions(x, n):
                    if x.op == 'lin':
                        return False
                    return None
    return None


def writes_of(p, c, a):
    """methods other than the constructor that assign attribute a of their object"""
    out = []
    for k in list(c.mro()) + list(c.all_subs()):
        for f in k.methods.values():
            if f.name == '__init__':
                continue
            for n in ast.walk(f.node):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                if any(isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.first and t.attr == a for t in ts) and f not in out:
                    out.append(f)
    return out


def announced(ctx, rep):
    """the context announces both constructors"""
    p = ctx.p
    c = p.cls('NameConstructorContext')
    fl = impl_flow(ctx)
    f = c.find('nc_def')
    rule = 'every constructor in use is announced'
    with rep.guard(rule, short(f)):
        D, M = mk('attr', SELF, 'data_schema_impl'), mk('attr', SELF, 'manifest_schema_impl')
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return':
                continue
            v = canon(o.val)
            if v.op != 'seq':
                rep.und(rule, short(f), show(v)[:60])
                continue
            have = {x for x in (D, M) if mentions(v, x)}
            one = any(a.op in ('eq', 'is') and b and set(a.a) == {D, M} for a, b in o.facts.items())
            rep.check(bool(have) if one else have == {D, M}, rule, short(f), f.loc(), 'announced is %s' % show(v)[:80])


def context(ctx, rep):
    """the context announces both constructors, under different ids"""
    announced(ctx, rep)
    p = ctx.p
    c = p.cls('NameConstructorContext')
    fl = impl_flow(ctx)
    f = c.find('create')
    rule = 'different constructors have different ids'
    with rep.guard(rule, short(f)):
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return' or o.val.op != 'new':
                continue
            a, b = arg(o.val, 'manifest_schema_impl'), arg(o.val, 'data_schema_impl')
            if a is None or b is None or a.op != 'new' or b.op != 'new':
                rep.und(rule, short(f), show(o.val)[:60])
                continue
            if a is b:
                rep.ok(rule, short(f))
                continue
            x, y = unid(arg(a, 'nc_id')), unid(arg(b, 'nc_id'))
            k = num(add(x, mul(const(-1), y))) if x is not None and y is not None else None
            rep.check(None if k is None else k != 0, rule, short(f), f.loc(), 'both constructors have id %s' % (show(x)[:60] if x is not None else '?'))


def unid(t):
    if t is not None and t.op == 'new' and pname(t) == 'NcId':
        return canon(arg(t, 'value'))
    return t


RULES = {'F09': [f09, iterator]}
