"""F15: what is put into a packet store can be fetched from it again, by hash and, when links are asked for, by name."""
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *
from .linkname import f15_links
from .tree import pname, args_of, arg, short

STOP = {'serialize', 'deserialize', 'content_object_hash', 'as_uri', 'sign', 'validation_alg', 'save', 'load', 'create_link', 'create_signed_content_object'}


def store_flow(ctx):
    return ctx.lazy('store', lambda: Flow(ctx, {'save', 'load', 'append', 'get', 'put'}, stop=STOP))


def hash_of(t, P):
    return t.op == 'mcall' and t.a[0] == 'content_object_hash' and t.a[1] is P


def name_of(t, P):
    return t.op in ('mcall', 'attr') and (t.a[0] == 'name' if t.op == 'mcall' else t.a[1].lstrip('_') == 'name') and mentions(t.a[1] if t.op == 'mcall' else t.a[0], P)


def f15(ctx, rep):
    p = ctx.p
    fl = store_flow(ctx)
    W = p.cls('PacketWriter')
    ws = [c for c in W.all_subs() if not c.is_abstract() and c.find('put') is not None and not c.find('put').abstract] if W else []
    if not ws:
        rep.und('every packet put is stored', 'PacketWriter', 'no packet store')
    for c in sorted(ws, key=lambda c: c.qual):
        f = c.find('put')
        if not f.params:
            continue
        P = mk('param', f.params[0])
        con = c.name
        outs = [o for o in fl.run(f, selfcls=c) if o.kind == 'return']
        with rep.guard('every packet put is stored', con):
            stored(rep, c, f, P, con, outs)
        with rep.guard('a named packet gets its link', con):
            linked(rep, c, f, P, con, outs)
    R = next((c for c in p.classes.values() if c.name == 'PacketReader' and c.find('get') is not None), None)
    for c in sorted(R.all_subs() if R else [], key=lambda c: c.qual):
        f = c.methods.get('get')
        if f is not None and not f.abstract:
            with rep.guard('a packet asked for is not refused', c.name):
                refused(rep, c, f, fl.run(f, selfcls=c))
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        with rep.guard('a packet is read back whole', c.name):
            files(ctx, fl, rep, c)


def refused(rep, c, f, outs):
    """an error after a comparison: with what was asked for, of the same kind, and different"""
    rule = 'a packet asked for is not refused'
    kinds = {'name': ('name',), 'hash': ('content_object_hash', 'digest')}
    for o in outs:
        if o.kind != 'raise' or o.val is None or o.val.op == 'exc' or not o.facts:
            continue
        a, b = list(o.facts.items())[-1]
        if a.op == 'not':
            a, b = a.a[0], not b
        if a.op != 'eq':
            continue
        for x, y in (a.a, a.a[::-1]):
            if x.op != 'param' or x.a[0] not in f.params:
                continue
            k = next((k for k in kinds if k in x.a[0]), None)
            n = y.a[0] if y.op == 'mcall' else y.a[1].lstrip('_') if y.op == 'attr' else None
            if k is None or n is None:
                continue
            other = next((j for j in kinds if n in kinds[j]), None)
            rep.check(not b and other == k if other is not None else None, rule, '%s.get' % c.name, f.loc(),
                      'a packet is refused because its %s %s the %s asked for' % (n, 'equals' if b else 'is not', x.a[0]))


def evs(o):
    return [(e, ls) for e, ls in walk_events(o.events()) if isinstance(e.term, T)]


def saves(o, P):
    """[(event, what is saved)]: calls of save(), and writes into an open file"""
    return [(e, e.term.a[1]) for e, ls in evs(o) if e.kind in ('call', 'mut') and e.term.op in ('mcall', 'mut') and e.term.a[0] == 'save']


def direct_write(o, P):
    return any(e.term.op in ('mcall', 'mut', 'call') and pname(e.term) in ('write', 'tofile', 'write_bytes', 'put', 'append') and mentions(e.term, P) for e, ls in evs(o) if e.kind in ('call', 'mut'))


def known_stored(o, P):
    return any(a.op == 'in' and b and hash_of(a.a[0], P) for a, b in o.facts.items())


def tabled(o, P):
    """the packet is filed under its own hash"""
    return any(e.kind == 'setitem' and hash_of(e.term.a[1], P) and e.term.a[2] is P for e, ls in evs(o) if e.term.op == 'setitem')


def stored(rep, c, f, P, con, outs):
    rule = 'every packet put is stored'
    to_file = any(x is P for o in outs for e, x in saves(o, P))
    reads = c.find('get') is not None
    for o in outs:
        if to_file:
            ok = any(x is P for e, x in saves(o, P)) or known_stored(o, P)
            if not ok and direct_write(o, P):
                ok = None
            rep.check(ok, rule, con, f.loc(), 'the packet is not saved when %s' % when(o))
        if reads or not to_file:
            t = tabled(o, P)
            if t or known_stored(o, P):
                rep.ok(rule, con + ' (table)')
            else:
                any_put = any(e.kind in ('setitem', 'mut', 'call') and mentions(e.term, P) and e.term.op in ('setitem', 'mut') and 'packets' not in show(e.term.a[1] if e.term.op == 'mut' else e.term.a[0]) for e, ls in evs(o))
                rep.check(None if any_put or not reads else False, rule, con + ' (table)', f.loc(), 'the packet is not filed under its hash when %s' % when(o))


def when(o):
    return ', '.join(('' if b else 'not ') + show(a)[:50] for a, b in o.facts.items()) or 'nothing is known'


def wants(o, P):
    """do the facts of a path ask for a link? True, False (they say there is none to make), None (something else decides)"""
    asked = other = False
    for a, b in o.facts.items():
        if a.op == 'not':
            a, b = a.a[0], not b
        s = show(a)
        if 'link_named' in s and a.op == 'truth':
            if not b:
                return False
            asked = True
        elif a.op in ('truth', 'isa') and ('is_content_object' in s or a.op == 'isa'):
            if not b:
                return False
        elif a.op == 'truth' and 'is_interest' in s:
            if b:
                return False
        elif a.op == 'isnone' and name_of(a.a[0], P):
            if b:
                return False
        elif a.op == 'truth' and name_of(a.a[0], P):
            if not b:
                return False
        elif a.op == 'in' and hash_of(a.a[0], P):
            if b:
                other = True
        elif a.op == 'truth' and s.endswith('is_manifest())'):
            continue
        elif mentions(a, P):
            other = True
    return None if other else asked


def linked(rep, c, f, P, con, outs):
    rule = 'a named packet gets its link'
    made = [(o, e, x) for o in outs for e, x in saves(o, P) if x is not P]
    if not made and not any('link_named' in show(a) for o in outs for a in o.facts) and 'link_named_objects' not in (c.find('__init__').params if c.find('__init__') else []):
        return
    if not made and not any('link_named' in show(a) for o in outs for a in o.facts):
        rep.viol(rule, con, f.loc(), 'no links are made although %s takes link_named_objects' % c.name)
        return
    for o in outs:
        mine = [(e, x) for q, e, x in made if q is o]
        w = wants(o, P)
        if mine:
            rep.check(w is not False or None, rule, con, mine[0][0].loc(), 'a link is made when none is asked for')
            for e, x in mine:
                content(rep, rule, con, P, e, x)
        elif w is not False:
            rep.check(None if w is None and known_stored(o, P) or not any('link_named' in show(a) for a in o.facts) and made else False, rule, con, f.loc(), 'no link is made when %s' % when(o))


def content(rep, rule, con, P, e, x):
    links = [s for s in subs(x) if s.op == 'new' and pname(s) == 'Link']
    if not links:
        rep.und(rule, con, 'what is saved is %s' % show(x)[:100])
        return
    for l in links:
        kw = kwargs(canon(l))
        d, n = kw.get('digest'), kw.get('name')
        if d is None or d is NONE or d.op == 'const':
            rep.viol(rule, con, e.loc(), 'the link of a named packet has no hash')
        else:
            rep.check(True if hash_of(d, P) else None if mentions(d, P) and not name_of(d, P) else False, rule, con, e.loc(), 'the link of a packet carries %s' % show(d)[:60])
        rep.check(True if n is not None and name_of(n, P) else None if n is not None and mentions(n, P) else False, rule, con, e.loc(), 'the link of a packet names %s' % (show(n)[:60] if n is not None else 'nothing'))
    for s in subs(x):
        if pname(s) == 'create_link' and s.op in ('call', 'mcall'):
            n = arg(s, 'name', 1)
            if n is not None:
                rep.check(True if name_of(n, P) else None if mentions(n, P) else False, rule, con, e.loc(), 'the link object is published as %s' % show(n)[:60])


def files(ctx, fl, rep, c):
    """save() replaces the file by the whole encoding, load() decodes the whole file"""
    rule = 'a packet is read back whole'
    s, l = c.methods.get('save'), c.methods.get('load')
    if s is None or l is None or c.find('serialize') is None or c.find('deserialize') is None:
        return
    n = 0
    for f, want in ((s, 'w'), (l, 'r')):
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return':
                continue
            for e, ls in evs(o):
                t = e.term
                if e.kind != 'call' or t.op != 'call' or not show(t).startswith('open('):
                    continue
                m = [x for k, x in args_of(t) if k in (1, 'mode')] or [x for k, x in args_of(t)][1:2]
                m = m[0].a[0] if m and m[0].op == 'const' else None
                n += 1
                rep.check(None if m is None else 'b' in m and want in m and 'a' not in m and '+' not in m, rule, c.name + '.' + f.name, e.loc(), 'the file is opened with mode %r' % m)
            if f is s:
                ws = [e for e, ls in evs(o) if e.kind in ('call', 'mut') and pname(e.term) in ('write', 'tofile', 'write_bytes')]
                enc = [e for e in ws if any(x.op == 'mcall' and x.a[0] == 'serialize' and x.a[1] is SELF or x.op == 'attr' and x.a[0] is SELF for x in subs(e.term))]
                if len(ws) == 1 and enc and not ls_of(o, ws[0]):
                    cut = any(x.op in ('slice', 'idx') for x in subs(ws[0].term))
                    rep.check(not cut, rule, c.name + '.save', ws[0].loc(), 'only a part of the packet is saved: %s' % show(ws[0].term)[:80])
                    n += 1
                elif not ws:
                    rep.check(None if evs(o) and any(e.kind == 'loop' for e in o.events()) else False, rule, c.name + '.save', f.loc(), 'nothing is saved')
                else:
                    rep.und(rule, c.name + '.save', 'saved in several steps')
            else:
                rs = [x for x in subs(o.val) if x.op == 'mcall' and x.a[0] in ('read', 'read_bytes', 'fromfile', 'readline', 'readinto')]
                for x in rs:
                    lim = [y for k, y in args_of(x) if y is not x.a[1]]
                    n += 1
                    if x.a[0] == 'readline':
                        rep.viol(rule, c.name + '.load', f.loc(), 'only a line of the file is read')
                    elif x.a[0] == 'read':
                        rep.check(True if not lim or num(lim[0]) == -1 or lim[0] is NONE else False if num(lim[0]) is not None and not any(e.kind == 'loop' for e in o.events()) else None, rule, c.name + '.load', f.loc(),
                                  'only %s bytes of the file are read' % show(lim[0] if lim else NONE))
                cut = [x for x in subs(o.val) if x.op in ('slice', 'idx') and any(r in list(subs(x.a[0])) for r in rs)]
                if rs:
                    rep.check(not cut, rule, c.name + '.load', f.loc(), 'only a part of the file is decoded: %s' % show(cut[0])[:80] if cut else '')
                dec = any(x.op in ('mcall', 'call') and 'deserialize' in pname(x) or x.op == 'call' and 'deserialize' in show(x.a[0]) for x in subs(o.val))
                rep.check(True if dec else False if o.val is NONE else None, rule, c.name + '.load', f.loc(), 'load returns %s' % show(o.val)[:60])
    if not n:
        rep.und(rule, c.name, 'how packets are saved is not understood')


def ls_of(o, ev):
    return any(e is ev and ls for e, ls in walk_events(o.events()))


def shape(t):
    """a part of a path with what it is made of left out: H the hash, L the link name; None: not understood"""
    if t.op == 'mcall' and t.a[0] == 'hex':
        return 'H'
    if t.op in ('fstr', 'cat'):
        return 'L'
    if t.op == 'const':
        return repr(t.a[0])
    if t.op == 'slice':
        x = shape(t.a[0])
        return x and '%s[%s:%s]' % (x, show(t.a[1]), show(t.a[2]))
    return None


def spots(t):
    """path terms in t: (attribute of the directory, shapes of the parts below it)"""
    for x in subs(t):
        if x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0].split('.')[-1] in ('PurePath', 'Path', 'PosixPath', 'join'):
            xs = [y for k, y in args_of(x)]
            if len(xs) > 1 and xs[0].op == 'attr' and xs[0].a[0] is SELF:
                yield xs[0].a[1], tuple(shape(y) for y in xs[1:]), xs[1:]


def places(ctx, rep):
    """what is saved under its hash, or under its name, is loaded from there"""
    rule = 'a packet is looked for where it is kept'
    p = ctx.p
    fl = ctx.lazy('store.places', lambda: Flow(ctx, {'save', 'load'}, also=lambda f: f.name == 'to_path', samename=True, stop={'get_link_name'}))
    W, R = (next((c for c in p.classes.values() if c.name == n and c.find(m) is not None), None) for n, m in (('PacketWriter', 'put'), ('PacketReader', 'get')))
    if W is None or R is None:
        rep.und(rule, 'PacketWriter', 'no packet store')
        return
    kept, sought = {}, {}
    for base, name, made in ((W, 'put', kept), (R, 'get', sought)):
        for c in sorted(base.all_subs(), key=lambda c: c.qual):
            f = c.methods.get(name)
            if f is None or f.abstract:
                continue
            with rep.guard(rule, c.name):
                for o in fl.run(f, selfcls=c):
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind != 'call' or not isinstance(t, T) or t.op not in ('call', 'mcall') or pname(t).split('.')[-1] not in ('save', 'load', 'open', 'write_bytes', 'read_bytes'):
                            continue
                        for at, sh, xs in spots(t):
                            if all(x is None for x in sh):
                                sh = tuple('L' if any(pname(y) == 'get_link_name' for y in subs(x) if y.op in ('call', 'mcall')) else None for x in xs)
                            # the wrong kind of thing is not stored or asked for
                            inner = any(y.op == 'mcall' and y.a[0] == 'content_object_hash' for x in xs for y in subs(x))
                            if any('H' in (z or '') for z in sh) and inner != (base is W):
                                continue
                            made.setdefault(sh, (c, f, e))
    if not kept or not sought:
        rep.und(rule, 'PacketReader', 'no paths found')
        return
    for sh, (c, f, e) in sorted(kept.items(), key=lambda x: str(x[0])):
        con = '%s %s' % (c.name, '/'.join(z or '?' for z in sh))
        if any(z is None for z in sh) or any(z is None for q in sought for z in q):
            rep.und(rule, con, 'path not understood')
            continue
        if any('L' in z for z in sh) and len(sh) > 1 and not any(x.op == 'mcall' and x.a[0] == 'name' for x in subs(e.term)):
            continue
        rep.check(sh in sought, rule, con, e.loc(), 'a packet is kept at %s of the directory; it is looked for at %s only' % ('/'.join(sh), ' or '.join('/'.join(q) for q in sorted(sought))))


RULES = {'F15': [f15, f15_links, places]}
