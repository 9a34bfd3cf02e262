"""F04, F05, F09, F10: what is output, how large, under which name and with which fields."""
import ast
import itertools
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library
from .tree import short, pname, args_of, arg, payload_of, SELF
from .build import *
from .build import chained, short_c


def paths_in(evs, facts, loops=()):
    """every event with the facts known on its path: (event, loops, facts, events of the block)"""
    for e in evs:
        yield e, loops, facts, evs
        if e.kind == 'loop':
            for q in e.x.outs:
                f2 = dict(facts)
                f2.update(dict(q[2]))
                yield from paths_in(q[3], f2, loops + (e.x,))


def puts(o):
    """(event, packet, output, loops, facts, block) of every hand-over to an output on a path"""
    for e, ls, fs, blk in paths_in(o.events(), dict(o.facts)):
        t = e.term
        if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'put':
            yield e, canon(arg(t, 'packet', 0)), t.a[1], ls, fs, blk


def uses_size(f):
    return any(isinstance(n, ast.Attribute) and 'max_packet_size' in n.attr or isinstance(n, ast.Name) and 'max_packet_size' in n.id for n in ast.walk(f.node))


def maker_of(f):
    return f.name.startswith('create_') and f.cls is not None and f.cls.name in ('ContentObject', 'Packet')


def chunk_flow(ctx):
    return ctx.lazy('publish.chunk', lambda: Flow(ctx, {'put', 'read', 'get_name'}, also=lambda f: uses_size(f) or maker_of(f), samename=True))


def chunk_runs(ctx):
    """(function, concrete class, flow, outcomes) of everything that cuts data into packets"""
    def build():
        out = []
        fl = chunk_flow(ctx)
        for f in chunkers(ctx)[0]:
            for c in sorted(f.cls.all_subs() if f.cls is not None else [None], key=lambda c: c.qual if c else ''):
                if c is not None and (any(m.abstract for m in (c.find(n) for n in c_methods(c)) if m is not None) or c.find(f.name) is not f):
                    continue
                outs = fl.run(f, selfcls=c)
                out.append((f, c, fl, outs))
        return out
    return ctx.lazy('publish.chunks', build)


def c_methods(c):
    return {n for k in c.mro() for n in k.methods}


def data_chunks(o):
    """(loop, branch, ChunkMetadata events, put entries) per iteration of the cutting loop"""
    for e, ls, fs, blk in paths_in(o.events(), dict(o.facts)):
        if e.kind != 'loop':
            continue
        if not any(x.kind == 'new' and isinstance(x.term, T) and pname(x.term) == 'ChunkMetadata' for q in e.x.outs for x in q[3]):
            continue
        for q in e.x.outs:
            cm = [x for x in q[3] if x.kind == 'new' and isinstance(x.term, T) and pname(x.term) == 'ChunkMetadata']
            ps = [(x, canon(arg(x.term, 'packet', 0))) for x in q[3] if x.kind == 'call' and isinstance(x.term, T) and x.term.op == 'mcall' and x.term.a[0] == 'put']
            f2 = dict(fs)
            f2.update(dict(q[2]))
            yield e, q, cm, ps, f2


# ------------------------------------------------------------------ F04
def f04(ctx, rep):
    builder_puts(ctx, rep)
    chunk_puts(ctx, rep)
    publishers(ctx, rep)
    sinks(ctx, rep)
    writers(ctx, rep)
    metadata(ctx, rep)


def no_sink(facts, recv=None):
    """the path knows there is no output"""
    for a, v in facts.items():
        if a.op in ('isnone', 'truth') and v == (a.op == 'isnone') and a.a[0].op in ('attr', 'param') and ('output' in show(a.a[0]) or a.a[0] is recv):
            return True
    return False


def was_put(o, P):
    """is packet P handed to an output on path o: True, False, None"""
    maybe = False
    for e, x, recv, ls, fs, blk in puts(o):
        if x is P:
            if not ls:
                return True
            maybe = True
    return None if maybe else False


def builder_puts(ctx, rep):
    rule = 'a manifest that is pointed to has been output'
    for c, (cyc, entry) in builders(ctx).items():
        fl = tree_flow(ctx, c)
        recvs = {recv for f in entry for o in fl.run(f) for e, x, recv, ls, fs, blk in puts(o)}
        for f in sorted(entry | outer(ctx, c), key=lambda f: f.qual):
            con = short(f)
            with rep.guard(rule, con):
                ch = chained(fl, entry).get(f.name)
                for o in fl.run(f):
                    if o.kind != 'return':
                        continue
                    if f in entry:
                        P = arg(o.val, 'packet') if o.val.op == 'new' else None
                        if P is None:
                            rep.check(True if o.val.op == 'mcall' and o.val.a[0] in {g.name for g in entry} else None, rule, con, f.loc(), show(o.val)[:60])
                        else:
                            w = was_put(o, P)
                            if w is False and any(no_sink(o.facts, r) for r in recvs):
                                w = True
                            if w is False and P.op == 'attr' and (P.a[0].op == 'param' or P.a[0].op == 'mcall' and P.a[0].a[0] in {g.name for g in entry}):
                                w = True
                            rep.check(w, rule, con, f.loc(), 'the packet %s is returned without having been output' % show(P)[:60])
                    hashes(rep, rule, con, o, {g.name for g in entry}, ch, recvs)


def hashes(rep, rule, con, o, entry, ch, recvs):
    """every packet whose hash goes into a pointer was output"""
    for e, ls in walk_events(o.events()):
        p = point(e)
        if p is None or p[2] is None:
            continue
        P = child_of(canon(p[2]))
        if P is None:
            continue
        b = P
        while b.op == 'attr':
            b = b.a[0]
        if b.op == 'mcall' and b.a[0] in entry:
            rep.ok(rule, con)
        elif b.op == 'param' and b.a[0] == ch:
            rep.ok(rule, con)
        elif b.op == 'lv':
            rep.und(rule, con, 'pointer to %s' % show(P)[:60])
        else:
            w = was_put(o, P)
            if w is False and any(no_sink(o.facts, r) for r in recvs):
                w = True
            rep.check(w if P.op == 'mcall' and P.a[0] == 'build_packet' or w else None, rule, con, e.loc(), 'pointer to a packet that is not output: %s' % show(P)[:60])


def chunk_puts(ctx, rep):
    rule = 'every chunk read is output and listed'
    for f, c, fl, outs in chunk_runs(ctx):
        con = short(f)
        with rep.guard(rule, con):
            rets = [o for o in outs if o.kind == 'return']
            if not rets:
                rep.und(rule, con, 'no path returns')
            for o in rets:
                its = [x for x in data_chunks(o) if x[1][0] != 'raise']
                if not its:
                    rep.und(rule, con, 'no loop makes chunks')
                for e, q, cm, ps, fs in its:
                    if q[0] not in ('next', 'continue'):
                        if q[0] != 'break':
                            rep.und(rule, con, 'the loop is left by %s' % q[0])
                            continue
                        if not cm and not ps:
                            continue
                    rep.check(len(cm) == 1 and len(ps) == 1, rule, con, e.loc(), 'a step outputs %d packets and lists %d chunks' % (len(ps), len(cm)))
                    if len(cm) != 1 or len(ps) != 1:
                        continue
                    h = canon(arg(cm[0].term, 'content_object_hash'))
                    P = child_of(h)
                    rep.check(None if P is None else P is ps[0][1], rule, con, cm[0].loc(), 'listed is the hash of %s, output is %s' % (show(P)[:80] if P is not None else '?', show(ps[0][1])[:80]))
                    listed(rep, con, o, e, q, cm[0])
                    if q[0] != 'break':
                        consumed(rep, con, o, e, q, h)
                    drained(rep, con, e, data_payload(h))


def listed(rep, con, o, e, q, cm):
    """the new entry is put at the end of the list that is returned"""
    rule = 'chunks are listed in the order of the file'
    lst = arg(o.val, 'chunk_metadata') if o.val.op == 'new' else None
    adds = [x for x in q[3] if x.kind == 'mut' and mentions(x.term, cm.term)]
    if lst is None:
        rep.und(rule, con, 'returned is %s' % show(o.val)[:60])
        return
    if lst.op == 'call' and lst.a[0].op == 'ext' and lst.a[0].a[0] in ('reversed', 'sorted') or lst.op == 'slice':
        rep.check(False, rule, con, e.loc(), 'the list returned is %s' % show(lst)[:60])
        return
    if len(adds) == 1:
        t = adds[0].term
        rep.check(True if t.a[0] == 'append' else False if t.a[0] == 'insert' else None, rule, con, adds[0].loc(), 'a chunk is added with %s' % t.a[0])
        return
    up = [v for k, v in q[4].items() if mentions(v, cm.term)]
    if len(up) == 1:
        v = up[0]
        if v.op == 'app':
            rep.ok(rule, con)
        elif v.op == 'seq' and v.a[-1] is cm.term and all(x.op == 'spread' for x in v.a[1:-1]):
            rep.ok(rule, con)
        elif v.op == 'pre' or v.op == 'seq' and len(v.a) > 1 and v.a[1] is cm.term:
            rep.check(False, rule, con, e.loc(), 'a chunk is added in front')
        else:
            rep.und(rule, con, show(v)[:80])
        return
    rep.check(None if adds or up else False, rule, con, e.loc(), 'a chunk is output and not listed')


def consumed(rep, con, o, e, q, h):
    """each step takes the data of one read, no read is lost"""
    rule = 'all data read is output'
    pay = data_payload(h)
    if pay is None:
        rep.und(rule, con, 'payload of %s' % show(h)[:60])
        return
    reads = [x.term for x in q[3] if x.kind == 'call' and isinstance(x.term, T) and x.term.op == 'mcall' and x.term.a[0] == 'read']
    if pay.op == 'lv':
        init, up = e.x.init.get(pay.a[1]), q[4].get(pay.a[1])
        good = None
        if len(reads) == 1 and up is not None:
            good = up is reads[0] and init is not None and init.op == 'mcall' and init.a[0] == 'read'
        elif up is None:
            good = False
        elif len(reads) != 1 and all(x.op == 'mcall' for x in reads):
            good = False
        rep.check(good, rule, con, e.loc(), 'a step outputs %s, the next one %s, after %d reads' % (show(pay)[:40], show(up)[:60] if up is not None else 'the same', len(reads)))
    elif pay.op == 'mcall' and pay.a[0] == 'read':
        rep.check(len(reads) == 1 and reads[0] is pay, rule, con, e.loc(), 'a step reads %d times and outputs one' % len(reads))
    else:
        inner = [s for s in subs(pay) if s.op == 'mcall' and s.a[0] == 'read' or s.op == 'lv']
        rep.check(False if pay.op == 'slice' and inner else None, rule, con, e.loc(), 'output is %s' % show(pay)[:60])


def drained(rep, con, e, pay):
    """cutting stops only when the read gave nothing: no exit of the loop is possible with data at hand"""
    rule = 'cutting stops only at the end of the data'
    if pay is None:
        return
    for kind, facts in [('test', d) for d in e.x.exits] + [('break', q[2]) for q in e.x.outs if q[0] == 'break']:
        x = pay
        if kind == 'break':
            evs = next(q[3] for q in e.x.outs if q[2] is facts)
            if any(y.kind == 'call' and isinstance(y.term, T) and y.term.op == 'mcall' and y.term.a[0] == 'put' for y in evs):
                # this step's data has been output: at hand is what was read since
                reads = [y.term for y in evs if y.kind == 'call' and isinstance(y.term, T) and y.term.op == 'mcall' and y.term.a[0] == 'read']
                x = reads[-1] if reads and reads[-1] is not pay else None
            elif pay.op != 'lv' and not any(isinstance(y.term, T) and y.term is pay for y in evs):
                x = None
        elif pay.op != 'lv':
            x = None
        if x is None:
            if kind == 'break' or facts:
                rep.und(rule, con, 'the loop ends by %s' % ', '.join(show(a)[:50] for a, b in facts))
            continue
        fs = [(a, b) for a, b in facts if mentions(a, x)]
        rep.check(at_end(fs, x), rule, con, e.loc(), 'the loop can be left with data read and not output (%s)' % (
            ', '.join(('' if b else 'not ') + show(a)[:80] for a, b in fs) or 'nothing is known of the data'))


def at_end(facts, pay):
    """True: the data is empty; False: data of some size satisfies the conditions; None: not decided"""
    n = mk('len', pay)
    others = {}
    for a, b in facts:
        x = a.a[0] if a.op == 'not' else a
        if x.op == 'isnone' and x.a[0] is pay:
            if b != (a.op == 'not'):
                return True
            continue
        if x.op == 'truth' and x.a[0] in (pay, n):
            if b == (a.op == 'not'):
                return True
            continue
        if x.op == 'eq' and any(y is pay for y in x.a) and any(y.op == 'const' and y.a[0] in (b'', '') or y.op == 'seq' and len(y.a) == 1 for y in x.a):
            if b != (a.op == 'not'):
                return True
            continue
        if x.op not in ('lt0', 'eq'):
            return None
        for y in x.a:
            for z in (lin_parts(y)[1] if y.op != 'const' else ()):
                if z is not n:
                    others[z] = None
    if any(mentions(z, pay) for z in others) or len(others) > 2:
        return None
    others = list(others)
    for k in range(1, 9):
        for vs in itertools.product(range(1, 9), repeat=len(others)):
            env = dict(zip(others, vs))
            env[n] = k
            good = True
            for a, b in facts:
                x, c = (a.a[0], not b) if a.op == 'not' else (a, b)
                if x.op not in ('lt0', 'eq'):
                    continue
                w = [value_at(y, env) for y in x.a]
                if None in w:
                    return None
                if (w[0] < 0 if x.op == 'lt0' else w[0] == w[1]) != c:
                    good = False
                    break
            if good:
                return False
    return True


def publisher_classes(ctx):
    """classes outside the recursion and the writers that hand packets to an output"""
    p = ctx.p
    W = p.cls('PacketWriter')
    bs = builders(ctx)
    skip = {f.cls for f in chunkers(ctx)[0]}
    out = []
    for c in p.classes.values():
        if c.isa(W) or c in bs or c in skip or 'ccnpy.apps' in c.qual:
            continue
        if any(calls_of(f, 'build_packet') for f in c.methods.values()) and c.find('__init__') is not None and any('packet_output' in f.params or calls_of(f, 'put') for f in c.methods.values()):
            out.append(c)
    return sorted(out, key=lambda c: c.qual)


def aside(ctx):
    """functions that measure manifests, choose the shape or cut the data"""
    def build():
        ms = measures(ctx)
        out = {f.name for f in ms} | {f.name for f in chunkers(ctx)[0]}
        for f in ms:
            up = {g.name for g in f.cls.methods.values() if calls_of(g, f.name)}
            out |= up
            out |= {h.name for h in library(ctx.p) if any(calls_of(h, n) for n in up) and h.name not in ('build', 'build_root', 'build_top', '__init__')}
        return out | {'create'}
    return ctx.lazy('publish.aside', build)


def pub_flow(ctx):
    def build():
        stop = {g.name for c, (cyc, entry) in builders(ctx).items() for g in entry} | {g.name for c in builders(ctx) for g in outer(ctx, c)} | aside(ctx)
        return Flow(ctx, {'put', 'build_packet', 'get_name', 'uses_name_id', 'nc_id', 'nc_def'}, stop=stop, samename=True)
    return ctx.lazy('publish.pub', build)


def publishers(ctx, rep):
    rule = 'the packets a tree returns have been output'
    fl = pub_flow(ctx)
    outers = {g.name for c in builders(ctx) for g in outer(ctx, c)}
    for c in publisher_classes(ctx):
        for f in sorted(c.methods.values(), key=lambda f: f.qual):
            if f.name.startswith('_') or f.name not in fl.rel and f.name not in outers:
                continue
            con = short(f)
            with rep.guard(rule, con):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    v = canon(o.val)
                    if v.op == 'mcall' and v.a[0] == 'build_packet':
                        rep.check(was_put(o, v) or (True if no_sink(o.facts) else was_put(o, v)), rule, con, f.loc(), 'returned is a packet that has not been output')
                    elif v.op == 'mcall' and v.a[0] in outers:
                        rep.ok(rule, con)
                    elif fl.i.typeof(v, o.st).classes and any(k.name == 'Packet' for k in fl.i.typeof(v, o.st).classes):
                        rep.und(rule, con, show(v)[:60])
                    # the pointers of what was output
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind != 'call' or not isinstance(t, T) or t.op != 'mcall' or t.a[0] != 'build_packet':
                            continue
                        hs = {child_of(s) for s in subs(t) if s.op == 'mcall' and child_of(s) is not None}
                        rep.check(True if hs else None, 'the root points to the top manifest', con, e.loc(), 'no pointer')
                        for P in hs:
                            if P.op == 'param':
                                rep.ok('the root points to the top manifest', con)
                            elif P.op == 'mcall' and P.a[0] in outers:
                                rep.ok('the root points to the top manifest', con)
                            elif P.op == 'mcall' and P.a[0] == 'build_packet':
                                rep.check(was_put(o, P) or (True if no_sink(o.facts) else was_put(o, P)), 'the root points to the top manifest', con, e.loc(), 'pointer to a packet that is not output')
                            else:
                                rep.und('the root points to the top manifest', con, show(P)[:60])
                        q = was_put(o, t)
                        rep.check(True if q or no_sink(o.facts) else None if q is None else False, rule, con, e.loc(), 'a manifest is built and not output')


def sinks(ctx, rep):
    """one output for all packets of a tree"""
    rule = 'all packets of a tree go to one output'
    p = ctx.p
    fl = ctx.lazy('publish.sink', lambda: Flow(ctx, {'chunk_data', 'put'} | {f.name for f in chunkers(ctx)[0]}, stop=aside(ctx), samename=True))
    cf = {f.name for f in chunkers(ctx)[0]}
    bs = builders(ctx)
    for c in publisher_classes(ctx):
        con = short_c(c)
        with rep.guard(rule, con):
            where = set()
            for f in c.methods.values():
                for o in pub_flow(ctx).run(f, selfcls=c):
                    for e, x, recv, ls, fs, blk in puts(o):
                        where.add(recv)
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind == 'new' and isinstance(t, T) and ctx.p.classes.get(t.a[0].a[0]) in bs:
                            v = arg(t, 'packet_output')
                            rep.check(None if v is None else v.op == 'attr' and v.a[0] is SELF, rule, con, e.loc(), 'the tree builder outputs to %s' % (show(v)[:60] if v is not None else '?'))
                            if v is not None:
                                where.add(v)
            attrs = {w.a[1] for w in where if w.op == 'attr' and w.a[0] is SELF}
            rep.check(len(attrs) == 1 and len(where) == 1 or None, rule, con, c.methods['__init__'].loc(), 'outputs: %s' % ', '.join(sorted(show(w) for w in where)))
            for o in fl.i.ctor(c):
                if o.kind == 'raise':
                    continue
                held = {v for (r, a), v in o.st.heap.items() if r is SELF and a in attrs}
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] in cf:
                        v = arg(t, 'packet_output', 1)
                        rep.check(None if v is None or not held else True if v in held or v.op == 'attr' and v.a[0] is SELF and v.a[1] in attrs else False if v.op in ('param', 'const', 'new') else None, rule, con, e.loc(), 'data is output to %s, manifests to %s' % (show(v)[:40] if v is not None else '?', ', '.join(show(x)[:40] for x in held)))
    for c in bs:
        with rep.guard(rule, short_c(c)):
            recvs = {recv for f in bs[c][1] for o in tree_flow(ctx, c).run(f) for e, x, recv, ls, fs, blk in puts(o)}
            at = {r.a[1] for r in recvs if r.op == 'attr' and r.a[0] is SELF}
            for o in fl.i.ctor(c):
                if o.kind != 'raise':
                    for a in at:
                        v = o.st.heap.get((SELF, a))
                        rep.check(True if v is mk('param', 'packet_output') else None if v is None or v.op not in ('const', 'new') else False, rule, short_c(c), c.methods['__init__'].loc(), '%s is %s' % (a, show(v)[:40] if v is not None else '?'))


def writers(ctx, rep):
    """an output keeps every packet it is handed"""
    rule = 'an output keeps what it is handed'
    p = ctx.p
    W = p.cls('PacketWriter')
    fl = ctx.lazy('publish.writer', lambda: Flow(ctx, {'save', 'sendall', 'send', 'write'}, stop={'_write_link', 'to_path'}, samename=True))
    for c in sorted(W.all_subs(), key=lambda c: c.qual):
        f = c.methods.get('put')
        if f is None or f.abstract or 'ccnpy' not in c.qual:
            continue
        con = short(f)
        P = mk('param', next(n for n in f.params if n != f.first))
        with rep.guard(rule, con):
            for o in fl.run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                kept = None
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind in ('call', 'mut') and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'save' and t.a[1] is P and not ls:
                        kept = 'saved'
                    if isinstance(t, T) and t.op == 'mcall' and t.a[0] in ('sendall', 'send', 'write') and any(serialized(x) is P for x in t.a[2:] if isinstance(x, T)) and not ls:
                        kept = 'sent' if t.a[0] != 'send' else 'partly'
                st = [(k, v) for k, v in o.st.heap.items() if mentions(v, P) and k[0] is SELF]
                lists = [e for e, ls in walk_events(o.events()) if e.kind in ('mut', 'setitem') and isinstance(e.term, T) and mentions(e.term, P)]
                have = any(a.op == 'in' and v and mentions(a, P) for a, v in o.facts.items())
                if kept is None and (st or lists):
                    # what readers look packets up in
                    look = lookups(ctx, c)
                    hit = [k for k, v in st if k[1] in look and v.op != 'lin'] + [e for e in lists if e.kind == 'setitem' and at_of(e.term) in look]
                    if hit or have:
                        kept = 'stored'
                    elif look:
                        kept = 'elsewhere'
                good = {'saved': True, 'sent': True, 'stored': True, 'partly': None, 'elsewhere': False, None: False}[kept]
                rep.check(good, rule, con, f.loc(), 'a packet can be handed over on a path that does not keep it')
    f = p.fn('Packet.save')
    rule = 'a saved packet is the encoded packet'
    with rep.guard(rule, short(f)):
        for o in ctx.lazy('publish.save', lambda: Flow(ctx, {'write'}, samename=True)).run(f):
            if o.kind != 'return':
                continue
            w = [e.term for e, ls in walk_events(o.events()) if isinstance(e.term, T) and e.term.op in ('mcall', 'mut') and e.term.a[0] in ('write', 'tofile', 'write_bytes') and e.kind in ('call', 'mut')]
            good = False
            for t in w:
                xs = [t.a[1]] if t.a[0] == 'tofile' else [y for y in t.a[2:] if isinstance(y, T) and y.op != 'const']
                if any(serialized(y) is SELF for y in xs):
                    good = True
                elif good is False and any(mentions(y, SELF) for y in xs) and not any(y.op == 'slice' or serialized(y) is not None for y in xs):
                    good = None
            rep.check(good if len(w) == 1 else None if w else False, rule, short(f), f.loc(), 'written is %s' % ', '.join(show(t)[:60] for t in w))


def at_of(t):
    x = t.a[0]
    while x.op == 'idx':
        x = x.a[0]
    return x.a[1] if x.op == 'attr' else None


def lookups(ctx, c):
    """attributes the get() of a class looks packets up in"""
    g = c.find('get')
    out = set()
    if g is not None and not g.abstract:
        for n in ast.walk(g.node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute):
                out.add(n.value.attr)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'get' and isinstance(n.func.value, ast.Attribute):
                out.add(n.func.value.attr)
    return out


def metadata(ctx, rep):
    """positions in the file's metadata are positions in the list of chunks"""
    rule = 'position n of the metadata is chunk n'
    p = ctx.p
    fl = ctx.lazy('build.shallow', lambda: Flow(ctx, set(), samename=True))
    for c in sorted({f for f in p.classes.values() if 'chunk_metadata' in f.anns and '__getitem__' in f.methods}, key=lambda c: c.qual):
        M = mk('attr', SELF, 'chunk_metadata')
        f = c.methods['__getitem__']
        with rep.guard(rule, short(f)):
            i = mk('param', next(n for n in f.params if n != f.first))
            for o in fl.run(f, selfcls=c):
                if o.kind == 'return':
                    v = canon(o.val)
                    rep.check(True if v is mk('idx', M, i) else False if v.op == 'idx' and v.a[0] is M and any(mentions(v.a[1], i) for _ in [0]) else None, rule, short(f), f.loc(), 'element n is %s' % show(v)[:60])
        f = c.methods.get('__len__')
        if f is not None:
            with rep.guard(rule, short(f)):
                for o in fl.run(f, selfcls=c):
                    if o.kind == 'return':
                        v = canon(o.val)
                        c_, d = lin_parts(v)
                        rep.check(True if v is mk('len', M) else False if set(d) == {mk('len', M)} or v.op == 'const' else None, rule, short(f), f.loc(), 'the length is %s' % show(v)[:60])


# ------------------------------------------------------------------ F05
def f05(ctx, rep):
    checked(ctx, rep)
    exactly_full(ctx, rep)
    reserve_data(ctx, rep)
    reserve_manifest(ctx, rep)


def within(P, facts):
    """does the path know that the length of packet P is at most the configured maximum: True; False: known to be checked
    against something else or not at all; None unknown"""
    L = mk('len', P)
    seen = False
    for a, v in facts.items():
        if not mentions(a, L):
            continue
        seen = True
        if a.op != 'lt0':
            continue
        c, d = lin_parts(a.a[0])
        m = [x for x in d if x is not L]
        if len(m) != 1 or set(d) != {L, m[0]} or 'max_packet_size' not in show(m[0]) and 'max_size' not in show(m[0]):
            continue
        k, g = d[L], d[m[0]]
        if v is False and k == -1 and g == 1:       # c + M - L >= 0
            if c <= 0:
                return True
            return False
        if v is True and k == 1 and g == -1:        # c + L - M < 0
            if c >= -1:
                return True
            return False
    return None if seen else False


def checked(ctx, rep):
    rule = 'the size is checked before output'
    for f, c, fl, outs in chunk_runs(ctx):
        con = short(f)
        with rep.guard(rule, con):
            seen = set()
            for o in outs:
                for e, P, recv, ls, fs, blk in puts(o):
                    k = (P, frozenset((show(a), v) for a, v in fs.items() if mentions(a, mk('len', P))))
                    if k in seen:
                        continue
                    seen.add(k)
                    rep.check(within(P, fs), rule, con, e.loc(), 'the data packet is output without a check of its size')
    for c, (cyc, entry) in builders(ctx).items():
        fl = tree_flow(ctx, c)
        for f in sorted(entry | outer(ctx, c), key=lambda f: f.qual):
            con = short(f)
            with rep.guard(rule, con):
                for o in fl.run(f):
                    for e, P, recv, ls, fs, blk in puts(o):
                        b = P
                        while b.op == 'attr':
                            b = b.a[0]
                        if b.op == 'mcall' and b.a[0] in {g.name for g in entry}:
                            rep.ok(rule, con)
                            continue
                        rep.check(within(P, fs), rule, con, e.loc(), 'the manifest is output without a check of its size')


def asked(ctx, rep):
    """the input is read in pieces of at least one byte: reading none looks like the end of the input"""
    rule = 'a read asks for at least one byte'
    for f, c, fl, outs in chunk_runs(ctx):
        con = short(f)
        with rep.guard(rule, con):
            seen = set()
            for o in outs:
                for e, ls, fs, blk in paths_in(o.events(), dict(o.facts)):
                    t = e.term
                    if e.kind != 'call' or not isinstance(t, T) or t.op != 'mcall' or t.a[0] != 'read':
                        continue
                    pos = [x for k, x in args_of(t)[1:]]
                    n = canon(pos[0]) if pos else None
                    if n is None or n is NONE:
                        rep.ok(rule, con)
                        continue
                    st = St()
                    for a, b in fs.items():
                        st.facts[canon(a)] = b
                    atom = fl.i.lt0(add(n, const(1), -1))
                    d = atom.a[0] if atom.op == 'const' else fl.i.decide(atom, st)
                    if (n, d) in seen:
                        continue
                    seen.add((n, d))
                    room = n.op == 'lin' and any(k < 0 and x.op == 'len' for x, k in lin_parts(n)[1].items()) and any(k > 0 and 'max_packet_size' in show(x) for x, k in lin_parts(n)[1].items())
                    other = any(a.op == 'lt0' and any(mentions(a, x) for x in lin_parts(n)[1] if x.op == 'len') for a in st.facts) if room else False
                    if d is None and room and other:
                        d = None if st_bound(n, st, 0) is None else st_bound(n, st, 0) or st_bound(n, st, -1000)
                    rep.check(True if d is False else False if d is True or room and not other else None, rule, con, e.loc(), 'the room left for data is not known to be positive: with no room nothing is read and nothing is published')


def st_bound(n, st, v):
    """do the facts about what n is made of allow n = v ?  None: not all of them are about n"""
    c, d = lin_parts(n)
    for a, b in st.facts.items():
        if a.op != 'lt0' or not any(mentions(a, x) for x in d if x.op == 'len'):
            continue
        c2, d2 = lin_parts(a.a[0])
        if set(d2) != set(d):
            return None
        ks = {d2[x] / d[x] for x in d}
        if len(ks) != 1:
            return None
        k = ks.pop()            # a: c2 + k * (n - c) < 0
        if (c2 + k * (v - c) < 0) != b:
            return False
    return True


def exactly_full(ctx, rep):
    """what is made is refused only if it is longer than the maximum"""
    rule = 'a packet that fits is not refused'
    fl = ctx.lazy('publish.full', lambda: Flow(ctx, {'build_packet', 'create_content_object', 'create_data', 'create_manifest'}))
    for f in sorted(library(ctx.p), key=lambda f: f.qual):
        if not uses_size(f):
            continue
        con = short(f)
        with rep.guard(rule, con):
            outs = fl.run(f, selfcls=f.cls)
            made = set()
            for o in outs:
                if o.kind == 'return' and o.val is not None and o.val.op not in ('lin', 'len', 'const'):
                    made |= {x for x in subs(o.val)}
            for o in outs:
                if o.kind != 'raise' or not o.facts:
                    continue
                a, b = list(o.facts.items())[-1]
                if a.op != 'lt0':
                    continue
                c, d = lin_parts(a.a[0])
                ls = [x for x in d if x.op == 'len']
                ms = [x for x in d if x.op != 'len' and ('max_packet_size' in show(x) or 'max_size' in show(x))]
                if len(ls) != 1 or len(ms) != 1 or len(d) != 2 or ls[0].a[0] not in made:
                    continue
                full = (value_at(a.a[0], {ls[0]: 1000, ms[0]: 1000}) < 0) == b
                rep.check(not full, rule, con, f.loc(), '%s refuses a packet that is exactly as long as the maximum' % con)


def covers(s, r, facts):
    """does a field with value s take at least as much room as one with value r: True, False, None"""
    if s is r or r is NONE:
        return True
    if s is NONE:
        return False
    if s.op in ('attr', 'param') and mentions(r, s) or r.op in ('attr', 'param') and mentions(s, r):
        return True             # one is the other one converted
    if s.op == r.op and s.op in ('new', 'mcall') and s.a[0] is r.a[0] or s.op == r.op == 'new' and s.a[0] == r.a[0]:
        if s.op == 'mcall':
            if s.a[1] is not r.a[1]:
                return None
            xs, ys = dict(args_of(s)), dict(args_of(r))
            xs.pop('self', None), ys.pop('self', None)
        else:
            xs, ys = kwargs(s), kwargs(r)
        out = True
        for k in set(xs) | set(ys):
            a, b = xs.get(k), ys.get(k)
            if a is None or b is None:
                return None
            n = num(a)
            if a is b:
                continue
            if n is not None:
                m = num(b)
                if m is None:
                    m = upper(b, facts)
                if m is not None:
                    g = nbytes(m) <= nbytes(n)
                else:
                    g = None if any(f.op == 'lt0' and any(mentions(f, x) for x in lin_parts(b)[1]) for f in facts) else False
            else:
                g = covers(a, b, facts)
            if g is not True:
                out = g
        return out
    return None


def upper(b, facts):
    """the largest value b can have by the facts of the path"""
    best = None
    for f, v in facts.items():
        if f.op == 'lt0':
            d = add(f.a[0], b) if not v else add(b, f.a[0], -1)
            if d.op == 'const':
                u = d.a[0] if not v else d.a[0] - 1
                best = u if best is None else min(best, u)
    return best


def nbytes(n):
    return max(1, (abs(n).bit_length() + 7) // 8)


def body_of_packet(P):
    """the fields of the content object in packet P"""
    if P is None or P.op != 'new':
        return None
    b = arg(P, 'body')
    if b is None:
        b = arg(P, 'content_object')
    return kwargs(b) if b is not None and b.op == 'new' else None


def reserve_data(ctx, rep):
    rule = 'room for every field of a data packet'
    for f, c, fl, outs in chunk_runs(ctx):
        con = '%s for %s' % (short(f), c.name if c else '')
        with rep.guard(rule, con):
            for o in outs:
                if o.kind != 'return':
                    continue
                for e, q, cm, ps, fs in data_chunks(o):
                    if q[0] == 'raise':
                        continue
                    for ev, P in ps:
                        real = body_of_packet(P)
                        if real is None:
                            rep.und(rule, con, 'packet %s' % show(P)[:60])
                            continue
                        pay = payload_bytes(P)
                        sizes = read_sizes(o, e, q, pay)
                        if not sizes:
                            rep.und(rule, con, 'how much is read')
                        for n in sizes:
                            room(rep, rule, con, ev, n, P, real, fs)


def payload_bytes(P):
    for x in subs(P):
        if x.op == 'new' and pname(x) == 'Payload':
            v = x.a[3] if len(x.a) > 3 else None
            while v is not None and (v.op in ('arr', 'tobytes', 'spread') or v.op == 'seq' and len(v.a) == 2 and v.a[1].op == 'spread'):
                v = v.a[1].a[0] if v.op == 'seq' else v.a[0]
            return v
    return None


def read_sizes(o, e, q, pay):
    out = set()
    xs = [pay]
    if pay is not None and pay.op == 'lv':
        xs = [e.x.init.get(pay.a[1]), q[4].get(pay.a[1])]
    for x in xs:
        if x is not None and x.op == 'mcall' and x.a[0] == 'read' and len(x.a) > 3:
            pos, kw = margs(x)
            out |= set(pos) | set(kw.values())
    return out


def room(rep, rule, con, ev, n, P, real, fs):
    c, d = lin_parts(n)
    ls = [x for x in d if x.op == 'len' and d[x] == -1]
    ms = [x for x in d if 'max_packet_size' in show(x) and x.op != 'len' and d[x] == 1]
    if len(ls) != 1 or len(ms) != 1 or len(d) != 2:
        rep.check(False if not ls and ms else None, rule, con, ev.loc(), 'read are %s bytes' % show(n)[:80])
        return
    rep.check(c <= 0, rule, con, ev.loc(), '%d bytes more are read than there is room for' % c)
    R = body_of_packet(ls[0].a[0])
    if R is None and ls[0].a[0].op == 'new' and pname(ls[0].a[0]) != 'Packet':
        rep.check(False, rule, con, ev.loc(), 'room is measured on the %s alone' % pname(ls[0].a[0]))
        return
    if R is None:
        rep.und(rule, con, 'room is measured on %s' % show(ls[0].a[0])[:60])
        return
    for k in sorted(set(real) | set(R)):
        a, b = R.get(k, NONE), real.get(k, NONE)
        if k == 'payload':
            rep.check(True if a is not NONE or b is NONE else False, rule, con, ev.loc(), 'no room for the header of the payload')
            continue
        rep.check(covers(a, b, fs), rule, con, ev.loc(), 'no room for %s: the packet has %s, measured was %s' % (k, show(b)[:60], show(a)[:60]))
    for k in ('validation_alg', 'validation_payload'):
        a, b = kwargs(ls[0].a[0]).get(k, NONE), kwargs(P).get(k, NONE)
        rep.check(covers(a, b, fs) if b is not NONE else True, rule, con, ev.loc(), 'no room for %s' % k)


def size_flow(ctx):
    return ctx.lazy('publish.size', lambda: Flow(ctx, {'build_packet', 'hash_group', 'hash_groups', 'get_name', 'uses_name_id'} | POINT, samename=True))


def measures(ctx):
    """functions that build a manifest only to measure it"""
    def build():
        out = []
        skip = set(builders(ctx)) | set(publisher_classes(ctx)) | {f.cls for f in factories(ctx)}
        for f in library(ctx.p):
            if f.cls is not None and f.cls not in skip and not f.abstract and calls_of(f, 'build_packet'):
                out.append(f)
        return sorted(out, key=lambda f: f.qual)
    return ctx.lazy('publish.measures', build)


def fact_of(facts, *names):
    """truth of the method calls `names` (last parts of a dotted path) on the path"""
    for a, v in facts.items():
        if a.op == 'truth' and a.a[0].op == 'mcall':
            s = show(a.a[0]).replace('()', '')
            if s.split('#')[0].endswith('.'.join(names)):
                return v
    return None


def option(facts, name):
    for a, v in facts.items():
        if a.op == 'truth' and a.a[0].op == 'attr' and a.a[0].a[1] == name:
            return v
    return None


def is_option(t, name):
    return t is not None and (t.op == 'attr' and t.a[1] == name)


def big(ctx, n):
    """is the number at least as long in bytes as the largest chunk number"""
    best = 0
    for c in ctx.p.classes.values():
        v = c.attrs.get('_MAX_CHUNK_ID')
        if isinstance(v, ast.Constant) and isinstance(v.value, int):
            best = max(best, v.value)
    return nbytes(n) >= nbytes(best or 0xffffff)


def reserve_manifest(ctx, rep):
    rule = 'room for every field of a manifest'
    fl = size_flow(ctx)
    for f in measures(ctx):
        con = short(f)
        with rep.guard(rule, con):
            for o in fl.run(f):
                if o.kind != 'return':
                    continue
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'build_packet':
                        one_measure(ctx, rep, rule, con, f, o, e, t)
    for f in measures(ctx):
        measured(ctx, rep, f)


def one_measure(ctx, rep, rule, con, f, o, e, t):
    loc = e.loc()
    x = arg(t, 'expiry_time')
    rep.check(True if is_option(x, 'manifest_expiry_time') else False if x is None or x is NONE or x.op == 'attr' else None, rule, con, loc, 'the expiry time measured is %s' % (show(x) if x is not None else 'none'))
    x = arg(t, 'name')
    good = None
    if x is not None and x.op == 'mcall' and x.a[0] == 'get_name':
        n = [num(v) for k, v in args_of(x) if num(v) is not None]
        good = len(n) == 1 and big(ctx, n[0]) and 'manifest' in show(x.a[1])
        if not n:
            good = None
    elif x is None or x is NONE:
        good = False
    rep.check(good, rule, con, loc, 'the name measured is %s' % (show(x) if x is not None else 'none'))
    x = arg(t, 'node_subtree_size')
    rep.check(False if x is None or x is NONE or num(x) is not None else True if 'total' in show(x) else None, rule, con, loc, 'the node size measured is %s' % (show(x) if x is not None else 'none'))
    src = arg(t, 'source', 0)
    hg = src
    if hg is not None and hg.op == 'new' and pname(hg) == 'Node':
        hg = arg(hg, 'hash_groups')
    calls = [hg] if hg is not None and hg.op == 'mcall' else list(hg.a[1:]) if hg is not None and hg.op == 'seq' else []
    if not calls or not all(y.op == 'mcall' and y.a[0] in ('hash_group', 'hash_groups') for y in calls):
        rep.und(rule, con, 'measured is %s' % (show(src)[:60] if src is not None else '?'))
        return
    for y in calls:
        for n, on in (('include_leaf_size', 'add_group_leaf_size'), ('include_subtree_size', 'add_group_subtree_size')):
            v = arg(y, n)
            if v is None:
                rep.check(False, rule, con, loc, '%s is not given' % n)
                continue
            want = option(o.facts, on)
            if v.op == 'const':
                rep.check(True if v.a[0] else (True if want is False else False if want is None or want else None), rule, con, loc, 'a group size is left out of what is measured although %s may be set' % on)
            else:
                rep.check(True if is_option(v, on) or v.op == 'or' and any(is_option(z, on) for z in v.a) else False if v.op == 'attr' and v.a[1].startswith('add_') or v.op in ('isnone', 'not', 'eq', 'isa') and not any(is_option(z, on) for z in subs(v)) else None, rule, con, loc, '%s is %s' % (n, show(v)[:60]))
        if y.a[0] != 'hash_groups':
            rep.und(rule, con, 'a single group is measured')
            continue
        for n, who in (('direct_start_segment_id', 'data'), ('indirect_start_segment_id', 'manifest')):
            v = arg(y, n)
            v = NONE if v is None else v
            uses = None
            for a, b in o.facts.items():
                if a.op == 'truth' and a.a[0].op == 'mcall' and a.a[0].a[0] == 'uses_name_id' and a.a[0].a[1].op == 'attr' and a.a[0].a[1].a[1].startswith(who):
                    uses = b
            if uses is None:        # the schemas are of one kind: the other one's answer is as good
                both = {b for a, b in o.facts.items() if a.op == 'truth' and a.a[0].op == 'mcall' and a.a[0].a[0] == 'uses_name_id'}
                if len(both) == 1:
                    uses = both.pop()
            if uses is False:
                rep.ok(rule, con)
            elif v is NONE:
                rep.check(False, rule, con, loc, 'no room for the start number of the %s pointers' % who)
            else:
                k = num(arg(v, 'value')) if v.op == 'new' else None
                cut = v.op == 'new' and arg(v, 'value') is not None and (arg(v, 'value').op in ('fdiv', 'shr', 'mod', 'len', 'band') or arg(v, 'value').op == 'min')
                rep.check(None if k is None and not cut else k is not None and big(ctx, k), rule, con, loc, 'the start number measured is %s: the numbers used can be larger' % show(v)[:60])
    # as many pointers as asked for
    cnt = const(0)
    ok = True
    for e2, ls in walk_events(o.events()):
        q = point(e2)
        if q is None:
            continue
    total, sizes = count_points(o)
    n = mk('param', count_param(f))
    if total is None:
        rep.und(rule, con, 'number of pointers measured')
    else:
        d = add(total, n, -1)
        rep.check(True if d.op == 'const' and d.a[0] >= 0 else False if d.op == 'const' else None, rule, con, loc, 'measured are %s pointers' % show(total))
    for kind, on in (('direct', ('add_group_leaf_size', 'add_group_subtree_size')), ('indirect', ('add_group_subtree_size',))):
        want = not all(option(o.facts, k) is False for k in on)
        if want and sizes is not None:
            s = sizes.get(kind, [])
            good = any(v is not None and num(v) is None and v is not NONE for v in s)
            rep.check(good, rule, con, loc, 'the size of the %s pointers measured is %s' % (kind, ', '.join(show(v) for v in s if v is not None)))


def count_param(f):
    return next((k for k in f.params if 'num' in k or 'count' in k), '?')


def count_points(o):
    """(number of pointers added on the path, sizes by kind)"""
    total = const(0)
    sizes = {}

    def go(evs):
        n = const(0)
        for e in evs:
            q = point(e)
            if q is not None:
                n = add(n, const(1))
                sizes.setdefault(q[0].split('_')[1], []).append(q[3])
            if e.kind == 'loop':
                ks = {go(b[3]) for b in e.x.outs if b[0] in ('next', 'continue')}
                if None in ks or len(ks) > 1:
                    return None
                k = ks.pop() if ks else const(0)
                if k is const(0):
                    continue
                if e.x.kind != 'for' or any(b[0] not in ('next', 'continue', 'raise') for b in e.x.outs):
                    return None
                r = rng(e.x.iter)
                if r is None or num(k) is None:
                    return None
                n = add(n, add(r[1], r[0], -1), num(k))
        return n
    total = go(o.events())
    return total, sizes


def measured(ctx, rep, f):
    """the number of pointers found is one whose manifest was measured to fit"""
    rule = 'the number of pointers fits'
    for g in f.cls.methods.values():
        if g is f or not calls_of(g, f.name):
            continue
        con = short(g)
        fl = ctx.lazy('publish.measure.%s' % f.qual, lambda: Flow(ctx, {f.name}, samename=True))
        with rep.guard(rule, con):
            for o in fl.run(g):
                if o.kind != 'return':
                    continue
                v = o.val
                if num(v) is not None:
                    rep.und(rule, con, 'returns %s' % show(v))
                    continue
                good = None
                for a, b in o.facts.items():
                    if a.op != 'lt0':
                        continue
                    c, d = lin_parts(a.a[0])
                    m = [x for x in d if 'max_packet_size' in show(x) and x.op == 'attr' or x.op == 'param' and 'max' in show(x)]
                    l = [x for x in d if x not in m]
                    if len(m) != 1 or len(l) != 1 or len(d) != 2:
                        continue
                    fits = b is False and d[m[0]] == 1 and d[l[0]] == -1 and c <= 0 or b is True and d[m[0]] == -1 and d[l[0]] == 1 and c >= -1
                    if not fits:
                        continue
                    k = measured_for(o, l[0], f)
                    if k is not None and (k is v or add(k, v, -1).op == 'const' and add(k, v, -1).a[0] >= 0):
                        good = True
                if good is None:
                    c, d = lin_parts(v)
                    base_ = [x for x in d if x.op == 'lv']
                    for a, b in o.facts.items():
                        if a.op == 'lt0':
                            ks = [measured_for(o, x, f) for x in lin_parts(a.a[0])[1]]
                            if any(k is not None for k in ks) and all(k is None or add(k, v, -1).op == 'const' and add(k, v, -1).a[0] < 0 for k in ks) and base_:
                                good = False
                    if not any(a.op == 'lt0' and any(measured_for(o, x, f) is not None for x in lin_parts(a.a[0])[1]) for a in o.facts):
                        good = False
                rep.check(good, rule, con, g.loc(), 'the number %s is returned without a manifest of that many pointers being measured to fit' % show(v)[:60])
    # used
    rule = 'no more pointers than fit'
    names = {g.name for g in f.cls.methods.values() if g is not f and calls_of(g, f.name)}
    for h in library(ctx.p):
        if h.cls is f.cls or not any(calls_of(h, n) for n in names):
            continue
        con = short(h)
        fl = ctx.lazy('publish.use.%s' % f.qual, lambda: Flow(ctx, names, samename=True))
        with rep.guard(rule, con):
            for o in fl.run(h):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'new' and isinstance(t, T) and any(t.a[i] == 'num_pointers' for i in range(2, len(t.a), 2)):
                        v = arg(t, 'num_pointers')
                        N = [s for s in subs(v) if s.op == 'mcall' and s.a[0] in names]
                        if not N:
                            rep.check(False, rule, con, e.loc(), 'the number of pointers is %s' % show(v)[:60])
                            continue
                        q = pl(v)
                        rep.check(None if q is None else True if q[0] == 'lin' and v is N[0] or q[0] == 'min' and N[0] in q[1] else False if q[0] == 'max' or q[0] == 'lin' and add(v, N[0], -1).op == 'const' and add(v, N[0], -1).a[0] > 0 else None, rule, con, e.loc(), 'the number of pointers is %s' % show(v)[:80])


def measured_for(o, x, f):
    """the number of pointers of the manifest whose length x is"""
    if x.op == 'len' and x.a[0].op == 'mcall' and x.a[0].a[0] == f.name:
        return arg(x.a[0], count_param(f), 0)
    if x.op == 'len' and x.a[0].op == 'lv' or x.op == 'lv':
        # a loop variable: the same relation before the loop and after each step
        y = x if x.op == 'lv' else x.a[0]
        for e, ls in walk_events(o.events()):
            if e.kind == 'loop' and e.x.lid == y.a[0]:
                wrap = (lambda z: mk('len', z)) if x.op == 'len' else (lambda z: z)
                init = e.x.init.get(y.a[1])
                if init is None:
                    return None
                k0 = measured_for(o, wrap(init), f)
                if k0 is None:
                    return None
                for var in e.x.init:
                    if e.x.init[var] is k0:
                        good = True
                        for q in e.x.outs:
                            if q[0] not in ('next', 'continue'):
                                continue
                            u, n = q[4].get(y.a[1]), q[4].get(var)
                            if u is None and n is None:
                                continue
                            if u is None or n is None or measured_for(o, wrap(u), f) is not n:
                                good = False
                        if good:
                            return mk('lv', e.x.lid, var)
    return None


RULES = {'F04': f04, 'F05': f05, 'F06': asked}
