"""F04 - F07, F09 - F11: building a tree."""
import ast
import itertools
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library
from . import crypto
from .tree import short, pname, args_of, arg, payload_of, SELF

TAKE = {'append_direct', 'prepend_direct'}
LINK = {'append_indirect', 'prepend_indirect'}
POINT = TAKE | LINK
B = POINT | {'put', 'build_packet', 'content_object_hash', 'hash_group', 'hash_groups', 'is_direct_full', 'is_indirect_full',
             'get_next_id', 'get_name', 'uses_name_id', 'add_manifest', 'add_data', 'direct_size', 'indirect_size'}


def ranges(ctx):
    """classes of objects that stand for the range of chunks still to be handed out: class -> (head, tail) attributes"""
    def build():
        i = Interp(ctx.p, inline=lambda f: False)
        out = {}
        for c in ctx.p.classes.values():
            init = c.methods.get('__init__')
            if init is None or not {'head', 'tail'} <= set(init.params):
                continue
            h = t = None
            for o in i.ctor(c):
                for (r, a), v in o.st.heap.items():
                    if r is SELF and v is mk('param', 'head'):
                        h = a
                    if r is SELF and v is mk('param', 'tail'):
                        t = a
            if h and t:
                out[c] = (h, t)
        return out
    return ctx.lazy('build.ranges', build)


def pointed(ctx):
    """classes that collect the pointers of a node (their own methods add a pointer)"""
    return {c for c in ctx.p.classes.values() if any(m in c.methods for m in POINT)}


def builders(ctx):
    """classes that build a tree recursively: class -> (functions of the recursion, entry names)"""
    def build():
        p = ctx.p
        out = {}
        own = pointed(ctx)
        for c in p.classes.values():
            ms = c.methods.values()
            if c in own or not any(calls_of(f, n) for f in ms for n in POINT):
                continue
            byname = {f.name: f for f in ms}

            def succ(f):
                return {byname[n] for n in called_names(f) if n in byname}

            def reach_(f):
                seen, todo = set(), list(succ(f))
                while todo:
                    x = todo.pop()
                    if x not in seen:
                        seen.add(x)
                        todo += succ(x)
                return seen
            cyc = {f for f in ms if f in reach_(f)}
            if not cyc:
                continue
            entry = {g for f in ms if f not in cyc for g in succ(f) if g in cyc}
            out[c] = (cyc, entry)
        return out
    return ctx.lazy('build.builders', build)


def tree_flow(ctx, c):
    """evaluation of the functions of tree builder c with the recursive step opaque"""
    def build():
        rg = ranges(ctx)
        cyc, entry = builders(ctx)[c]
        fl = Flow(ctx, B, also=lambda f: f.cls in rg, stop={f.name for f in entry}, samename=True, states=20000)
        for f in entry:
            fl.i.argfx[f.name] = {t for h, t in rg.values()}
        return fl
    return ctx.lazy('build.flow.%s' % c.qual, build)


# ------------------------------------------------------------------ linear terms with one max or min
def pl(t):
    """('lin', {t}) | ('max', {..}) | ('min', {..}): t as the maximum or minimum of linear terms; None otherwise"""
    c, d = lin_parts(t)
    mm = [(x, k) for x, k in d.items() if x.op in ('max', 'min')]
    if not mm:
        return 'lin', frozenset([t])
    if len(mm) > 1 or abs(mm[0][1]) != 1:
        return None
    x, k = mm[0]
    rest = mklin(c, {y: v for y, v in d.items() if y is not x})
    out = set()
    for y in x.a:
        q = pl(y)
        if q is None or q[0] not in ('lin', x.op):
            return None
        out |= {add(rest, z, k) for z in q[1]}
    return (x.op if k == 1 else {'max': 'min', 'min': 'max'}[x.op]), frozenset(out)


def le(a, b, facts):
    """a <= b by the facts of the path (or by constants)"""
    d = add(b, a, -1)
    if d.op == 'const':
        return d.a[0] >= 0
    for f, v in facts.items():
        if f.op == 'lt0' and not v and add(d, f.a[0], -1).op == 'const' and add(d, f.a[0], -1).a[0] >= 0:
            return True
        if f.op == 'lt0' and v:
            e = add(d, mul(const(-1), f.a[0]), -1)
            if e.op == 'const' and e.a[0] >= -1:
                return True
    return None


def reduce_(q, facts):
    """without the members that another one always dominates"""
    k, s = q
    if k == 'lin' or len(s) < 2:
        return frozenset(s)
    out = set(s)
    for a in sorted(s, key=skey):
        for b in out - {a}:
            if (le(a, b, facts) if k == 'max' else le(b, a, facts)):
                out.discard(a)
                break
    return frozenset(out)


def replaced(t, facts):
    """t with the equalities of the path applied"""
    for f, v in facts.items():
        if f.op == 'eq' and v and all(x.op != 'const' or num(x) is not None for x in f.a):
            d = add(f.a[0], f.a[1], -1)
            c, p = lin_parts(d)
            for x in sorted(p, key=skey):
                if abs(p[x]) == 1 and x.op not in ('max', 'min'):
                    cc, pp = lin_parts(t)
                    if x in pp:
                        t = add(t, d, -1 if (p[x] == 1) == (pp[x] == 1) else 1) if abs(pp[x]) == 1 else t
                    break
    return t


def same(a, b, facts):
    """is a == b on this path"""
    a, b = canon(a), canon(b)
    if a is b:
        return True
    c, d = lin_parts(add(a, b, -1))
    if not d:
        return c == 0
    if len(d) == 2 and sorted(d.values()) == [-1, 1] and {x.op for x in d} in ({'max'}, {'min'}):
        x, y = sorted(d, key=lambda z: d[z])            # y - x + c
        a, b = add(y, const(c)), x
    qa, qb = pl(a), pl(b)
    if qa is None or qb is None:
        return None
    ra, rb = reduce_(qa, facts), reduce_(qb, facts)
    if ra == rb:
        return True
    ra = frozenset(replaced(x, facts) for x in ra)
    rb = frozenset(replaced(x, facts) for x in rb)
    if ra == rb:
        return True
    if any(x.op not in ('lin', 'const', 'attr', 'param', 'lv', 'len', 'elem') and not (x.op == 'lin') for s in (ra, rb) for y in s for x in lin_parts(y)[1]):
        return None
    return False


# ------------------------------------------------------------------ F06
class Take:
    """chunks lo .. hi-1 of the file given to a pointer collection"""

    def __init__(self, lo, hi, end, desc, recv, ev):
        self.lo, self.hi, self.end, self.desc, self.recv, self.ev = lo, hi, end, desc, recv, ev


def chunk_of(h):
    """(file metadata, position) when h is the hash of a chunk"""
    h = canon(h)
    if h.op == 'attr' and h.a[1] == 'content_object_hash':
        x = h.a[0]
        if x.op == 'idx':
            return x.a[0], x.a[1]
        if x.op == 'elem':
            it = x.a[0]
            if it.op == 'slice':
                return it.a[0], x
            return it, x
    return None


def child_of(h):
    """the packet when h is the content-object hash of a packet"""
    if h.op == 'mcall' and h.a[0] == 'content_object_hash':
        return h.a[1]
    return None


def rng(it):
    """(lo, hi, descending) of the positions an iterable goes through"""
    if it.op == 'slice':
        lo, hi = it.a[1], it.a[2]
        if lo is NONE:
            lo = const(0)
        if hi is NONE or len(it.a) > 3 and it.a[3] is not NONE:
            return None
        return lo, hi, False
    if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] == 'reversed' and len(it.a) == 3:
        q = rng(it.a[2])
        return None if q is None else (q[0], q[1], not q[2])
    if it.op == 'range':
        a = it.a
        if len(a) == 1:
            return const(0), a[0], False
        if len(a) == 2:
            return a[0], a[1], False
        if len(a) == 3 and num(a[2]) == 1:
            return a[0], a[1], False
        if len(a) == 3 and num(a[2]) == -1:
            return add(a[1], const(1)), add(a[0], const(1)), True
    return None


def point(e):
    """(method, collection, hash, size) of an event that adds a pointer"""
    t = e.term
    if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] in POINT:
        return t.a[0], t.a[1], arg(t, 'hash_value', 0), arg(t, 'leaf_size', 1) or arg(t, 'subtree_size', 1)
    return None


class Walk:
    """one path through a builder function: what is taken from the range, in order"""

    def __init__(self, ctx, rep, fl, c, f, con):
        self.ctx, self.rep, self.fl, self.c, self.f, self.con = ctx, rep, fl, c, f, con
        self.entry = builders(ctx)[c][1]
        self.names = {x.name for x in self.entry}
        self.rg = ranges(ctx)

    def isrange(self, x, st):
        ty = self.fl.i.typeof(x, st)
        for k, v in self.rg.items():
            if k in ty.classes:
                return v
        return None

    def path(self, o):
        self.o, self.facts = o, dict(o.facts)
        self.segs = {}          # range object -> [head, tail] initial
        self.order = []         # (kind, what, enclosing loops, event, ranges at that point, block) in order
        self.nb = 0
        self.block(o.events(), {}, (), self.facts)
        return self

    def seg(self, x, cur):
        if x not in cur:
            h, t = self.isrange(x, self.o.st)
            if x.op == 'new':
                cur[x] = [arg(x, 'head', 0), arg(x, 'tail', 1)]
            else:
                cur[x] = [mk('attr', x, h), mk('attr', x, t)]
            self.segs.setdefault(x, list(cur[x]))
        return cur[x]

    def block(self, evs, cur, loops, facts):
        """walks one block; cur: range -> [head, tail] now; settles takes against the movement of the tail"""
        rep = self.rep
        start = {x: v[1] for x, v in cur.items()}
        takes = []
        self.nb += 1
        bid = self.nb

        def settle(e, where=''):
            rule = 'the range given to pointers is the range removed'
            for x, (h, t) in cur.items():
                s = start.get(x, self.segs[x][1])
                want = s
                for k in takes:
                    g = same(k.hi, want, facts)
                    if g is not True:
                        rep.check(g, rule, self.con, k.ev.loc(), 'the chunks up to %s get pointers where the remaining range ends at %s' % (show(k.hi)[:50], show(want)[:50]))
                        if g is False:
                            return
                    else:
                        rep.ok(rule, self.con)
                    want = k.lo
                g = same(want, t, facts)
                rep.check(g, rule, self.con, e.loc() if e is not None else self.f.loc(),
                          'the range ends at %s although pointers were made for the chunks from %s on' % (show(t)[:50], show(want)[:50]))
                start[x] = t
            del takes[:]

        last = None
        for e in evs:
            last = e
            t = e.term
            if e.kind == 'new' and isinstance(t, T) and self.isrange(t, self.o.st):
                self.seg(t, cur)
                start.setdefault(t, cur[t][1])
            if e.kind == 'loop':
                k = self.range_loop(e, cur, facts)
                if k is not None:
                    takes += k
                    continue
                settle(e)
                mod = {}
                for q in e.x.outs:
                    for key in q[4]:
                        if not isinstance(key, str) and key[0] in self.rgobjs(key):
                            mod[key] = mk('lv', e.x.lid, show(key[0]) + '.' + key[1])
                c2 = {x: list(v) for x, v in cur.items()}
                for (x, a), v in mod.items():
                    h, tt = self.isrange(x, self.o.st)
                    self.seg(x, c2)[0 if a == h else 1] = v
                for q in e.x.outs:
                    f2 = dict(facts)
                    f2.update(dict(q[2]))
                    c3 = {x: list(v) for x, v in c2.items()}
                    if q[0] in ('next', 'continue'):
                        self.block(q[3], c3, loops + (e.x,), f2)
                        for x in c3:
                            g = same(c3[x][0], c2[x][0], f2)
                            if x in c2:
                                rep.check(g, 'the start of the range is the same after each step', self.con, e.loc(), 'an iteration moves the start of the range from %s to %s' % (show(c2[x][0])[:40], show(c3[x][0])[:40]))
                if e.x.kind == 'for' and mod:
                    raise AnalysisError('the range changes in a loop over %s' % show(e.x.iter)[:40])
                cur.clear()
                cur.update(c2)
                start = {x: v[1] for x, v in cur.items()}
                continue
            if e.kind == 'setattr' and isinstance(t, T) and self.isrange(t.a[0], self.o.st):
                h, tt = self.isrange(t.a[0], self.o.st)
                s = self.seg(t.a[0], cur)
                start.setdefault(t.a[0], s[1])
                if t.a[1] == h:
                    s[0] = t.a[2]
                elif t.a[1] == tt:
                    if e.x == 'fx':
                        settle(e)
                        s[1] = t.a[2]
                        start[t.a[0]] = s[1]
                    else:
                        s[1] = t.a[2]
                continue
            if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] in self.names and t.a[1] is SELF:
                xs = [x for n, x in args_of(t)[1:] if self.isrange(x, self.o.st)]
                for x in xs:
                    self.seg(x, cur)
                    start.setdefault(x, cur[x][1])
                self.order.append(('sub', t, loops, e, {x: list(cur[x]) for x in xs}, bid))
            p = point(e)
            if p is not None:
                m, recv, h, size = p
                if h is None:
                    raise AnalysisError('pointer without a hash')
                ch = chunk_of(h)
                if ch is not None:
                    if not cur:
                        for x in self.params():
                            self.seg(x, cur)
                            start.setdefault(x, cur[x][1])
                    i = ch[1]
                    k = Take(i, add(i, const(1)), m.split('_')[0], None, recv, e)
                    takes.append(k)
                    self.order.append(('take', k, loops, e, {x: list(v) for x, v in cur.items()}, bid, facts))
                    rep.check(m in TAKE, 'chunks get direct pointers, manifests indirect ones', self.con, e.loc(), 'a data chunk is added with %s' % m)
                else:
                    self.order.append(('link', (m, recv, h, size), loops, e, None, bid))
                    if child_of(h) is not None:
                        rep.check(m in LINK, 'chunks get direct pointers, manifests indirect ones', self.con, e.loc(), 'a manifest is added with %s' % m)
                    else:
                        rep.und('chunks get direct pointers, manifests indirect ones', self.con, 'pointer to %s' % show(h)[:60])
        settle(last)

    def rgobjs(self, key):
        r = self.isrange(key[0], self.o.st)
        return {key[0]} if r and key[1] in r else set()

    def params_of(self):
        st = self.fl.run(self.f)[0].st
        return [mk('param', n) for n in self.f.params if self.isrange(mk('param', n), st)]

    def params(self):
        return [mk('param', n) for n in self.f.params if self.isrange(mk('param', n), self.o.st)]

    def range_loop(self, e, cur, facts):
        """takes of a loop that gives every chunk of a range of positions to a pointer"""
        lp = e.x
        if lp.kind != 'for':
            return None
        per = []
        for q in lp.outs:
            if q[0] == 'raise':
                continue
            ps = [(ev, point(ev), chunk_of(point(ev)[2])) for ev, ls in walk_events(q[3]) if point(ev) is not None]
            ps = [x for x in ps if x[2] is not None]
            per.append((q, ps))
        if not any(ps for q, ps in per):
            return None
        rule = 'each chunk of the range gets one pointer'
        if not cur:
            for x in self.params():
                self.seg(x, cur)
        out = []
        for q, ps in per:
            if q[0] not in ('next', 'continue'):
                raise AnalysisError('the loop over the chunks ends early')
            good = len(ps) == 1
            self.rep.check(good, rule, self.con, e.loc(), 'a chunk of the range gets %d pointers on a path' % len(ps))
            if not good:
                continue
            ev, (m, recv, h, size), (M, i) = ps[0]
            self.rep.check(m in TAKE, 'chunks get direct pointers, manifests indirect ones', self.con, ev.loc(), 'a data chunk is added with %s' % m)
            off = const(0)
            if i is not lp.el:
                off = add(i, lp.el, -1)
                if num(off) is None:
                    raise AnalysisError('chunk position %s in a loop over %s' % (show(i)[:40], show(lp.iter)[:40]))
            r = rng(lp.iter)
            if r is None:
                raise AnalysisError('loop over %s' % show(lp.iter)[:60])
            k = Take(add(r[0], off), add(r[1], off), m.split('_')[0], r[2], recv, ev)
            if not any(same(k.lo, z.lo, {}) and same(k.hi, z.hi, {}) for z in out):
                out.append(k)
        if len(out) > 1:
            raise AnalysisError('the loop takes different ranges')
        for k in out:
            self.order.append(('take', k, (lp,), k.ev, {x: list(v) for x, v in cur.items()}, 0, facts))
        return out


def f06(ctx, rep):
    bs = builders(ctx)
    if not bs:
        rep.und('the range given to pointers is the range removed', 'TreeBuilder', 'no recursive tree builder')
    for c, (cyc, entry) in bs.items():
        fl = tree_flow(ctx, c)
        files = set()
        for f in sorted(entry | outer(ctx, c), key=lambda f: f.qual):
            con = short(f)
            with rep.guard('the range given to pointers is the range removed', con):
                for o in fl.run(f):
                    if o.kind == 'raise':
                        overdrawn(ctx, rep, fl, c, f, con, o)
                    if o.kind != 'return':
                        continue
                    w = Walk(ctx, rep, fl, c, f, con)
                    try:
                        w.path(o)
                    except AnalysisError as x:
                        rep.und('the range given to pointers is the range removed', con, str(x))
                        continue
                    head_kept(rep, w, o, f, entry)
                    ordered(rep, w, o, f, entry)
                    linked(rep, w, o, f, entry)
                    collected(rep, w, o, f, entry)
                    files |= {chunk_of(point(k[3])[2])[0] for k in w.order if k[0] == 'take'}
                    if f not in entry:
                        whole_file(rep, w, o, fl, files)
    collections(ctx, rep)


def outer(ctx, c):
    """methods of the builder outside the recursion that start it"""
    cyc, entry = builders(ctx)[c]
    return {f for f in c.methods.values() if f not in cyc and any(calls_of(f, g.name) for g in entry)}


def head_kept(rep, w, o, f, entry):
    rule = 'space kept at the head is given back'
    for x, (h0, t0) in w.segs.items():
        if x.op != 'param':
            continue
        h, t = w.isrange(x, o.st)
        end = o.st.heap.get((x, h), mk('attr', x, h))
        rep.check(same(end, h0, w.facts), rule, w.con, f.loc(), 'the range starts at %s when the step is done, not at %s' % (show(end)[:60], show(h0)[:40]))
        for k in w.order:
            if k[0] == 'take' and k[4] and x in k[4] and len(w.segs) == 1:
                rep.check(above(k[1].lo, k[4][x][0], k[4][x][1], k[6]), 'only chunks of the range are taken', w.con, k[3].loc(), 'chunks from %s on are taken, the range starts at %s' % (show(k[1].lo)[:60], show(k[4][x][0])[:40]))
        if f in entry:
            for k in w.order:
                if k[0] == 'take' and k[4] and x in k[4]:
                    rep.check(same(k[4][x][0], h0, w.facts), rule, w.con, k[3].loc(), 'own chunks are taken while the range starts at %s' % show(k[4][x][0])[:60])


def above(lo, head, tail, facts):
    """lo >= head on this path, for a range whose tail is not below its head"""
    q = pl(lo)
    if q is None:
        return None
    k, ms = q
    ok = [le(head, m, facts) is True or num(add(tail, m, -1)) == 1 and any(a.op == 'eq' and not v and set(a.a) == {head, tail} for a, v in facts.items()) for m in ms]
    if all(ok) if k == 'min' else any(ok):
        return True
    return below(lo, head, tail, facts)


def overdrawn(ctx, rep, fl, c, f, con, o):
    """a step does not take more from the range than it has: the checks of the range never fail"""
    rule = 'a step takes no more than is left'
    if not o.facts:
        return
    last, pol = list(o.facts.items())[-1]
    w = Walk(ctx, rep, fl, c, f, con)
    for x in w.params_of():
        h, t = w.isrange(x, o.st)
        head, tail = mk('attr', x, h), mk('attr', x, t)
        if last.op != 'lt0' or not (mentions(last, head) or mentions(last, tail)) or not plain_numbers(last.a[0]):
            continue
        r = below(const(0), const(1), const(2), {a: v for a, v in o.facts.items() if a.op == 'lt0' and plain_numbers(a.a[0])}, (head, tail))
        rep.check(True if r is None else False, rule, con, f.loc(), 'the step fails although chunks are left: %s is %s' % (show(last)[:90], pol))


def plain_numbers(t):
    """a linear term, maximum or minimum over attributes and parameters"""
    if t.op in ('max', 'min', 'lin'):
        return all(plain_numbers(y) for y in (lin_parts(t)[1] if t.op == 'lin' else t.a))
    return t.op in ('const', 'param') or t.op == 'attr' and base_plain(t.a[0])


def base_plain(t):
    return t.op in ('param', 'cls') or t.op == 'attr' and base_plain(t.a[0])


def below(lo, head, tail, facts, rng=None):
    """False when small numbers satisfy the conditions of the path and put lo below head; None otherwise"""
    vs = set()

    def leaves_(t):
        if t.op in ('max', 'min', 'lin'):
            for y in (lin_parts(t)[1] if t.op == 'lin' else t.a):
                leaves_(y)
        elif t.op != 'const':
            vs.add(t)
    for t in (lo, head, tail) + (rng or ()):
        leaves_(t)
    if rng:
        for a in list(facts):
            if any(mentions(a, y) for y in rng):
                leaves_(a.a[0])
    if len(vs) > 4 or any(v.op not in ('attr', 'param', 'lv') for v in vs):
        return None
    own = {v for t in rng or (head, tail) for v in lin_parts(t)[1]}
    fs = [(a, v) for a, v in facts.items() if any(mentions(a, y) for y in vs) and a.op not in ('isnone', 'isa')]
    vs = sorted(vs, key=skey)
    for ns in itertools.product(*[range(0, 7) if v in own else range(1, 5) for v in vs]):
        env = dict(zip(vs, ns))
        h, t, x = (value_at(y, env) for y in (head, tail, lo))
        if h is None or t is None or x is None:
            return None
        if t <= h or rng and value_at(rng[1], env) <= value_at(rng[0], env):
            continue
        good = True
        for a, v in fs:
            if a.op == 'lt0':
                n = value_at(a.a[0], env)
                r = None if n is None else n < 0
            elif a.op == 'eq':
                p, q = value_at(a.a[0], env), value_at(a.a[1], env)
                r = None if p is None or q is None else p == q
            else:
                r = None
            if r is None:
                return None
            if r is not v:
                good = False
                break
        if good and x < h:
            return False
    return None


def ordered(rep, w, o, f, entry):
    """pointers of one collection end up in file order"""
    rule = 'pointers are in file order'
    seen = {}
    for k in w.order:
        e = k[3]
        if k[0] == 'take':
            t = k[1]
            prior = seen.setdefault(t.recv, [])
            if t.desc is None:
                good = t.end == 'prepend' or not k[2] and not prior
                rep.check(good, rule, w.con, e.loc(), 'chunks are taken from the tail on but added behind those taken before')
            else:
                good = (t.end == 'prepend') == t.desc and (t.desc or not prior)
                rep.check(good, rule, w.con, e.loc(), 'chunks are taken in %s order and each added at the %s%s' % (
                    'falling' if t.desc else 'rising', 'front' if t.end == 'prepend' else 'end', ', behind pointers for later chunks' if not t.desc and prior else ''))
            prior.append(k)
        elif k[0] == 'link':
            m, recv, h, size = k[1]
            prior = seen.setdefault(recv, [])
            own = any(s[0] == 'sub' and s[5] == k[5] and mentions(h, s[1]) for s in w.order)
            if m.startswith('prepend'):
                good = own or not prior
                rep.check(good, rule, w.con, e.loc(), 'the right-most child is put before pointers to earlier data')
            else:
                good = not own or not k[2] and not prior
                rep.check(good, rule, w.con, e.loc(), 'a child built from earlier data is added behind those built before')
            prior.append(k)
        elif k[0] == 'sub' and f in entry:
            late = [z for z in w.order[:w.order.index(k)] if z[0] == 'take']
            rep.check(not late, rule, w.con, e.loc(), 'a child is built from the data before chunks this node has already taken')


def returned(fl, o, p):
    """classes of the value a builder function returns"""
    return fl.i.typeof(o.val, o.st).classes


def chained(fl, entry):
    """parameters of the recursive step through which an already built child is handed in"""
    out = {}
    for f in entry:
        ret = set()
        for o in fl.run(f):
            if o.kind == 'return':
                ret |= fl.i.typeof(o.val, o.st).classes
        for n in f.params:
            ty = fl.i.typeof(mk('param', n), fl.run(f)[0].st)
            if ty.classes & ret:
                out[f.name] = n
    return out


def linked(rep, w, o, f, entry):
    """every child that was built gets exactly one pointer"""
    rule = 'each child gets one pointer'
    links = [k for k in w.order if k[0] == 'link']
    ch = chained(w.fl, entry)
    subs_ = [k for k in w.order if k[0] == 'sub']
    if f in entry:
        for k in subs_:
            n = [z for z in links if z[5] == k[5] and mentions(z[1][2], k[1])]
            later = [z for z in links if z[5] != k[5] and mentions(z[1][2], k[1])]
            if later and not n:
                rep.und(rule, w.con, 'pointer to a child is added elsewhere')
                continue
            rep.check(len(n) + len(later) == 1, rule, w.con, k[3].loc(), 'a child that was built gets %d pointers on a path' % len(n + later))
            for z in n:
                c = child_of(z[1][2])
                if c is not None:
                    rep.check(True if c.op == 'attr' and c.a[0] is k[1] else None, rule, w.con, z[3].loc(), 'pointer to %s' % show(c)[:60])
        q = ch.get(f.name)
        if q is not None:
            q = mk('param', q)
            none = next((v for a, v in o.facts.items() if a.op == 'isnone' and a.a[0] is q), None)
            if none is None:
                none = next((not v for a, v in o.facts.items() if a.op == 'truth' and a.a[0] is q), None)
            n = [z for z in links if mentions(z[1][2], q)]
            if none:
                rep.check(not n or None, rule, w.con, f.loc(), 'pointer to a child there is not')
            else:
                # the path where there is none is another one unless nothing asks
                rep.check(len(n) == 1 if none is False or not n else None, rule, w.con, n[0][3].loc() if n else f.loc(), 'the child handed in (%s) gets %d pointers on a path' % (q.a[0], len(n)))
        for z in links:
            c = child_of(z[1][2])
            b = c
            while b is not None and b.op == 'attr':
                b = b.a[0]
            if b is None:
                continue
            good = any(b is k[1] for k in subs_) or b is q
            rep.check(True if good else None, 'pointers lead to children of this node', w.con, z[3].loc(), 'pointer to %s' % show(c)[:60])
        return
    started = False
    for k in w.order:
        if k[0] in ('take',):
            started = True
        if k[0] != 'sub':
            continue
        q = ch.get(k[1].a[0])
        v = arg(k[1], q) if q is not None else None
        if v is None or v is NONE:
            if started:
                rep.check(False if q is not None else None, rule, w.con, k[3].loc(), 'the part of the tree that was built before is not handed on')
        elif v.op == 'lv' and k[2]:
            lp = k[2][-1]
            name = v.a[1]
            init = lp.init.get(name)
            rep.check(None if init is None else init is not NONE or not started, rule, w.con, k[3].loc(), 'the part of the tree that was built before is not handed on')
            for x in lp.outs:
                if x[0] in ('next', 'continue'):
                    u = x[4].get(name)
                    if any(ev.term is k[1] for ev, ls in walk_events(x[3])):
                        rep.check(True if u is k[1] else False if u is v or u is init else None, rule, w.con, k[3].loc(), 'what the step built is dropped: the next one gets %s' % show(u)[:60])
            r = o.val
            while r.op == 'attr':
                r = r.a[0]
            rep.check(True if r is v else False if r is init else None, 'the whole tree is returned', w.con, k[3].loc(), 'returned is %s' % show(o.val)[:60])
        elif k[2]:
            var = any(s.op == 'lv' and s.a[0] == k[2][-1].lid for s in subs(v))
            rep.check(None if var else False, rule, w.con, k[3].loc(), 'each step is handed the same part of the tree, what the one before built is dropped')
        elif v.op == 'new':
            rep.ok(rule, w.con)
        else:
            rep.und(rule, w.con, 'the step is handed %s' % show(v)[:60])
        started = True


def collected(rep, w, o, f, entry):
    """the pointers that were collected are in the node that is packed and returned"""
    rule = 'collected pointers are in the node'
    used = {}
    for k in w.order:
        r = k[1].recv if k[0] == 'take' else k[1][1] if k[0] == 'link' else None
        if r is not None:
            used.setdefault(r, k)
    packs = [e for e, ls in walk_events(o.events()) if e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[0] == 'build_packet']
    if not used:
        return
    if not packs:
        rep.und(rule, w.con, 'no packet built')
        return
    src = [arg(e.term, 'source', 0) for e in packs]
    groups = set()
    known = True
    for x in src:
        for n in ([x] if x is not None and x.op == 'new' else []):
            hg = arg(n, 'hash_groups', 1)
            if hg is None:
                known = False
                continue
            xs = list(hg.a[1:]) if hg.op == 'seq' else [hg]
            for y in xs:
                if y.op == 'mcall' and y.a[0] in ('hash_group', 'hash_groups'):
                    groups.add(y.a[1])
                else:
                    known = False
        if x is None or x.op != 'new':
            known = False
    for r, k in used.items():
        rep.check(True if r in groups else False if known else None, rule, w.con, k[3].loc(), 'the pointers collected in %s are not in the node' % show(r)[:60])
    if f in entry and o.val.op == 'new':
        pk = arg(o.val, 'packet')
        rep.check(True if any(pk is e.term for e in packs) else None if pk is None or pk is not NONE else False, rule, w.con, f.loc(), 'returned is %s' % show(o.val)[:60])


def whole_file(rep, w, o, fl, fs):
    rule = 'building covers the whole file'
    new = [x for x in w.segs if x.op == 'new']
    if len(new) != 1:
        rep.und(rule, w.con, '%d ranges' % len(new))
        return
    x = new[0]
    h0, t0 = w.segs[x]
    f = w.f
    rep.check(True if num(h0) == 0 else False if num(h0) is not None else None, rule, w.con, f.loc(), 'the range starts at %s' % show(h0)[:40])
    c, d = lin_parts(t0)
    ln = [y for y in d if y.op == 'len']
    good = None
    if len(d) == 1 and len(ln) == 1 and d[ln[0]] == 1:
        src = ln[0].a[0]
        good = c == 0
        for M in fs:
            if M is not src and M.op == 'attr' and M.a[0] is not src:
                good = None
    elif len(d) == 1 and c and good is None:
        y, k = next(iter(d.items()))
        if k == 1 and y.op == 'attr' and counted(fl, w, y, o):
            good = False
    rep.check(good, rule, w.con, f.loc(), 'the range ends at %s' % show(t0)[:60])
    h, t = w.isrange(x, o.st)
    H, Tl = o.st.heap.get((x, h), h0), o.st.heap.get((x, t), t0)
    rep.check(same(H, h0, {}), rule, w.con, f.loc(), 'the range starts at %s in the end' % show(H)[:40])
    e = empty(o, H, Tl, fl)
    rep.check(e, rule, w.con, f.loc(), 'returns although chunks may be left (range %s to %s)' % (show(H)[:30], show(Tl)[:60]))


def counted(fl, w, y, o):
    """the attribute was set to the length of something by the constructor of its object"""
    for c in fl.i.typeof(y.a[0], o.st).classes:
        for q in fl.i.ctor(c):
            v = q.st.heap.get((SELF, y.a[1]))
            if v is not None and canon(v).op == 'len':
                return True
    return False


def empty(o, H, t, fl):
    """is H == t on every run along this path"""
    d = add(t, H, -1)
    if d.op == 'const':
        return d.a[0] == 0
    other = False
    for a, v in o.facts.items():
        if a.op == 'eq' and v and all(q.op != 'const' or num(q) is not None for q in a.a):
            z = add(a.a[0], a.a[1], -1)
            if z is d or add(z, d) is const(0):
                return True
        if a.op == 'lt0':
            e = add(a.a[0], d, -1)              # d + c < 0 is false for all c ... ; -d + c < 0 false: d <= c
            g = add(a.a[0], d)
            if v is False and g.op == 'const' and g.a[0] <= 0:
                return True
        if a.op not in ('lt0', 'eq', 'isnone', 'isa') and any(mentions(a, s) for s in lin_parts(d)[1]):
            other = True
    return None if other else False


def sizeattr(ctx, kind):
    """attributes of the pointer collections that total the sizes of direct or indirect pointers"""
    def build():
        fl = Flow(ctx, POINT, samename=True)
        out = set()
        for c in pointed(ctx):
            for m, f in c.methods.items():
                if m in POINT and m.split('_')[1] == kind:
                    for o in fl.run(f, selfcls=c):
                        for (r, a), v in o.st.heap.items():
                            if r is SELF and v.op == 'lin' and any(mentions(v, mk('param', n)) for n in f.params[1:] + f.params if n.endswith('size')):
                                out.add(a)
        return out
    return ctx.lazy('build.sizeattr.' + kind, build)


def collections(ctx, rep):
    """the collections add what they are given once, at the end they are asked to, and give all of it to the group"""
    rule = 'a pointer is added once'
    fl = Flow(ctx, POINT | {'hash_group'}, samename=True)
    for c in sorted(pointed(ctx), key=lambda c: c.qual):
        lists, fwd = set(), {}
        for m in sorted(POINT & set(c.methods)):
            f = c.methods[m]
            with rep.guard(rule, short(f)):
                hp = mk('param', next(n for n in f.params if n == 'hash_value' or n not in ('self', f.first)))
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    adds = []
                    for (r, a), v in o.st.heap.items():
                        if mentions(v, hp):
                            adds.append((a, v))
                    calls = [e for e, ls in walk_events(o.events()) if point(e) is not None and point(e)[2] is not None and mentions(point(e)[2], hp)]
                    if len(adds) + len(calls) != 1:
                        rep.check(False if not any(e.kind == 'loop' for e in o.events()) else None, rule, short(f), f.loc(), 'the pointer is added %d times on a path' % (len(adds) + len(calls)))
                        continue
                    if calls:
                        pm = point(calls[0])
                        fwd.setdefault(m.split('_')[1], set()).add(pm[1])
                        rep.check(pm[0] == m and pm[2] is hp, rule, short(f), calls[0].loc(), '%s hands the pointer to %s' % (m, pm[0]))
                        continue
                    a, v = adds[0]
                    lists.add(a)
                    old = mk('attr', SELF, a)
                    end = None
                    if v is mk('app', old, hp):
                        end = 'append'
                    elif v is mk('pre', old, hp):
                        end = 'prepend'
                    elif v.op == 'seq' and len(v.a) == 3:
                        if v.a[1] is hp and v.a[2].op == 'spread' and v.a[2].a[0] is old:
                            end = 'prepend'
                        elif v.a[2] is hp and v.a[1].op == 'spread' and v.a[1].a[0] is old:
                            end = 'append'
                    elif v.op == 'seq' and len(v.a) == 2 and v.a[1] is hp:
                        end = 'nothing'
                    for e, ls in walk_events(o.events()):
                        if e.kind == 'mut' and e.term.a[0] == 'insert' and e.term.a[-1] is hp and end is None:
                            at = canon(e.term.a[2])
                            if num(at) is not None:
                                end = 'prepend' if num(at) == 0 else 'middle'
                            elif at is mk('len', old):
                                end = 'append'
                            elif not any(y.op in ('call', 'mcall', 'len') for y in subs(at)) and not any(mentions(q, at) for q in o.facts):
                                end = 'middle'
                    rep.check(None if end is None else end == m.split('_')[0], rule, short(f), f.loc(), '%s puts the pointer at the %s' % (m, {'append': 'end', 'prepend': 'front', 'middle': 'middle', 'nothing': 'place of the ones before'}.get(end, '?')))
        g = c.methods.get('hash_group')
        rule2 = 'the group has all pointers collected'
        if g is not None and lists:
            with rep.guard(rule2, short(g)):
                for o in fl.run(g, selfcls=c):
                    if o.kind != 'return':
                        continue
                    ps = arg(o.val, 'pointers') if o.val.op == 'new' else None
                    hv = arg(ps, 'hash_values', 0) if ps is not None and ps.op == 'new' else None
                    if hv is None:
                        rep.und(rule2, short(g), show(o.val)[:80])
                        continue
                    good = None
                    if len(lists) == 1:
                        a = mk('attr', SELF, next(iter(lists)))
                        y = hv
                        while y.op == 'copyof' or y.op == 'seq' and len(y.a) == 2 and y.a[1].op == 'spread' or y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in ('list', 'tuple'):
                            y = y.a[0] if y.op == 'copyof' else y.a[1].a[0] if y.op == 'seq' else y.a[2]
                        good = True if y is a else False if y.op in ('slice', 'seq', 'idx') or y.op == 'call' and y.a[0].op == 'ext' and y.a[0].a[0] in ('reversed', 'sorted', 'set') else None
                    rep.check(good, rule2, short(g), g.loc(), 'the group points to %s' % show(hv)[:60])
        g = c.methods.get('hash_groups')
        rule3 = 'direct pointers come before indirect ones, and both are in the node'
        if g is not None and fwd:
            with rep.guard(rule3, short(g)):
                d, i = fwd.get('direct', set()), fwd.get('indirect', set())
                ctor = [o for o in fl.i.ctor(c) if o.kind != 'raise']
                for o in fl.run(g, selfcls=c):
                    if o.kind != 'return':
                        continue
                    if o.val.op != 'seq' or not all(y.op == 'mcall' and y.a[0] == 'hash_group' for y in o.val.a[1:]):
                        rep.und(rule3, short(g), show(o.val)[:80])
                        continue
                    got = [y.a[1] for y in o.val.a[1:]]
                    if len(got) == 1 and shared(o, ctor, d | i):
                        rep.check(got[0] in d | i, rule3, short(g), g.loc(), 'the group of %s' % show(got[0])[:40])
                        continue
                    miss = (d | i) - set(got)
                    rep.check(not miss, rule3, short(g), g.loc(), 'the pointers of %s are left out' % ', '.join(sorted(show(x) for x in miss)))
                    if not miss and len(d) == len(i) == 1:
                        rep.check(len(set(got)) == len(got) and got.index(next(iter(d))) <= got.index(next(iter(i))), rule3, short(g), g.loc(), 'the groups are in the order %s' % ', '.join(show(x) for x in got))


def shared(o, ctor, recvs):
    """on paths of this kind the constructor made the collections one and the same"""
    mine = {(show(a), v) for a, v in o.facts.items() if a.op == 'eq'}
    hit = []
    for q in ctor:
        theirs = {(show(a), v) for a, v in q.facts.items() if a.op == 'eq'}
        strip = lambda s: {(x.replace('self._name_ctx', 'name_ctx'), v) for x, v in s}
        if strip(mine) & strip(theirs) and not any((x, not v) in strip(theirs) for x, v in strip(mine)):
            hit.append({q.st.heap.get((r.a[0], r.a[1])) for r in recvs if r.op == 'attr'})
    return bool(hit) and all(len(h) == 1 and None not in h for h in hit)


# ------------------------------------------------------------------ F11
SIZES = {'direct_size', 'indirect_size'}


def f11(ctx, rep):
    totals(ctx, rep)
    groups(ctx, rep)
    nodes(ctx, rep)
    gating(ctx, rep)
    chunk_sizes(ctx, rep)


def sparam(f):
    return next((n for n in f.params if n.endswith('size')), None)


def opt(o, x):
    """does the path know that x is None: True, False, None"""
    for a, v in o.facts.items():
        if a.op == 'isnone' and a.a[0] is x:
            return v
        if a.op == 'truth' and a.a[0] is x and v:
            return False
    return None


def totals(ctx, rep):
    rule = 'a size is added to its total once'
    fl = Flow(ctx, POINT | SIZES, samename=True)
    for c in sorted(pointed(ctx), key=lambda c: c.qual):
        to, kept = {}, {}
        for m in sorted(POINT & set(c.methods)):
            f = c.methods[m]
            n = sparam(f)
            if n is None:
                rep.und(rule, short(f), 'no size parameter')
                continue
            s = mk('param', n)
            kind = m.split('_')[1]
            with rep.guard(rule, short(f)):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    fw = [point(e) for e, ls in walk_events(o.events()) if point(e) is not None]
                    if fw:
                        for p in fw:
                            rep.check(p[3] is s if p[3] is None or p[3].op in ('param', 'const') else None, rule, short(f), f.loc(), 'the size handed on is %s' % (show(p[3]) if p[3] is not None else 'missing'))
                        continue
                    add_ = {a: v for (r, a), v in o.st.heap.items() if r is SELF and mentions(v, s)}
                    none = opt(o, s)
                    if none:
                        continue
                    if none is None and not add_:
                        tr = next((v for a, v in o.facts.items() if a.op == 'truth' and a.a[0] is s), None)
                        if tr is False:
                            continue        # nothing or 0
                        z = [a for a in o.facts if mentions(a, s)]
                        rep.check(None if z else False, rule, short(f), f.loc(), 'the size given is not added')
                        continue
                    good = len(add_) == 1
                    rep.check(good if add_ else False, rule, short(f), f.loc(), 'the size given is added to %s' % (', '.join(sorted(add_)) or 'nothing'))
                    for a, v in add_.items():
                        to.setdefault(kind, set()).add(a)
                        d = add(v, mk('attr', SELF, a), -1)
                        w = d
                        if w.op == 'call' and w.a[0].op == 'ext' and w.a[0].a[0] == 'int':
                            w = w.a[2]
                        cc, pp = lin_parts(d)
                        rep.check(True if d is s else False if v is s or set(pp) <= {s, mk('attr', SELF, a)} else None, rule, short(f), f.loc(), 'the total becomes %s' % show(v)[:60])
        if 'direct' in to and 'indirect' in to:
            rep.check(not to['direct'] & to['indirect'] and len(to['direct']) == len(to['indirect']) == 1, rule, short_c(c), c.loc() if hasattr(c, 'loc') else '', 'direct sizes go to %s, indirect ones to %s' % (sorted(to['direct']), sorted(to['indirect'])))
        rule2 = 'the totals asked for are the ones added to'
        for m in sorted(SIZES & set(c.methods)):
            f = c.methods[m]
            kind = m.split('_')[0]
            with rep.guard(rule2, short(f)):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    v = canon(o.val)
                    if v.op == 'mcall' and v.a[0] in SIZES:
                        fwd = {p.a[1] for mm in POINT & set(c.methods) if mm.split('_')[1] == kind for q in fl.run(c.methods[mm], selfcls=c) for e, ls in walk_events(q.events()) if point(e) for p in [e.term]}
                        rep.check(v.a[0] == m and v.a[1] in fwd, rule2, short(f), f.loc(), '%s gives %s' % (m, show(v)[:60]))
                    elif kind in to:
                        rep.check(True if v in {mk('attr', SELF, a) for a in to[kind]} else False if v.op in ('attr', 'const', 'lin') else None, rule2, short(f), f.loc(), '%s gives %s' % (m, show(v)[:60]))
                    else:
                        rep.und(rule2, short(f), show(v)[:60])


def short_c(c):
    return c.qual.split('.', 1)[1]


def unsize(t):
    """the number behind a size field"""
    while t is not None and t.op == 'new' and t.a[0].a[0].split('.')[-1] in ('SubtreeSize', 'LeafSize') and len(t.a) >= 4:
        t = t.a[3]
    return t


def truth_of(o, x):
    for a, v in o.facts.items():
        if a.op == 'truth' and a.a[0] is x:
            return v
    return None


def sizes_in(t, ctx):
    """{'direct': {collections}, 'indirect': ..} when t is a sum of totals; None otherwise"""
    out = {}
    t = canon(t)
    c, d = 0, {}
    for y in (t.a if t.op == 'plus' else (t,)):
        cc, dd = lin_parts(y)
        c += cc
        for x, k in dd.items():
            d[x] = d.get(x, 0) + k
    if c != 0:
        return None
    da, ia = sizeattr(ctx, 'direct'), sizeattr(ctx, 'indirect')
    for x, k in d.items():
        if k != 1:
            out['%d times' % k] = [x]
        if x.op == 'mcall' and x.a[0] in SIZES:
            out.setdefault(x.a[0].split('_')[0], []).append(x.a[1])
        elif x.op == 'attr' and x.a[1] in da and x.a[1] not in ia:
            out.setdefault('direct', []).append(x.a[0])
        elif x.op == 'attr' and x.a[1] in ia and x.a[1] not in da:
            out.setdefault('indirect', []).append(x.a[0])
        else:
            return None
    return out


def groups(ctx, rep):
    """the sizes in a hash group"""
    rule = 'group sizes are the totals, each exactly when asked for'
    fl = Flow(ctx, SIZES | {'hash_group'}, samename=True)
    p = ctx.p
    for c in sorted(pointed(ctx), key=lambda c: c.qual):
        f = c.methods.get('hash_group')
        if f is not None:
            with rep.guard(rule, short(f)):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    gd = arg(o.val, 'group_data') if o.val.op == 'new' else None
                    if gd is None or gd is not NONE and gd.op != 'new':
                        rep.und(rule, short(f), show(o.val)[:80])
                        continue
                    for n, field, want in (('include_subtree_size', 'subtree_size', {'direct', 'indirect'}), ('include_leaf_size', 'leaf_size', {'direct'})):
                        on = truth_of(o, mk('param', n))
                        got = NONE if gd is NONE else arg(gd, field)
                        got = unsize(got) if got is not None else NONE
                        if on is None:
                            if got is not NONE and n in f.params:
                                rep.check(False if not any(mentions(a, mk('param', n)) for a in o.facts) else None, rule, short(f), f.loc(), 'the %s is given without being asked for' % field)
                            continue
                        if not on:
                            rep.check(got is NONE, rule, short(f), f.loc(), 'the %s is given although not asked for' % field)
                            continue
                        if got is NONE:
                            rep.check(False, rule, short(f), f.loc(), 'the %s is asked for and not given' % field)
                            continue
                        z = sizes_in(got, ctx)
                        good = None if z is None else set(z) == want and all(v == [SELF] for v in z.values())
                        if z is None and got.op == 'const':
                            good = False
                        rep.check(good, rule, short(f), f.loc(), 'the %s is %s' % (field, show(got)[:80]))
        f = c.methods.get('hash_groups')
        if f is not None:
            with rep.guard(rule, short(f)):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    for y in subs(o.val):
                        if y.op == 'mcall' and y.a[0] == 'hash_group':
                            for n in ('include_leaf_size', 'include_subtree_size'):
                                v = arg(y, n)
                                if n in f.params:
                                    rep.check(True if v is mk('param', n) else False if v is None or v.op in ('const', 'param') else None, rule, short(f), f.loc(), '%s is %s' % (n, show(v) if v is not None else 'not passed on'))


def nodes(ctx, rep):
    """sizes that go through the tree builder"""
    rule = 'a pointer is given the size of what it points to'
    for c, (cyc, entry) in builders(ctx).items():
        fl = tree_flow(ctx, c)
        for f in sorted(entry | outer(ctx, c), key=lambda f: f.qual):
            con = short(f)
            with rep.guard(rule, con):
                for o in fl.run(f):
                    if o.kind != 'return':
                        continue
                    used = set()
                    for e, ls in walk_events(o.events()):
                        q = point(e)
                        if q is None:
                            continue
                        m, recv, h, size = q
                        used.add(recv)
                        ch, cd = chunk_of(h), child_of(h)
                        if ch is not None:
                            x = canon(h).a[0]
                            rep.check(False if size is None or size is NONE else True if size.op == 'attr' and size.a[1] == 'payload_bytes' and size.a[0] is x else False if size.op in ('attr', 'const', 'lin') else None,
                                      rule, con, e.loc(), 'the size of the chunk is given as %s' % (show(size)[:60] if size is not None else 'nothing'))
                        elif cd is not None:
                            own = cd.a[0] if cd.op == 'attr' else None
                            ok = size is not None and size.op == 'attr' and size.a[0] is own and 'subtree' in size.a[1]
                            rep.check(False if size is None or size is NONE else True if ok else False if size.op in ('const', 'lin') or size.op == 'attr' and size.a[0] is own else None,
                                      rule, con, e.loc(), 'the size of the child is given as %s' % (show(size)[:60] if size is not None else 'nothing'))
                    totals_of(ctx, rep, fl, o, f, con, used)


def totals_of(ctx, rep, fl, o, f, con, used):
    rule = 'the size of a node is the total of its pointers'
    for e, ls in walk_events(o.events()):
        t = e.term
        if not isinstance(t, T):
            continue
        if e.kind == 'new' and pname(t) == 'NodeData':
            pass
        if e.kind == 'call' and t.op == 'mcall' and t.a[0] in ('hash_group', 'hash_groups') and t.a[1] in used:
            for n, opt_ in (('include_leaf_size', 'add_group_leaf_size'), ('include_subtree_size', 'add_group_subtree_size')):
                v = arg(t, n)
                rep.check(True if v is not None and v.op == 'attr' and v.a[1] == opt_ else False if v is None or v.op in ('const', 'attr') else None, 'group sizes follow their options', con, e.loc(),
                          '%s is %s' % (n, show(v) if v is not None else 'not given'))
        if e.kind == 'new' and any(t.a[i] == 'subtree_size' for i in range(2, len(t.a), 2)) and pname(t) not in ('NodeData', 'GroupData', 'SubtreeSize'):
            v = unsize(arg(t, 'subtree_size'))
            z = sizes_in(v, ctx) if v is not NONE else None
            good = None
            if z is not None:
                good = set(z) == {'direct', 'indirect'} and all(len(x) == 1 for x in z.values()) and all(owner(x[0], used) for x in z.values())
            elif v is NONE or v.op == 'const':
                good = False
            rep.check(good, rule, con, e.loc(), 'the size handed to the parent is %s' % show(v)[:80])
        if e.kind == 'call' and t.op == 'mcall' and t.a[0] == 'build_packet':
            src = arg(t, 'source', 0)
            if src is None or src.op != 'new':
                continue
            nd = arg(src, 'node_data', 0)
            on = None
            for a, v in o.facts.items():
                if a.op == 'truth' and a.a[0].op == 'attr' and a.a[0].a[1] == 'add_node_subtree_size':
                    on = v
            if nd is None or nd is not NONE and nd.op != 'new':
                rep.und(rule, con, 'node data %s' % show(nd)[:60] if nd is not None else 'node data')
                continue
            got = NONE if nd is NONE else unsize(arg(nd, 'subtree_size') or NONE)
            if on is None:
                rep.check(None if any('add_node_subtree_size' in show(a) for a in o.facts) else False, rule, con, e.loc(), 'the node size does not follow its option')
                continue
            if not on:
                rep.check(got is NONE, rule, con, e.loc(), 'the node says its size although not asked to')
                continue
            if got is NONE:
                rep.check(False, rule, con, e.loc(), 'the node does not say its size although asked to')
                continue
            z = sizes_in(got, ctx)
            good = None
            if z is not None:
                good = set(z) == {'direct', 'indirect'} and all(len(x) == 1 for x in z.values()) and all(owner(x[0], used) for x in z.values())
            rep.check(good, rule, con, e.loc(), 'the node says %s' % show(got)[:80])


def owner(x, used):
    """is x one of the collections or a part of one"""
    while True:
        if x in used:
            return True
        if x.op != 'attr':
            return False
        x = x.a[0]


def factory_flow(ctx):
    return ctx.lazy('build.factory', lambda: Flow(ctx, {'encrypt', 'content_object', 'sign'}, samename=True, states=20000))


def gating_paths(ctx, f):
    """with the paths on which an option is on and off kept apart"""
    def build():
        fl = Flow(ctx, {'encrypt', 'content_object', 'sign'}, samename=True, states=20000)
        fl.i.sticky = lambda a: a.op == 'truth' and a.a[0].op == 'attr' and a.a[0].a[1].startswith('add_') or a.op == 'isnone' and a.a[0].op == 'param' and a.a[0].a[0].endswith('_size')
        return fl, [o for o in fl.run(f) if o.kind == 'return']
    return ctx.lazy('build.gating.%s' % f.qual, build)


def factories(ctx):
    """functions that pack a manifest and the classes they belong to"""
    return sorted((f for f in library(ctx.p) if f.name == 'build_packet' and not f.abstract and f.cls is not None), key=lambda f: f.qual)


def factory_paths(ctx, f):
    def build():
        fl = factory_flow(ctx)
        return fl, [o for o in fl.run(f) if o.kind == 'return']
    return ctx.lazy('build.factory.%s' % f.qual, build)


def source_kind(o):
    """class names the source is known to be (True) or not to be"""
    yes, no = set(), set()
    for a, v in o.facts.items():
        if a.op == 'isa' and a.a[0] is mk('param', 'source'):
            (yes if v else no).update(x.a[0].split('.')[-1] for x in a.a[1:] if isinstance(x, T) and x.op in ('cls', 'ext'))
    return yes, no


def made(o, name):
    """constructions of class `name` anywhere in the result or in what was encrypted for it"""
    out = []
    for t in [o.val] + [e.term for e, ls in walk_events(o.events()) if e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[0] in ('encrypt', 'content_object')]:
        for x in news(t, name):
            if x not in out:
                out.append(x)
    return out


def gating(ctx, rep):
    """what a manifest built from pointers says about sizes"""
    rule = 'sizes given to the factory appear exactly when their option asks for them'
    for f in factories(ctx):
        con = short(f)
        with rep.guard(rule, con):
            fl, outs = gating_paths(ctx, f)
            for o in outs:
                yes, no = source_kind(o)
                opts = {a.a[0].a[1]: v for a, v in o.facts.items() if a.op == 'truth' and a.a[0].op == 'attr' and a.a[0].a[1].startswith('add_')}
                for pn, on, cls, field, kinds in (('node_subtree_size', 'add_node_subtree_size', 'NodeData', 'subtree_size', {'Pointers', 'HashGroup', 'List', 'list'}),
                                                  ('group_subtree_size', 'add_group_subtree_size', 'GroupData', 'subtree_size', {'Pointers'}),
                                                  ('group_leaf_size', 'add_group_leaf_size', 'GroupData', 'leaf_size', {'Pointers'})):
                    if pn not in f.params or not yes & kinds:
                        continue
                    xs = made(o, cls)
                    got = {unsize(arg(x, field) or NONE) for x in xs} or {NONE}
                    if len(got) != 1:
                        rep.und(rule, con, 'several %s' % cls)
                        continue
                    got = next(iter(got))
                    P = mk('param', pn)
                    none = opt(o, P)
                    if opts.get(on) is False:
                        rep.check(got is NONE, rule, con, f.loc(), 'the %s is in the manifest without %s' % (pn, on))
                    elif got is NONE:
                        asked = none is False or opts.get(on) is True and none is None and not any(mentions(a, P) for a in o.facts)
                        rep.check(True if none or opts.get(on) is None and none is None and any(pn in show(a) for a in o.facts) else False if asked else None, rule, con, f.loc(), 'the %s is not in the manifest' % pn)
                    else:
                        rep.check(True if opts.get(on) and (got is P or same_size(got, P)) else False if opts.get(on) is None and got is P or got.op in ('const', 'param') else None, rule, con, f.loc(),
                                  'the %s in the manifest is %s' % (pn, show(got)[:60]))


def same_size(t, P):
    while t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] == 'int' or t.op in ('attr', 'mcall') and (t.a[1] if t.op == 'attr' else t.a[0]) in ('_value', 'size', 'value', '_size'):
        t = t.a[2] if t.op == 'call' else t.a[0] if t.op == 'attr' else t.a[1]
    return t is P


def chunkers(ctx):
    """functions that cut the input into data packets"""
    def build():
        out = []
        fl = Flow(ctx, {'put', 'read'}, samename=True)
        for f in library(ctx.p):
            if not f.abstract and calls_of(f, 'put') and calls_of(f, 'read') and calls_of(f, 'ChunkMetadata'):
                out.append(f)
        return sorted(out, key=lambda f: f.qual), fl
    return ctx.lazy('build.chunkers', build)


def chunk_sizes(ctx, rep):
    """the sizes recorded for chunks are those of their payload, the total is their sum"""
    rule = 'recorded sizes are those of the data'
    fs, fl = chunkers(ctx)
    for f in fs:
        con = short(f)
        with rep.guard(rule, con):
            seen = set()
            for o in fl.run(f):
                if o.kind != 'return':
                    continue
                for e, ls in walk_events(o.events()):
                    if e.kind != 'loop' or not any(pname(x.term) == 'ChunkMetadata' for q in e.x.outs for x in q[3] if x.kind == 'new' and isinstance(x.term, T)):
                        continue
                    for q in e.x.outs:
                        if q[0] not in ('next', 'continue'):
                            continue
                        cm = [x.term for x in q[3] if x.kind == 'new' and isinstance(x.term, T) and pname(x.term) == 'ChunkMetadata']
                        if len(cm) != 1:
                            continue
                        n = arg(cm[0], 'payload_bytes')
                        pay = data_payload(arg(cm[0], 'content_object_hash'))
                        if pay is not None and n is not None:
                            pk = child_of(arg(cm[0], 'content_object_hash'))
                            ok = n is mk('len', pay) or n.op == 'len' and pk is not None and payload_of(n.a[0]) is pk
                            bad = n.op in ('const', 'lin') or n.op == 'len' and n.a[0] is pk or n.op in ('attr', 'lv', 'mcall') and not mentions(n, pay)
                            rep.check(True if ok else False if bad else None, rule, con, e.loc(), 'the size of a chunk with payload %s is recorded as %s' % (show(pay)[:40], show(n)[:60]))
                        else:
                            rep.und(rule, con, 'payload of the packet')
                            continue
                        # the running total
                        tot = arg(o.val, 'total_bytes') if o.val.op == 'new' else None
                        if tot is None or tot.op != 'lv':
                            good = None
                            if tot is not None and (tot.op == 'const' or tot.op in ('lin', 'mul', 'band', 'min', 'max', 'mod', 'fdiv', 'shr') and len({s for s in subs(tot) if s.op == 'lv'}) <= 1):
                                good = False
                            rep.check(good, rule, con, e.loc(), 'the total is %s' % (show(tot)[:60] if tot is not None else '?'))
                            continue
                        up = q[4].get(tot.a[1])
                        d = add(up, mk('lv', e.x.lid, tot.a[1]), -1) if up is not None else None
                        rep.check(True if d is n or d is mk('len', pay) else None if d is None else False, rule, con, e.loc(), 'a chunk of %s bytes adds %s to the total' % (show(n)[:40], show(d)[:60] if d is not None else '?'))
                        rep.check(True if num(e.x.init.get(tot.a[1], NONE)) == 0 else None, rule, con, e.loc(), 'the total starts at another value')


def data_payload(h):
    """the bytes in the payload of the data packet whose hash this is"""
    if h is None or h.op != 'mcall' or h.a[0] != 'content_object_hash' and not h.a[0].endswith('hash'):
        return None
    for x in subs(h):
        if x.op == 'new' and x.a[0].a[0].split('.')[-1] == 'Payload':
            v = x.a[3] if len(x.a) > 3 else None
            while v is not None and (v.op in ('arr', 'tobytes', 'spread') or v.op == 'seq' and len(v.a) == 2 and v.a[1].op == 'spread'):
                v = v.a[1].a[0] if v.op == 'seq' else v.a[0]
            return v
    for x in subs(h):
        if x.op == 'mcall' and arg(x, 'payload_value') is not None:
            return arg(x, 'payload_value')
    return None


# ------------------------------------------------------------------ F07
def f07(ctx, rep):
    p = ctx.p
    crypto.create_manifest(ctx, rep)
    triples(ctx, rep)
    plain(ctx, rep)
    configured(ctx, rep)
    payloads(ctx, rep)


def triples(ctx, rep):
    """encryptors give (security context, encrypted node, tag) of one encryption"""
    rule = 'an encryptor gives context, encrypted node and tag'
    p = ctx.p
    E = p.classes.get('ccnpy.flic.ManifestEncryptor.ManifestEncryptor') or p.cls('ManifestEncryptor')
    want = [{'AeadCtx', 'RsaOaepCtx', 'SecurityCtx'}, {'EncryptedNode'}, {'AuthTag'}]
    fl = ctx.lazy('build.enc', lambda: Flow(ctx, {'encrypt_with_security_ctx', '_encrypt'}, samename=True))
    for c in E.all_subs():
        f = c.find('encrypt')
        if f is None or f.abstract:
            continue
        with rep.guard(rule, short(f)):
            for o in fl.run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                if v.op == 'seq' and len(v.a) == 4:
                    for i in range(3):
                        x = v.a[i + 1]
                        n = pname(x) if x.op == 'new' else None
                        rep.check(None if n is None else n in want[i] or n not in set().union(*want) and None, rule, short(f), f.loc(), 'part %d is %s' % (i, n))
                elif v.op == 'mcall':
                    rep.ok(rule, short(f))
                elif v.op == 'new' or v is NONE:
                    rep.check(False, rule, short(f), f.loc(), 'encrypt gives %s' % show(v)[:60])
                else:
                    rep.und(rule, short(f), show(v)[:80])


def is_manifest_new(ctx, t):
    M = ctx.p.cls('Manifest')
    if t.op != 'new':
        return False
    c = ctx.p.classes.get(t.a[0].a[0])
    return c is not None and c.isa(M)


def makers(ctx):
    """functions that construct a manifest, outside the decoder of manifests and decryption"""
    def build():
        M = ctx.p.cls('Manifest')
        out = []
        for f in library(ctx.p):
            if f.cls is not None and f.cls.isa(M) or f.abstract:
                continue
            if calls_of(f, M.name):
                out.append(f)
        return sorted(out, key=lambda f: f.qual)
    return ctx.lazy('build.makers', build)


def roots(ctx, f):
    """public functions of the class of f through which f is reached (f itself when it is public)"""
    if f.cls is None or not f.name.startswith('_'):
        return {f}
    ms = set(f.cls.methods.values())
    todo, seen = [f], {f}
    out = set()
    while todo:
        g = todo.pop()
        up = [h for h in ms if h not in seen and calls_of(h, g.name)]
        if not g.name.startswith('_'):
            out.add(g)
        for h in up:
            seen.add(h)
            todo.append(h)
    return out or {f}


def enc_attr(ctx, c):
    """attributes of c that hold what was configured: name -> 'encryptor' or 'options'"""
    out = {}
    i = factory_flow(ctx).i
    for o in i.ctor(c):
        if o.kind == 'raise':
            continue
        for (r, a), v in o.st.heap.items():
            if r is not SELF:
                continue
            if v.op == 'attr' and v.a[1] == 'manifest_encryptor':
                out.setdefault(a, set()).add('encryptor')
            elif v.op == 'param' and any(x.name == 'ManifestTreeOptions' for x in i.typeof(v, o.st).classes):
                out.setdefault(a, set()).add('options')
            elif v.op == 'param' and any(x.name == 'ManifestEncryptor' for x in i.typeof(v, o.st).classes):
                out.setdefault(a, set()).add('encryptor')
            else:
                out.setdefault(a, set()).add('other')
    return out


def is_encryptor(x, attrs):
    """is x the configured encryptor: True, False (something that is not), None"""
    if x.op == 'attr' and x.a[0] is SELF and 'encryptor' in attrs.get(x.a[1], ()):
        return attrs[x.a[1]] == {'encryptor'}
    if x.op == 'attr' and x.a[1] == 'manifest_encryptor':
        return True
    if x.op == 'mcall' and x.a[0] == 'manifest_encryptor':
        return True
    return None


def plain(ctx, rep):
    rule = 'no plaintext manifest with an encryptor configured'
    p = ctx.p
    E = p.cls('ManifestEncryptor')
    done = set()
    for f in makers(ctx):
        c = f.cls
        attrs = enc_attr(ctx, c) if c is not None else {}
        aware = any(v & {'encryptor', 'options'} for v in attrs.values()) or any(n in ('tree_options', 'manifest_factory', 'encryptor') for n in f.params)
        for g in sorted(roots(ctx, f), key=lambda g: g.qual):
            if g in done:
                continue
            done.add(g)
            con = short(g)
            with rep.guard(rule, con):
                fl = factory_flow(ctx)
                for o in fl.run(g, selfcls=c):
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind != 'new' or not isinstance(t, T) or not is_manifest_new(ctx, t):
                            continue
                        one_manifest(ctx, rep, fl, g, con, o, e, canon(t), attrs, aware)


def one_manifest(ctx, rep, fl, g, con, o, e, t, attrs, aware):
    rule = 'no plaintext manifest with an encryptor configured'
    node, sc, at = arg(t, 'node'), arg(t, 'security_ctx'), arg(t, 'auth_tag')
    if node is None:
        rep.und(rule, con, 'manifest without a node')
        return
    if node.op == 'idx' and node.a[0].op == 'mcall' and 'encrypt' in node.a[0].a[0]:
        c = node.a[0]
        for n, x, ix in (('node', node, 1), ('security context', sc, 0), ('tag', at, 2)):
            good = x is not None and x.op == 'idx' and x.a[0] is c and num(x.a[1]) == ix
            rep.check(True if good else False if x is None or x is NONE or x.op in ('idx', 'attr', 'param', 'const') else None, 'the parts of an encrypted manifest are of one encryption', con, e.loc(), 'the %s is %s' % (n, show(x)[:60] if x is not None else 'missing'))
        if aware:
            rep.check(is_encryptor(c.a[1], attrs), 'the configured encryptor is used', con, e.loc(), 'encrypted by %s' % show(c.a[1])[:60])
        return
    if any(s.op == 'mcall' and 'decrypt' in s.a[0] for s in subs(node)) or 'decrypt' in g.name:
        rep.ok('manifest of a decrypted node', con)
        return
    if not aware:
        rep.und(rule, con, 'no encryptor known here')
        return
    ok = None
    for a, v in o.facts.items():
        if a.op == 'isnone' and is_encryptor(a.a[0], attrs):
            ok = v
        if a.op == 'truth' and is_encryptor(a.a[0], attrs):
            ok = not v
    if ok is None:
        # asked in some other way?
        ok = None if any(any(is_encryptor(s, attrs) for s in subs(a)) for a in o.facts) else False
    rep.check(ok, rule, con, e.loc(), 'a manifest is built from the plain node on a path where an encryptor may be configured')


def configured(ctx, rep):
    """the encryptor that is used is the one in the options, from the options to the factory"""
    rule = 'the encryptor comes from the options'
    p = ctx.p
    fl = factory_flow(ctx)
    F = {f.cls for f in factories(ctx)}
    for c in sorted(F, key=lambda c: c.qual):
        with rep.guard(rule, short_c(c)):
            attrs = enc_attr(ctx, c)
            es = {a for a, v in attrs.items() if 'encryptor' in v}
            for a in es:
                bad = attrs[a] != {'encryptor'}
                why = 'not always the one from the options'
                if bad:
                    # on the paths where it is something else there must be none configured
                    bad = False
                    for o in fl.i.ctor(c):
                        v = o.st.heap.get((SELF, a))
                        if o.kind == 'raise' or v is None or v.op == 'attr' and v.a[1] == 'manifest_encryptor':
                            continue
                        if not any(x.op == 'isnone' and x.a[0].op == 'attr' and x.a[0].a[1] == 'manifest_encryptor' and b for x, b in o.facts.items()):
                            bad = True
                            why = 'the constructor sets %s to %s' % (a, show(v)[:40])
                rep.check(not bad, rule, short_c(c), c.methods['__init__'].loc(), why)
                for f in library(p):
                    if f.name == '__init__' and f.cls is c:
                        continue
                    for n in ast.walk(f.node):
                        if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, (ast.Store, ast.Del)) and (f.cls is c or not (isinstance(n.value, ast.Name) and n.value.id == f.first)):
                            rep.check(False, rule, short(f), f.loc(), '%s is changed after construction' % a)
            if not es and not any('options' in v for v in attrs.values()):
                rep.check(False if any('manifest_encryptor' in ast.dump(m.node) for m in c.methods.values()) else None, rule, short_c(c), c.methods['__init__'].loc(), 'no encryptor kept')
        # constructions of the factory
        for f in library(p):
            if not calls_of(f, c.name):
                continue
            with rep.guard(rule, short(f)):
                for o in ctx.lazy('build.shallow', lambda: Flow(ctx, set(), samename=True)).run(f):
                    for e, ls in walk_events(o.events()):
                        if e.kind == 'new' and isinstance(e.term, T) and p.classes.get(e.term.a[0].a[0]) is c:
                            v = arg(e.term, 'tree_options', 0)
                            rep.check(None if v is None else True if v.op in ('param', 'attr') else False if v.op == 'new' or is_replace(v) else None, rule, short(f), e.loc(), 'the factory works with %s' % show(v)[:60] if v is not None else '')
    # nobody changes the option of an options object
    for f in library(p):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr == 'manifest_encryptor' and isinstance(n.ctx, (ast.Store, ast.Del)):
                if f.cls is not None and f.cls.name == 'ManifestTreeOptions':
                    continue
                rep.check(False, rule, short(f), '%s:%d' % (f.loc().rsplit(':', 1)[0], n.lineno), 'the encryptor option is changed')


def is_replace(v):
    return v.op == 'call' and v.a[0].op == 'ext' and v.a[0].a[0].split('.')[-1] == 'replace' and any(x.op == 'kw' and x.a[0] == 'manifest_encryptor' for x in v.a[2:])


def payloads(ctx, rep):
    """a content object that announces a manifest carries the encoding of a manifest object"""
    rule = 'manifest content objects carry manifests'
    p = ctx.p
    fl = factory_flow(ctx)
    M = p.cls('Manifest')
    for f in sorted(library(p), key=lambda f: f.qual):
        if f.abstract or not (calls_of(f, 'create_manifest_type') or calls_of(f, 'create_manifest')):
            continue
        if f.cls is not None and f.cls.name == 'PayloadType':
            continue
        con = short(f)
        with rep.guard(rule, con):
            for o in ctx.lazy('build.payload', lambda: Flow(ctx, {'serialize'}, samename=True)).run(f):
                if o.kind != 'return':
                    continue
                for t in news(o.val, 'ContentObject'):
                    pt, pl_ = arg(t, 'payload_type'), arg(t, 'payload')
                    if pt is None or not is_kind(ctx, canon(pt), 'create_manifest_type'):
                        continue
                    x = None
                    if pl_ is not None and pl_.op == 'new':
                        v = pl_.a[3] if len(pl_.a) > 3 else None
                        x = serialized(v) if v is not None else None
                    if x is None:
                        rep.und(rule, con, show(pl_)[:80] if pl_ is not None else 'no payload')
                        continue
                    ty = fl.i.typeof(x, o.st).classes
                    if x is SELF and f.cls is not None:
                        ty = {f.cls}
                    part = f.cls is not None and f.cls.isa(M) and x is not SELF and base(x) is SELF
                    rep.check(True if ty and all(k.isa(M) for k in ty) or x.op == 'param' else False if part or ty and not any(k.isa(M) for k in ty) else None, rule, con, f.loc(), 'the payload of a manifest is the encoding of %s' % show(x)[:60])


def kind_const(ctx, name):
    """the payload type that PayloadType.<name>() makes"""
    def build():
        fl = ctx.lazy('build.shallow', lambda: Flow(ctx, set(), samename=True))
        vs = {canon(o.val) for o in fl.run(ctx.p.fn('PayloadType.' + name)) if o.kind == 'return'}
        return next(iter(vs)) if len(vs) == 1 else None
    return ctx.lazy('build.kind.' + name, build)


def is_kind(ctx, t, name):
    """is t the payload type made by PayloadType.<name>()"""
    k = kind_const(ctx, name)
    if t is k and k is not None:
        return True
    if t.op == 'mcall':
        return t.a[0] == name
    return False if k is not None and t.op == 'new' and k.op == 'new' and all(is_const(t.a[i]) for i in range(3, len(t.a), 2)) else None


RULES = {'F06': f06, 'F07': f07, 'F11': f11}
