"""C03 - C07: guards of the decoders and widths of the encoders."""
import ast
import math
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from .codec import dec_loc, loc, params_of, pterms, changed, strip, FAMILIES

IN = mk('param', '$in')

# containers whose set of fields is closed (the specification side of C03)
CLOSED = ('ContentObject', 'Link', 'Packet', 'Manifest', 'Node', 'NodeData')


def pos_codes(facts, arg, of_arg):
    """numbers that the facts say a type number is equal to"""
    out = []
    for a, b in facts:
        if a.op == 'not':
            a, b = a.a[0], not b
        cf = code_fact(a)
        if cf and b and (cf[0] is arg) == of_arg:
            out.append(cf[1])
    return out


def c03(ctx, rep):
    w, p = ctx.wire, ctx.p
    for c in w.classes():
        with rep.guard('wrong type raises', c.name):
            r = w.reader(c)
            f = r.fn
            if f.name == 'parse' and w.code(c) is not None and r.istlv and f.params[0] != 'tlv_value':
                for o in r.returns:
                    got = pos_codes(o.facts.items(), r.arg, True)
                    if not got and o.val is NONE:
                        pass
                    if o.val is NONE or w.outer_codes(c) - {None} != w.outer_codes(c):
                        continue
                    if got:
                        rep.check(set(got) <= {k for _, ks, _, _ in w.writer(c) for k in ks} | w.outer_codes(c), 'wrong type raises', c.name, f.loc(),
                                  'the decoder of %s accepts type number %s but it is encoded with %s' %
                                  (c.name, got, sorted(w.outer_codes(c))))
                    elif delegated(w, o, r.arg):
                        rep.ok('wrong type raises', c.name)
                    else:
                        rep.viol('wrong type raises', c.name, f.loc(), 'the decoder of %s returns an object without having '
                                 'compared the type number of its argument with %s' % (c.name, w.code(c)))
        with rep.guard('wrong inner type raises', c.name):
            # two-level encodings (validation algorithms, security contexts)
            oc = [codes for _, codes, _, _ in w.writer(c)]
            if oc and len(oc[0]) == 2 and oc[0][1] is not None:
                r = w.reader(c)
                for o in r.returns:
                    got = pos_codes(o.facts.items(), r.arg, False)
                    if oc[0][0] != oc[0][1]:
                        got += pos_codes(o.facts.items(), r.arg, True)
                    rep.check(any(x in got for x in (oc[0][1],)), 'wrong inner type raises', c.name, r.fn.loc(),
                              'the decoder of %s returns an object without having checked the inner type number %d' % (c.name, oc[0][1]))
        if c.name in CLOSED:
            with rep.guard('unknown field raises', c.name):
                r = w.reader(c)
                for e in r.loops.values():
                    if not any(pos_codes(x[2], r.arg, False) for x in e.x.outs):
                        continue
                    for kind, v, facts, evs, ups in e.x.outs:
                        if pos_codes(facts, r.arg, False):
                            continue
                        unknown = any(code_fact(a[0] if isinstance(a, tuple) else a) for a in facts)
                        if not unknown:
                            continue
                        rep.check(kind == 'raise', 'unknown field raises', c.name, r.fn.loc(),
                                  'a field of %s with a type number outside its set is skipped instead of raising' % c.name)
    for n in sorted(FAMILIES):
        with rep.guard('unknown kind raises', n):
            c = p.cls(n)
            f = c.find('parse')
            q = f.params[0]
            subs_ = [s for s in c.all_subs() if not s.is_abstract()]
            for o in w.i.run(f, selfcls=c, args={q: IN}):
                if o.kind != 'return':
                    continue
                v = o.val
                ok = v.op == 'mcall' and v.a[0] == 'parse' and v.a[1].op == 'cls' and p.classes.get(v.a[1].a[0]) in subs_
                if ok:
                    rep.ok('unknown kind raises', '%s -> %s' % (n, v.a[1].a[0].split('.')[-1]))
                elif v is NONE or v.op in ('exc', 'const') or (v.op == 'new' and v.a[0].a[0].endswith('Error')):
                    rep.viol('unknown kind raises', n, f.loc(), 'the dispatcher %s.parse returns %s instead of raising' % (n, show(v)[:60]))
                else:
                    rep.und('unknown kind raises', n, 'returns %s' % show(v)[:80])


def delegated(w, o, arg):
    """the argument is handed to another decoder that checks it"""
    for s in subs(o.val):
        if s.op == 'mcall' and s.a[0] in ('parse',) and any((x.a[1] if x.op == 'kw' else x) is arg for x in s.a[3:]):
            return True
    return False


# ------------------------------------------------------------------------------------------------ C04
ATOMS = {'in', 'eq', 'lt0', 'isnone', 'isa', 'truth', 'not', 'is'}


def boolish(x):
    return x.op in ATOMS or x.op == 'call' and x.a[0].op == 'ext' and x.a[0].a[0] == 'bool'


class Progress:
    def __init__(self, w):
        self.w, self.i, self.p = w, w.i, w.p
        self.busy = set()

    def positive(self, t):
        """is the number t at least 1?  True / False / None"""
        c, d = lin_parts(t)
        lo = c
        for x, k in d.items():
            m = self.least(x)
            if m is None or k < 0:
                return None
            lo += k * m
        return lo >= 1

    def least(self, x):
        """a lower bound of the number x"""
        if x.op == 'len':
            y = x.a[0]
            ks = self.classes(y)
            if ks:
                b = [self.least_len(k) for k in ks]
                return None if None in b else min(b)
            return 0
        if x.op == 'mcall' and x.a[0] == '__len__':
            ks = self.classes(x.a[1])
            if ks:
                b = [self.least_len(k) for k in ks]
                return None if None in b else min(b)
        if x.op == 'be_num' or boolish(x):
            return 0
        if x.op == 'mul':
            b = [self.least(y) for y in x.a]
            return None if None in b or min(b) < 0 else min(b) and math.prod(b)
        return None

    def wire_number(self, x):
        """a number the input chooses freely, so that it can be 0"""
        if x.op == 'be_num':
            return True
        if x.op == 'mul':
            return any(boolish(y) or self.wire_number(y) for y in x.a)
        if x.op == 'len' and x.a[0].op == 'mcall' or x.op == 'mcall' and x.a[0] == '__len__':
            return any(self.empty_len(k) for k in self.classes(x.a[0] if x.op == 'len' else x.a[1]))
        if x.op == 'len':
            y = x.a[0]
            return y.op == 'attr' and bool(self.classes(y.a[0])) or y.op == 'slice' and y.a[2] is not NONE and has_op(y.a[2], 'be_num')
        return False

    def empty_len(self, k):
        """can the length that class k reports for itself be the constant 0?"""
        f = k.find('__len__')
        if f is None or k in self.busy:
            return False
        self.busy.add(k)
        try:
            starts = [o.st for o in self.i.ctor(k)] or [None]
            return any(o.kind == 'return' and num(canon(o.val)) == 0 for st in starts
                       for o in self.i.run(f, selfcls=k, st=st.copy() if st else None))
        finally:
            self.busy.discard(k)

    def classes(self, y):
        if y.op == 'mcall' and y.a[0] in ('deserialize', 'parse') and y.a[1].op == 'cls':
            k = self.p.classes.get(y.a[1].a[0])
            if k is not None:
                f = k.find(y.a[0])
                return [k] if f is not None else []
        return [k for k in self.i.typeof(y).classes]

    def least_len(self, k):
        if k in self.busy:
            return None
        self.busy.add(k)
        try:
            f = k.find('__len__')
            if f is None:
                return None
            best = None
            starts = [o.st for o in self.i.ctor(k)] or [None]
            outs = [o for st in starts for o in self.i.run(f, selfcls=k, st=st.copy() if st else None)]
            for o in outs:
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                if v.op == 'len' and v.a[0].op == 'seq':
                    lo = 0
                    for x in v.a[0].a[1:]:
                        if x.op == 'spread':
                            lo += x.a[0].a[1] if x.a[0].op == 'be_bytes' else 0
                        elif x.op not in ('each', 'rev'):
                            lo += 1
                    best = lo if best is None else min(best, lo)
                    continue
                c, d = lin_parts(v)
                lo = c
                for x, m in d.items():
                    b = self.least(x)
                    if b is None or m < 0:
                        return None
                    lo += m * b
                best = lo if best is None else min(best, lo)
            return best
        finally:
            self.busy.discard(k)

    def loop(self, L):
        """-> (verdict, reason) for a loop"""
        if L.iter is not None:
            it = L.iter
            if it.op == 'lv' and any(ups.get(it.a[1]) not in (None, it) for _, _, _, _, ups in L.outs):
                return None, 'the sequence iterated over changes'
            if it.op == 'call' and it.a[0].op == 'ext' and it.a[0].a[0] in ('itertools.count', 'itertools.cycle', 'itertools.repeat'):
                if any(k == 'next' for k, *_ in L.outs):
                    return None, 'an endless iterator'
            return True, 'finite sequence'
        why = None
        nxt = [(facts, ups) for kind, v, facts, evs, ups in L.outs if kind in ('next', 'continue')]
        if not nxt:
            return True, 'at most one pass'
        verdict = True
        for facts, ups in nxt:
            g = self.measure(L, facts, ups)
            if g is None:
                verdict, why = (None if verdict else verdict), 'no decreasing measure found'
            elif g is False:
                return False, self.why
        return verdict, why

    def measure(self, L, facts, ups):
        lid = L.lid
        cand = []
        for a, b in facts:
            if a.op == 'not':
                a, b = a.a[0], not b
            l = None
            if a.op == 'lt0' and b:
                l = a.a[0]              # l < 0 : something grows towards a bound
            elif a.op == 'lt0' and not b:
                l = mul(const(-1), a.a[0])
            elif a.op == 'truth' and b:
                l = mul(const(-1), mk('len', a.a[0]))
            elif a.op == 'eq' and not b and any(num(x) == 0 for x in a.a):
                y = a.a[0] if num(a.a[1]) == 0 else a.a[1]
                l = mul(const(-1), y)
            elif a.op == 'eq' and not b:
                l = add(a.a[0], a.a[1], -1)
            if l is None:
                continue
            if any(s.op == 'lv' and s.a[0] == lid for s in subs(l)):
                cand.append(l)
        self.why = 'the loop condition does not depend on anything the loop changes'
        if not cand:
            return None
        res = None
        stuck = False
        for l in cand:
            m = {}
            for s in subs(l):
                if s.op == 'lv' and s.a[0] == lid and s.a[1] in ups and ups[s.a[1]] is not None:
                    m[s] = ups[s.a[1]]
            l2 = canon(self.i.subst(l, m))
            d = add(l2, canon(l), -1)
            # slices that drop a prefix:  len(slice(x, k, None)) - len(x) = -k (or less than 0)
            g = self.grows(l, m, d)
            if g is True:
                return True
            if g is False:
                stuck = True
        if stuck and not res:
            self.why = 'a pass of the loop leaves its position unchanged (it consumes no input), so the loop never ends on such input'
            return False
        return None

    def grows(self, l, m, d):
        n = num(d)
        if n is not None:
            if n >= 1:
                return True
            return False
        pos = self.positive(d)
        if pos:
            return True
        if pos is False and lin_parts(d)[0] == 0 and all(self.wire_number(x) for x in lin_parts(d)[1]):
            return False            # the step is a number taken from the input, which may be 0
        # len of a shrinking buffer
        c, parts = lin_parts(l)
        for x, k in parts.items():
            if x.op == 'len' and k < 0 and x.a[0] in m:
                u = canon(m[x.a[0]])
                if u.op == 'slice' and u.a[0] is x.a[0] and u.a[2] is NONE and self.positive(u.a[1]):
                    return True
                if u is x.a[0]:
                    return False
        return None


def c04(ctx, rep):
    w, p = ctx.wire, ctx.p
    pr = Progress(w)
    edges = {}
    decs = {}
    for c in list(w.classes()) + [w.tlv] + [p.cls(n) for n in sorted(FAMILIES)]:
        for n in ('parse', 'deserialize'):
            f = c.find(n)
            if f is None or f.abstract:
                continue
            with rep.guard('decoding loop makes progress', '%s.%s' % (c.name, n)):
                r = w.reader(c) if f is w.decoder(c) and c not in (w.tlv,) and c.name not in FAMILIES else Reader(w, c, f)
                for lid, e in r.loops.items():
                    # nested loops too
                    g, why = pr.loop(e.x)
                    rep.check(g, 'decoding loop makes progress', '%s.%s %s loop' % (c.name, n, e.x.kind), e.loc(),
                              why or '')
                if not r.loops:
                    rep.ok('decoder without loop', '%s.%s' % (c.name, n))
                # recursion
                me = (c.qual, n)
                for o in r.outs:
                    for t in terms_of(o):
                        for s in subs(t):
                            if s.op == 'mcall' and s.a[0] in ('parse', 'deserialize') and s.a[1].op == 'cls':
                                same = any((x.a[1] if x.op == 'kw' else x) is r.arg for x in s.a[3:])
                                edges.setdefault(me, set()).add(((s.a[1].a[0], s.a[0]), same))
    # cycles of calls that hand on the very same input
    for c, f in other_decoders(w):
        with rep.guard('decoding loop makes progress', short(f)):
            for lid, e in Reader(w, c, f).loops.items():
                g, why = pr.loop(e.x)
                rep.check(g, 'decoding loop makes progress', '%s %s loop' % (short(f), e.x.kind), e.loc(), why or '')
    for start in sorted(edges):
        with rep.guard('recursion consumes input', start[0]):
            seen, stack, bad = set(), [start], False
            while stack:
                x = stack.pop()
                for (k, same) in edges.get(x, ()):
                    if not same:
                        continue
                    if k == start:
                        bad = True
                    if k not in seen:
                        seen.add(k)
                        stack.append(k)
            rep.check(not bad, 'recursion consumes input', '%s.%s' % (start[0].split('.')[-1], start[1]), start[0],
                      'the decoder calls itself again with the same input')


def terms_of(o):
    out = [o.val]
    def walk(evs):
        for e in evs:
            if e.kind == 'loop':
                for q in e.x.outs:
                    walk(q[3])
                    out.extend(u for u in q[4].values() if isinstance(u, T))
            elif isinstance(e.term, T):
                out.append(e.term)
    walk(o.events())
    return [t for t in out if isinstance(t, T)]


# ------------------------------------------------------------------------------------------------ C05
def implied_len(base, terms):
    """a length that reads with bounds checks of their own imply"""
    lo = 0
    for t in terms:
        for s in subs(t):
            if s.op == 'idx' and s.a[0] is base and num(s.a[1]) is not None and num(s.a[1]) >= 0:
                lo = max(lo, int(num(s.a[1])) + 1)
            if s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0] == 'struct.unpack_from' and len(s.a) >= 4 and s.a[3] is base:
                ws = layout_of(s.a[2].a[0]) if is_const(s.a[2], str) else None
                off = num(s.a[4]) if len(s.a) > 4 else 0
                if ws and off is not None:
                    lo = max(lo, int(off) + sum(ws))
            if s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0] == 'struct.unpack' and len(s.a) >= 4:
                ws = layout_of(s.a[2].a[0]) if is_const(s.a[2], str) else None
                y = s.a[3]
                if ws and y.op == 'slice' and y.a[0] is base and num(y.a[1]) is not None:
                    lo = max(lo, int(num(y.a[1])) + sum(ws))
    return lo


def proves(i, st, facts, atom_terms):
    pass


def covered(i, o, base, hi, implied):
    """do the facts of outcome o prove len(base) >= hi ?"""
    n = num(hi)
    if n is not None and n <= implied:
        return True
    # canonical facts
    st = St()
    for a, b in o.facts.items():
        st.facts[canon(a)] = b
    L = mk('len', base)
    if n is not None and implied:
        st.facts[i.lt0(add(L, const(implied), -1))] = False
    atom = i.lt0(add(L, canon(hi), -1))
    if atom is FALSE:
        return True
    d = i.decide(atom, st) if atom.op != 'const' else atom.a[0]
    if d is False:
        return True
    # len(slice(base, lo, hi)) == hi - lo
    for a, b in st.facts.items():
        if a.op == 'eq' and b:
            for x, y in ((a.a[0], a.a[1]), (a.a[1], a.a[0])):
                if x.op == 'len' and x.a[0].op == 'slice' and x.a[0].a[0] is base:
                    s = x.a[0]
                    if s.a[2] is not NONE and add(canon(hi), s.a[2], -1) is const(0) and add(add(s.a[2], s.a[1], -1), y, -1) is const(0):
                        return True
                    # eq(n, len(base[lo:])) with the exact declared length
                    if s.a[2] is NONE and add(add(s.a[1], y), canon(hi), -1) is const(0):
                        return True
        if a.op == 'lt0' and not b:
            # len(slice(base, lo, None)) >= k
            c, d = lin_parts(a.a[0])
            for x, k in d.items():
                if x.op == 'len' and k == 1 and x.a[0].op == 'slice' and x.a[0].a[0] is base and x.a[0].a[2] is NONE:
                    rest = add(mul(const(-1), a.a[0]), x)
                    if add(add(x.a[0].a[1], rest), canon(hi), -1) is const(0):
                        return True
    return False


def reads_number(f):
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('array_to_number', 'from_bytes')
               for n in ast.walk(f.node)) and any(isinstance(n, ast.Subscript) for n in ast.walk(f.node))


def slices_of(o, base):
    out = {}
    for t in [o.val]:
        for s in subs(canon(t)):
            if s.op == 'slice' and s.a[0] is base:
                if s.a[2] is not NONE:
                    out[s] = s.a[2]
                elif num(s.a[1]):
                    out[s] = s.a[1]
    return out


def unpacked(o, base):
    """slices read by struct functions, which check the length themselves"""
    out = set()
    for s in subs(o.val):
        if s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0].startswith('struct.unpack'):
            for k in range(0, 64):
                pass
            r = canon(s)
            out |= {x for x in subs(r) if x.op == 'slice' and x.a[0] is base}
    return out


def c05(ctx, rep):
    w, p, i = ctx.wire, ctx.p, ctx.wire.i
    todo = [(c, w.decoder(c)) for c in w.classes()]
    todo += [(w.tlv, w.tlv.find('deserialize'))]
    nc = p.classes.get('ccnpy.core.Name.NameComponent')
    for c, f in todo:
        if f is None:
            continue
        with rep.guard('bytes are read after a length check', c.name):
            r = Reader(w, c, f) if c is w.tlv else w.reader(c)
            bases = [r.arg, mk('attr', r.arg, '_value')]
            for o in r.returns:
                for base in bases:
                    imp = implied_len(base, [o.val])
                    own = unpacked(o, base)
                    for s, hi in slices_of(o, base).items():
                        if s in own:
                            continue
                        g = covered(i, o, base, hi, imp)
                        rep.check(g, 'bytes are read after a length check', '%s %s' % (c.name, show(s)[:60]), f.loc(),
                                  'the decoder of %s reads %s although the input may be shorter than %s' % (c.name, show(s)[:80], show(hi)[:60]))
    # numbers cut out of other bytes (the plaintext of a wrapped key)
    used = {f for _, f in todo}
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f in used or f.abstract or f.cls is w.tlv or not reads_number(f):
            continue
        with rep.guard('bytes are read after a length check', short(f)):
            for o in i.run(f, selfcls=f.cls):
                if o.kind != 'return':
                    continue
                for s in {s for s in subs(canon(o.val)) if s.op == 'be_num' and s.a[0].op == 'slice' and num(s.a[0].a[2]) is not None}:
                    base, hi = s.a[0].a[0], s.a[0].a[2]
                    g = covered(i, o, base, hi, 0)
                    rep.check(g, 'bytes are read after a length check', '%s %s' % (short(f), hi), f.loc(),
                              '%s reads a number from the first %s bytes of %s although there may be fewer' % (short(f), show(hi), show(base)[:60]))
    # a TLV holds exactly the declared number of bytes
    with rep.guard('declared length', 'Tlv.deserialize'):
        f = w.tlv.find('deserialize')
        r = Reader(w, w.tlv, f)
        n = mk('be_num', mk('slice', IN, const(2), const(4)))
        for o in r.returns:
            v = o.val
            if v.op != 'new':
                rep.und('declared length', 'Tlv.deserialize', 'returns %s' % show(v)[:60])
                continue
            val = canon(kwargs(v).get('value', NONE))
            if val.op == 'slice' and val.a[0] is IN:
                lo, hi = val.a[1], val.a[2]
                if hi is NONE:
                    st = {canon(a): b for a, b in o.facts.items()}
                    ok = st.get(i.eq(n, mk('len', val))) is True
                    rep.check(ok, 'declared length', 'Tlv.deserialize', f.loc(), 'the value of a decoded TLV is not bounded by the declared length')
                else:
                    ok = lo is const(4) and add(hi, n, -1) is const(4)
                    rep.check(ok, 'declared length', 'Tlv.deserialize', f.loc(),
                              'the value of a decoded TLV is %s, not the declared number of bytes after the header' % show(val)[:80])
            else:
                rep.und('declared length', 'Tlv.deserialize', 'value %s' % show(val)[:80])
            ty = canon(kwargs(v).get('tlv_type', NONE))
            rep.check(ty is mk('be_num', mk('slice', IN, const(0), const(2))), 'TLV header positions', 'Tlv.deserialize', f.loc(),
                      'the type of a TLV is not read from its first two bytes: %s' % show(ty)[:60])
    # the packet is not longer than the buffer
    with rep.guard('declared packet length', 'Packet.deserialize'):
        c = p.cls('Packet')
        r = w.reader(c)
        for o in r.returns:
            v = o.val
            hdr = kwargs(v).get('header') if v.op == 'new' else None
            if hdr is None:
                rep.und('declared packet length', 'Packet.deserialize', show(v)[:60])
                continue
            declared = {a for f_ in o.facts for a in subs(f_) if a.op in ('attr', 'mcall') and 'packet_length' in (a.a[1], a.a[0]) or
                        a.op == 'attr' and a.a[1] == '_packet_length'}
            ok = False
            for d in declared:
                if covered(i, o, r.arg, d, 0) or any(
                        a.op == 'eq' and b and {x for x in a.a} == {d, mk('len', r.arg)} for a, b in o.facts.items()):
                    ok = True
            rep.check(ok, 'declared packet length', 'Packet.deserialize', r.fn.loc(),
                      'a packet is returned although the buffer may be shorter than the packet length in its header')
    # decoding starts after the header and ends at the declared end
    with rep.guard('all bytes up to the end are decoded', 'containers'):
        for c in w.classes():
            r = w.reader(c)
            for lid, e in r.loops.items():
                L = e.x
                if L.iter is not None or not any(pos_codes(x[2], r.arg, False) for x in L.outs):
                    continue
                for base, off in positions(L):
                    if off.op == 'lv' and off.a[0] == L.lid and isinstance(L.init, dict) and L.init.get(off.a[1]) is not None:
                        rep.check(starts(c, canon(L.init[off.a[1]])), 'decoding starts after the header', c.name, r.fn.loc(),
                                  'the elements of %s are decoded from position %s on' % (c.name, show(L.init[off.a[1]])[:60]))
                for o in r.returns:
                    if o.val.op != 'new':
                        continue
                    # at a return the loop must have been left because its position reached the end
                    g = at_end(w, r, L, o)
                    rep.check(g, 'all bytes up to the end are decoded', c.name, r.fn.loc(),
                              'decoding of %s can stop before the end of its bytes' % c.name)


def starts(c, t):
    """is t the position of the first element: 0 in a TLV value, the declared header length in a packet"""
    n = num(t)
    if c.name != 'Packet':
        return n == 0 if n is not None else None
    if n is not None:
        return False
    if t.op == 'attr' and t.a[1] == '_header_length' or t.op == 'mcall' and t.a[0] == 'header_length':
        return True
    if t.op in ('min', 'max', 'lin', 'len', 'mul') or t.op == 'attr':
        return False
    return None


def positions(L):
    """(bytes, position) of the elements that the passes of a loop decode"""
    bufs = set()
    for kind, v, facts, evs, ups in L.outs:
        for a, b in facts:
            for s in subs(a):
                if s.op == 'mcall' and s.a[0] == 'deserialize':
                    x = s.a[3] if len(s.a) > 3 else None
                    x = x.a[1] if x is not None and x.op == 'kw' else x
                    if x is not None and x.op == 'slice' and x.a[2] is NONE:
                        bufs.add((x.a[0], x.a[1]))
    return bufs


def at_end(w, r, L, o):
    """the facts of a return say: position >= len(bytes being decoded)"""
    bufs = positions(L)
    if not bufs:
        return None
    for base, off in bufs:
        if off.op != 'lv' or off.a[0] != L.lid:
            return None
        atom = w.i.lt0(add(off, mk('len', base), -1))
        f = o.facts.get(atom)
        if f is False:
            return True
        d = w.i.decide(atom, o.st)
        if d is False:
            return True
        if d is None:
            # left early by a bound smaller than the length
            for a, b in o.facts.items():
                if a.op == 'lt0' and not b:
                    c, dd = lin_parts(a.a[0])
                    if dd.get(off) == 1 and dd.get(mk('len', base)) == -1 and c > 0 and len(dd) == 2:
                        return False if c > 3 else True     # fewer than a TLV header left over is still an early stop
    return None


# ------------------------------------------------------------------------------------------------ C06
def number_facts(i, st, n, w):
    """do the facts prove 0 <= n < 256**w ?"""
    lo = i.decide(i.lt0(n), st) if i.lt0(n).op != 'const' else i.lt0(n).a[0]
    up = i.lt0(add(n, const(256 ** w), -1))
    hi = i.decide(up, st) if up.op != 'const' else up.a[0]
    return lo is False, hi is True


def c06(ctx, rep):
    w, p, i = ctx.wire, ctx.p, ctx.wire.i
    for c in w.classes() + [w.tlv]:
        with rep.guard('encoded exactly or refused', c.name):
            pt = pterms(c)
            outs = []
            if c is w.tlv:
                for o in i.ctor(c):
                    outs += [(r.facts, canon(r.val)) for r in i.run(c.find('serialize'), selfcls=c, st=o.st.copy()) if r.kind == 'return']
            else:
                outs = [(f, v) for f, _, _, v in w.writer(c)]
            widths(i, rep, c.name, loc(c), outs)
    # every other function that makes big-endian bytes
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if not makes_bytes(f):
            continue
        name = f.qual.split('.', 1)[-1]
        with rep.guard('encoded exactly or refused', name):
            outs = []
            for o in i.run(f, selfcls=f.cls):
                if o.kind == 'return':
                    outs.append((o.facts, canon(o.val)))
                for t in terms_of(o)[1:]:
                    outs.append((o.facts, canon(t)))
            widths(i, rep, short(f), f.loc(), outs)
    limits(ctx, rep)
    with rep.guard('big-endian unsigned', 'conversions'):
        conversions(ctx, rep)
    with rep.guard('numbers are read big-endian', 'Tlv.array_to_number'):
        c = w.tlv
        f = c.find('array_to_number')
        if f is not None:
            a = mk('param', f.params[0])
            for o in i.run(f, selfcls=c):
                if o.kind == 'return':
                    v = canon(o.val)
                    rep.check(v is mk('be_num', a), 'numbers are read big-endian', 'Tlv.array_to_number', f.loc(),
                              'array_to_number computes %s, not the big-endian number of its bytes' % show(v)[:80])
    with rep.guard('TLV header widths', 'Tlv.serialize'):
        c = w.tlv
        for o in i.ctor(c):
            for r in i.run(c.find('serialize'), selfcls=c, st=o.st.copy()):
                if r.kind != 'return':
                    continue
                v = canon(r.val)
                items = v.a[1:] if v.op == 'seq' else ()
                hd = [x.a[0] for x in items[:2] if x.op == 'spread' and x.a[0].op == 'be_bytes']
                if len(hd) < 2:
                    rep.und('TLV header widths', 'Tlv.serialize', show(v)[:100])
                    continue
                ok = hd[0].a[1] == 2 and hd[1].a[1] == 2 and mentions(hd[0].a[0], mk('param', 'tlv_type')) and \
                    hd[1].a[0].op == 'len' and len(items) == 3 and items[2].op == 'spread' and items[2].a[0] is hd[1].a[0].a[0]
                rep.check(ok, 'TLV header widths', 'Tlv.serialize', c.find('serialize').loc(),
                          'a TLV is encoded as %s, not as 16-bit type, 16-bit length of the value, value' % show(v)[:120])


def short(f):
    return f.qual.split('ccnpy.')[-1]


def makes_bytes(f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ('to_bytes', 'pack'):
            return True
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.RShift):
            return True
    return False


def masked(n):
    """(number, bits) where the number n is cut to some low bits"""
    c, d = lin_parts(n)
    for x in d:
        if x.op in ('band', 'mod') and len(x.a) == 2:
            for y, m in ((x.a[0], x.a[1]), (x.a[1], x.a[0])):
                k = num(m)
                k = None if k is None else k + 1 if x.op == 'band' else k
                if k is not None and k == int(k) and k > 1 and int(k) & (int(k) - 1) == 0 and (x.op == 'band' or m is x.a[1]):
                    yield y, int(k).bit_length() - 1


def widths(i, rep, name, where, outs):
    byn = {}
    for facts, v in outs:
        st = St()
        st.facts = dict(facts)
        for s in subs(v):
            if s.op == 'be_bytes':
                byn.setdefault(s.a[0], []).append((s, st))
            if s.op == 'to_bytes':
                rep.und('encoded exactly or refused', '%s %s' % (name, show(s)[:50]), 'width or byte order not constant')
    for n, l in byn.items():
        top = max(s.a[1] for s, _ in l)
        for s, st in l:
            n, wd, mode = s.a
            for x, bits in masked(n):
                if x.op == 'be_num' or num(x) is not None or mode == 'trunc':
                    continue
                up = i.lt0(add(x, const(2 ** bits), -1))
                hi = i.decide(up, st) if up.op != 'const' else up.a[0]
                rep.check(hi is True, 'encoded exactly or refused', '%s %s' % (name, show(n)[:50]), where,
                          '%s: only the low %d bits of %s are encoded, without a check that it fits' % (name, bits, show(x)[:50]))
            con = '%s %s %d bytes' % (name, show(n)[:50], wd)
            lo, hi = number_facts(i, st, n, wd)
            if n.op == 'be_num' or num(n) is not None:
                lo = hi = True
            if mode == 'trunc':
                if n.op == 'len':
                    lo = True
                rep.check(lo and hi, 'encoded exactly or refused', con, where,
                          '%s: %s is cut to %d bytes without a check that it fits (silently truncated when out of range)' % (name, show(n)[:50], wd))
            else:
                rep.ok('encoded exactly or refused', con)
                if wd < top and not hi:
                    ub = False
                    rep.viol('every width is used up to its limit', con, where,
                             '%s: %s is given %d bytes although it may need more, while %d-byte encodings exist' % (name, show(n)[:50], wd, top))
                elif wd < top:
                    rep.ok('every width is used up to its limit', con)


def limits(ctx, rep):
    """the greatest number that the field holds is not refused"""
    w, p, i = ctx.wire, ctx.p, ctx.wire.i
    rule = 'a number that fits is not refused'
    jobs = []
    for c in w.classes():
        f = c.find('__init__')
        if f is not None:
            jobs.append((c.name, f, c, lambda c=c: [v for _, _, _, v in w.writer(c)]))
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.cls is w.tlv and f.name != '__init__' or makes_bytes(f) and f.name != '__init__':
            jobs.append((short(f), f, f.cls, None))
    for name, f, c, vals in jobs:
        with rep.guard(rule, name):
            outs = i.run(f, selfcls=c)
            vs = vals() if vals is not None else [canon(o.val) for o in outs if o.kind == 'return' and o.val is not None]
            top = {}
            for v in vs:
                for s in subs(v):
                    if s.op == 'be_bytes' and s.a[0].op == 'param' and s.a[0].a[0] in f.params:
                        top[s.a[0]] = max(top.get(s.a[0], 0), s.a[1])
            for n, wd in sorted(top.items(), key=lambda x: show(x[0])):
                k, bad = const(256 ** wd - 1), None
                for o in outs:
                    if o.kind != 'raise':
                        continue
                    on = [(a, b) for a, b in o.facts.items() if mentions(a, n)]
                    if not on or not mentions(list(o.facts)[-1], n):
                        continue
                    hold = []
                    for a, b in on:
                        if a.op == 'lt0':
                            x = value_at(a.a[0], {n: num(k)})
                            hold.append(None if x is None else (x < 0) == b)
                        elif a.op == 'isnone':
                            hold.append(not b)
                        elif a.op == 'isa':
                            hold.append((show(a.a[1]) == 'int') == b)
                        elif a.op == 'eq':
                            x = [value_at(y, {n: num(k)}) for y in a.a]
                            hold.append(None if None in x else (x[0] == x[1]) == b)
                        else:
                            hold.append(None)
                    if all(h is True for h in hold):
                        bad = o
                rep.check(bad is None, rule, '%s %s' % (name, show(n)), f.loc(), '%s refuses %s = %d, which fits the %d bytes it is encoded in' % (name, show(n), num(k), wd))


def conversions(ctx, rep, only=None):
    p = ctx.p
    for m in p.mods.values():
        if only is not None and m not in only:
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call) or not isinstance(n.func, ast.Attribute):
                continue
            at = '%s:%d' % (m.rel, n.lineno)
            who = enclosing(m, n)
            if n.func.attr in ('to_bytes', 'from_bytes'):
                order = [k.value for k in n.keywords if k.arg == 'byteorder'] + n.args[1:2]
                signed = [k.value for k in n.keywords if k.arg == 'signed']
                con = '%s %s' % (who, n.func.attr)
                if order and isinstance(order[0], ast.Constant) and order[0].value != 'big':
                    rep.viol('big-endian unsigned', con, at, '%s with byte order %r' % (n.func.attr, order[0].value))
                elif signed and isinstance(signed[0], ast.Constant) and signed[0].value:
                    rep.viol('big-endian unsigned', con, at, '%s of a signed number' % n.func.attr)
                else:
                    rep.ok('big-endian unsigned', con)
            if isinstance(n.func.value, ast.Name) and n.func.value.id == 'struct' and n.args and isinstance(n.args[0], ast.Constant):
                fmt = n.args[0].value
                con = '%s struct %s' % (who, fmt)
                if isinstance(fmt, str):
                    rep.check(fmt[:1] in '!>' and not any(ch in 'bhilqnN' for ch in fmt[1:]), 'big-endian unsigned', con, at,
                              'struct format %r is not big-endian unsigned' % fmt)


def enclosing(m, n):
    best = None
    for f in ast.walk(m.tree):
        if isinstance(f, (ast.FunctionDef, ast.ClassDef)) and f.lineno <= n.lineno <= (f.end_lineno or f.lineno):
            if best is None or f.lineno >= best.lineno:
                best = f
    return '%s:%s' % (m.name.split('.')[-1], best.name if best else '')


# ------------------------------------------------------------------------------------------------ C07
def other_decoders(w):
    """decoders that no concrete class uses as its own"""
    used = {w.decoder(c) for c in w.classes()}
    for c in sorted(w.p.classes.values(), key=lambda c: c.qual):
        if c is w.tlv or c.name in FAMILIES:
            continue
        for n in ('parse', 'deserialize'):
            f = c.methods.get(n)
            if f is not None and not f.abstract and f not in used and f.kind != 'method':
                yield c, f


def c07(ctx, rep):
    w, p, i = ctx.wire, ctx.p, ctx.wire.i
    for c, f in [(c, None) for c in w.classes()] + list(other_decoders(w)):
        with rep.guard('duplicate raises', c.name):
            r = w.reader(c) if f is None else Reader(w, c, f)
            objs = [o for o in r.returns if o.val.op in ('new', 'call', 'mcall')]
            once = {}
            for o in objs:
                for n, x in (kwargs(o.val).items() if o.val.op == 'new' else
                             [(x.a[0], x.a[1]) for x in o.val.a[2:] if isinstance(x, T) and x.op == 'kw'] +
                             [('#', x) for x in o.val.a[2:] if isinstance(x, T) and x.op == 'lv']):
                    if x.op == 'lv' and x.a[0] in r.loops:
                        once.setdefault(x, n)
            for e in r.loops.values():
                L = e.x
                for kind, v, facts, evs, ups in L.outs:
                    codes = pos_codes(facts, r.arg, False)
                    if kind == 'raise':
                        continue
                    fd = {}
                    for a, b in facts:
                        if a.op == 'not':
                            a, b = a.a[0], not b
                        fd[a] = b
                    for x, n in once.items():
                        if x.a[0] != L.lid:
                            continue
                        u = r.update(ups, x.a[1])
                        if u is None:
                            continue
                        con = '%s.%s' % (c.name, n) + (' code %d' % codes[-1] if codes else '')
                        if u is x:
                            # not stored although the field is the one of this pass: ignored duplicate
                            if codes and fd.get(mk('isnone', x)) is False and stores(r, L, x, codes[-1]):
                                rep.viol('duplicate raises', con, r.fn.loc(), 'a second %s in %s is silently ignored' % (n, c.name))
                            continue
                        if u.op == 'app' or u.op == 'pre':
                            continue
                        if numeric_state(u, x):
                            continue
                        g = guarded(i, w, x, fd, L, {canon(y) for q in L.outs if q[0] != 'raise' for y in [r.update(q[4], x.a[1])] if y is not None})
                        rep.check(g, 'duplicate raises', con, r.fn.loc(), 'a second %s in %s silently replaces the first' % (n, c.name)
                                  if g is False else 'guard not recognised')


def numeric_state(u, x):
    return u.op == 'lin' and mentions(u, x)


def stores(r, L, x, code):
    for kind, v, facts, evs, ups in L.outs:
        if kind == 'raise' or code not in pos_codes(facts, r.arg, False):
            continue
        u = r.update(ups, x.a[1])
        if u is not None and u is not x:
            return True
    return False


def guarded(i, w, x, fd, L, us):
    if fd.get(mk('isnone', x)) is True:
        return True
    if fd.get(mk('truth', x)) is False:
        # not set, unless what is stored can itself be false (an object of length 0, the number 0, no bytes)
        pr = Progress(w)
        worst = True
        for u in us:
            if u.op == 'const' or u is x:
                continue
            ks = pr.classes(u)
            if not ks:
                worst = None if worst else worst
            for k in ks:
                if k.find('__bool__') is not None:
                    worst = None if worst else worst
                elif k.find('__len__') is not None:
                    b = pr.least_len(k)
                    if b == 0:
                        return False
                    if b is None:
                        worst = None if worst else worst
        return worst
    for a, b in fd.items():
        # membership of the type number / name in a set or dictionary of what has been seen
        if a.op == 'in' and b is False and any(s.op == 'lv' and s.a[0] == L.lid for s in subs(a.a[1])):
            return True
    if fd.get(mk('isnone', x)) is False and isinstance(L.init, dict) and L.init.get(x.a[1]) is NONE:
        return False            # the path is one on which the field has been set before
    for a, b in fd.items():
        if a.op in ('eq', 'truth', 'isa') and any(s is x for s in subs(a)):
            return None
    # a dictionary of fields that is rebuilt
    for a, b in fd.items():
        if any(s.op == 'lv' and s.a[0] == L.lid and s is not x and s.a[1].split('[')[0] == x.a[1].split('[')[0] and '[' not in x.a[1]
               for s in subs(a)):
            return None
    for a, b in fd.items():
        if a.op not in ('eq', 'lt0') and any(s.op == 'lv' and s.a[0] == L.lid for s in subs(a)) and a.op != 'isnone':
            return None
    return False


RULES = {'C03': c03, 'C04': c04, 'C05': c05, 'C06': c06, 'C07': c07}
