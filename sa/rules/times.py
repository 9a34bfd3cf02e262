"""C12 millisecond timestamps: error interval of the conversions between milliseconds, seconds and dates."""
from fractions import Fraction as Fr
import math
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *
from .keys import library, short

OP = Fr(1, 32)      # bound, in milliseconds, of the rounding error of one floating-point operation up to the year 9999
DIGITS = 'exact number of milliseconds'


class V:
    """value = f * (milliseconds + error), where the exact value lies on a lattice:
    value = L + off +- noise, L a multiple of lat (None: no lattice) and L - f * milliseconds within [lo, hi]"""

    def __init__(self, f, lo=0, hi=0, lat=None, off=0, noise=0):
        self.f, self.lo, self.hi, self.lat, self.off, self.noise = Fr(f), Fr(lo), Fr(hi), None if lat is None else Fr(lat), Fr(off), Fr(noise)

    def scale(self, k, rounded):
        k = Fr(k)
        a, b = sorted((self.lo * k, self.hi * k))
        return V(self.f * k, a, b, None if self.lat is None else abs(self.lat * k), self.off * k,
                 abs(self.noise * k) + (abs(self.f * k) * OP if rounded else 0))

    def to_int(self, fn, q=Fr(1)):
        """fn: floor, ceil or round to multiples of q"""
        g = {'floor': lambda x: Fr(math.floor(x / q)) * q, 'ceil': lambda x: Fr(math.ceil(x / q)) * q, 'round': lambda x: Fr(round(x / q)) * q}[fn]
        if self.lat is not None and (self.lat / q).denominator == 1:
            a, b = g(self.off - self.noise), g(self.off + self.noise)
            return V(self.f, self.lo, self.hi, self.lat, (a + b) / 2, (b - a) / 2)
        a, b = {'floor': (q, 0), 'ceil': (0, q), 'round': (q / 2, q / 2)}[fn]
        return V(self.f, self.lo + self.off - self.noise - a, self.hi + self.off + self.noise + b, q)


def frac(t):
    n = num(t)
    return None if n is None else Fr(str(n)) if isinstance(n, float) else Fr(n)


def value(t, base):
    """V of a term, base: T -> V or None; None when it is not understood"""
    b = base(t)
    if b is not None:
        return b
    if t.op in ('lin', 'mul'):
        c, parts = lin_parts(t)
        if len(parts) != 1:
            return None
        (x, k), = parts.items()
        if x is t:
            return None
        v = value(x, base)
        if v is None:
            return None
        exact = v.noise == 0 and v.lat is not None and v.lat.denominator == 1 and isinstance(k, int) and isinstance(c, int)
        v = v.scale(Fr(str(k)), not exact)
        v.off += Fr(str(c))
        return v
    if t.op in ('div', 'fdiv', 'shr'):
        k = frac(t.a[1])
        v = value(t.a[0], base)
        if v is None or not k or k < 0:
            return None
        if t.op == 'shr':
            k = Fr(1 << int(k))
        exact = t.op != 'div' and v.noise == 0 and v.lat is not None and v.lat.denominator == 1 and k.denominator == 1
        v = v.scale(1 / k, not exact)
        return v if t.op == 'div' else v.to_int('floor')
    if t.op in ('int', 'floor', 'ceil', 'round', 'app', 'call') and t.a:
        n, args = named(t)
        n = {'math.trunc': 'floor', 'int': 'floor', 'math.floor': 'floor', 'math.ceil': 'ceil', 'trunc': 'floor'}.get(n, n)
        if n == 'float' and len(args) == 1:
            return value(args[0], base)
        if n not in ('floor', 'ceil', 'round') or not args:
            return None
        v = value(args[0], base)
        if v is None:
            return None
        if len(args) == 1:
            return v.to_int(n)
        d = num(args[1])
        if n != 'round' or d is None:
            return None
        r = v.to_int('round', Fr(10) ** -int(d))
        r.noise = abs(r.f) * OP if d > 0 else Fr(0)
        return r
    return None


def named(t):
    if t.op in ('int', 'floor', 'ceil', 'round'):
        return t.op, list(t.a)
    h = t.a[0]
    n = h.a[0] if isinstance(h, T) and h.op in ('ext', 'fn') else h if isinstance(h, str) else ''
    return n, [x for x in t.a[1:] if isinstance(x, T)]


def describe(v):
    s = []
    if v.f != 1:
        s.append('scaled by %s' % v.f)
    e = (v.lo + v.off - v.noise, v.hi + v.off + v.noise)
    if any(e):
        s.append('off by between %s and %s ms' % (round(float(e[0]), 3), round(float(e[1]), 3)))
    return ', '.join(s) or 'exact'


def c12(ctx, rep):
    p = ctx.p
    root = p.cls('Timestamp')
    subs = [c for c in sorted(p.classes.values(), key=lambda c: c.name) if c.isa(root) and c is not root and not c.is_abstract()] if root else []
    for c in subs:
        with rep.guard('decoded time encodes to the same milliseconds', c.name):
            round_trip(ctx, rep, c)
        with rep.guard('time from a date has the nearest millisecond', c.name):
            from_dates(ctx, rep, c)
    dates(ctx, rep, subs)


def encoded(ctx, c):
    """(facts, the number written, heap) per constructor outcome"""
    out = []
    for o in ctx.wire.i.ctor(c):
        if o.kind == 'raise':
            continue
        ns = []
        for (obj, name), v in o.st.heap.items():
            if obj is mk('param', 'self'):
                for s in subs(canon(v)):
                    if s.op == 'be_bytes' and s.a[0] not in ns:
                        ns.append(s.a[0])
        out.append((o.facts, ns, {n: v for (x, n), v in o.st.heap.items() if x is mk('param', 'self')}))
    return out


def composed(ctx, c, made):
    """the numbers that the object new(c, timestamp=X) writes, and what milliseconds() reports"""
    i = ctx.wire.i
    m = {mk('param', k): v for k, v in kwargs(made).items() if isinstance(v, T)}
    m[mk('param', 'self')] = made
    nums, shown = [], []
    for facts, ns, heap in encoded(ctx, c):
        if any(i.decide(i.subst(a, m), St()) not in (None, b) for a, b in facts.items()):
            continue
        nums += [canon(i.subst(n, m)) for n in ns]
        f = c.find('milliseconds')
        for o in i.run(f, selfcls=c) if f else ():
            if o.kind == 'return' and isinstance(o.val, T):
                me = mk('param', 'self')
                h = {s: heap[s.a[1]] for s in subs_of(o.val) if s.op == 'attr' and s.a[0] is me and s.a[1] in heap}
                shown.append(canon(i.subst(i.subst(o.val, h), m)))
    return nums, shown


def subs_of(t):
    return subs(t)


def verdict(v, lo, hi):
    if v is None:
        return None
    e = (v.lo + v.off - v.noise, v.hi + v.off + v.noise)
    return v.f == 1 and e[0] >= lo and e[1] <= hi


def round_trip(ctx, rep, c):
    rule = 'decoded time encodes to the same milliseconds'
    f = c.find('parse')
    n = 0

    def base(t):
        if t.op == 'mcall' and t.a[0] in ('value_as_number',) or t.op == 'be_num':
            return V(1, lat=1)
    for o in ctx.wire.i.run(f, selfcls=c):
        if o.kind != 'return' or not isinstance(o.val, T) or o.val.op != 'new':
            continue
        nums, shown = composed(ctx, c, o.val)
        for t in nums:
            v = value(t, base)
            n += 1
            rep.check(verdict(v, 0, 0), rule, c.name, f.loc(), 'a decoded number of milliseconds is written back as %s, %s' %
                      (show(t)[:120], describe(v) if v else 'which is not understood'))
        for t in shown:
            v = value(t, base)
            rep.check(verdict(v, 0, 0), 'milliseconds() reports what is written', c.name, f.loc(),
                      'milliseconds() of a decoded time is %s, %s' % (show(t)[:120], describe(v) if v else 'which is not understood'))
    if not n:
        rep.und(rule, c.name, 'no number found in the encoding')


def from_dates(ctx, rep, c):
    rule = 'time from a date has the nearest millisecond'

    def base(t):
        if t.op == 'mcall' and t.a[0] == 'timestamp' and not args_of(t):
            return V(Fr(1, 1000))
        if t.op == 'call' and isinstance(t.a[0], T) and t.a[0].op == 'ext' and t.a[0].a[0] == 'time.time':
            return V(Fr(1, 1000))
        if t.op == 'call' and isinstance(t.a[0], T) and t.a[0].op == 'ext' and t.a[0].a[0] == 'time.time_ns':
            return V(10 ** 6, lat=1)
    for name in sorted({m for k in c.mro() for m in k.methods}):
        f = c.find(name)
        if f.kind not in ('class', 'static') or f.abstract:
            continue
        for o in ctx.wire.i.run(f, selfcls=c):
            if o.kind != 'return' or not isinstance(o.val, T) or o.val.op != 'new':
                continue
            nums, shown = composed(ctx, c, o.val)
            for t in nums:
                if not any(base(s) is not None for s in subs(t)):
                    continue
                v = value(t, base)
                rep.check(verdict(v, Fr(-5, 8), Fr(5, 8)), rule, '%s.%s' % (c.name, name), f.loc(), 'the time is written as %s, %s' %
                          (show(t)[:120], describe(v) if v else 'which is not understood'))
                for s in subs(t):
                    if base(s) is not None and s.op == 'mcall':
                        coarse(rep, '%s.%s' % (c.name, name), f.loc(), s.a[1])


def args_of(t):
    return [x for x in t.a[3:] if isinstance(x, T)]


def coarse(rep, con, loc, d):
    """the date itself must keep its sub-second part and its time zone"""
    bad = None
    for s in subs(d):
        if s.op == 'mcall' and s.a[0] == 'replace' and any(x.op == 'kw' and x.a[0] in ('microsecond', 'second', 'tzinfo') for x in args_of(s)):
            bad = 'the date is changed by %s before it is converted' % show(s)[:80]
        if s.op in ('call', 'app') and isinstance(s.a[0], T) and s.a[0].op == 'ext' and s.a[0].a[0].split('.')[-1] in ('utcnow', 'utcfromtimestamp'):
            bad = 'a date without time zone (%s) is taken for local time' % s.a[0].a[0]
    rep.check(bad is None, 'date is converted as it is', con, loc, bad or '')


def dates(ctx, rep, subs_):
    """what the library hands to from_datetime"""
    makers = {'from_datetime'}
    fl = Flow(ctx, makers)
    for f in library(ctx.p):
        if not (called_names(f) & makers) or f.abstract or f.is_gen:
            continue
        con = short(f)
        with rep.guard('date is converted as it is', con):
            for o in fl.run(f):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'call' and isinstance(t, T) and t.op in ('call', 'mcall') and any(s.op == 'fn' and s.a[0].endswith('from_datetime') for s in t.a if isinstance(s, T)) \
                            or e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'from_datetime':
                        for x in t.a[1:]:
                            if isinstance(x, T) and x.op != 'cls':
                                coarse(rep, con, e.loc(), x)


RULES = {'C12': c12}
