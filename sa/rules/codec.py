"""C01 - C07: the tables of what every protocol class writes against the tables of what its decoder reads."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *

VAL_TLV = mk('attr', TLV, '_value')
VAL_IN = mk('attr', mk('param', '$in'), '_value')


def strip(t):
    """the parameter-carrying term without the sequence decoration around it"""
    while t.op in ('spread', 'rev'):
        t = t.a[0]
    return t


def loc(c, f=None):
    f = f or c.find('__init__')
    return f.loc() if f else c.qual


def dec_loc(w, c):
    f = w.decoder(c)
    return f.loc() if f else c.qual


def params_of(c):
    f = c.find('__init__')
    return [n for n in f.params] if f else []


def pterms(c):
    return {mk('param', n): n for n in params_of(c)}


def carried(item, pt):
    """constructor parameters whose value the item carries"""
    t = strip(item.term)
    out = [n for p, n in pt.items() if mentions(t, p)]
    return out


def leaves(w, c, it, depth=0):
    """[(path suffix, type number)] of the TLVs that an item of an encoding of c puts next to the other items: its own,
    those of the elements of a list, or those of an object that is encoded without a TLV of its own"""
    if it.codes:
        return [('', k) for k in it.codes]
    t = strip(it.term)
    if t.op == 'each':
        t = t.a[0]
    ks = set()
    if t.op == 'param':
        f = c.find('__init__')
        ty = w.p._ann(f.mod, f.ann.get(t.a[0]), f.cls) if f and t.a[0] in f.params else None
        if ty is not None:
            for e in ty.elem or ():
                ks |= set(e.classes)
            if not it.multi:
                ks |= set(ty.classes)
    elif t.op == 'new' and w.p.classes.get(t.a[0].a[0]):
        ks = {w.p.classes[t.a[0].a[0]]}
    out = []
    for k in ks:
        if k.isa(w.tlv) or not k.find('serialize'):
            continue
        if not k.is_abstract() and depth < 3:
            ws = w.writer(k)
            if ws and all(not codes for _, codes, _, _ in ws):
                kt = pterms(k)
                for _, _, items, _ in ws:
                    for x in items:
                        for sub, n in leaves(w, k, x, depth + 1):
                            out.append(('.' + '/'.join(sorted(carried(x, kt))) + sub, n))
                continue
        out += [('', n) for n in w.codes({k}) if n is not None]
    return out


def is_pad(w, t):
    t = strip(t)
    if t.op == 'new':
        return t.a[0].a[0].endswith('.Pad')
    return False


# ------------------------------------------------------------------------------------------------ C01
def c01(ctx, rep):
    w = ctx.wire
    p = ctx.p
    for c in w.classes():
        with rep.guard('field codes', c.name):
            pt = pterms(c)
            use = {}
            for facts, codes, items, val in w.writer(c):
                for k in codes:
                    if k is not None:
                        rep.check(0 <= k <= 0xFFFF, 'codes fit 16 bits', '%s code %s' % (c.name, k), loc(c),
                                  'type number %s of %s does not fit in 16 bits' % (k, c.name))
                for n, it in enumerate(items):
                    for sub, k in leaves(w, c, it):
                        who = tuple(sorted(q + sub for q in carried(it, pt))) or ('#%s%s' % (show(it.term)[:60], sub),)
                        use.setdefault(k, {}).setdefault(who, it)
            for k, whos in use.items():
                names = sorted('/'.join(x) for x in whos if not is_pad(w, whos[x].term))
                fields = {y for x in whos for y in x if not y.startswith('#')}
                rep.check(len(whos) == 1 or len(fields) <= 1 or alternatives(w, c, k, fields), 'one field per code', '%s code %d' % (c.name, k), loc(c),
                          'type number %d is written for different fields of %s: %s' % (k, c.name, ', '.join(names)))
                rep.check(0 <= k <= 0xFFFF, 'codes fit 16 bits', '%s code %s' % (c.name, k), loc(c),
                          'type number %s in %s does not fit in 16 bits' % (k, c.name))
            # one field, several kinds (alternatives): the kinds must be told apart by their codes
        with rep.guard('decoder dispatch', c.name):
            r = w.reader(c)
            disp = {}
            for e in r.loops.values():
                for kind, v, facts, evs, ups in e.x.outs:
                    code = None
                    for a, b in facts:
                        cf = code_fact(a)
                        if cf and b and cf[0] is not r.arg:
                            code = cf[1]
                    if code is None or kind == 'raise':
                        continue
                    for n, u in changed(e.x, ups):
                        for m in parses(u, find_tlv_of(u)):
                            disp.setdefault((code, n), set()).add(m)
            for (code, n), ms in disp.items():
                for m in ms:
                    k = p.classes.get(m.a[1].a[0])
                    if k is None:
                        continue
                    ks = w.codes({k})
                    want = ks
                    f = k.find('parse')
                    if not ks or k.isa(w.tlv):
                        continue
                    rep.check(code in want, 'decoder selects the kind written under the code',
                              '%s code %d -> %s' % (c.name, code, k.name), dec_loc(w, c),
                              'type number %d in %s is decoded as %s, which is encoded under %s' %
                              (code, c.name, k.name, sorted(want)))
    # alternatives selected by type number: subclasses of an abstract kind have different numbers
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if not c.is_abstract() or not c.find('class_type'):
            continue
        with rep.guard('kinds of one family have different codes', c.name):
            by = {}
            for s in c.all_subs():
                if s.is_abstract() or w.code(s) is None or not s.find('serialize'):
                    continue
                by.setdefault(w.code(s), []).append(s)
            if c.name in ('TlvType', 'TlvNumber') or c.name not in FAMILIES:
                continue
            for k, ss in by.items():
                rep.check(len(ss) == 1, 'kinds of one family have different codes', '%s code %s' % (c.name, k), ss[0].node and
                          loc(ss[0]), 'type number %s selects several kinds of %s: %s' % (k, c.name, ', '.join(x.name for x in ss)))
    # name component types
    for nm in ('NameType', 'HashFunctionType', 'ValidationType', 'MessageType', 'PayloadTypes', 'PacketType', 'TopLevelType'):
        for c in p.classes.values():
            if c.name != nm:
                continue
            vals = {}
            for n, e in c.attrs.items():
                if isinstance(e, ast.Constant) and isinstance(e.value, int) and not n.startswith('__'):
                    vals.setdefault(e.value, []).append(n)
            for v, ns in vals.items():
                rep.check(len(ns) == 1, 'named numbers are distinct', '%s = %d' % (c.name, v), c.qual,
                          '%s are the same number %d' % (', '.join(ns), v))


def alternatives(w, c, k, fields):
    """the fields are alternative sources of one value: never two items of this number in one encoding, and the decoder
    reads the number back into one of the fields"""
    for facts, codes, items, val in w.writer(c):
        if sum(1 for it in items if any(x == k for _, x in leaves(w, c, it))) > 1:
            return False
    r = w.reader(c)
    got = set()
    for o in r.returns:
        for n, (srcs, _) in (r.fields(o) or {}).items():
            if any(s.code == k for s in srcs):
                got.add(n)
    return len(got & fields) == 1


FAMILIES = {'NcSchema', 'SecurityCtx', 'ValidationAlg'}


def changed(L, ups):
    """(variable, new value) of the loop variables that a pass changes"""
    for n, u in ups.items():
        if u is None:
            continue
        if u.op == 'dict':
            for j in range(0, len(u.a), 2):
                x = u.a[j + 1]
                if not (x.op == 'lv' and x.a[0] == L.lid):
                    yield '%s[%s]' % (n, show(u.a[j])), x
        elif not (u.op == 'lv' and u.a[0] == L.lid):
            yield n, u


def find_tlv_of(u):
    return find_tlv(u)


def parses(u, tlv):
    """calls K.parse(tlv) in u"""
    for s in subs(u):
        if s.op == 'mcall' and s.a[0] == 'parse' and s.a[1].op == 'cls' and tlv is not None and any(
                (x.a[1] if x.op == 'kw' else x) is tlv for x in s.a[3:]):
            yield s


LOSSY = {'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'replace', 'removeprefix', 'removesuffix', 'title', 'casefold',
         'capitalize', 'swapcase', 'translate', 'expandtabs', 'sorted', 'set', 'frozenset', 'abs'}


# ------------------------------------------------------------------------------------------------ C02
class Inv:
    """is the conversion a decoder applies the inverse of the one the encoder applied?
    True / False / None (unknown), with the reason in self.why"""

    def __init__(self, w, c, st=None):
        self.w, self.i, self.p, self.c = w, w.i, w.p, c
        self.why = ''

    def pty(self, P):
        f = self.c.find('__init__')
        return self.p._ann(f.mod, f.ann.get(P.a[0]), f.cls)

    def fits(self, k, P):
        """class k decoded for parameter P: is it the declared kind of P?"""
        ty = self.pty(P)
        if not ty.classes:
            return True
        return any(k.isa(x) or x.isa(k) for x in ty.classes)

    def no(self, why):
        self.why = why
        return False

    def unk(self, why):
        self.why = why
        return None

    def arg0(self, m):
        x = m.a[3] if len(m.a) > 3 else None
        return x.a[1] if x is not None and x.op == 'kw' else x

    def built(self, V):
        """V = K(...) built in place: is a field that K's own decoder reads set to a constant here?"""
        k = self.p.classes.get(V.a[0].a[0]) if V.op == 'new' else None
        if k is None or k.isa(self.w.tlv) or not k.find('serialize') or not (k.find('parse') or k.find('deserialize')):
            return None
        own = {}
        for o in self.w.reader(k).returns:
            for n, (srcs, _) in (self.w.reader(k).fields(o) or {}).items():
                own.setdefault(n, []).extend(srcs)
        for n, x in kwargs(V).items():
            if x.op == 'const' and any(s.code is not None or mentions(s.conv, mk('param', '$in')) or mentions(s.conv, TLV)
                                       for s in own.get(n, ())):
                return self.no('the %s is built with %s=%s instead of being decoded' % (k.name, n, show(x)))
        return None

    def lossy(self, V, val):
        for s in subs(V):
            nm = s.a[0] if s.op in ('mcall', 'bmeth') else s.a[0].a[0] if s.op == 'call' and s.a[0].op == 'ext' else None
            if nm in LOSSY and mentions(s, val):
                return self.no('the value read is changed by %s()' % nm)
        return None

    def coded(self, t, P, src):
        """t: written TLV object, code checked by the caller; src.conv over $tlv"""
        v = src.conv
        t = strip(t)
        if self.built(v) is False or self.lossy(v, TLV) is False:
            return False
        acc = None
        if v.op == 'attr' and v.a[0].op == 'mcall' and v.a[0].a[0] == 'parse':
            acc, v = v.a[1], v.a[0]
        if self.w.is_tlv_new(t):
            k = kwargs(t)
            if acc:
                return self.unk('accessor of a nested TLV')
            if v.op == 'mcall' and v.a[0] == 'parse' and self.arg0(v) is TLV and v.a[1].op == 'cls' and k['value'] is P:
                kc = self.p.classes.get(v.a[1].a[0])
                if kc is not None and self.fits(kc, P) and self.pty(P).classes and kc.find('deserialize') is None or \
                        kc is not None and any(self.w.writer(kc)) and any(cs for _, cs, _, _ in self.w.writer(kc)):
                    return self.no('the outer TLV is decoded as the %s that is inside it' % kc.name)
            return self.value(k['value'], P, v, VAL_TLV)
        if v.op == 'mcall' and v.a[0] == 'parse' and v.a[1].op == 'cls' and self.arg0(v) is TLV:
            k = self.p.classes.get(v.a[1].a[0])
            if k is None:
                return self.unk('unknown class')
            if t is P or t.op == 'each' or (t.op in ('elem',) and mentions(t, P)):
                if acc:
                    return self.no('an attribute of the decoded object is stored instead of the object')
                if t is P and not self.fits(k, P):
                    return self.no('decoded as %s but the field is a %s' % (k.name, sorted(x.name for x in self.pty(P).classes)))
                return True
            if t.op == 'new':
                tc = self.p.classes.get(t.a[0].a[0])
                if tc is None:
                    return self.unk('unknown class')
                if not (k.isa(tc) or tc.isa(k)):
                    return self.no('written as %s, decoded as %s' % (tc.name, k.name))
                if acc:
                    x = self.i.ctor_attr(t, acc)
                    if x is P:
                        return True
                    if x is not None and mentions(x, P):
                        return self.unk('accessor %s' % acc)
                    if x is not None:
                        return self.no('attribute %s of the decoded %s is not what %s was written from' % (acc, k.name, P.a[0]))
                    return self.unk('accessor %s' % acc)
                return True
            return self.unk('written %s' % show(t)[:80])
        if v.op == 'mcall' and v.a[0] == 'deserialize' and t is P:
            return self.value(P, P, v, VAL_TLV)
        if v is TLV:
            return self.no('the raw TLV is stored instead of the decoded field') if t is P else self.unk('raw TLV')
        if v is VAL_TLV and t is P and self.pty(P).classes:
            return self.no('the undecoded value is stored instead of the decoded field')
        if v.op == 'const':
            return self.no('constant %s is stored instead of the decoded field' % show(v))
        return self.unk('read %s' % show(v)[:80])

    def value(self, Y, P, V, val):
        """Y: what is written as the value of a TLV; V: what is read, in terms of val, the value read"""
        Y = strip(Y)
        if self.built(V) is False or self.lossy(V, val) is False:
            return False
        if Y.op == 'each':
            alts = Y.a[1]
            it = Y.a[0]
            if mentions(it, P) or any(mentions(x, P) for al in alts for x in al[1]):
                return self.unk('list')
            return self.unk('list')
        ps = [s for s in subs(V) if s is val]
        if not ps:
            if V.op == 'const':
                return self.no('constant %s is stored instead of the value read' % show(V))
            return self.unk('read %s' % show(V)[:60])
        if Y is P or (Y.op in ('mcall',) and Y.a[0] == 'serialize' and Y.a[1] is P):
            if V is val:
                return True if not self.pty(P).classes else self.unk('raw value of an object')
            if V.op == 'mcall' and V.a[0] in ('parse', 'deserialize') and V.a[1].op == 'cls':
                k = self.p.classes.get(V.a[1].a[0])
                x = self.arg0(V)
                inner = x is val
                if not inner and x is not None and x.op == 'mcall' and x.a[0] == 'deserialize' and self.arg0(x) is val:
                    inner = True
                if not inner:
                    return self.unk('read %s' % show(V)[:60])
                if k is not None and not self.fits(k, P):
                    return self.no('decoded as %s' % k.name)
                return True
            if V.op == 'slice':
                lo, hi = V.a[1], V.a[2]
                if (num(lo) in (0, None) and lo is not NONE and num(lo) != 0) or hi is not NONE:
                    return self.no('only a part of the value is read: %s' % show(V)[:60])
                return True
            if V.op == 'idx':
                return self.no('a single element of the value is read')
            return self.unk('read %s' % show(V)[:60])
        if Y.op == 'be_bytes':
            return self.number(Y, P, V, val)
        if Y.op == 'repeat' and mentions(Y.a[-1], P) and num(Y.a[-1]) is None:
            n = mk('len', val)
            if V is n or canon(Y.a[-1]) is P and V is n:
                return True
            if V is val:
                return self.no('the bytes are stored instead of their number')
            return self.unk('number of bytes')
        if text_form(Y) and any(s.op == 'repeat' for s in subs(Y)):
            return True
        if Y.op == 'attr' and mentions(Y, P):
            return True if V is val else self.unk('attr')
        if V is val and mentions(Y, P):
            if text_form(Y):
                return True
            return True if Y.op in ('slice', 'spread') and Y.a[0] is P else self.unk('written %s' % show(Y)[:60])
        return self.unk('written %s' % show(Y)[:60])

    def number(self, Y, P, V, val):
        g, width = Y.a[0], Y.a[1]
        n = mk('be_num', val)
        if V.op in ('shr', 'mod', 'band') and (V.a[0] is n or V.a[0].op == 'idx' and V.a[0].a[0] is val) and scale(g, P) == 1.0:
            k = num(V.a[1])
            if k is not None and (k + 1 < 256 ** width if V.op == 'band' else k < 256 ** width if V.op == 'mod' else k > 0):
                return self.no('only some bits of the number are kept: %s' % show(V)[:60])
        if V.op == 'idx' and V.a[0] is val:
            if num(V.a[1]) != 0:
                return self.no('byte %s of the value is read' % show(V.a[1]))
            return True if width == 1 else self.no('only the first of %d bytes is read' % width)
        if has_op(V, 'horner'):
            return self.no('the bytes are not combined as a big-endian number')
        if not mentions(V, n):
            if has_op(V, 'call') and any(s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0] == 'int.from_bytes' for s in subs(V)):
                return self.no('the number is not read big-endian: %s' % show(V)[:80])
            if V is val:
                return self.no('the undecoded bytes are stored instead of the number')
            if any(s.op == 'be_num' for s in subs(V)):
                return self.no('the number is read from a part of the value: %s' % show(V)[:80])
            return self.unk('number read by %s' % show(V)[:60])
        k1 = scale(g, P)
        k2 = scale(V, n)
        if k1 is not None and k2 is not None:
            if abs(k1 * k2 - 1.0) < 1e-12:
                return True
            return self.no('the number is scaled by %g when written and by %g when read' % (k1, k2))
        c1, d1 = lin_parts(g)
        c2, d2 = lin_parts(V)
        if set(d1) == {P} and set(d2) == {n}:
            return self.no('%s is written and %s is read' % (show(g), show(V)))
        if V is n and g.op in ('attr', 'mcall', 'be_num', 'call') and mentions(g, P):
            return True
        if V.op in ('call', 'mcall', 'new') and mentions(g, P):
            return True
        if mentions(g, P):
            return self.unk('number written from %s, read as %s' % (show(g)[:50], show(V)[:50]))
        return self.unk('number')


def text_form(Y):
    """bytes made from a value that was given as text (P.encode(), bytes.fromhex(P...)), or the bytes of an object"""
    return (Y.op in ('mcall', 'bmeth') and 'encode' in (Y.a[0], Y.a[1] if len(Y.a) > 1 else None)) or \
        (Y.op == 'call' and Y.a[0].op == 'ext' and Y.a[0].a[0] == 'bytes.fromhex')


def scale(t, x):
    """k when t is k * x up to rounding"""
    while t.op in ('round', 'int', 'float') or (t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in ('int', 'float', 'round') and len(t.a) == 3):
        t = t.a[-1]
    if t is x:
        return 1.0
    if t.op == 'lin':
        c, d = lin_parts(t)
        if c == 0 and len(d) == 1:
            (y, k), = d.items()
            s = scale(y, x)
            return None if s is None else s * k
    if t.op == 'div' and num(t.a[1]):
        s = scale(t.a[0], x)
        return None if s is None else s / num(t.a[1])
    if t.op == 'mul':
        for a, b in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
            if num(a) is not None:
                s = scale(b, x)
                return None if s is None else s * num(a)
    return None


def absent_ok(w, c, facts, P):
    """do the facts of a constructor/serialize outcome say that the field has no value?"""
    i = w.i
    f = c.find('__init__')
    ty = w.p._ann(f.mod, f.ann.get(P.a[0]), f.cls)
    for a, b in facts.items():
        if a.op == 'not':
            a, b = a.a[0], not b
        if a.op == 'isnone' and a.a[0] is P and b:
            return True
        if a.op == 'truth' and a.a[0] is P and not b:
            # falsy: None, or an empty list; an object is falsy only through __len__ / __bool__
            for k in ty.classes:
                if k.find('__bool__') or k.find('__len__'):
                    return False
            if {'int', 'float'} & set(ty.prim):
                return False
            return True
        if a.op == 'eq' and b and any(x.op == 'len' and x.a[0] is P for x in a.a) and any(num(x) == 0 for x in a.a):
            return True
        if a.op == 'lt0' and b:
            k, d = lin_parts(a.a[0])
            if d == {mk('len', P): 1} and k == -1:
                return True
        if a.op == 'lt0' and not b and lin_parts(a.a[0]) == (0, {mk('len', P): -1}):
            return True
    return None


def certainly_set(facts, P):
    """do the facts of an outcome say that the field has a value (for a list: may have an element), and say nothing
    else about it that could mean the opposite?"""
    some = False
    lens = list(range(0, 9))
    for a, b in facts.items():
        if a.op == 'not':
            a, b = a.a[0], not b
        if not mentions(a, P):
            continue
        n = mk('len', P)
        if a.op == 'isnone' and a.a[0] is P:
            if b:
                return False
            some = True
        elif a.op == 'isa' and a.a[0] is P:
            some = some or b
        elif a.op == 'truth' and a.a[0] is P:
            lens = [k for k in lens if bool(k) == b]
            some = some or b
        elif a.op in ('eq', 'lt0') and mentions(a, n):
            keep = []
            for k in lens:
                v = [value_at(x, {n: k}) for x in a.a]
                if None in v:
                    return False
                if (v[0] == v[1] if a.op == 'eq' else v[0] < 0) == b:
                    keep.append(k)
            lens = keep
        else:
            return False
    return some and any(k >= 1 for k in lens)


def seq_positions(items):
    """[(item, offset, width)] of raw items with known sizes from the start"""
    off = 0
    out = []
    for it in items:
        t = strip(it.term)
        wd = t.a[1] if t.op == 'be_bytes' else (1 if t.op != 'seq' and not it.multi and it.term.op != 'spread' and not
                                               it.codes else None)
        out.append((it, off, wd))
        off = off + wd if off is not None and wd is not None else None
    return out


def c02(ctx, rep):
    w, p = ctx.wire, ctx.p
    for c in w.classes():
        with rep.guard('round trip', c.name):
            c02_class(w, p, rep, c)
    accessors(w, p, rep)


def c02_class(w, p, rep, c):
    r = w.reader(c)
    pt = pterms(c)
    objs = [o for o in r.returns if o.val.op == 'new']
    dl = dec_loc(w, c)
    if not objs:
        if all(o.val is NONE for o in r.returns):
            rep.viol('decoder returns the object', c.name, dl, 'the decoder of %s returns no object (%s)' %
                     (c.name, 'None' if r.returns else 'always raises'))
            return
        rep.und('decoder returns the object', c.name, 'decoder value %s' % [show(o.val)[:60] for o in r.returns][:3])
        return
    for o in objs:
        k = p.classes.get(o.val.a[0].a[0])
        rep.check(k is not None and (k.isa(c) or c.isa(k)), 'decoder returns the object', c.name, dl,
                  'the decoder of %s builds a %s' % (c.name, o.val.a[0].a[0]))
    # fields written
    writes = {}     # param -> [(facts, item, items)]
    wr = w.writer(c)
    for facts, codes, items, val in wr:
        for it in items:
            if is_pad(w, it.term):
                continue
            for n in carried(it, pt):
                writes.setdefault(n, []).append((facts, it, items))
    for n, l in writes.items():
        P = mk('param', n)
        f = c.find('__init__')
        ty = p._ann(f.mod, f.ann.get(n), f.cls)
        if not any(k.find('serialize') for e in ty.elem or () for k in e.classes):
            continue
        con = '%s.%s' % (c.name, n)
        for facts, it, items in l:
            for t in subs(it.term):
                if t.op in ('slice', 'idx') and isinstance(t.a[0], T) and (t.a[0] is P or t.a[0].op == 'seq' and mentions(t.a[0], P)) and \
                        not (t.op == 'slice' and num(t.a[1]) == 0 and t.a[2] is NONE):
                    others = [x for x in items if x is not it and n in carried(x, pt)]
                    if not others:
                        rep.viol('every set field is written', con, loc(c, c.find('serialize')),
                                 'only a part of %s of %s is encoded: %s' % (n, c.name, show(t)[:60]))
                        break
    codes_of_param = {}
    for n, l in writes.items():
        for _, it, _ in l:
            for k in it.codes or ():
                codes_of_param.setdefault(k, set()).add(n)
    # absent in an outcome
    for n, l in writes.items():
        P = mk('param', n)
        for facts, codes, items, val in wr:
            if mentions(val, P) or any(n in carried(it, pt) for it in items):
                continue
            ok = absent_ok(w, c, facts, P)
            if ok is None and certainly_set(facts, P):
                ok = False
            if ok is None and any(mentions(a, P) for a in facts):
                rep.und('every set field is written', '%s.%s' % (c.name, n), 'outcome without it under %s' %
                        [(show(a)[:50], b) for a, b in facts.items()][:4])
            else:
                rep.check(bool(ok), 'every set field is written', '%s.%s' % (c.name, n), loc(c, c.find('serialize')),
                          'field %s of %s is left out of the encoding although it can have a value (when %s)' %
                          (n, c.name, ', '.join(('' if b else 'not ') + show(a)[:60] for a, b in facts.items()) or 'always'))
    for o in objs:
        fields = r.fields(o)
        for n in params_of(c):
            P = mk('param', n)
            srcs, absent = fields.get(n, ([], None))
            con = '%s.%s' % (c.name, n)
            ws = writes.get(n, [])
            if not ws:
                # not part of the encoding's items: may be in the outer type number
                if any(mentions(val, P) for _, _, _, val in wr):
                    outer = [val.a[1] if val.op == 'mcall' and val.a[0] == 'serialize' else val for _, _, _, val in wr]
                    if all(w.is_tlv_new(x) and kwargs(x)['tlv_type'] is P for x in outer) and \
                            any(s.conv.op == 'const' for s in srcs):
                        rep.viol('field restored', con, dl, 'field %s is written as the type number of the TLV and read as %s' %
                                 (n, '/'.join(sorted({show(s.conv) for s in srcs}))))
                        continue
                    rep.ok('field restored', con)
                elif any(s.code is not None for s in srcs):
                    # a field read but never written
                    for s in srcs:
                        who = codes_of_param.get(s.code)
                        if who:
                            rep.viol('field restored', con, dl, 'field %s is decoded from type number %d, under which %s is written' %
                                     (n, s.code, '/'.join(sorted(who))))
                    if not any(codes_of_param.get(s.code) for s in srcs):
                        rep.viol('every set field is written', con, loc(c, c.find('serialize')), 'field %s of %s is decoded (type number %s) but never encoded' %
                                 (n, c.name, '/'.join(sorted(str(s.code) for s in srcs if s.code is not None))))
                elif n not in UNWRITTEN and not any(is_pad(w, it.term) and n in carried(it, pt) for _, _, items, _ in wr for it in items):
                    rep.viol('every set field is written', con, loc(c, c.find('serialize')), 'field %s of %s is never encoded' % (n, c.name))
                continue
            raw = kwargs(o.val).get(n)
            while raw is not None and raw.op == 'call' and show(raw.a[0]) in ('list', 'tuple') and len(cargs(raw)[0]) == 1:
                raw = cargs(raw)[0][0]
            if raw is not None and any(it.multi for _, it, _ in ws) and raw.op in ('slice', 'idx') and isinstance(raw.a[0], T) and raw.a[0].op in ('seq', 'lv'):
                if raw.op == 'idx' or num(raw.a[1]) not in (0, None) or raw.a[2] is not NONE or raw.a[1] is not NONE and num(raw.a[1]) is None:
                    rep.viol('field restored', con, dl, 'only a part of the decoded elements of %s is kept (%s)' % (n, 'from %s to %s' % (show(raw.a[1]), show(raw.a[2])) if raw.op == 'slice' else 'number %s' % show(raw.a[1])))
                    continue
            # codes under which it is written
            done = set()
            for facts, it, items in ws:
                key = (tuple(sorted(it.codes)) if it.codes else None, it.term)
                if key in done:
                    continue
                done.add(key)
                if it.codes:
                    for k in sorted(it.codes):
                        got = [s for s in srcs if s.code == k]
                        generic = [s for s in srcs if s.code is None]
                        if not got and any(s.code == k for m, (ss, _) in fields.items() if m != n and m in
                                           codes_of_param[k] for s in ss):
                            rep.ok('field restored', '%s code %d' % (con, k))     # an alternative source of that field
                            continue
                        if not got and not generic:
                            rep.viol('field restored', '%s code %d' % (con, k), dl,
                                     'field %s is written under type number %d but not read from it (read from %s)' %
                                     (n, k, sorted({s.code for s in srcs if s.code is not None}) or 'nothing'))
                            continue
                        for s in got or generic:
                            restored(w, rep, c, con, n, P, it, s, dl, '%s code %d' % (con, k))
                else:
                    coded = [s for s in srcs if s.code is not None]
                    for s in srcs:
                        restored_raw(w, rep, c, con, n, P, it, items, s, dl)
            # read from a code of another field
            for s in srcs:
                if s.code is not None:
                    who = codes_of_param.get(s.code)
                    if who and n not in who:
                        rep.viol('field restored', '%s code %d' % (con, s.code), dl, 'field %s is decoded from type number %d, under which %s is '
                                 'written' % (n, s.code, '/'.join(sorted(who))))
            if absent is not None and absent.op == 'const' and absent.a[0] is not None or \
                    absent is not None and absent.op == 'seq' and len(absent.a) > 1:
                if all(it.codes for _, it, _ in ws):
                    rep.viol('absent stays absent', con, dl, 'an absent %s is decoded as %s' % (n, show(absent)))
            elif absent is not None:
                rep.ok('absent stays absent', con)
    # passes of the decoding loop that drop a field
    names = {}
    for o in objs:
        for n, (srcs, absent) in r.fields(o).items():
            for s in srcs:
                if s.code is not None and s.code not in codes_of_param:
                    codes_of_param[s.code] = {n}
    for o in objs:
        for n, x in kwargs(o.val).items():
            if x.op == 'lv':
                names.setdefault(x.a[1], set()).add(n)
            if x.op == 'seq':
                names.setdefault('*', set()).add(n)
    for e in r.loops.values():
        if e.x.iter is None and not any(code_fact(a.a[0] if a.op == 'not' else a) for q in e.x.outs for a, b in q[2]):
            # every TLV read is an element of the one repeated field
            for kind, v, facts, evs, ups in e.x.outs:
                if kind not in ('next', 'continue'):
                    continue
                ts = {s for t in [a for a, b in facts] + [u for n, u in ups.items() if u is not None] for s in subs(t)
                      if s.op == 'mcall' and s.a[0] == 'deserialize' and position(s) is not None}
                if ts:
                    rep.check(any(not numeric(u) and any(mentions(u, t) for t in ts) for n, u in changed(e.x, ups)),
                              'no pass drops a field', c.name, dl, 'a pass of the decoding loop stores nothing (when %s)' %
                              ', '.join(('' if b else 'not ') + show(a)[:60] for a, b in facts[1:]))
        for kind, v, facts, evs, ups in e.x.outs:
            code = None
            for a, b in facts:
                cf = code_fact(a)
                if cf and b and cf[0] is not r.arg:
                    code = cf[1]
            if code is None or code not in codes_of_param:
                continue
            con = '%s code %d' % (c.name, code)
            if kind in ('next', 'continue', 'break'):
                ch = [n for n, u in changed(e.x, ups) if find_tlv(u) is not None and not numeric(u)]
                rep.check(bool(ch), 'no pass drops a field', con, dl, 'a pass that reads type number %d (%s) stores nothing' %
                          (code, '/'.join(codes_of_param[code])))
            if kind in ('break', 'return'):
                rep.viol('no pass drops a field', con, dl, 'decoding stops after type number %d (%s), later fields are dropped' %
                         (code, '/'.join(codes_of_param[code])))


def numeric(u):
    return u.op in ('lin', 'len', 'const')


UNWRITTEN = set()


def restored(w, rep, c, con, n, P, it, s, dl, con2):
    inv = Inv(w, c)
    if it.multi and s.rev:
        rep.viol('field restored', con2, dl, 'the elements of %s are decoded in the reverse of the order they were written' % n)
        return
    if it.multi and not s.multi:
        rep.viol('field restored', con2, dl, 'repeated field %s is not collected: only one copy is kept' % n)
        return
    g = inv.coded(it.term, P, s)
    if s.facts_extra(P) if hasattr(s, 'facts_extra') else False:
        pass
    rep.check(g, 'field restored', con2, dl, 'field %s: %s (read as %s)' % (n, inv.why, show(s.conv)[:100]) if g is not None
              else inv.why)


def restored_raw(w, rep, c, con, n, P, it, items, s, dl):
    inv = Inv(w, c)
    arg = mk('param', '$in')
    isparse = w.reader(c).istlv
    val = VAL_IN if isparse else arg
    v = s.conv
    f = w.reader(c).fn
    if f.params and f.params[0] == 'tlv_value':
        val = arg
    # a TLV read in a loop, or at a position
    vs = [x for x in subs(v) if x.op == 'slice' and x.a[0] is val and num(x.a[1]) is not None]
    if it.multi and s.rev:
        rep.viol('field restored', con, dl, 'the elements of %s are decoded in the reverse of the order they were written' % n)
        return
    if len(items) > 1:
        if v.op == 'seq' and strip(it.term).op in ('idx', 'be_bytes'):
            # a list put together from single bytes
            where = {}
            for x, o, wd in seq_positions(items):
                y = strip(x.term)
                y = y.a[0] if y.op == 'be_bytes' and y.a[1] == 1 else y
                if y.op == 'idx' and y.a[0] is P and num(y.a[1]) is not None:
                    where[int(num(y.a[1]))] = o
            if where:
                for j, x in enumerate(v.a[1:]):
                    if j in where and where[j] is not None:
                        at = num(x.a[1]) if x.op == 'idx' and x.a[0] is val else None
                        rep.check(True if at == where[j] else False if at is not None or x.op == 'const' else None, 'field restored', con, dl,
                                  'element %d of %s is written at byte %d and read as %s' % (j, n, where[j], show(x)[:60]))
                return
        if v.op == 'slice' and v.a[0] is val and num(v.a[1]) is not None and num(v.a[2]) is not None:
            # a run of single elements of one list
            run = [(o, strip(x.term)) for x, o, wd in seq_positions(items) if o is not None and num(v.a[1]) <= o < num(v.a[2])]
            run = [(o, x.a[0] if x.op == 'be_bytes' and x.a[1] == 1 else x) for o, x in run]
            if run and all(x.op == 'idx' and x.a[0] is P for _, x in run):
                good = [num(x.a[1]) for _, x in run] == list(range(len(run))) and len(run) == num(v.a[2]) - num(v.a[1])
                rep.check(good, 'field restored', con, dl, 'the elements of %s are written as %s and read from bytes %s to %s' %
                          (n, [show(x) for _, x in run], show(v.a[1]), show(v.a[2])))
                return
        pos = {id(i): (o, wd) for i, o, wd in seq_positions(items)}
        o, wd = pos.get(id(it), (None, None))
        if o is not None and vs:
            x = vs[0]
            lo, hi = num(x.a[1]), num(x.a[2])
            if lo != o:
                rep.viol('field restored', con, dl, 'field %s is written at byte %d of the value and read from byte %s' % (n, o, lo))
                return
            if wd is not None and hi is not None and hi - lo != wd:
                rep.viol('field restored', con, dl, 'field %s is written with %d bytes and %d are read' % (n, wd, hi - lo))
                return
            if wd is None and x.a[2] is not NONE:
                rep.viol('field restored', con, dl, 'only a part of field %s is read: %s' % (n, show(x)[:60]))
                return
            v2 = inv.i.subst(v, {x: val})
            v2 = canon(v2)
            g = inv.value(it.term, P, v2, val) if not it.multi else (v2 is val or None)
            rep.check(g, 'field restored', con, dl, 'field %s: %s' % (n, inv.why))
            return
        if o is not None and v.op == 'idx' and v.a[0] is val and num(v.a[1]) is not None:
            good = num(v.a[1]) == o and (wd in (1, None))
            rep.check(good, 'field restored', con, dl, 'field %s is written at byte %d and read from byte %s' % (n, o, show(v.a[1])))
            return
    if it.multi or s.multi:
        if it.multi and not s.multi and s.code is None and not mentions(v, val):
            rep.und('field restored', con, 'list read as %s' % show(v)[:60])
            return
        if it.multi and s.multi:
            # elements
            ty = inv.pty(P)
            if inv.lossy(v, TLV) is False or inv.built(v) is False:
                rep.viol('field restored', con, dl, 'element of %s: %s' % (n, inv.why))
                return
            if s.inner is not None or any(x.op == 'mcall' and x.a[0] in ('deserialize', 'parse') for x in subs(v)):
                rep.ok('field restored', con)
                return
        if it.multi and v is val:
            rep.ok('field restored', con)
            return
        rep.und('field restored', con, 'list read as %s' % show(v)[:60])
        return
    if s.code is not None:
        # an item of unknown type: union of typed fields
        g = inv.coded(it.term, P, s)
        rep.check(g, 'field restored', con, dl, 'field %s: %s' % (n, inv.why))
        return
    if s.inner is not None:
        if v is TLV:
            rep.ok('field restored', con)
            return
        if mentions(v, VAL_TLV):
            g = inv.value(it.term, P, v, VAL_TLV)
            rep.check(g, 'field restored', con, dl, 'field %s: %s' % (n, inv.why))
            return
        g = inv.coded(it.term, P, s)
        rep.check(g, 'field restored', con, dl, 'field %s: %s' % (n, inv.why))
        return
    g = inv.value(it.term, P, v, val)
    rep.check(g, 'field restored', con, dl, 'field %s: %s' % (n, inv.why))


def accessors(w, p, rep):
    """a method named like a constructor parameter returns what was given for that parameter"""
    i = w.i
    for c in w.classes():
        for n in params_of(c):
            m = c.find(n)
            if m is None or m.abstract or m.kind not in ('inst', 'prop') or len(m.params) > 0:
                continue
            con = '%s.%s()' % (c.name, n)
            with rep.guard('accessor returns its field', con):
                P = mk('param', n)
                others = [mk('param', q) for q in params_of(c) if q != n]
                for o in i.ctor(c):
                    for x in i.run(m, selfcls=c, st=o.st.copy()):
                        if x.kind != 'return':
                            continue
                        v = x.val
                        if mentions(v, P):
                            rep.ok('accessor returns its field', con)
                        elif any(mentions(v, q) for q in others) and not any(mentions(a, P) for a in x.facts):
                            rep.viol('accessor returns its field', con, m.loc(), '%s returns %s, not the %s it was built with' %
                                     (con, show(v)[:60], n))
                        elif v in others and x.facts.get(mk('isnone', P)) is False:
                            rep.viol('accessor returns its field', con, m.loc(), '%s returns the %s although a %s was given' % (con, show(v)[:60], n))
                        elif v in others and any(mentions(a, P) for a in x.facts if a not in o.facts):
                            rep.viol('accessor returns its field', con, m.loc(), '%s returns the %s when no %s was given' % (con, show(v)[:60], n))
                        elif v is NONE and absent_ok(w, c, x.facts, P) is None and certainly_set_or_free(x.facts, P):
                            rep.viol('accessor returns its field', con, m.loc(), '%s returns None although the object was built with a %s' % (con, n))


    # and a method that a part of the object has too is not without an answer while the part is there
    for c in w.classes():
        f = c.find('__init__')
        if f is None:
            continue
        own = [m for k in c.mro() for m in k.methods.values() if m.kind in ('inst', 'prop') and not m.params and not m.abstract and
               not m.name.startswith('_') and m.name not in params_of(c)]
        for m in own:
            if m is not c.find(m.name):
                continue
            parts = [n for n in params_of(c) if (lambda ty: len(ty.classes) == 1 and any(k.find(m.name) for k in ty.classes))(w.p._ann(f.mod, f.ann.get(n), f.cls))]
            if len(parts) != 1 or m.name in ('serialize', 'value', 'type', 'length'):
                continue
            P = mk('param', parts[0])
            con = '%s.%s()' % (c.name, m.name)
            with rep.guard('accessor returns its field', con):
                for o in i.ctor(c):
                    for x in i.run(m, selfcls=c, st=o.st.copy()):
                        if x.kind == 'return' and x.val is NONE:
                            rep.check(absent_ok(w, c, x.facts, P) or not certainly_set_or_free(x.facts, P), 'accessor returns its field', con, m.loc(),
                                      '%s returns None although %s, which has one, was given' % (con, parts[0]))
                        elif x.kind == 'return' and mentions(x.val, P):
                            rep.ok('accessor returns its field', con)


def certainly_set_or_free(facts, P):
    return certainly_set(facts, P) or not any(mentions(a, P) for a in facts)


# every field starts where the previous one ended
def c02_positions(ctx, rep):
    w, p = ctx.wire, ctx.p
    for c in w.classes():
        with rep.guard('each field starts where the previous ended', c.name):
            r = w.reader(c)
            for e in r.loops.values():
                L = e.x
                if L.iter is not None:
                    continue
                for kind, v, facts, evs, ups in L.outs:
                    if kind not in ('next', 'continue'):
                        continue
                    xs = set()
                    for t in [a for a, b in facts] + [u for n, u in changed(L, ups)]:
                        xs |= {s for s in subs(t) if s.op == 'mcall' and s.a[0] == 'deserialize' and position(s) is not None}
                    xs = {x for x in xs if not any(x is not y and mentions(y, x) and False for y in xs)}
                    for x in xs:
                        base, off = position(x)
                        if any(y is not x and mentions(x, y) for y in xs):
                            continue
                        con = c.name
                        if base.op == 'lv' and base.a[0] == L.lid and off is const(0):
                            u = ups.get(base.a[1])
                            u = canon(u) if u is not None else None
                            if u is base:
                                rep.viol('each field starts where the previous ended', con, r.fn.loc(), 'a pass of the decoding loop does not advance')
                            elif u is not None and u.op == 'slice' and u.a[0] is base and u.a[2] is NONE:
                                rep.check(is_len(u.a[1], x), 'each field starts where the previous ended', con, r.fn.loc(),
                                          'the decoding loop advances by %s, not by the length of the TLV read' % show(u.a[1])[:60])
                            else:
                                rep.und('each field starts where the previous ended', con, 'buffer %s' % show(u)[:60])
                            continue
                        if off.op == 'lv' and off.a[0] == L.lid:
                            u = ups.get(off.a[1])
                            if u is None:
                                continue
                            d = add(canon(u), off, -1)
                            if mentions(d, off) and not is_len(d, x) and not any(mentions(s, off) and s is x for s in subs(d)):
                                rep.und('each field starts where the previous ended', con, show(u)[:60])
                            else:
                                rep.check(is_len(d, x), 'each field starts where the previous ended', con, r.fn.loc(),
                                          'the decoding loop advances by %s, not by the length of the TLV read' % show(d)[:80])
                        elif not any(s.op == 'lv' and s.a[0] == L.lid for s in subs(off)) and not any(
                                s.op == 'lv' and s.a[0] == L.lid for s in subs(base)):
                            rep.viol('each field starts where the previous ended', con, r.fn.loc(),
                                     'every pass of the decoding loop reads the TLV at the same position')


def position(x):
    """(buffer, offset) a TLV is decoded from, when the call decodes from a position of a buffer"""
    y = x.a[3] if len(x.a) > 3 else None
    y = y.a[1] if y is not None and y.op == 'kw' else y
    if y is None:
        return None
    if y.op == 'slice' and y.a[2] is NONE:
        return y.a[0], y.a[1]
    if y.op == 'lv':
        return y, const(0)
    return None


def is_len(d, x):
    d = canon(d)
    return d is mk('len', x) or d is add(const(4), mk('len', mk('attr', x, '_value'))) or (d.op == 'mcall' and d.a[0] == '__len__' and d.a[1] is x) \
        or d is mk('len', mk('attr', x, '_wire_format')) or (d.op == 'len' and d.a[0].op == 'mcall' and d.a[0].a[0] == 'serialize' and d.a[0].a[1] is x)


def c02_tlv(ctx, rep):
    """the primitive every encoding is built with"""
    w, i = ctx.wire, ctx.wire.i
    t = w.tlv
    V, TT = mk('param', 'value'), mk('param', 'tlv_type')
    f = t.find('flatten')
    with rep.guard('flatten keeps every element', 'Tlv.flatten'):
        j = Interp(ctx.p, stop=STOP - {'flatten'})
        x = mk('param', f.params[0])
        for o in j.run(f, selfcls=t):
            if o.kind != 'return':
                continue
            v = canon(o.val)
            if v is x:
                rep.ok('flatten keeps every element', 'Tlv.flatten as is')
                continue
            if o.facts.get(mk('isnone', x)) is True or v.op == 'const':
                rep.check(v.op == 'seq' and len(v.a) == 1 and o.facts.get(mk('isnone', x)) is True, 'flatten keeps every element', 'Tlv.flatten None',
                          f.loc(), 'a value other than None is flattened to %s' % show(v))
                continue
            es = [s for s in v.a[1:] if s.op == 'each'] if v.op == 'seq' else []
            if len(es) != 1 or len(v.a) != 2 or es[0].a[0] is not x:
                if es and es[0].a[0] is not x and mentions(es[0].a[0], x):
                    rep.viol('flatten keeps every element', 'Tlv.flatten list', f.loc(), 'the list is flattened from %s' % show(es[0].a[0])[:60])
                else:
                    rep.und('flatten keeps every element', 'Tlv.flatten list', show(v)[:100])
                continue
            el = mk('elem', x)
            for conds, items in es[0].a[1]:
                for cnd in conds:
                    a, b = (cnd.a[0], False) if cnd.op == 'not' else (cnd, True)
                    known = (a.op == 'isnone' and a.a[0] is el and not b) or (a.op == 'isa' and a.a[0] is el) or \
                        (a.op == 'hasattr' and a.a[0] is el)
                    rep.check(known or None if a.op not in ('truth', 'eq', 'lt0', 'in') else False, 'flatten keeps every element', 'Tlv.flatten list', f.loc(),
                              'an element of a list is only encoded when %s%s' % ('' if b else 'not ', show(a)[:60]))
                for it in items:
                    y = strip(it)
                    ok = y is el or (y.op == 'mcall' and y.a[0] == 'serialize' and y.a[1] is el)
                    rep.check(ok or None, 'flatten keeps every element', 'Tlv.flatten list', f.loc(), 'element encoded as %s' % show(y)[:60])
    for n, want in (('type', lambda v: v is TT), ('value', lambda v: strip(v) is V or v is V),
                    ('length', lambda v: v is mk('len', V)), ('__len__', lambda v: v is add(const(4), mk('len', V)) or wire_len(v)),
                    ('value_as_number', lambda v: v is mk('be_num', V))):
        m = t.find(n)
        if m is None:
            continue
        with rep.guard('Tlv accessors', 'Tlv.' + n):
            for o in i.ctor(t):
                for r in i.run(m, selfcls=t, st=o.st.copy()):
                    if r.kind == 'return':
                        v = canon(r.val)
                        rep.check(want(v) or (None if has_op(v, 'lv') else False), 'Tlv accessors', 'Tlv.' + n, m.loc(), 'Tlv.%s() returns %s' % (n, show(v)[:80]))
    for n, width in (('create_uint64', 8), ('create_uint16', 2), ('create_uint8', 1), ('create_varint', None)):
        m = t.find(n)
        if m is None:
            continue
        with rep.guard('Tlv factories', 'Tlv.' + n):
            for r in i.run(m, selfcls=t):
                if r.kind != 'return':
                    continue
                v = canon(r.val)
                if v.op != 'new':
                    rep.und('Tlv factories', 'Tlv.' + n, show(v)[:60])
                    continue
                k = kwargs(v)
                b = k['value']
                ok = b.op == 'be_bytes' and b.a[0] is mk('param', 'value') and (width is None or b.a[1] == width) and k['tlv_type'] is TT
                rep.check(ok or (None if b.op not in ('be_bytes',) else False), 'Tlv factories', 'Tlv.' + n, m.loc(), 'Tlv.%s makes %s' % (n, show(v)[:100]))


def wire_len(v):
    if v.op != 'len' or v.a[0].op != 'seq':
        return False
    it = v.a[0].a[1:]
    return len(it) == 3 and all(x.op == 'spread' for x in it) and [x.a[0].a[1] for x in it[:2] if x.a[0].op == 'be_bytes'] == [2, 2]


RULES = {'C01': c01, 'C02': [c02, c02_positions, c02_tlv]}
