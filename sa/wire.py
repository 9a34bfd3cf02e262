"""The wire model: what every protocol class writes (from its constructor and serialize) and how its decoder reads
it (from parse / deserialize), as tables of terms.  Nothing is executed: both tables come from the abstract
evaluation of the source (interp.py)."""
from .terms import *
from .interp import *
from .project import *

STOP = {'parse', 'deserialize', 'serialize', 'flatten', 'create_for_manifest', 'content_object_hash'}
SELF = mk('param', 'self')
TLV = mk('param', '$tlv')


def canon(t, cache=None):
    """normal form of byte sequences and big-endian conversions"""
    if cache is None:
        cache = {}
    if t in cache:
        return cache[t]
    a = []
    for x in t.a:
        if isinstance(x, T):
            a.append(canon(x, cache))
        elif isinstance(x, tuple):
            a.append(tuple(canon(y, cache) if isinstance(y, T) else tuple(canon(z, cache) if isinstance(z, T) else z for z in y)
                           if isinstance(y, tuple) else y for y in x))
        else:
            a.append(x)
    r = _canon(t.op, a)
    cache[t] = r
    return r


def lane(t):
    """(n, shift, masked) when t is a byte lane of n"""
    m = False
    if t.op == 'band' and any(num(x) == 255 for x in t.a):
        m = True
        t = [x for x in t.a if num(x) != 255][0] if any(num(x) != 255 for x in t.a) else t
    if t.op == 'shr' and num(t.a[1]) is not None:
        return t.a[0], int(num(t.a[1])), m
    if t.op == 'fdiv' and num(t.a[1]) is not None:
        k = num(t.a[1])
        if k > 0 and k & (k - 1) == 0 and (k.bit_length() - 1) % 8 == 0:
            return t.a[0], k.bit_length() - 1, m
    return t, 0, m


def _runs(items):
    out, i = [], 0
    while i < len(items):
        n, s, m = lane(items[i])
        if s and s % 8 == 0 and items[i].op not in ('spread', 'each', 'rev'):
            w = s // 8 + 1
            ok = i + w <= len(items)
            for k in range(1, w):
                if not ok:
                    break
                n2, s2, m2 = lane(items[i + k])
                ok = n2 is n and s2 == 8 * (w - 1 - k) and m2
            if ok:
                out.append(mk('spread', mk('be_bytes', n, w, 'trunc' if m else 'exact')))
                i += w
                continue
        out.append(items[i])
        i += 1
    return out


def bytes_term(x):
    return x.op in ('seq', 'be_bytes', 'arr') or x.op == 'mcall' and x.a[0] == 'serialize' or x.op == 'attr' and x.a[1] == '_wire_format'


def _canon(op, a):
    if op == 'seq' and a[0] in ('list', 'tuple', 'bytes'):
        items = _runs(a[1:])
        if len(items) == 1 and items[0].op == 'spread' and items[0].a[0].op == 'be_bytes':
            return items[0].a[0]
        if len(items) == 1 and items[0].op == 'spread' and items[0].a[0].op not in ('seq',) and a[0] == 'list' and \
                not (items[0].a[0].op == 'param'):
            return mk('seq', 'list', *items)
        return mk('seq', 'list', *items)
    if op in ('arr', 'tobytes', 'copyof'):
        x = a[0]
        if x.op == 'seq' and len(x.a) == 2 and x.a[1].op not in ('spread', 'each', 'rev'):
            n, s, m = lane(x.a[1])
            if s == 0:
                return mk('be_bytes', n, 1, 'trunc' if m else 'exact')
        if x.op == 'seq' and len(x.a) == 2 and x.a[1].op == 'spread':
            return x.a[1].a[0]
        return x
    if op == 'to_bytes':
        if is_const(a[2]) and a[2].a[0] == 'big' and num(a[1]) is not None and a[3] is FALSE:
            return mk('be_bytes', a[0], int(num(a[1])), 'exact')
    if op == 'call' and a[0].op == 'ext':
        n = a[0].a[0]
        if n.startswith('struct.'):
            r = _struct(n[7:], [x.a[1] if x.op == 'kw' else x for x in a[2:]])
            if r is not None:
                return r
        if n in ('bytes', 'bytearray', 'list', 'tuple') and len(a) == 3:
            return a[2]
        if n == 'int.from_bytes' and len(a) >= 3:
            o = [x for x in a[3:]]
            order = [x.a[1] if x.op == 'kw' and x.a[0] == 'byteorder' else x for x in o if x.op != 'kw' or x.a[0] == 'byteorder']
            if (not order or order[0] is const('big')) and not any(x.op == 'kw' and x.a[0] == 'signed' and x.a[1] is not FALSE for x in o):
                return mk('be_num', a[2])
    if op == 'plus' and any(bytes_term(x) for x in a):
        return _canon('seq', ['list'] + [y for x in a for y in (x.a[1:] if x.op == 'seq' else [mk('spread', x)])])
    if op == 'mcall' and a[0] == 'copy' and len(a) == 3:
        return a[1]
    if op == 'mcall' and a[0] == 'flatten' and len(a) == 4:
        x = a[3]
        return x.a[1] if x.op == 'kw' else x
    if op == 'app' and a[0].op in ('mcall', 'call', 'arr', 'slice', 'seq'):
        base = list(a[0].a[1:]) if a[0].op == 'seq' else [mk('spread', a[0])]
        return _canon('seq', ['list'] + base + list(a[1:]))
    if op == 'idx' and a[0].op == 'seq' and num(a[1]) is not None and all(x.op not in ('spread', 'each', 'rev') for x in a[0].a[1:]):
        k = int(num(a[1]))
        if -len(a[0].a) + 1 <= k < len(a[0].a) - 1:
            return a[0].a[1:][k]
    if op == 'be_num' and a[0].op == 'be_bytes' and a[0].a[2] == 'exact':
        return a[0].a[0]
    return mk(op, *a)


FMT = {'B': 1, 'H': 2, 'I': 4, 'L': 4, 'Q': 8}


def layout_of(fmt):
    """widths of a big-endian struct format, or None"""
    if not isinstance(fmt, str) or fmt[:1] not in ('!', '>'):
        return None
    out, n = [], ''
    for ch in fmt[1:]:
        if ch.isdigit():
            n += ch
        elif ch in FMT:
            out += [FMT[ch]] * int(n or 1)
            n = ''
        else:
            return None
    return out


def _struct(name, args):
    if not args or not is_const(args[0], str):
        return None
    ws = layout_of(args[0].a[0])
    if ws is None:
        return None
    if name == 'pack' and len(args) == len(ws) + 1:
        return mk('seq', 'list', *[mk('spread', mk('be_bytes', x, w, 'exact')) for x, w in zip(args[1:], ws)])
    if name in ('unpack', 'unpack_from') and len(args) in (2, 3):
        off = int(num(args[2])) if len(args) == 3 and num(args[2]) is not None else 0 if len(args) == 2 else None
        if off is None:
            return None
        out = []
        for w in ws:
            out.append(mk('idx', args[1], const(off)) if w == 1 else
                       mk('be_num', mk('slice', args[1], const(off), const(off + w))))
            off += w
        return mk('seq', 'tuple', *out)
    return None


def kwargs(t):
    """keyword view of a new(...) term"""
    return {t.a[i]: t.a[i + 1] for i in range(2, len(t.a), 2)}


class Item:
    """one element of an encoding: code(s), the constructor parameter it carries and the shape it has around it"""
    __slots__ = ('codes', 'param', 'term', 'multi', 'via')

    def __init__(self, codes, term, multi=False):
        self.codes, self.term, self.multi = codes, term, multi


class Wire:
    def __init__(self, prj):
        self.p = prj
        self.i = Interp(prj, stop=STOP)
        self._w, self._r = {}, {}
        self.tlv = prj.cls('Tlv')
        self.und = []

    # ---------------------------------------------------------------- classes
    def classes(self):
        out = []
        for c in sorted(self.p.classes.values(), key=lambda c: c.qual):
            if c.is_abstract() or c is self.tlv:
                continue
            if c.find('serialize') and (c.find('parse') or c.find('deserialize')):
                if c.isa(self.tlv):
                    continue
                out.append(c)
        return out

    def decoder(self, c):
        f = c.find('parse')
        return f if f is not None and not f.abstract else c.find('deserialize')

    def code(self, c):
        """class_type() of c, as a number, or None"""
        k = ('code', c)
        if k not in self._w:
            f = c.find('class_type')
            v = None
            if f is not None:
                try:
                    vals = {o.val for o in self.i.run(f, selfcls=c) if o.kind == 'return'}
                except Budget:
                    vals = set()
                if len(vals) == 1:
                    v = num(vals.pop())
            self._w[k] = v
        return self._w[k]

    def codes(self, cs):
        out = set()
        for c in cs:
            if c.is_abstract():
                for s in c.all_subs():
                    if not s.is_abstract():
                        out.add(self.outer_code(s))
            else:
                out.add(self.outer_code(c))
        return out - {None}

    def outer_code(self, c):
        """the type number the encoding of c starts with"""
        k = ('outer', c)
        if k not in self._w:
            self._w[k] = self.code(c)
            oc = set()
            for facts, codes, items, val in self.writer(c):
                oc.add(codes[0] if codes else None)
            if len(oc) == 1 and None not in oc:
                self._w[k] = oc.pop()
        return self._w[k]

    def outer_codes(self, c):
        ks = {codes[0] for _, codes, _, _ in self.writer(c) if codes}
        return ks or {self.code(c)}

    # ---------------------------------------------------------------- what is written
    def writer(self, c):
        """-> [(facts, outer codes, items, value term)] one entry per constructor outcome"""
        if c in self._w:
            return self._w[c]
        self._w[c] = []
        i, f = self.i, c.find('serialize')
        res = []
        for o in i.ctor(c):
            saved = dict(i.ptypes)
            i.ptypes[SELF] = Ty(classes={c}, known=True, exact=True)
            init = c.find('__init__')
            for n in init.params:
                i.ptypes[mk('param', n)] = self.p._ann(init.mod, init.ann.get(n), init.cls)
            try:
                for r in i.run(f, selfcls=c, st=o.st.copy()):
                    if r.kind == 'return':
                        v = canon(r.val)
                        while v.op == 'mcall' and v.a[0] == 'serialize' and self.is_tlv_new(v.a[1]):
                            v = v.a[1]
                        if self.is_tlv_new(v) and self.code(c) is None and num(kwargs(v)['tlv_type']) is not None:
                            codes, items = [], [self.item(v, r.st)]      # a body of one item
                        else:
                            codes, items = self.layout(v, r.st)
                        res.append((r.facts, codes, items, canon(r.val)))
            finally:
                i.ptypes = saved
        self._w[c] = res
        return res

    def is_tlv_new(self, t):
        if t.op != 'new':
            return False
        c = self.p.classes.get(t.a[0].a[0])
        return c is not None and c.isa(self.tlv)

    def layout(self, v, st):
        """outer type numbers and the items inside"""
        if v.op == 'mcall' and v.a[0] == 'serialize':
            return self.layout(v.a[1], st)
        if self.is_tlv_new(v):
            k = kwargs(v)
            c, val = num(k['tlv_type']), k['value']
            if self.is_tlv_new(val):
                codes, items = self.layout(val, st)
                return [c] + codes, items
            return [c], self.items(val, st)
        return [], self.items(v, st)

    def items(self, v, st):
        out = []
        if v.op == 'mcall' and v.a[0] == 'serialize':
            return [self.item(v.a[1], st)]
        if v.op != 'seq':
            return [self.item(v, st)] if v.op != 'const' or v.a[0] is not None else []
        for x in v.a[1:]:
            if x.op == 'spread':
                y = x.a[0]
                if y.op == 'mcall' and y.a[0] == 'serialize':
                    out.append(self.item(y.a[1], st))
                elif y.op in ('param',) or y.op == 'each':
                    out.append(Item(None, y, True))
                else:
                    out.append(Item(None, mk('spread', y)))
            elif x.op == 'each':
                out.append(Item(None, x, True))
            elif x is NONE:
                pass
            else:
                out.append(self.item(x, st))
        return out

    def item(self, t, st):
        if self.is_tlv_new(t):
            return Item({num(kwargs(t)['tlv_type'])}, t)
        if t.op == 'new':
            c = self.p.classes.get(t.a[0].a[0])
            if c is not None and c.find('serialize'):
                return Item(self.codes({c}), t)
            return Item(None, t)
        ty = self.i.typeof(t, st)
        cs = {c for c in ty.classes if c.find('serialize')}
        return Item(self.codes(cs) if cs else None, t)

    # ---------------------------------------------------------------- what is read
    def reader(self, c):
        """-> Reader for the decoder of c"""
        if c not in self._r:
            self._r[c] = Reader(self, c)
        return self._r[c]

    def key_param(self, t):
        """(loop, update key) of an lv term: variable name, and dictionary key if it is an entry of a dictionary"""
        name = t.a[1]
        return t.a[0], name


class Src:
    """where a decoder takes a field from: the type number it requires (or None), the conversion applied to the
    inner TLV $tlv, whether it is appended to a list, and the remaining conditions"""
    __slots__ = ('code', 'notcodes', 'conv', 'multi', 'facts', 'inner', 'raw', 'rev')

    def __repr__(self):
        return 'Src(%s%s %s)' % (self.code, '*' if self.multi else '', show(self.conv))


def code_of(t):
    """X when t is the type number of the TLV X"""
    if t.op == 'attr' and t.a[1] == '_tlv_type':
        return t.a[0]
    if t.op == 'mcall' and t.a[0] == 'type' and len(t.a) == 3:
        return t.a[1]
    return None


def code_fact(atom):
    """(X, number) when atom says that the type number of X is a constant"""
    if atom.op == 'eq':
        for x, y in ((atom.a[0], atom.a[1]), (atom.a[1], atom.a[0])):
            if num(x) is not None and code_of(y) is not None:
                return code_of(y), int(num(x))
    return None


class Reader:
    def __init__(self, w, c, fn=None):
        self.w, self.c = w, c
        self.fn = fn or w.decoder(c)
        i = w.i
        saved = dict(i.ptypes)
        n = self.fn.params[0]
        self.arg = mk('param', '$in')
        self.istlv = self.fn.name == 'parse'
        if self.istlv:
            i.ptypes[self.arg] = Ty(classes={w.tlv}, known=True)
        try:
            self.outs = i.run(self.fn, selfcls=c, args={n: self.arg})
        finally:
            pass
        self.returns = [o for o in self.outs if o.kind == 'return']
        self.raises = [o for o in self.outs if o.kind == 'raise']
        self.loops = {}
        self._seen = set()
        for o in self.outs:
            self._collect(o.events())
        i.ptypes = saved

    def _collect(self, evs):
        for e in evs:
            if e.kind == 'loop' and id(e.x) not in self._seen:
                self._seen.add(id(e.x))
                self.loops.setdefault(e.x.lid, e)
                for q in e.x.outs:
                    self._collect(q[3])

    def src(self, facts, term, multi):
        r = Src()
        r.code, r.notcodes, r.multi, r.inner, r.raw, r.rev = None, set(), multi, None, term, False
        r.facts = []
        inner = {}
        for a, b in facts:
            if a.op == 'not':
                a, b = a.a[0], not b
            cf = code_fact(a)
            if cf and cf[0] is not self.arg:
                if b:
                    r.code, r.inner = cf[1], cf[0]
                else:
                    r.notcodes.add(cf[1])
                    inner[cf[0]] = 1
            else:
                r.facts.append((a, b))
        if r.inner is None:
            for x in inner:
                r.inner = x
        if r.inner is None:
            r.inner = find_tlv(term)
        r.conv = canon(self.w.i.subst(term, {r.inner: TLV})) if r.inner is not None else canon(term)
        return r

    def update(self, ups, name):
        """value of a loop variable (or entry of a loop dictionary) after a pass"""
        if name in ups:
            return ups[name]
        if isinstance(name, str) and '[' in name:
            d, k = name.split('[', 1)
            u = ups.get(d)
            if u is not None and u.op == 'dict':
                for j in range(0, len(u.a), 2):
                    if show(u.a[j]) + ']' == k:
                        return u.a[j + 1]
        return None

    def sources(self, v):
        """-> (list of Src, value when the field is absent) of a value of the decoder"""
        if v.op == 'lv' and v.a[0] in self.loops:
            L = self.loops[v.a[0]].x
            out = []
            for kind, val, facts, evs, ups in L.outs:
                if kind not in ('next', 'continue', 'break'):
                    continue
                u = self.update(ups, v.a[1])
                if u is None or u is v:
                    continue
                if u.op == 'app' and u.a[0] is v:
                    for x in u.a[1:]:
                        out.append(self.src(facts, x, True))
                elif u.op == 'pre' and u.a[0] is v:
                    for x in u.a[1:]:
                        out.append(self.src(facts, x, True))
                        out[-1].rev = True
                elif u.op == 'seq' and len(u.a) > 2 and any(x.op == 'spread' and x.a[0] is v for x in u.a[1:]):
                    k = [n for n, x in enumerate(u.a) if n and x.op == 'spread' and x.a[0] is v][0]
                    for n, x in enumerate(u.a):
                        if n and n != k:
                            out.append(self.src(facts, x, True))
                            out[-1].rev = n < k
                else:
                    out.append(self.src(facts, u, False))
            return out, self.w.i.lvinit.get(v)
        if v.op == 'seq' and all((x.a[0] if x.op == 'rev' else x).op == 'each' for x in v.a[1:]) and len(v.a) > 1:
            out = []
            for x in v.a[1:]:
                rev, x = x.op == 'rev', x.a[0] if x.op == 'rev' else x
                for conds, items in x.a[1]:
                    for it in items:
                        out.append(self.src([(c, True) for c in conds], it, True))
                        out[-1].rev = rev
            return out, seq('list', [])
        return [self.src([(a, b) for a, b in ()], v, False)], None

    def fields(self, out):
        """{constructor parameter: (sources, absent value)} of a returning outcome, or None"""
        v = out.val
        if v.op != 'new':
            return None
        return {k: self.sources(x) for k, x in kwargs(v).items()}


def find_tlv(t):
    """the innermost decoded TLV a conversion starts from"""
    for s in sorted(subs(t), key=lambda x: len(subs(x))):
        if s.op == 'mcall' and s.a[0] == 'deserialize' and (s.a[1].op == 'cls' and s.a[1].a[0].endswith(('.Tlv', '.NameComponent'))):
            return s
    return None
