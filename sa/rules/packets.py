"""C08, C09: the packet around the body - header, length, hash and signature coverage."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *

SHA256_NUMBER = 1           # T_SHA_256


# ------------------------------------------------------------------------------------------------ lengths
class Lengths:
    """the number of bytes of an encoding as a linear term over the lengths of its parts"""

    def __init__(self, w):
        self.w, self.i, self.p = w, w.i, w.p
        self.known = True

    def const_len(self, c):
        """the length of the encoding of c when every outcome has the same fixed length"""
        out = set()
        for facts, codes, items, val in self.w.writer(c):
            out.add(num(self.enc(val)))
        return out.pop() if len(out) == 1 else None

    def whole_tlv(self, x):
        """does x encode as its attribute _tlv and nothing else?"""
        ks = self.i.typeof(x).classes or {
            c for c in self.p.classes.values() if '__init__' in c.methods and any(
                isinstance(n, ast.Attribute) and n.attr == '_tlv' and isinstance(n.ctx, ast.Store) for n in ast.walk(c.methods['__init__'].node))}
        for c in ks:
            f = c.find('serialize')
            for o in self.i.run(f, selfcls=c) if f is not None else ():
                v = canon(o.val)
                if o.kind == 'return' and not (v.op == 'mcall' and v.a[0] == 'serialize' and v.a[1].op == 'attr' and
                                               v.a[1].a[0] is SELF and v.a[1].a[1] == '_tlv'):
                    return False
            if f is None:
                return False
        return bool(ks)

    def obj(self, x):
        """bytes of the encoding of object x"""
        x = canon(x)
        if x is NONE:
            return const(0)
        if x.op == 'attr' and x.a[1] == '_tlv' and self.whole_tlv(x.a[0]):
            return self.obj(x.a[0])
        if self.w.is_tlv_new(x):
            k = kwargs(x)
            return add(const(4), self.enc(k['value']))
        if x.op in ('new',):
            c = self.p.classes.get(x.a[0].a[0])
        else:
            cs = self.i.typeof(x).classes
            c = list(cs)[0] if len(cs) == 1 else None
        if c is not None and c.name == 'FixedHeader':
            n = self.const_len(c)
            if n is not None:
                return const(n)
        return mk('L', x)

    def enc(self, v):
        """bytes of the byte string (or flattened value) v"""
        v = canon(v)
        if v is NONE:
            return const(0)
        if v.op in ('arr', 'tobytes'):
            return self.enc(v.a[0])
        if v.op == 'mcall' and v.a[0] == 'serialize':
            return self.obj(v.a[1])
        if v.op == 'attr' and v.a[1] == '_wire_format':
            return self.obj(v.a[0])
        if v.op == 'be_bytes':
            return const(v.a[1])
        if v.op == 'seq':
            r = const(0)
            for x in v.a[1:]:
                if x.op == 'spread':
                    r = add(r, self.enc(x.a[0]))
                elif x.op == 'const' or x.op in ('band', 'shr'):
                    r = add(r, const(1 if x is not NONE else 0))
                elif x.op in ('each', 'rev'):
                    r = add(r, mk('L', x))
                else:
                    r = add(r, self.obj(x))
            return r
        if self.w.is_tlv_new(v):
            return self.obj(v)
        return mk('L', v)

    def length(self, t):
        """normalise a number built from len() of objects and byte strings"""
        c, d = lin_parts(canon(t))
        r = const(c)
        for x, k in d.items():
            r = add(r, mul(const(k), self.one(x)))
        return r

    def one(self, x):
        if x.op == 'len':
            y = x.a[0]
            if y.op in ('seq', 'arr', 'tobytes', 'be_bytes') or y.op == 'mcall' and y.a[0] == 'serialize' or y.op == 'attr' and y.a[1] == '_wire_format':
                return self.enc(y)
            return self.obj(y)
        if x.op == 'mcall' and x.a[0] == '__len__':
            return self.obj(x.a[1])
        if x.op == 'mcall' and x.a[0] == 'length' and len(x.a) == 3 and (
                x.a[1].op == 'attr' and x.a[1].a[1] == '_tlv' and self.whole_tlv(x.a[1].a[0]) or set(self.i.typeof(x.a[1]).classes) == {self.w.tlv}):
            return add(self.obj(x.a[1]), const(-4))         # Tlv.length(): without the type and length fields
        return x


def understood(d):
    return all(x.op == 'L' for x in lin_parts(d)[1])


def holds_none(t, facts):
    b = facts.get(mk('isnone', t))
    return b


def c08(ctx, rep):
    w, p, i = ctx.wire, ctx.p, ctx.wire.i
    ln = Lengths(w)
    # every object's length is the length of its encoding
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        f, g = c.find('__len__'), c.find('serialize')
        if f is None or g is None or c.is_abstract() or f.abstract or g.abstract:
            continue
        with rep.guard('len() is the number of bytes written', c.name):
            for o in i.ctor(c):
                ls = [r for r in i.run(f, selfcls=c, st=o.st.copy()) if r.kind == 'return']
                ss = [r for r in i.run(g, selfcls=c, st=o.st.copy()) if r.kind == 'return']
                for a in ls:
                    for b in ss:
                        if any(a.facts.get(k) not in (None, v) for k, v in b.facts.items()):
                            continue
                        d = add(ln.length(a.val), ln.enc(b.val), -1)
                        if c.find('__getitem__') is not None and canon(a.val).op == 'len' and canon(a.val).a[0].op in ('param', 'seq') \
                                and not w.is_tlv_new(canon(a.val).a[0]):
                            rep.ok('len() is the number of elements of a sequence', c.name)     # used as a list, not as bytes
                            continue
                        if d is const(0):
                            rep.ok('len() is the number of bytes written', c.name)
                        else:
                            rep.check(False if understood(d) else None, 'len() is the number of bytes written', c.name, f.loc(),
                                      'len() differs from the number of bytes serialize() returns by %s' % show(d)[:120])
    P, H = p.cls('Packet'), p.cls('FixedHeader')
    PARTS = ['header', 'body', 'validation_alg', 'validation_payload']
    # the bytes are header, body, algorithm, payload
    order(ctx, rep, P)
    # only the bytes of the packet are decoded
    with rep.guard('only the bytes of the packet are decoded', 'Packet'):
        extent(w, rep, P)
    # creation functions
    for f in sorted({m for c in P.mro() for m in c.methods.values() if m.kind in ('class', 'static')}, key=lambda m: m.name):
        if f.name in ('deserialize', 'load', 'parse'):
            continue
        con = 'Packet.' + f.name
        with rep.guard('packet length', con):
            for o in i.run(f, selfcls=P):
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                if v.op != 'new' or p.classes.get(v.a[0].a[0]) is not P:
                    rep.und('packet length', con, 'returns %s' % show(v)[:80])
                    continue
                created(ctx, rep, ln, f, con, o, v)
    # packets made elsewhere: a constructor call with a header of its own
    for fn in p.funcs.values():
        if fn.cls is P or '/tests' in fn.loc() or 'test' in fn.mod.name.split('.')[-1].lower():
            continue
        for n in calls_of(fn, 'Packet') + calls_of(fn, 'FixedHeader'):
            rep.und('packet length', fn.qual, 'constructs a packet or header directly at line %d' % n.lineno)
    # kind of packet
    kinds(ctx, rep, P, H)
    # header fields decoded from where they are encoded
    from .codec import c02_class
    from .decoders import conversions
    with rep.guard('header positions', 'FixedHeader'):
        c02_class(w, p, rep, H)
        conversions(ctx, rep, {c.mod for c in H.mro()})


def extent(w, rep, P):
    """the loop over the parts of a packet ends where the packet length of its header says"""
    rule = 'only the bytes of the packet are decoded'
    r = w.reader(P)
    isl = lambda t: t.op == 'attr' and 'packet_length' in str(t.a[1]) or t.op == 'mcall' and t.a[0] == 'packet_length'
    for e in r.loops.values():
        if not any(s.op == 'call' and 'Tlv.deserialize' in show(s.a[0]) or s.op == 'mcall' and s.a[0] == 'deserialize' for q in e.x.outs for a, b in q[2] for s in subs(a)):
            continue
        for exit in e.x.exits:
            ok = None
            for a, b in exit:
                if a.op != 'lt0' or b:
                    continue
                c, d = lin_parts(a.a[0])
                d2 = {}
                for t, k in d.items():
                    if t.op == 'len' and t.a[0].op == 'slice' and num(t.a[0].a[1]) == 0 and t.a[0].a[2] is not NONE:
                        c2, x = lin_parts(t.a[0].a[2])
                        c += k * c2
                        for y, m in x.items():
                            d2[y] = d2.get(y, 0) + k * m
                    else:
                        d2[t] = d2.get(t, 0) + k
                lv = [t for t, k in d2.items() if t.op == 'lv' and k == 1]
                pl = [t for t, k in d2.items() if isl(t) and k == -1]
                if not lv:
                    continue
                if not pl:
                    ok = False if all(t.op in ('lv', 'len') for t in d2) and not any(isl(s) for t in d2 for s in subs(t)) else ok
                elif len(d2) == 2:
                    ok = True if c == 0 else False
            if exit:
                rep.check(ok, rule, 'Packet', e.loc(), 'decoding goes on to %s, not to the packet length of the header' %
                          '; '.join(('' if b else 'not ') + show(a)[:80] for a, b in exit))


def ctor_wire(ctx, P, v):
    """the bytes Packet.serialize() returns for the constructor arguments of the new-term v: [(facts, bytes)]"""
    i, p = ctx.wire.i, ctx.p
    k = kwargs(v)
    init = P.find('__init__')
    g = P.find('serialize')
    out = []
    for o in i.ctor(P):
        fine = True
        for a, b in o.facts.items():
            if a.op == 'isnone' and a.a[0].op == 'param' and a.a[0].a[0] in k:
                t = k[a.a[0].a[0]]
                if t is NONE and not b or t.op == 'new' and b or (t.op not in ('const', 'new') and b and a.a[0].a[0] in ('validation_alg', 'validation_payload')):
                    fine = False
        if not fine:
            continue
        m = {mk('param', n): t for n, t in k.items()}
        for r in i.run(g, selfcls=P, st=o.st.copy()):
            if r.kind == 'return':
                out.append(canon(i.subst(r.val, m)))
    return out


def created(ctx, rep, ln, f, con, o, v):
    k = kwargs(v)
    i, p = ctx.wire.i, ctx.p
    h = canon(k['header'])
    if h.op != 'new' or p.classes.get(h.a[0].a[0]) is not p.cls('FixedHeader'):
        rep.und('packet length', con, 'header %s' % show(h)[:80])
        return
    hk = kwargs(h)
    declared = ln.length(hk['packet_length'])
    bs = ctor_wire(ctx, p.cls('Packet'), v)
    if not bs:
        rep.und('packet length', con, 'no constructor path')
    for b in bs:
        d = add(declared, ln.enc(b), -1)
        if d is const(0):
            rep.ok('packet length', con)
        else:
            rep.check(False if understood(d) else None, 'packet length', con, f.loc(),
                      'the packet length in the header differs from the number of bytes written by %s' % show(d)[:160])
    # header length
    n = num(hk.get('header_length', NONE))
    hl = ln.const_len(p.cls('FixedHeader'))
    if n is not None and hl is not None:
        rep.check(n == hl, 'header length', con, f.loc(), 'the header length is set to %s but the header has %s bytes' % (n, hl))
    v1 = num(hk.get('ver', NONE))
    if v1 is not None:
        rep.check(v1 == 1, 'header version', con, f.loc(), 'the version is set to %s' % v1)
    # which kind
    for word, meth in (('interest', 'is_interest'), ('content_object', 'is_content_object')):
        if word in f.name:
            m = p.cls('FixedHeader').find(meth)
            if m is None:
                continue
            pt = hk.get('packet_type')
            st = kindof(ctx, meth, pt)
            rep.check(st, 'packet type', con, f.loc(), '%s makes a header for which %s() is false (packet type %s)' % (f.name, meth, show(pt)))
    if 'interest' in f.name and 'hop_limit' in f.params:
        fl = hk.get('fields')
        if fl is not None and fl.op == 'seq':
            ok = len(fl.a) == 4 and fl.a[1] is mk('param', 'hop_limit') and fl.a[2] is const(0) and fl.a[3] is const(0)
            rep.check(ok, 'hop limit', con, f.loc(), 'the header fields are %s' % show(fl)[:60])
    # the arguments reach the parts of the same name
    for n in ('body', 'validation_alg', 'validation_payload'):
        if n in f.params:
            rep.check(k.get(n) is mk('param', n) or (None if mentions(k.get(n, NONE), mk('param', n)) else False), 'parts', '%s %s' % (con, n), f.loc(),
                      'the argument %s of %s does not become the %s of the packet' % (n, f.name, n))


def kindof(ctx, meth, pt):
    """is FixedHeader.<meth>() true for the packet type pt?"""
    i, p = ctx.wire.i, ctx.p
    H = p.cls('FixedHeader')
    m = H.find(meth)
    res = set()
    for o in i.ctor(H):
        for r in i.run(m, selfcls=H, st=o.st.copy()):
            if r.kind == 'return':
                t = canon(i.subst(r.val, {mk('param', 'packet_type'): pt}))
                if t.op == 'eq' and num(t.a[0]) is not None and num(t.a[1]) is not None:
                    res.add(num(t.a[0]) == num(t.a[1]))
                elif t.op == 'const':
                    res.add(bool(t.a[0]))
                else:
                    return None
    return res.pop() if len(res) == 1 else None


def order(ctx, rep, P):
    i, p = ctx.wire.i, ctx.p
    g = P.find('serialize')
    with rep.guard('order of the parts', 'Packet'):
        for o in i.ctor(P):
            for r in i.run(g, selfcls=P, st=o.st.copy()):
                if r.kind != 'return':
                    continue
                xs = [serialized(x) for x in pieces(r.val)]
                if None in xs:
                    rep.und('order of the parts', 'Packet', show(canon(r.val))[:120])
                    continue
                names = [x.a[0] if x.op == 'param' else show(x) for x in xs]
                want = ['header', 'body'] + [n for n in ('validation_alg', 'validation_payload') if o.facts.get(mk('isnone', mk('param', n))) is False]
                mixed = (o.facts.get(mk('isnone', mk('param', 'validation_alg'))) is not o.facts.get(mk('isnone', mk('param', 'validation_payload'))))
                if mixed and names != want:
                    rep.und('order of the parts', 'Packet', 'one validation part only')
                    continue
                rep.check(names == want, 'order of the parts', 'Packet', g.loc(),
                          'the bytes of a packet are %s where %s are expected' % (', '.join(names), ', '.join(want)))


def kinds(ctx, rep, P, H):
    """callers of the creation functions pass the kind of body the function is for"""
    p = ctx.p
    for meth, cls in (('is_interest', 'Interest'), ('is_content_object', 'ContentObject')):
        f = H.find(meth)
        if f is None:
            continue
        with rep.guard('packet type predicates', 'FixedHeader.' + meth):
            code = ctx.wire.code(p.cls(cls))
            for m in sorted(P.methods.values(), key=lambda m: m.name):
                pass
            hits = [n for n in range(0, 3) if kindof(ctx, meth, const(n))]
            want = {'is_interest': 0, 'is_content_object': 1}[meth]
            rep.check(hits == [want], 'packet type predicates', 'FixedHeader.' + meth, f.loc(), '%s() holds for packet types %s' % (meth, hits))


# ------------------------------------------------------------------------------------------------ C09
def c09(ctx, rep):
    w, p, i = ctx.wire, ctx.p, ctx.wire.i
    P = p.cls('Packet')
    j = Interp(p, stop=STOP - {'content_object_hash'})
    f = P.find('content_object_hash')
    with rep.guard('content object hash', 'Packet'):
        for o in j.ctor(P):
            for r in j.run(f, selfcls=P, st=o.st.copy()):
                if r.kind != 'return':
                    continue
                v = canon(r.val)
                if v is NONE or v.op == 'const':
                    rep.viol('content object hash', 'Packet', f.loc(), 'the hash is %s' % show(v))
                    continue
                ds = [s for s in subs(v) if s.op == 'mcall' and s.a[0] in ('digest', 'finalize', 'hexdigest')]
                if len(ds) != 1:
                    rep.und('content object hash', 'Packet', show(v)[:100])
                    continue
                h = ds[0].a[1]
                if v.op == 'new' and v.a[0].a[0].endswith('HashValue'):
                    k = kwargs(v)
                    a = num(k['hash_algorithm'])
                    rep.check((a == SHA256_NUMBER) if a is not None else None, 'content object hash', 'Packet algorithm', f.loc(),
                              'the hash of a packet is labelled with hash algorithm %s' % a)
                    b = canon(k['value'])
                    while b.op in ('arr', 'tobytes'):
                        b = b.a[0]
                    rep.check(True if b is ds[0] else (False if b.op == 'slice' else None), 'content object hash', 'Packet digest', f.loc(),
                              'the hash value is %s, not the digest' % show(b)[:60])
                sha = is_ext(h, 'sha256') or is_ext(h, 'new') and any(is_const(x, str) and x.a[0].replace('-', '').lower() == 'sha256' for x in cargs(h)[0])
                rep.check(sha or (False if is_ext(h, 'sha1', 'sha224', 'sha384', 'sha512', 'md5', 'sha3_256', 'blake2b') else None), 'content object hash', 'Packet function', f.loc(),
                          'the content object hash is computed with %s' % show(h)[:60])
                al, pl = mk('param', 'validation_alg'), mk('param', 'validation_payload')
                na, np_ = o.facts.get(mk('isnone', al)), o.facts.get(mk('isnone', pl))
                ta, tp = o.facts.get(mk('truth', al)), o.facts.get(mk('truth', pl))
                if na is False and ta is False or np_ is False and tp is False:
                    continue                    # a TLV is never empty
                na = na if na is not None or ta is None else not ta
                np_ = np_ if np_ is not None or tp is None else not tp
                if na is None or np_ is None or na is not np_:
                    na_und = True
                    if na is not np_ and na is not None and np_ is not None:
                        continue                # excluded by the constructor
                xs = hash_input(r, h)
                got = []
                for x in xs:
                    y = serialized(x) if isinstance(x, T) else None
                    got.append(y.a[0] if y is not None and y.op == 'param' else ('?' if y is None else show(y)))
                if not isinstance(na, bool):
                    rep.und('content object hash', 'Packet', 'presence of validation unknown')
                    continue
                want = ['body'] + ([] if na else ['validation_alg', 'validation_payload'])
                if '?' in got:
                    raw = [x for x in xs if isinstance(x, T)]
                    cut = [x for x in raw if x.op == 'slice' and not (num(x.a[1]) == 0 and x.a[2] is NONE) and
                           serialized(x.a[0]) is not None and serialized(x.a[0]).op == 'param']
                    if cut:
                        rep.viol('content object hash', 'Packet %s validation' % ('without' if na else 'with'), f.loc(),
                                 'the hash covers only a part of an encoding: %s' % show(cut[0])[:80])
                        continue
                    rep.und('content object hash', 'Packet', 'hash over %s' % ', '.join(show(x)[:60] for x in raw))
                    continue
                rep.check(got == want, 'content object hash', 'Packet %s validation' % ('without' if na else 'with'), f.loc(),
                          'the hash covers %s where %s are expected' % (', '.join(got) or 'nothing', ', '.join(want)))
    signing(ctx, rep)
    verifying(ctx, rep)
    primitives(ctx, rep)


def is_test(fn):
    return 'test' in fn.mod.name.lower().split('.')[-1]


def library(p):
    return [f for f in sorted(p.funcs.values(), key=lambda f: f.qual) if not is_test(f)]


def signers(ctx):
    """classes that implement sign() / verify() over packet buffers"""
    p = ctx.p
    S, V = p.cls('Signer'), p.cls('Verifier')
    return S, V


def sign_call(t):
    """the sign() call a validation payload comes from"""
    t = canon(t)
    if t.op == 'mcall' and t.a[0] == 'sign':
        return t
    if t.op == 'new' and t.a[0].a[0].endswith('ValidationPayload'):
        for x in kwargs(t).values():
            s = sign_call(x)
            if s is not None:
                return s
    return None


def signing(ctx, rep):
    p = ctx.p
    fl = ctx.lazy('flow.sign', lambda: Flow(ctx, {'sign'}, also=lambda f: f.cls is not None and f.cls.name == 'Packet' and f.name.startswith('create')))
    crypto = {c for b in ('Signer', 'Verifier', 'RsaKey') for c in [p.cls(b)] + list(p.cls(b).all_subs())}
    todo = [f for f in library(p) if calls_of(f, 'sign') and f.cls not in crypto]
    seen = set()
    made = 0
    work = list(todo)
    rounds = 0
    while work and rounds < 4:
        nxt = []
        rounds += 1
        for f in work:
            if f in seen or f.abstract:
                continue
            seen.add(f)
            built = False
            with rep.guard('signed bytes', f.qual):
                for o in fl.run(f):
                    for e, ls in walk_events(o.events()):
                        t = e.term
                        if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'sign':
                            signed_args(rep, f, e, t)
                        if e.kind == 'new' and isinstance(t, T) and t.a[0].a[0].endswith('.Packet'):
                            k = {n: canon(x) for n, x in kwargs(t).items()}
                            pl = k.get('validation_payload', NONE)
                            if pl is NONE:
                                continue
                            s = sign_call(pl)
                            if s is None:
                                if pl.op != 'param':
                                    rep.und('signed packet', f.qual, 'payload %s' % show(pl)[:80])
                                continue
                            built = True
                            a, kw = margs(s)
                            a = [serialized(x) for x in a]
                            want = [k['body'], k['validation_alg']]
                            if None in a:
                                rep.und('signed packet', f.qual, 'signed %s' % show(s)[:100])
                                continue
                            a = [canon(x) for x in a]
                            rep.check(len(a) == 2 and a[0] is want[0] and a[1] is want[1], 'signed packet', f.qual, e.loc(),
                                      'the packet carries body %s and algorithm %s but the signature covers %s' % (
                                          show(want[0])[:50], show(want[1])[:50], ', '.join(show(x)[:50] for x in a)))
            if not built:
                nxt += [g for g in library(p) if calls_of(g, f.name) and g not in seen]
        work = nxt


def signed_args(rep, f, e, t):
    a, kw = margs(t)
    xs = [serialized(x) for x in a]
    if len(a) == 2 and None not in xs:
        b = canon(xs[1])
        alg = b.op == 'mcall' and b.a[0] == 'validation_alg' or b.op == 'new' and 'ValidationAlg' in b.a[0].a[0]
        rep.check(alg or (False if canon(xs[0]).op == 'mcall' and canon(xs[0]).a[0] == 'validation_alg' else None), 'signed bytes', f.qual, e.loc(),
                  'the second signed byte string is %s, not the validation algorithm' % show(b)[:60])
    elif len(a) != 2 and all(x is not None for x in xs) and not any(x.op == 'spread' for x in a):
        rep.viol('signed bytes', f.qual, e.loc(), 'the signature covers %d byte strings (%s), not body and algorithm' % (len(a), ', '.join(show(x)[:40] for x in a)))
    else:
        rep.und('signed bytes', f.qual, 'sign(%s)' % ', '.join(show(x)[:50] for x in a))


def part_of(t):
    """(packet, part) for an accessor of a packet"""
    t = canon(t)
    if t.op == 'mcall' and t.a[0] in ('body', 'validation_alg', 'validation_payload', 'header'):
        return t.a[1], t.a[0]
    if t.op == 'attr' and t.a[1] in ('_body', '_validation_alg', '_validation_payload', '_header'):
        return t.a[0], t.a[1][1:]
    return None, None


def verifying(ctx, rep):
    p = ctx.p
    fl = ctx.lazy('flow.verify', lambda: Flow(ctx, {'verify'}))
    crypto = {c for b in ('Signer', 'Verifier', 'RsaKey') for c in [p.cls(b)] + list(p.cls(b).all_subs())}
    for f in library(p):
        if not calls_of(f, 'verify') or f.cls in crypto or f.abstract:
            continue
        fs = [f]
        with rep.guard('verified bytes', f.qual):
            for o in fl.run(f):
                for e, ls, recv, a, kw in mcalls(o, 'verify'):
                    xs = [serialized(x) for x in a]
                    vp = kw.get('validation_payload')
                    if None in xs or vp is None:
                        if None not in xs and len(xs) != 2:
                            rep.viol('verified bytes', f.qual, e.loc(), 'the signature is verified over %d byte strings, not body and algorithm' % len(xs))
                        else:
                            rep.und('verified bytes', f.qual, show(e.term)[:120])
                        continue
                    parts = [part_of(x) for x in xs] + [part_of(vp)]
                    if any(q is None for q, n in parts):
                        unk = [x for x, (q, n) in zip(xs + [vp], parts) if q is None]
                        rep.und('verified bytes', f.qual, 'unknown %s' % ', '.join(show(x)[:50] for x in unk))
                        continue
                    rep.check([n for q, n in parts] == ['body', 'validation_alg', 'validation_payload'] and len({q for q, n in parts}) == 1, 'verified bytes', f.qual, e.loc(),
                              'the signature is verified over %s against %s' % (', '.join(n for q, n in parts[:-1]), parts[-1][1]))


# ---- the signing primitives
def absorb(i, o, what):
    """('buffers', ...) description of how a signing primitive takes in its *buffers"""
    return None


def primitives(ctx, rep):
    p = ctx.p
    S, V, K = p.cls('Signer'), p.cls('Verifier'), p.cls('RsaKey')
    i = Interp(p, stop=STOP)
    desc = {}
    for c in sorted([K] + S.all_subs() + V.all_subs(), key=lambda c: c.qual):
        for n in ('sign', 'verify'):
            f = c.methods.get(n)
            if f is None or f.abstract or c.is_abstract():
                continue
            con = '%s.%s' % (c.name, n)
            with rep.guard('every buffer is taken in', con):
                for o in i.run(f, selfcls=c):
                    if o.kind != 'return' or o.val is FALSE:
                        continue
                    d = intake(rep, f, con, o)
                    desc.setdefault((c, n), set()).add(d)
    # signing and verifying with the same primitive agree
    pairs = [(K, 'sign', K, 'verify')]
    for s in S.all_subs():
        for v in V.all_subs():
            if s.name.replace('Signer', '') == v.name.replace('Verifier', ''):
                pairs.append((s, 'sign', v, 'verify'))
    for a, m, b, n in pairs:
        x, y = desc.get((a, m)), desc.get((b, n))
        con = '%s / %s' % (a.name, b.name)
        if not x or not y:
            rep.und('signing and verifying agree', con, 'not evaluated')
            continue
        bad = [show_desc(d) for d in (x ^ y) if d is not None]
        if None in x or None in y:
            rep.und('signing and verifying agree', con, 'not understood')
        else:
            rep.check(not bad, 'signing and verifying agree', con, b.find(n).loc(), 'they differ: %s' % ' / '.join(sorted(bad))[:240])


def show_desc(d):
    return ', '.join('%s' % (x,) for x in d)


def bufs(f):
    return mk('param', '*' + f.vararg) if f.vararg else None


def intake(rep, f, con, o):
    B = bufs(f)
    v = canon(o.val)
    # direct: hand on *buffers to the key
    for e, ls in walk_events(o.events()):
        t = e.term
        if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] in ('sign', 'verify') and t.a[1].op == 'attr' and t.a[1].a[1] == '_key':
            a, kw = margs(t)
            ok = whole(a[0].a[0], B) if len(a) == 1 and a[0].op == 'spread' else None
            rep.check(ok if ok is not None else (None if any(mentions(x, B) for x in a) and not any(x.op == 'idx' for x in a) else False), 'every buffer is taken in', con, e.loc(),
                      'the key is given %s, not all buffers' % ', '.join(show(x)[:40] for x in a))
            pss = kw.get('use_pss_padding', FALSE)
            return ('key', show(t.a[1]), 'pss=' + show(pss))
    # loops over the buffers
    for e, ls in walk_events(o.events()):
        if e.kind != 'loop':
            continue
        L = e.x
        if L.iter is None or not mentions(L.iter, B):
            continue
        rep.check(whole(L.iter, B), 'every buffer is taken in', con, e.loc(),
                  'the loop goes over %s, not over all buffers in order' % show(L.iter)[:60])
        for kind, val, facts, evs, ups in L.outs:
            if kind not in ('next', 'continue'):
                if kind == 'break':
                    rep.viol('every buffer is taken in', con, e.loc(), 'the loop over the buffers can stop early')
                continue
            upd = [x.term for x in evs if x.kind == 'mut' and x.term.a[0] == 'update']
            acc = [(n, canon(u)) for n, u in ups.items() if u is not None and canon(u).op == 'call']
            if upd:
                ok = len(upd) == 1 and unwrap(upd[0].a[2]) is L.el
                rep.check(ok or False, 'every buffer is taken in', con, e.loc(), 'a pass of the loop hashes %s' % ', '.join(show(x.a[2])[:40] for x in upd))
                h = upd[0].a[1]
                return ('hash', show(h)) + use_of(o, h)
            if acc:
                n, u = acc[0]
                a, kw = cargs(u)
                lv = mk('lv', L.lid, n)
                ok = len(a) == 2 and unwrap(a[0]) is L.el and a[1] is lv
                rep.check(ok or None if mentions(u, lv) and mentions(u, L.el) else False, 'every buffer is taken in', con, e.loc(),
                          'a pass of the loop computes %s' % show(u)[:80])
                init = L.init.get(n) if isinstance(L.init, dict) else None
                out = canon(o.val)
                made = [s for x in [out] + [canon(q) for q in o.facts] for s in subs(x) if s.op == 'new' and s.a[0].a[0].endswith('ValidationPayload') and mentions(s, lv)]
                if not made:
                    return None
                form = show(i_norm(made[0], lv))
                return ('accumulate', show(u.a[0]), 'from ' + (show(init) if init is not None else '?'), form)
            rep.viol('every buffer is taken in', con, e.loc(), 'a pass of the loop over the buffers takes nothing in')
            return None
    ts = [canon(o.val)] + [e.term for e, ls in walk_events(o.events()) if isinstance(e.term, T)]
    part = [s for t in ts for s in subs(t) if s.op == 'idx' and s.a[0] is B]
    if part and not any(s is not part[0] and s.op not in ('idx', 'len') and B in s.a for t in ts for s in subs(t)):
        rep.viol('every buffer is taken in', con, o_loc(o), 'only %s of the buffers is used' % ', '.join(sorted({show(x) for x in part})))
        return None
    rep.und('every buffer is taken in', con, 'no loop over the buffers')
    return None


def whole(x, B):
    """is x all of the buffers B in their order?  (empty ones may be left out: they add nothing to a hash)"""
    if x is B:
        return True
    if x.op in ('arr', 'tobytes', 'copyof'):
        return whole(x.a[0], B)
    if x.op == 'slice':
        r = whole(x.a[0], B)
        lo, hi = x.a[1], x.a[2]
        return r if (lo is NONE or num(lo) == 0) and hi is NONE else (False if r else None)
    if is_rev(x) or x.op == 'call' and is_ext(x, 'set', 'frozenset', 'sorted'):
        return False if mentions(x, B) else None
    if x.op == 'seq' and len(x.a) == 2 and isinstance(x.a[1], T):
        if x.a[0] in ('set', 'frozenset'):
            return False if mentions(x, B) else None
        y = x.a[1]
        if y.op == 'spread':
            return whole(y.a[0], B)
        if y.op == 'each' and isinstance(y.a[0], T) and whole(y.a[0], B):
            if len(y.a[1]) != 1:
                return None
            conds, items = y.a[1][0]
            el = mk('elem', y.a[0])
            if len(items) != 1:
                return None
            z = unwrap(items[0])
            if z is not el:
                return False if z.op == 'slice' and z.a[0] is el and not (num(z.a[1]) == 0 and z.a[2] is NONE) else None
            for c in conds:
                if c is mk('lt0', mklin(0, {mk('len', el): -1})) or c is mk('truth', el) or c is mk('not', mk('isnone', el)):
                    continue
                return False
            return True
        return None
    if x.op == 'seq' and len(x.a) > 1 and any(isinstance(y, T) and y.op == 'idx' for y in x.a[1:]):
        return False if not any(isinstance(y, T) and y.op in ('spread', 'each') for y in x.a[1:]) else None
    return None


def i_norm(t, lv):
    """t with the loop variable renamed, so that two loops compare equal"""
    cache = {}

    def go(x):
        if x is lv:
            return mk('param', '$acc')
        if x.op in ('const', 'cls', 'fn', 'mod', 'ext', 'param'):
            return x
        if x not in cache:
            cache[x] = mk(x.op, *[go(y) if isinstance(y, T) else ('#' if x.op == 'new' and n == 1 else y) for n, y in enumerate(x.a)])
        return cache[x]
    return go(canon(t))


def unwrap(t):
    while t.op in ('arr', 'tobytes'):
        t = t.a[0]
    return t


def is_rev(t):
    return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0].split('.')[-1] == 'reversed' or t.op == 'rev'


def use_of(o, h):
    """how the digest is used with the key: padding and pre-hash parameters"""
    for e, ls in walk_events(o.events()):
        t = e.term
        if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] in ('sign', 'verify') and mentions(t, h):
            a, kw = margs(t)
            a = a + list(kw.values())
            out = []
            for x in a:
                x = canon(x)
                if x.op == 'param' or x.op == 'tobytes':
                    continue                    # the signature
                if x.op == 'mcall' and x.a[0] == 'finalize':
                    out.append('digest of everything' if x.a[1] is h else show(x))
                else:
                    out.append(show(x))
            return tuple(out)
    return ('unused',)


def o_loc(o):
    return next((e.loc() for e in o.events()), '')


RULES = {'C08': c08, 'C09': c09}
