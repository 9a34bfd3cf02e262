"""K01 - K06: encryption of manifests, key derivation and key wrapping."""
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *

SELF = mk('param', 'self')
RANDOM = {'os.urandom', 'secrets.token_bytes'}
MODES = {('AESGCM', 128): 1, ('AESGCM', 256): 2, ('AESCCM', 128): 3, ('AESCCM', 256): 4}    # FLIC AEADMode registry
FAMILY = {'AESGCM': 'GCM', 'AESCCM': 'CCM'}
SALT_BYTES, IV_BYTES, TAG_BYTES = 4, 12, 16
HASHES = {1: 'SHA256', 2: 'SHA384', 3: 'SHA512'}        # RFC 9180 KDF identifiers
PKGS = ('ccnpy.crypto', 'ccnpy.flic.RsaOaepCtx', 'ccnpy.flic.aeadctx', 'ccnpy.flic.tlvs')


def local(f):
    return f.mod.name.startswith(PKGS)


def flow(ctx):
    return ctx.lazy('crypto.flow', lambda: Flow(ctx, {'encrypt', 'decrypt', 'urandom', 'from_number'}, also=local))


def exact(ctx):
    """without joining paths: every path keeps the conditions it took"""
    return ctx.lazy('crypto.exact', lambda: Flow(ctx, {'encrypt', 'decrypt', 'urandom', 'from_number'}, also=local, nomerge=True))


def impls(ctx):
    c = ctx.p.cls('AeadImpl')
    return [k for k in [c] + sorted(c.all_subs(), key=lambda k: k.qual) if not k.is_abstract()]


def key_classes(ctx):
    c = ctx.p.cls('AeadKey')
    return [k for k in sorted(c.all_subs(), key=lambda k: k.qual) if not k.is_abstract()]


def cipher(ctx, k):
    """the AEAD primitive a key class builds on"""
    out = set()
    for o in ctx.wire.i.ctor(k):
        for t in o.st.heap.values():
            for s in subs(t):
                if s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0].split('.')[-1] in FAMILY:
                    out.add(s.a[0].a[0].split('.')[-1])
    return out.pop() if len(out) == 1 else None


def aead_calls(fl, o, name):
    """calls of AeadKey.encrypt / decrypt on a path: (event, loops, receiver, arguments by name)"""
    for e, ls, r, pos, kw in mcalls(o, name):
        ty = fl.i.typeof(r, o.st)
        if 'iv' in kw or any(c.name == 'AeadKey' or any(b.name == 'AeadKey' for b in c.mro()) for c in ty.classes):
            names = ['iv', 'plaintext', 'associated_data'] if name == 'encrypt' else ['iv', 'ciphertext', 'associated_data', 'auth_tag']
            kw = dict(kw)
            for n, x in zip(names, pos):
                kw.setdefault(n, x)
            yield e, ls, r, {n: canon(x) for n, x in kw.items()}


def octets(t):
    """the raw bytes of a TLV object or buffer term"""
    t = canon(t)
    while True:
        if t.op in ('arr', 'tobytes'):
            t = t.a[0]
        elif t.op == 'attr' and t.a[1] == '_value':
            t = t.a[0]
        elif t.op == 'mcall' and t.a[0] == 'value' and len(t.a) == 3:
            t = t.a[1]
        elif t.op == 'new' and 'value' in kwargs(t) and not t.a[0].a[0].endswith('.Tlv'):
            t = kwargs(t)['value']
        elif is_ext(t, 'array.array') and len(t.a) > 3:
            t = t.a[-1]
        else:
            return t


def is_random(t):
    return t.op == 'call' and t.a[0].op == 'ext' and t.a[0].a[0] in RANDOM


def is_salt(t):
    return t.op == 'attr' and t.a[1] == 'aead_salt_bytes' or t.op in ('to_bytes', 'be_bytes') and base(t.a[0]).op == 'param' and t.a[0].op == 'attr' and t.a[0].a[1] == 'aead_salt'


def bytes_count(t):
    """a byte count written as bits // 8"""
    t = canon(t)
    if t.op in ('shr', 'div', 'fdiv') and (num(t.a[1]) == 3 if t.op == 'shr' else num(t.a[1]) == 8):
        c, ts = lin_parts(t.a[0])
        if c % 8 == 0 and all(k % 8 == 0 for k in ts.values()):
            return mklin(c // 8, {x: k // 8 for x, k in ts.items()})
    return t


def contexts(ctx):
    """context of every path of every encrypt method: (class, func, outcome, call event, loops, key, args)"""
    def build():
        fl = flow(ctx)
        out, none = [], []
        for c in impls(ctx):
            f = c.find('encrypt')
            for o in fl.run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                es = list(aead_calls(fl, o, 'encrypt'))
                if not es:
                    none.append((c, f, o))
                for e, ls, r, a in es:
                    out.append((c, f, o, e, ls, r, a))
        return out, none
    return ctx.lazy('crypto.contexts', build)


# ------------------------------------------------------------------ K01
def k01(ctx, rep):
    fl = flow(ctx)
    paths, none = contexts(ctx)
    for c, f, o in none:
        rep.viol('every encryption draws a nonce', c.name, f.loc(), 'a path of %s.encrypt returns without encrypting: %s' % (c.name, facts_text(o)))
    for c, f, o, e, ls, r, a in paths:
        con = c.name
        with rep.guard('every encryption draws a nonce', con):
            iv = a.get('iv')
            ps = [octets(x) for x in joined(iv)]
            ps = [y for x in ps for y in ([octets(z) for z in joined(x)] if x.op in ('cat', 'plus') else [x])]
            rnd = [x for x in ps if is_random(x)]
            other = [x for x in ps if not is_random(x)]
            salts = [x for x in other if is_salt(x)]
            strange = [x for x in other if x not in salts]
            if not rnd:
                strange = [octets(nonce_in(x)) if nonce_in(x) is not None else x for x in strange]
                known = not strange or any(kept(x) for x in strange) or all(base(x) is SELF or stored(x) or x.op == 'const' or base(x).op in ('cls', 'const') or is_ext(base(x), *NOT_RANDOM) or is_hash(x) or deterministic(x) for x in strange)
                why = 'the initialisation vector of %s.encrypt is %s: no fresh random nonce' % (con, show(iv)[:100])
                rep.check(False if known else None, 'every encryption draws a nonce', con, e.loc(), why)
                continue
            rep.check(len(rnd) == 1 or None, 'every encryption draws a nonce', con, e.loc(), 'several nonces')
            # drawn for this encryption
            d = [(q, l2) for q, l2 in walk_events(o.events()) if q.kind == 'call' and canon(q.term) is rnd[0]]
            rep.check(not d or [l.lid for l in d[0][1]] == [l.lid for l in ls], 'nonce drawn for this encryption', con, e.loc(), 'one nonce is used for every pass of a loop')
            # layout: salt then nonce
            salt_none = [b for x, b in o.facts.items() if x.op == 'isnone' and is_salt(x.a[0])]
            if strange:
                rep.viol('vector is salt then nonce', con, e.loc(), 'the initialisation vector contains %s' % ', '.join(show(x)[:60] for x in strange))
            elif salts:
                rep.check(len(salts) == 1 and ps[0] is salts[0] and len(ps) == 2 or False, 'vector is salt then nonce', con, e.loc(), 'the vector is %s' % show(iv)[:100])
            else:
                rep.check(salt_none == [True] or (None if not salt_none else False), 'vector is salt then nonce', con, e.loc(),
                          'the vector is only the nonce although a salt may be configured')
            # size
            n = bytes_count(cargs(rnd[0])[0][0])
            m = {s: const(SALT_BYTES) for s in subs(n) if s.op == 'len' and is_salt(s.a[0])}
            n = canon(fl.i.subst(n, m)) if m else n
            v = num(bytes_count(n))
            if v is None:
                v = value_at(n, {})
            if v is None:
                rep.und('nonce size', con, show(n)[:80])
            else:
                rep.check(v == IV_BYTES - SALT_BYTES * len(salts), 'nonce size', con, e.loc(),
                          'the nonce has %d bits, with the salt the vector has %d bits, not 96' % (v * 8, (v + SALT_BYTES * len(salts)) * 8))
            # announced
            S = serialized(a.get('associated_data')) if a.get('associated_data') is not None else None
            R = ret(o)
            for where, x in (('the authenticated context', S), ('the returned context', R[0] if R else None)):
                if x is None:
                    rep.und('nonce is announced', con, where)
                    continue
                ns = [octets(kwargs(s)['nonce']) for s in news(x, 'AeadData') if 'nonce' in kwargs(s)]
                rep.check(ns[0] is rnd[0] if len(ns) == 1 else None, 'nonce is announced', con, e.loc(),
                          '%s announces the nonce %s, but the vector was made from %s' % (where, show(ns[0])[:60] if ns else '?', show(rnd[0])[:60]))
    salt_width(ctx, rep)
    other_encryptions(ctx, rep)


def nonce_in(x):
    """the nonce argument when x is read back from a security context made on this path"""
    if is_salt(x) or is_random(x):
        return None
    ns = {kwargs(s)['nonce'] for s in news(x, 'AeadData') if 'nonce' in kwargs(s)}
    return ns.pop() if len(ns) == 1 else None


def kept(x):
    """a value looked up in a container that outlives the call"""
    return x.op == 'mcall' and x.a[0] in ('setdefault', 'get', 'pop') and base(x.a[1]).op in ('param', 'cls', 'mod') or x.op == 'idx' and base(x.a[0]).op in ('param', 'cls', 'mod')


def stored(x):
    """a value that no call on this path produced"""
    return not any(s.op == 'call' or s.op == 'mcall' and s.a[0] not in ('value', 'nonce', 'serialize') for s in subs(x))


NOT_RANDOM = ('random.randbytes', 'random.getrandbits', 'time.time', 'time.time_ns', 'random.random', 'random.randint', 'itertools.count', 'bytes', 'bytearray', 'hashlib.sha256')


PURE = ('hash', 'id', 'int', 'len', 'abs', 'range', 'bytes', 'bytearray', 'min', 'max', 'sum', 'str', 'repr', 'divmod', 'pow', 'round', 'ord', 'struct.pack', 'array.array', 'int.from_bytes', 'int.to_bytes', 'zlib.crc32')
PURE_M = ('to_bytes', 'from_bytes', 'value', 'nonce', 'serialize', 'encode', 'bit_length', 'hex', 'ljust', 'rjust', 'tobytes', 'digest')


def deterministic(t):
    """computed by functions that draw nothing at random"""
    return all(s.a[0].op == 'ext' and s.a[0].a[0] in PURE + NOT_RANDOM if s.op == 'call' else s.a[0] in PURE_M if s.op == 'mcall' else True for s in subs(t)) and not has_op(t, 'undef', 'closure')


def is_hash(t):
    return any(s.op == 'call' and s.a[0].op == 'ext' and s.a[0].a[0].startswith('hashlib.') for s in subs(t))


def ret(o):
    v = canon(o.val)
    return list(v.a[1:]) if v.op == 'seq' and len(v.a) == 4 else None


def facts_text(o):
    return ', '.join('%s is %s' % (show(a)[:50], b) for a, b in list(o.facts.items())[:4])


def salt_width(ctx, rep):
    """the configured salt is laid out in four bytes"""
    i = ctx.wire.i
    c = ctx.p.cls('AeadParameters')
    for o in i.ctor(c):
        A = {k[1]: canon(v) for k, v in o.st.heap.items() if k[0] is SELF}
        for n, src in (('aead_salt_bytes', 'aead_salt'), ('kdf_salt_bytes', 'kdf_salt')):
            t, s = A.get(n), mk('param', src)
            if t is None:
                rep.und('salt bytes', 'AeadParameters.' + n)
                continue
            if o.facts.get(mk('isnone', s)) is True:
                rep.check(t is NONE, 'salt bytes', 'AeadParameters.' + n, c.find('__init__').loc() if c.find('__init__') else c.loc(), '%s is set without %s' % (n, src))
            elif t.op in ('to_bytes', 'be_bytes'):
                w = width(t)
                rep.check(t.a[0] is s and w == SALT_BYTES and not (t.op == 'to_bytes' and const_of(t.a[2]) == 'little'), 'salt bytes', 'AeadParameters.' + n,
                          '%s' % c.mod.rel, '%s is %s, not the four bytes of %s' % (n, show(t), src))
            else:
                rep.check(False if t is NONE or t.op == 'const' else None, 'salt bytes', 'AeadParameters.' + n, c.mod.rel, '%s is %s' % (n, show(t)))


def other_encryptions(ctx, rep):
    """no other code encrypts with an AEAD key directly"""
    fl = flow(ctx)
    ours = set()
    for c in impls(ctx):
        ours |= {m.qual for k in c.mro() for m in k.methods.values()}
    for f in sorted(ctx.p.funcs.values(), key=lambda f: f.qual):
        if f.qual in ours or 'encrypt' not in called_names(f) or f.is_gen or f.abstract or 'test' in f.mod.name.split('.')[-1].lower():
            continue
        if f.cls is not None and f.cls.name in ('AeadKey',):
            continue
        with rep.guard('no other encryption', f.qual):
            for o in fl.run(f):
                for e, ls, r, a in aead_calls(fl, o, 'encrypt'):
                    rep.und('no other encryption', f.qual, 'calls AeadKey.encrypt at %s' % e.loc())
            rep.ok('no other encryption', f.qual)


# ------------------------------------------------------------------ K02
def k02(ctx, rep):
    fl, i = flow(ctx), ctx.wire.i
    paths, none = contexts(ctx)
    enc = {}
    for c, f, o, e, ls, r, a in paths:
        con = c.name
        with rep.guard('context is authenticated', con):
            R = ret(o)
            if R is None:
                rep.und('returned triple', con, show(o.val)[:80])
                continue
            S = serialized(a.get('associated_data')) if a.get('associated_data') is not None and a['associated_data'] is not NONE else None
            if S is None:
                rep.viol('context is authenticated', con, e.loc(), 'the authenticated data is %s, not the encoded security context' % show(a.get('associated_data') or NONE)[:80])
            else:
                rep.check(S is R[0], 'context is authenticated', con, e.loc(), 'the context that is authenticated (%s) is not the one that is sent (%s)' % (show(S)[:80], show(R[0])[:80]))
            # triple
            for n, (cls, x) in enumerate((('EncryptedNode', R[1]), ('AuthTag', R[2]))):
                k = news(x, cls)
                v = octets(x)
                ok = len(k) == 1 and v.op == 'idx' and v.a[0] is canon(e.term) and num(v.a[1]) == n
                rep.check(ok or (None if v is not x and v.op not in ('idx', 'slice', 'const') else False), 'ciphertext and tag in their place', con, e.loc(),
                          'the %s is %s' % (cls, show(x)[:80]))
            # plaintext
            pt = octets(a['plaintext']) if 'plaintext' in a else NONE
            node = mk('param', f.params[0])
            rep.check(plain_of(pt, node), 'plaintext is the node value', con, e.loc(), 'the plaintext is %s' % show(a.get('plaintext', NONE))[:80])
            # announced key number and mode
            for d in news(R[0], 'AeadData'):
                kw = kwargs(d)
                kn = kw.get('key_number')
                rep.check(own_number(kn),
                          'key number announced', con, e.loc(), 'the context announces the key number %s' % show(kn or NONE)[:60])
                m = kw.get('mode')
                mv = const_of(kwargs(m).get('mode')) if m is not None and m.op == 'new' else None
                want = mode_of(ctx, o)
                if mv is None or want is None:
                    rep.und('mode announced', con, show(m or NONE)[:60])
                else:
                    rep.check(mv == want, 'mode announced', con, e.loc(), 'the context announces mode %s for a key whose mode is %s (%s)' % (mv, want, facts_text(o)))
            enc.setdefault(c, []).append((o, r, a))
    # decryption uses the same construction
    for c in impls(ctx):
        f = c.find('decrypt_node')
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return':
                continue
            ds = list(aead_calls(fl, o, 'decrypt'))
            if len(ds) != 1:
                continue            # K03 reports it
            e, ls, r, a = ds[0]
            with rep.guard('decryption mirrors encryption', c.name):
                mirror(ctx, rep, c, f, o, e, r, a, enc.get(c, []))
    primitive(ctx, rep)
    delegates(ctx, rep)
    create_manifest(ctx, rep)


def own_number(kn):
    """the announced key number is the configured one"""
    if kn is None or kn.op == 'const':
        return False
    if kn.op == 'attr' and kn.a[1] == 'key_number' and base(kn) is SELF:
        return True
    if kn.op == 'new':
        v = list(kwargs(kn).values())
        return own_number(v[0]) if len(v) == 1 else None
    if kn.op in ('band', 'mod', 'shr', 'fdiv', 'min', 'max', 'lin') and any(s.op == 'attr' and s.a[1] == 'key_number' for s in subs(kn)):
        # a part of it, or another number
        return False
    return None


def plain_of(pt, node):
    if not mentions(pt, node):
        return False
    if pt.op == 'mcall' and pt.a[0] in ('value', 'serialized_value') and base(pt) is node or pt.op == 'attr' and base(pt) is node and pt.a[1] in ('_tlv', '_value'):
        return True
    if pt is node or pt.op == 'attr' and base(pt) is node:
        return True
    if pt.op == 'mcall' and pt.a[0] == 'serialize':
        return False
    if pt.op == 'slice':
        return False
    return None


def mode_of(ctx, o):
    """the registry number of the mode of the key, from the conditions of the path"""
    fam = bits = None
    for a, b in o.facts.items():
        if b and a.op == 'isa' and a.a[1].op == 'cls':
            k = ctx.p.classes.get(a.a[1].a[0])
            if k is not None and any(x.name == 'AeadKey' for x in k.mro()):
                fam = cipher(ctx, k)
        if b and a.op == 'eq' and any(x.op == 'len' for x in a.a):
            for x in a.a:
                if num(x) in (128, 256):
                    bits = num(x)
    return MODES.get((fam, bits))


def announced(f):
    """the parameters of decrypt_node: context, encrypted node, tag"""
    return [mk('param', n) for n in f.params[:3]]


def as_sender(ctx, t, sc):
    """a decryption-side term over the received context, renamed to the sender's parameters"""
    i = ctx.wire.i
    ad = mk('attr', sc, '_aead_data')
    P = mk('attr', SELF, '_params')
    m = {mk('attr', ad, '_kdf_data'): mk('attr', P, 'kdf_data'), mk('attr', ad, '_key_number'): mk('attr', P, 'key_number')}
    return canon(i.subst(t, m))


def mirror(ctx, rep, c, f, o, e, r, a, encs):
    con = c.name
    sc, en, at = announced(f)
    ad = a.get('associated_data')
    S = serialized(ad) if ad is not None else None
    rep.check(S is sc if S is not None else (False if ad is None or ad.op == 'const' else None), 'decryption authenticates the context', con, e.loc(),
              'the authenticated data of the decryption is %s' % show(ad or NONE)[:80])
    rep.check(octets(a['ciphertext']) is en if mentions(a['ciphertext'], en) or a['ciphertext'].op == 'const' else False, 'decryption takes the ciphertext', con, e.loc(), 'the ciphertext is %s' % show(a['ciphertext'])[:80])
    rep.check(octets(a['auth_tag']) is at if 'auth_tag' in a else False, 'decryption takes the tag', con, e.loc(), 'the tag is %s' % show(a.get('auth_tag', NONE))[:80])
    # same vector and key
    ps = [octets(x) for x in joined(a['iv'])]
    shape = tuple('nonce' if mentions(x, sc) and 'nonce' in show(x) else 'salt' if is_salt(x) else show(x)[:60] for x in ps)
    f_salt = {b for x, b in o.facts.items() if x.op == 'isnone' and is_salt(x.a[0])}
    es = [q for q in encs if not f_salt or {b for x, b in q[0].facts.items() if x.op == 'isnone' and is_salt(x.a[0])} in (f_salt, set())]
    shapes = set()
    for q in es:
        xs = [octets(x) for x in joined(q[2]['iv'])]
        xs = [y for x in xs for y in ([octets(z) for z in joined(x)] if x.op in ('cat', 'plus') else [x])]
        shapes.add(tuple('nonce' if is_random(x) or nonce_in(x) is not None else 'salt' if is_salt(x) else show(x)[:60] for x in xs))
    if not shapes:
        rep.und('same vector', con, 'no encryption path')
    elif not f_salt and len(shapes) > 1 and any('salt' in s for s in shapes):
        rep.viol('same vector', con, e.loc(), 'decryption builds the vector as %s whether or not a salt is configured, encryption as %s' % (' + '.join(shape), ' or '.join(' + '.join(s) for s in sorted(shapes))))
    else:
        rep.check(shape in shapes, 'same vector', con, e.loc(), 'decryption builds the vector as %s, encryption as %s' % (' + '.join(shape), ' or '.join(' + '.join(s) for s in shapes)))
    k = as_sender(ctx, canon(r), sc)
    ks = {canon(q[1]) for q in encs}
    rep.check(True if k in ks else (False if ks else None), 'same key', con, e.loc(), 'decryption uses the key %s, which encryption never uses' % show(k)[:200])


def primitive(ctx, rep):
    """AeadKey.encrypt and decrypt hand the primitive matching arguments and split / join ciphertext and tag the same way"""
    i = ctx.wire.i
    fl = flow(ctx)
    for k in key_classes(ctx):
        con = k.name
        fam = cipher(ctx, k)
        with rep.guard('primitive', con):
            for o0 in i.ctor(k):
                f = k.find('encrypt')
                iv, pt, ad = [mk('param', n) for n in f.params[:3]]
                for o in fl.i.run(f, selfcls=k, st=o0.st.copy()):
                    if o.kind != 'return':
                        continue
                    cs = [q for q in mcalls(o, 'encrypt')]
                    if len(cs) != 1:
                        rep.und('encryption primitive', con, '%d calls' % len(cs))
                        continue
                    e, ls, r, pos, kw = cs[0]
                    pos = pos + [kw[n] for n in ('nonce', 'data', 'associated_data') if n in kw]
                    ok = len(pos) == 3 and all(octets(x) is y for x, y in zip(pos, (iv, pt, ad)))
                    rep.check(ok or (None if not all(mentions(x, y) for x, y in zip(pos, (iv, pt, ad))) and len(pos) == 3 and not all(p.op in ('param', 'const') for p in map(octets, pos)) else False),
                              'encryption primitive', con, e.loc(), 'the primitive is called with %s' % ', '.join(show(x)[:40] for x in pos))
                    v = canon(o.val)
                    if v.op != 'seq' or len(v.a) != 3:
                        rep.und('ciphertext and tag split', con, show(v)[:80])
                        continue
                    ct, tg = [octets(x) for x in v.a[1:]]
                    n = split_at(ct, canon(e.term), False)
                    bad = cut_wrong(ct, tg, canon(e.term), pt)
                    if bad == ():
                        rep.ok('ciphertext and tag split', con)
                        continue
                    if bad is not None:
                        rep.viol('ciphertext and tag split', con, e.loc(), 'an output of %d bytes is split into %d bytes of ciphertext and a tag of %d bytes (%s and %s)' % (
                            bad + (show(ct)[:60], show(tg)[:60])))
                        continue
                    m = split_at(tg, canon(e.term), True)
                    wrong = any(x.op == 'slice' and octets(x.a[0]) is canon(e.term) and any(mentions(fl.i.subst(y, {canon(e.term): mk('param', 'output')}), z) for y in (x.a[1], x.a[2]) for z in (iv, pt, ad)) and not at_length(x, pt) for x in (ct, tg))
                    rep.check(n == m == -TAG_BYTES if n is not None and m is not None else (False if wrong else None), 'ciphertext and tag split', con, e.loc(),
                              'the output is split into %s and %s; the tag is the last %d bytes' % (show(ct)[:60], show(tg)[:60], TAG_BYTES))
                f = k.find('decrypt')
                iv, ct, ad, tg = [mk('param', n) for n in f.params[:4]]
                for o in fl.i.run(f, selfcls=k, st=o0.st.copy()):
                    cs = [q for q in mcalls(o, 'decrypt')]
                    if len(cs) != 1 or o.kind != 'return':
                        continue
                    e, ls, r, pos, kw = cs[0]
                    pos = pos + [kw[n] for n in ('nonce', 'data', 'associated_data') if n in kw]
                    ok = len(pos) == 3 and octets(pos[0]) is iv and octets(pos[2]) is ad and [octets(x) for x in joined(pos[1])] == [ct, tg]
                    cut = [z for x in pos[1:2] for z in map(octets, joined(x)) if altered(z, (ct, tg))]
                    rep.check(ok or (False if cut or len(pos) == 3 and all(octets(z).op in ('param', 'const') for x in pos for z in joined(x)) else None), 'decryption primitive', con, e.loc(),
                              'the primitive is called with %s' % ', '.join(show(x)[:60] for x in pos))
            rep.check(fam is not None or None, 'primitive', con, k.mod.rel, '')


def altered(z, of):
    """a part of a received value, or the value padded to a size: other bytes than those that were sent"""
    while z.op == 'mcall' and z.a[0] in ('ljust', 'rjust', 'strip', 'rstrip', 'lstrip') or z.op == 'slice':
        if z.op == 'mcall' and octets(z.a[1]) in of:
            return True
        if z.op == 'slice' and octets(z.a[0]) in of:
            return (z.a[1] is not NONE and num(z.a[1]) != 0 and num(z.a[1]) is not None) or (z.a[2] is not NONE and num(z.a[2]) is not None)
        z = octets(z.a[1] if z.op == 'mcall' else z.a[0])
    return False


def at_length(x, pt):
    """cut at the length of the plaintext, which is that of the ciphertext"""
    return all(y is NONE or num(y) is not None or y is mk('len', pt) or y.op == 'len' and octets(y.a[0]) is pt for y in x.a[1:])


def cut_wrong(ct, tg, out, pt):
    """a length of the primitive's output for which the parts are not the ciphertext and the 16 bytes of tag after it"""
    for n in range(TAG_BYTES, 80):
        def lens(x):
            return {y: n for y in subs(x) if y.op == 'len' and octets(y.a[0]) is out} | {y: n - TAG_BYTES for y in subs(x) if y.op == 'len' and octets(y.a[0]) is pt}

        def bounds(x):
            if x is out:
                return [0, n]
            if x.op != 'slice':
                return None
            lo, hi = bounds(octets(x.a[0])) or (None, None)
            if lo is None:
                return None
            w = hi - lo
            env = lens(x)
            r = []
            for y, d in ((x.a[1], 0), (x.a[2], w)):
                for q in subs(y):
                    if q.op == 'len' and octets(q.a[0]).op == 'slice' and q not in env:
                        z = bounds(octets(q.a[0]))
                        env[q] = max(z[1] - z[0], 0) if z else None
                v = d if y is NONE else value_at(y, {k: v for k, v in env.items() if v is not None})
                if v is None:
                    return None
                r.append(min(max(v + w if v < 0 else v, 0), w))
            return [lo + r[0], lo + max(r)]
        a, b = bounds(ct), bounds(tg)
        if a is None or b is None:
            return None
        if a != [0, n - TAG_BYTES] or b != [n - TAG_BYTES, n]:
            return n, max(a[1] - a[0], 0), max(b[1] - b[0], 0)
    return ()


def split_at(t, whole, tail):
    """where the output of the primitive is cut: an offset from its end"""
    if t.op != 'slice' or octets(t.a[0]) is not whole:
        return None
    lo, hi = t.a[1], t.a[2]
    if not tail:
        if num(lo) != 0:
            return None
        if num(hi) is not None:
            return num(hi)
        c, ts = lin_parts(hi)
        return c if len(ts) == 1 and list(ts.values()) == [1] and list(ts)[0].op == 'len' and octets(list(ts)[0].a[0]) is whole else None
    if hi is not NONE:
        return None
    if num(lo) is not None:
        return num(lo)
    if lo.op == 'len' and octets(lo.a[0]).op == 'slice':
        return split_at(octets(lo.a[0]), whole, False)
    c, ts = lin_parts(lo)
    if len(ts) == 1 and list(ts.values()) == [1] and list(ts)[0].op == 'len' and octets(list(ts)[0].a[0]) is whole:
        return c
    return None


def delegates(ctx, rep):
    """the encryptor and decryptor objects pass their arguments on unchanged"""
    p = ctx.p
    for base_name, m, n in (('ManifestEncryptor', 'encrypt', 1), ('ManifestDecryptor', 'decrypt_node', 3), ('ManifestDecryptor', 'decrypt_manifest', 1)):
        fl = ctx.lazy('crypto.delegates.' + m, lambda m=m: Flow(ctx, {m}))
        b = p.cls(base_name)
        for c in sorted(b.all_subs(), key=lambda k: k.qual):
            f = c.methods.get(m)
            if f is None or f.abstract:
                continue
            rule, con = 'arguments handed on', '%s.%s' % (c.name, m)
            with rep.guard(rule, con):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    v = canon(o.val)
                    if v.op != 'mcall' or v.a[0] != m:
                        rep.check(False if v.op in ('const', 'param') else None, rule, con, f.loc(), 'returns %s' % show(v)[:80])
                        continue
                    pos, kw = margs(v)
                    want = [mk('param', q) for q in f.params[:n]]
                    names = ['security_ctx', 'encrypted_node', 'auth_tag'] if n == 3 else None
                    got = pos + [kw[q] for q in (names or sorted(k for k in kw if not k.startswith('*') and kw[k].op == 'param')) if q in kw]
                    rep.check(got[:n] == want or (False if all(g.op in ('param', 'const') for g in got) else None), rule, con, f.loc(), 'passes %s' % ', '.join(show(x)[:40] for x in got))


def create_manifest(ctx, rep):
    fl = ctx.lazy('crypto.create', lambda: Flow(ctx, {'encrypt'}))
    for c in impls(ctx):
        f = c.find('create_encrypted_manifest')
        if f is None:
            continue
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return':
                continue
            triple(rep, 'manifest holds the triple', c.name, f, canon(o.val))


def triple(rep, rule, con, f, v):
    """v is a Manifest built from the result of one encryption, each part in its place"""
    if v.op != 'new' or not v.a[0].a[0].endswith('.Manifest'):
        rep.und(rule, con, show(v)[:80])
        return
    kw = kwargs(v)
    srcs = set()
    for n, ix in (('security_ctx', 0), ('node', 1), ('auth_tag', 2)):
        x = kw.get(n, NONE)
        ok = x.op == 'idx' and num(x.a[1]) == ix
        if ok:
            srcs.add(x.a[0])
        rep.check(ok or (False if x is NONE or x.op in ('idx', 'param', 'const') else None), rule, '%s %s' % (con, n), f.loc(), '%s of the manifest is %s' % (n, show(x)[:80]))
    rep.check(len(srcs) == 1 or (None if not srcs else False), rule, con, f.loc(), 'the parts of the manifest come from different encryptions')


# ------------------------------------------------------------------ K03
def k03(ctx, rep):
    fl, ex = flow(ctx), exact(ctx)
    i = ctx.wire.i
    fams = {}
    for k in key_classes(ctx):
        fam = cipher(ctx, k)
        fams[k] = fam
        with rep.guard('mode name of the key', k.name):
            m = k.find('aead_mode')
            if m is not None:
                for o in i.run(m, selfcls=k):
                    if o.kind == 'return':
                        rep.check(const_of(o.val) == FAMILY.get(fam) if fam and const_of(o.val) is not None else None, 'mode name of the key', k.name, m.loc(),
                                  'aead_mode() is %s for a key that uses %s' % (show(o.val), fam))
    for c in impls(ctx):
        for m in ('decrypt_node', 'decrypt_manifest'):
            f = c.find(m)
            con = '%s.%s' % (c.name, m)
            with rep.guard('result is authenticated plaintext', con):
                keyt = key_terms(ctx, fl, f, c)
                if not keyt:
                    rep.und('result is authenticated plaintext', con, 'the key is not found')
                    continue
                for k, fam in fams.items():
                    st = St()
                    for t in keyt:
                        st.facts[mk('isa', t, mk('cls', k.qual))] = True
                    for o in ex.run(f, selfcls=c, st=st):
                        if o.kind == 'return':
                            closed(ctx, rep, ex, c, f, con, o, fam, m)
    unwrap_errors(ctx, rep)
    handlers(ctx, rep)
    accessors(ctx, rep)


def key_terms(ctx, fl, f, c):
    out = set()
    for o in fl.run(f, selfcls=c):
        ts = [canon(o.val)] + [canon(e.term) for e, ls in walk_events(o.events()) if isinstance(e.term, T)] + list(o.facts)
        for t in ts:
            for s in subs(t):
                if s.op == 'attr' and base(s) is SELF and s not in out:
                    if any(k.name == 'AeadKey' for k in fl.i.typeof(s, o.st).classes):
                        out.add(s)
    return out


def closed(ctx, rep, fl, c, f, con, o, fam, m):
    v = canon(o.val)
    ds = list(aead_calls(fl, o, 'decrypt'))
    ds = [d for d in ds if mentions(v, canon(d[0].term))]
    if not ds:
        rep.viol('result is authenticated plaintext', con, f.loc(), 'returns %s without a successful decryption (%s)' % (show(v)[:60], facts_text(o)))
        return
    rep.ok('result is authenticated plaintext', con)
    e, ls, r, a = ds[0]
    sc = None
    S = serialized(a['associated_data']) if a.get('associated_data') is not None else None
    sc = S if S is not None else mk('param', f.params[0])
    # key number
    kn = [x for x, b in o.facts.items() if b and x.op in ('eq', 'is') and any('key_number' in show(y) and base(y) is SELF for y in x.a) and any('key_number' in show(y) and mentions(y, base(sc)) for y in x.a)]
    rep.check(bool(kn), 'key number is checked', con, f.loc(), 'decrypts without having compared the key number of the context (%s)' % facts_text(o))
    # mode
    want = {v2 for (k2, _), v2 in MODES.items() if k2 == fam}
    ok = False
    for x, b in o.facts.items():
        if not b:
            continue
        if x.op in ('eq', 'is') and any('_mode' in show(y) and mentions(y, base(sc)) for y in x.a):
            for y in x.a:
                n = num(y)
                if n is None and y.op == 'new' and y.a[0].a[0].endswith('.AeadMode'):
                    n = num(kwargs(y).get('mode'))
                if n is not None and n in want:
                    ok = True
        if x.op == 'in' and '_mode' in show(x.a[0]) and x.a[1].op == 'seq' and {num(y) for y in x.a[1].a[1:]} <= want:
            ok = True
    if not ok:
        odd = [x for x in o.facts if 'mode' in show(x) and mentions(x, base(sc)) and x.op not in ('eq', 'is', 'in', 'isnone', 'isa')]
        rep.check(None if odd else False, 'mode is checked', con, f.loc(), 'a %s key decrypts although the context may announce a mode of another cipher (%s)' % (FAMILY.get(fam), facts_text(o)))
    else:
        rep.ok('mode is checked', con)


def unwrap_errors(ctx, rep):
    """AeadKey.decrypt returns nothing but what the primitive returned"""
    fl = exact(ctx)
    c = ctx.p.cls('AeadKey')
    for k in key_classes(ctx):
        f = k.find('decrypt')
        for o in fl.run(f, selfcls=k):
            if o.kind != 'return':
                continue
            v = octets(o.val)
            ok = v.op == 'mcall' and v.a[0] == 'decrypt' and base(v.a[1]) is SELF
            rep.check(ok or (None if not ok and any(s.op == 'mcall' and s.a[0] == 'decrypt' for s in subs(v)) else False), 'decrypt returns the authenticated plaintext', k.name, f.loc(),
                      'returns %s' % show(v)[:80])


def handlers(ctx, rep):
    """an exception of a decryption is not turned into a normal result"""
    import ast
    names = {'decrypt_manifest', 'decrypt_node', 'decrypt', 'decrypt_oaep_sha256', 'get_or_create'}
    for f in sorted(ctx.p.funcs.values(), key=lambda f: f.qual):
        if 'test' in f.mod.name.split('.')[-1].lower() or not (called_names(f) & names):
            continue
        con = f.qual.replace('ccnpy.', '')
        with rep.guard('failed decryption is not passed on', con):
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Try):
                    continue
                inside = {c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, 'id', '') for s in n.body for c in ast.walk(s) if isinstance(c, ast.Call)}
                if not (inside & names):
                    continue
                for h in n.handlers:
                    rep.obl = True
            fl = ctx.lazy('crypto.handlers', lambda: Flow(ctx, names, nomerge=False))
            for o in fl.run(f):
                swallowed(rep, fl, f, con, o, names)


def swallowed(rep, fl, f, con, o, names):
    rule = 'failed decryption is not passed on'
    if o.kind != 'return':
        rep.ok(rule, con)
        return
    evs = list(walk_events(o.events()))
    caught = [(n, e) for n, (e, ls) in enumerate(evs) if e.kind == 'except' and isinstance(e.term, T) and any(s.op in ('mcall', 'call') and callee(s) in names for s in subs(canon(e.term)))]
    if not caught:
        rep.ok(rule, con)
        return
    for n, e in caught:
        src = [s for s in subs(canon(e.term)) if s.op in ('mcall', 'call') and callee(s) in names][0]
        args = {x for x in flat_args(src)}
        v = canon(o.val)
        if v is NONE or v is FALSE:
            # nothing is passed on unless a later event hands the undecrypted object to someone
            later = [q for q, ls in evs[n + 1:] if q.kind == 'call' and isinstance(q.term, T) and q.term.op == 'mcall' and q.term.a[1] is SELF and any(a in args for a in flat_args(q.term))]
            rep.check(not later, rule, con, e.loc(), 'after a failed decryption the undecrypted object is handed to %s' % (show(later[0].term)[:60] if later else ''))
        else:
            rep.check(not (v in args or any(mentions(v, a) for a in args if a.op == 'param')), rule, con, e.loc(), 'a failed decryption returns %s' % show(v)[:60])


def callee(s):
    return s.a[0] if s.op == 'mcall' else s.a[0].a[0].split('.')[-1] if s.a[0].op in ('fn', 'ext') else ''


def flat_args(t):
    pos, kw = margs(t) if t.op == 'mcall' else cargs(t)
    return [x for x in pos + list(kw.values()) if x.op in ('param', 'attr', 'mcall', 'new', 'call', 'elem')]


def accessors(ctx, rep):
    """the mode predicates of AeadMode name the registered numbers"""
    i = ctx.wire.i
    c = ctx.p.cls('AeadMode')
    for (fam, bits), v in MODES.items():
        n = 'aes_%s_%d' % (FAMILY[fam].lower(), bits)
        f = c.find('is_' + n)
        if f is not None:
            for o in i.run(f, selfcls=c):
                t = canon(o.val)
                ns = {num(y) for y in t.a if num(y) is not None} if t.op == 'eq' else None
                if t.op in ('lt0', 'not', 'const', 'or', 'isnone', 'truth') or t.op == 'attr':
                    ns = {None}
                rep.check(ns == {v} if ns else None, 'mode predicates', 'is_' + n, f.loc(), 'is_%s() is %s, the registered number is %d' % (n, show(t), v))
        f = c.find('create_' + n)
        if f is not None:
            for o in i.run(f, selfcls=c):
                t = canon(o.val)
                m = const_of(kwargs(t).get('mode')) if t.op == 'new' else None
                rep.check(m == v if m is not None else None, 'mode predicates', 'create_' + n, f.loc(), 'create_%s() makes mode %s, the registered number is %d' % (n, m, v))


# ------------------------------------------------------------------ K05
def k05(ctx, rep):
    p = ctx.p
    fl = ctx.lazy('crypto.wrap', lambda: Flow(ctx, {'encrypt_oaep_sha256', 'decrypt_oaep_sha256', 'keyid'}, also=local))
    c = p.cls('WrappedKey')
    f, g = c.find('create'), c.find('decrypt')
    wk, params = [mk('param', n) for n in f.params[:2]]
    wk2, adata = [mk('param', n) for n in g.params[:2]]
    labels = set()
    n = 0
    for o in fl.run(f, selfcls=c):
        if o.kind != 'return':
            continue
        n += 1
        salt = mk('attr', params, 'aead_salt')
        for e, ls, r, pos, kw in mcalls(o, 'encrypt_oaep_sha256'):
            kw = dict(kw)
            for q, x in zip(('plaintext', 'label'), pos):
                kw.setdefault(q, x)
            rep.check(r is wk, 'wrapped with the wrapping key', 'WrappedKey.create', e.loc(), 'wrapped with %s' % show(r)[:60])
            v = canon(o.val)
            rep.check(v.op == 'new' and octets(list(kwargs(v).values())[0]) is canon(e.term) if v.op == 'new' else None, 'wrapped key holds the ciphertext', 'WrappedKey.create', e.loc(), 'returns %s' % show(v)[:80])
            ps = joined(kw['plaintext'])
            ok = len(ps) == 2 and ps[0].op in ('be_bytes', 'to_bytes') and ps[0].a[0] is salt and width(ps[0]) == SALT_BYTES and is_key_of(ps[1], params)
            rep.check(ok or False, 'layout is salt then key', 'WrappedKey.create', e.loc(), 'the wrapped plaintext is %s' % show(kw['plaintext'])[:100])
            lb = label(ctx, kw.get('label', NONE), o, params, wk, None)
            labels.add((kdf_state(o, params), lb))
            rep.check(not any('may be None' in x for x in lb) if lb is not None else None, 'label fields are present', 'WrappedKey.create', e.loc(), 'the label needs %s' % ', '.join(x for x in lb or () if 'may be None' in x))
        # salts that four bytes cannot hold are refused
        rep.check(o.facts.get(mk('isnone', salt)) is False or not_none(o, salt), 'missing salt is refused', 'WrappedKey.create', f.loc(), 'wraps a key without a salt')
    if not n:
        rep.viol('layout is salt then key', 'WrappedKey.create', f.loc(), 'no way to wrap a key succeeds')
    salts(rep, fl, c, f, mk('attr', params, 'aead_salt'))
    m, read = 0, set()
    for o in fl.run(g, selfcls=c):
        if o.kind != 'return':
            continue
        for e, ls, r, pos, kw in mcalls(o, 'decrypt_oaep_sha256'):
            m += 1
            kw = dict(kw)
            for q, x in zip(('cyphertext', 'label'), pos):
                kw.setdefault(q, x)
            rep.check(r is wk2, 'unwrapped with the wrapping key', 'WrappedKey.decrypt', e.loc(), 'unwrapped with %s' % show(r)[:60])
            rep.check(octets(kw.get('cyphertext', NONE)) is SELF, 'unwraps its own value', 'WrappedKey.decrypt', e.loc(), 'unwraps %s' % show(kw.get('cyphertext', NONE))[:60])
            lb = label(ctx, kw.get('label', NONE), o, adata, wk2, params)
            read.add(lb)
            if lb is None or any(x[1] is None for x in labels):
                rep.und('same label', 'WrappedKey.decrypt', show(kw.get('label', NONE))[:80])
            else:
                ks = kdf_state(o, adata)
                mine = {l for s, l in labels if compatible(s, ks)}
                rep.check(lb in mine, 'same label', 'WrappedKey.decrypt', e.loc(), 'unwrapping uses the label %s, wrapping uses %s' % (' | '.join(lb), ' or '.join(' | '.join(l) for l in sorted(mine))))
            v = canon(o.val)
            if v.op != 'seq' or len(v.a) != 3:
                rep.und('layout is read back', 'WrappedKey.decrypt', show(v)[:80])
                continue
            s, k = v.a[1:]
            num_in = s
            if s.op in ('call', 'mcall') and callee(s) == 'array_to_number':
                a, kws = cargs(s) if s.op == 'call' else margs(s)
                num_in = (a + list(kws.values()))[0]
            elif s.op == 'be_num':
                num_in = s.a[0]
            elif is_ext(s, 'from_bytes'):
                num_in = cargs(s)[0][0]
            num_in, k = strip_arr(num_in), strip_arr(k)
            ok1 = num_in is not s and num_in.op == 'slice' and strip_arr(num_in.a[0]) is canon(e.term) and num(num_in.a[1]) == 0 and num(num_in.a[2]) == SALT_BYTES
            rep.check(ok1 or (False if num_in.op in ('slice', 'idx', 'const') else None), 'layout is read back', 'WrappedKey.decrypt salt', e.loc(), 'the salt is read from %s' % show(s)[:100])
            ok2 = k.op == 'slice' and strip_arr(k.a[0]) is canon(e.term) and num(k.a[1]) == SALT_BYTES and k.a[2] is NONE
            rep.check(ok2 or (False if k.op in ('slice', 'idx', 'const') else None), 'layout is read back', 'WrappedKey.decrypt key', e.loc(), 'the key is read from %s' % show(k)[:100])
            # a plaintext too short for a salt and a key is refused
            lim = shortest(o, canon(e.term))
            rep.check(lim is not None and lim > SALT_BYTES if lim is not None else False, 'short plaintext is refused', 'WrappedKey.decrypt', e.loc(), 'a plaintext of %s bytes is taken as salt and key' % (lim if lim is not None else 'any number of'))
    if not m:
        rep.und('same label', 'WrappedKey.decrypt', 'no decryption found')
    elif read and None not in read:
        for l in sorted(set(x[1] for x in labels if x[1] is not None) - read):
            rep.viol('same label', 'WrappedKey.decrypt', g.loc(), 'wrapping can use the label %s, unwrapping never does' % ' | '.join(l))
    oaep(ctx, rep)
    encryptor(ctx, rep)
    unwrapper(ctx, rep)


def salts(rep, fl, c, f, salt):
    """every four-byte salt is wrapped: no path that refuses a key can be taken by one because of its salt"""
    outs = fl.run(f, selfcls=c)
    good = [o.facts for o in outs if o.kind == 'return']
    for o in outs:
        fs = [(a, b) for a, b in o.facts.items() if mentions(a, salt)]
        if o.kind != 'raise' or not fs or any(all(g.get(a) is b for a, b in fs) for g in good):
            continue
        others = [a for a in o.facts if not mentions(a, salt)]
        for v in (0, 1, 255, 256, 0xFFFF, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF):
            r = [holds(a, b, salt, v) for a, b in fs]
            if all(x is True for x in r):
                rep.check(None if others else False, 'four-byte salts are wrapped', 'WrappedKey.create', f.loc(), 'the salt %#x is refused' % v)
                break
        else:
            rep.ok('four-byte salts are wrapped', 'WrappedKey.create')


def holds(a, b, x, v):
    """whether the atom has the given truth when x is the number v"""
    if a.op == 'isnone':
        return (not b) if a.a[0] is x else None
    if a.op == 'truth':
        return (bool(v) is b) if a.a[0] is x else None
    if a.op == 'isa':
        return None
    n = value_at(a.a[0], {x: v}) if a.op == 'lt0' else None
    if n is not None:
        return (n < 0) is b
    if a.op in ('eq', 'is') and x in a.a:
        y = [num(z) for z in a.a if z is not x]
        return ((y[0] == v) is b) if y and y[0] is not None else None
    return None


def width(t):
    return t.a[1] if isinstance(t.a[1], int) else num(t.a[1])


def strip_arr(t):
    t = canon(t)
    while t.op in ('arr', 'tobytes') or is_ext(t, 'array.array') and len(t.a) > 3 or is_ext(t, 'bytes') and len(t.a) == 3:
        t = t.a[0] if t.op in ('arr', 'tobytes') else t.a[-1]
    return t


def is_key_of(t, params):
    k = mk('attr', params, 'key')
    t = strip_arr(t)
    return t.op in ('attr', 'mcall') and mentions(t, k)


def not_none(o, x):
    return any(a.op in ('lt0', 'isa') and mentions(a, x) for a, b in o.facts.items() if a.op != 'isa' or b)


def shortest(o, t):
    """the least length of t that reaches this path"""
    for a, b in o.facts.items():
        a = canon(a) if a.op == 'lt0' else a
        if a.op == 'lt0' and mentions(a, mk('len', t)):
            c, ts = lin_parts(a.a[0])
            k = ts.get(mk('len', t))
            if len(ts) == 1 and k == 1 and not b:       # len + c >= 0
                return -c
            if len(ts) == 1 and k == -1 and b:          # c - len < 0
                return c + 1
    return None


def kdf_state(o, src):
    """what the path knows about the presence of KDF data"""
    out = {}
    for a, b in o.facts.items():
        if a.op == 'isnone' and base(a.a[0]) is src:
            s = show(a.a[0])
            if 'kdf_info' in s:
                out['info'] = b
            elif 'kdf' in s:
                out['kdf'] = b
    return tuple(sorted(out.items()))


def compatible(a, b):
    a, b = dict(a), dict(b)
    return all(b.get(k, v) == v for k, v in a.items()) and ((a.get('info') is False) == (b.get('info') is False))


def label(ctx, t, o, src, wk, other):
    """the label as a list of field descriptions"""
    out = []
    for x in joined(t):
        y = serialized(x)
        if y is None:
            c = const_of(x)
            if c is not None:
                out.append(repr(c))
                continue
            return None
        out.append(field(ctx, y, o, src, wk))
        if 'kdf_info' in show(y) and y.op in ('mcall', 'attr') and base(y) is src and not any(a.op == 'isnone' and 'kdf_info' in show(a.a[0]) and b is False or a.op == 'truth' and 'kdf_info' in show(a.a[0]) and b for a, b in o.facts.items()):
            out[-1] += ' (which may be None)'
    return tuple(out)


def field(ctx, y, o, src, wk):
    """what a label field is, independent of whether it comes from the parameters or from the received context"""
    if y.op == 'new':
        n = y.a[0].a[0].split('.')[-1]
        kw = kwargs(y)
        if n == 'AeadMode':
            return 'mode of the key' if const_of(kw.get('mode')) == mode_of(ctx, o) else 'mode %s' % show(kw.get('mode') or NONE)
        v = list(kw.values())[0] if kw else NONE
        if mentions(v, wk):
            calls = [s.a[0] for s in subs(v) if s.op == 'mcall' and s.a[1] is wk]
            return '%s of %s of the wrapping key' % (n, ','.join(sorted(set(calls))) or show(v)[:40])
        return '%s %s' % (n, show(v)[:60])
    if base(y) is src:
        names = []
        z = y
        while z is not src:
            names.append(z.a[1] if z.op == 'attr' else z.a[0])
            z = z.a[0] if z.op == 'attr' else z.a[1]
        names = [q.lstrip('_') for q in reversed(names) if q.lstrip('_') != 'aead_data']
        return 'mode of the key' if names == ['mode'] else '.'.join(names)
    return show(y)[:60]


def oaep(ctx, rep):
    fl = ctx.lazy('crypto.oaep', lambda: Flow(ctx, {'encrypt', 'decrypt'}, also=local))
    c = ctx.p.cls('RsaKey')
    pads = {}
    for n, m in (('encrypt_oaep_sha256', 'encrypt'), ('decrypt_oaep_sha256', 'decrypt')):
        f = c.find(n)
        data, lab = [mk('param', q) for q in f.params[:2]]
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return':
                continue
            cs = list(mcalls(o, m))
            if len(cs) != 1:
                rep.und('same padding', n, '%d calls' % len(cs))
                continue
            e, ls, r, pos, kw = cs[0]
            pos = pos + list(kw.values())
            want = 'public' if m == 'encrypt' else 'private'
            rep.check(r.op == 'attr' and want in r.a[1] or (False if r.op == 'attr' else None), 'right half of the key', n, e.loc(), '%s uses %s' % (n, show(r)))
            rep.check(strip_arr(pos[0]) is data, 'whole plaintext', n, e.loc(), '%s is given %s' % (m, show(pos[0])[:60]))
            pad = canon(pos[1])
            lbs = [k for k in subs(pad) if k is lab]
            rep.check(bool(lbs), 'label is used', n, e.loc(), 'the padding of %s has no label' % n)
            pads.setdefault(m, set()).add((show(ctx.wire.i.subst(pad, {lab: mk('param', 'label')}))))
            v = strip_arr(o.val)
            rep.check(v is canon(e.term) or (None if mentions(v, canon(e.term)) else False), 'returns the result', n, e.loc(), 'returns %s' % show(v)[:60])
    if len(pads) == 2:
        rep.check(pads['encrypt'] == pads['decrypt'] and len(pads['encrypt']) == 1, 'same padding', 'RsaKey', c.find('encrypt_oaep_sha256').loc(),
                  'encryption uses %s, decryption %s' % (sorted(pads['encrypt']), sorted(pads['decrypt'])))


def encryptor(ctx, rep):
    """the wrapper sent along wraps the key that is used for the encryption"""
    p = ctx.p
    fl = ctx.lazy('crypto.encryptor', lambda: Flow(ctx, {'create', 'keyid', 'create_sha256', 'generate'}))
    c = p.cls('RsaOaepEncryptor')
    f = c.find('__init__')
    wk, params = [mk('param', n) for n in f.params[:2]]
    for o in fl.run(f, selfcls=c):
        if o.kind != 'return':
            continue
        A = {k[1]: canon(v) for k, v in o.st.heap.items() if k[0] is SELF}
        for t in A.values():
            if t.op == 'new' and t.a[0].a[0].endswith('.RsaOaepImpl'):
                kw = kwargs(t)
                rep.check(kw.get('aead_params') is params or (None if mentions(kw.get('aead_params', NONE), params) else False), 'wrapper and encryption use one key', 'RsaOaepEncryptor', f.loc(), 'encrypts with %s' % show(kw.get('aead_params', NONE))[:60])
                wr = kw.get('wrapper', NONE)
                cr = [s for s in subs(wr) if s.op in ('call', 'mcall') and callee(s) == 'create' and 'WrappedKey' in show(s.a[0] if s.op == 'call' else s.a[1])]
                if not cr:
                    rep.check(False if wr is NONE else None, 'wrapper and encryption use one key', 'RsaOaepEncryptor wrapper', f.loc(), 'no wrapper is built')
                    continue
                a, k2 = cargs(cr[0]) if cr[0].op == 'call' else margs(cr[0])
                args = a + list(k2.values())
                rep.check(params in args and wk in args, 'wrapper and encryption use one key', 'RsaOaepEncryptor wrapper', f.loc(), 'wraps %s' % ', '.join(show(x)[:40] for x in args))
                kid = [s for s in subs(wr) if s.op == 'mcall' and s.a[0] == 'keyid']
                rep.check(all(s.a[1] is wk for s in kid) if kid else None, 'wrapper names the wrapping key', 'RsaOaepEncryptor', f.loc(), 'the wrapper names %s' % ', '.join(show(s) for s in kid))
    f = c.find('create_with_new_content_key')
    if f is not None:
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return':
                continue
            v = canon(o.val)
            for t in news(v, 'AeadParameters'):
                kw = kwargs(t)
                k = kw.get('key', NONE)
                rep.check(callee(k) == 'generate' if k.op in ('call', 'mcall') else None, 'new content key is random', 'create_with_new_content_key', f.loc(), 'the new key is %s' % show(k)[:60])
                s = kw.get('aead_salt', NONE)
                rs = [x for x in subs(s) if is_random(x)]
                n = num(cargs(rs[0])[0][0]) if rs else None
                # the salt is drawn at random unless the caller gave one (a parameter found not to be None)
                given = s.op == 'param' and any(x.op == 'isnone' and x.a[0] is s and not pol for x, pol in o.facts.items())
                rep.check(True if given else n == SALT_BYTES if rs else False, 'new salt is random', 'create_with_new_content_key', f.loc(), 'the new salt is %s' % show(s)[:60])
                kd = kw.get('kdf_data', NONE)
                rep.check(kd is mk('param', f.params[1]) if len(f.params) > 1 else None, 'kdf data is kept', 'create_with_new_content_key', f.loc(), 'the KDF data is %s' % show(kd)[:60])


def unwrapper(ctx, rep):
    """what is unwrapped becomes the salt and the key of the decryption"""
    fl = ctx.lazy('crypto.unwrap', lambda: Flow(ctx, {'decrypt', 'add_aes_key', 'get_rsa'}, also=local))
    c = ctx.p.cls('RsaOaepImpl')
    f = c.find('create')
    ks, sc = [mk('param', n) for n in f.params[:2]]
    seen = 0
    for o in fl.run(f, selfcls=c):
        if o.kind != 'return':
            continue
        for d in (s for s in set(subs(canon(o.val))) if s.op == 'mcall' and s.a[0] == 'decrypt'):
            pos, kw = margs(d)
            kw = dict(kw)
            for q, x in zip(('wrapping_key', 'aead_data'), pos):
                kw.setdefault(q, x)
            con = 'RsaOaepImpl.create'
            seen += 1
            rep.check(mentions(d.a[1], sc) or None, 'unwraps the received key', con, f.loc(), 'unwraps %s' % show(d.a[1])[:60])
            w = kw.get('wrapping_key', NONE)
            rep.check('key_id' in show(w) and mentions(w, sc) or None, 'key named in the wrapper', con, f.loc(), 'the wrapping key is %s' % show(w)[:80])
            for t in news(canon(o.val), 'AeadParameters'):
                a = kwargs(t)
                s = a.get('aead_salt', NONE)
                rep.check(s.op == 'idx' and s.a[0] is d and num(s.a[1]) == 0 if s.op in ('idx', 'const') else None, 'unwrapped salt is used', con, f.loc(), 'the salt is %s' % show(s)[:60])
                k = a.get('key', NONE)
                kk = [x for x in subs(k) if x.op == 'idx' and x.a[0] is d]
                rep.check({num(x.a[1]) for x in kk} == {1} if kk else None, 'unwrapped key is used', con, f.loc(), 'the key is %s' % show(k)[:60])
                # class of the key by announced mode
                if k.op == 'new':
                    kc = ctx.p.classes.get(k.a[0].a[0])
                    fam = cipher(ctx, kc)
                    ms = {num(y) for x, b in o.facts.items() if b and x.op == 'eq' and '_mode' in show(x) for y in x.a if num(y) is not None}
                    want = {v for (q, _), v in MODES.items() if q == fam}
                    if ms:
                        rep.check(ms <= want, 'key class follows the mode', con, f.loc(), 'mode %s gives a %s key' % (sorted(ms), FAMILY.get(fam)))
                n = a.get('key_number', NONE)
                rep.check('key_number' in show(n) and mentions(n, sc) or (False if n.op == 'const' else None), 'key number is kept', con, f.loc(), 'the key number is %s' % show(n)[:60])
                kd = a.get('kdf_data', NONE)
                rep.check('kdf_data' in show(kd) and mentions(kd, sc) or (False if kd.op == 'const' else None), 'kdf data is kept', con, f.loc(), 'the KDF data is %s' % show(kd)[:60])
    if not seen:
        rep.und('unwrapped key is used', 'RsaOaepImpl.create', 'no unwrapping found')


# ------------------------------------------------------------------ K06
def k06(ctx, rep):
    fl, ex = flow(ctx), exact(ctx)
    P = mk('attr', SELF, '_params')
    for c in impls(ctx):
        for m, side in (('encrypt', 'encrypt'), ('decrypt_node', 'decrypt')):
            f = c.find(m)
            con = '%s.%s' % (c.name, m)
            with rep.guard('derived key is used', con):
                for o in ex.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    for e, ls, r, a in aead_calls(ex, o, side):
                        derived(ctx, rep, ex, c, f, con, o, e, canon(r), side)
    kdf(ctx, rep)


def kdf_terms(o):
    """facts on the presence of KDF data: {term: is none}"""
    return {a.a[0]: b for a, b in o.facts.items() if a.op == 'isnone' and a.a[0].op in ('attr', 'mcall') and 'kdf_data' in last_name(a.a[0])}


def last_name(t):
    return t.a[1] if t.op == 'attr' else t.a[0] if t.op == 'mcall' else ''


def derived(ctx, rep, fl, c, f, con, o, e, k, side):
    ks = kdf_terms(o)
    if not ks:
        rep.viol('derived key is used', con, e.loc(), 'the key is %s whether or not KDF data is configured' % show(k)[:80])
        return
    present = [t for t, b in ks.items() if not b]
    if not present:
        rep.check(k.op in ('attr', 'mcall') and base(k) is SELF or None, 'configured key without a KDF', con, e.loc(), 'the key is %s' % show(k)[:80])
        return
    hk = [s for s in subs(k) if is_ext(s, 'HKDF', 'HKDFExpand', 'ConcatKDFHash', 'PBKDF2HMAC', 'Scrypt')]
    if not hk:
        rep.check(False if k.op in ('attr', 'param') or not any(s.op in ('call', 'mcall') and 'deriv' in callee(s) for s in subs(k)) else None, 'derived key is used', con, e.loc(),
                  'KDF data is configured but the key is %s' % show(k)[:100])
        return
    rep.ok('derived key is used', con)
    a, kw = cargs(hk[0])
    D = present[0]
    # the announced data decides
    if side == 'decrypt':
        rep.check(all(base(t) is not SELF for t in present), 'announced KDF data decides', con, e.loc(), 'decryption derives the key from %s, not from the received context' % show(D)[:60])
    else:
        S = ret(o)
        ann = [kwargs(d).get('kdf_data', NONE) for d in news(S[0], 'AeadData')] if S else []
        rep.check(ann == [D] if ann else None, 'announced KDF data decides', con, e.loc(), 'the context announces %s, the key is derived from %s' % (', '.join(show(x) for x in ann), show(D)))
    # inputs
    d = [s for s in subs(k) if s.op == 'mcall' and s.a[0] == 'derive' and s.a[1] is hk[0]]
    inp = strip_arr(margs(d[0])[0][0]) if d and margs(d[0])[0] else None
    rep.check(True if inp is not None and base(inp) is SELF and '.key' in show(inp) else (False if inp is None or inp.op == 'const' else None), 'derived from the configured key', con, e.loc(), 'derived from %s' % show(inp or NONE)[:60])
    sl = kw.get('salt', NONE)
    unset = any(t.op == 'isnone' and b and 'kdf_salt' in last_name(t.a[0]) for t, b in o.facts.items())
    rep.check(True if any(s.op == 'attr' and s.a[1].lstrip('_').startswith('kdf_salt') for s in subs(sl)) or unset else (False if sl is NONE or sl.op in ('const', 'attr', 'param') else None),
              'configured salt is used', con, e.loc(), 'the derivation salt is %s' % show(sl)[:60])
    info = [serialized(x) for x in joined(kw.get('info', NONE))]
    txt = [show(x) for x in info if x is not None]
    rep.check(any('key_number' in t for t in txt), 'key number is mixed in', con, e.loc(), 'the derivation info %s has no key number' % show(kw.get('info', NONE))[:100])
    rep.check(any(x is not None and (x.op == 'new' and x.a[0].a[0].endswith('.AeadMode') or 'mode' in last_name(x)) for x in info), 'mode is mixed in', con, e.loc(), 'the derivation info %s has no mode' % show(kw.get('info', NONE))[:100])
    inf = {t.a[0]: b for t, b in o.facts.items() if t.op == 'isnone' and 'kdf_info' in last_name(t.a[0])}
    if False in inf.values():
        rep.check(any('kdf_info' in t for t in txt), 'announced info is mixed in', con, e.loc(), 'the announced info is not part of %s' % show(kw.get('info', NONE))[:100])
    elif not inf:
        rep.check(False if not any('kdf_info' in t for t in txt) else None, 'announced info is mixed in', con, e.loc(), 'the announced info is not part of %s' % show(kw.get('info', NONE))[:100])
    # length
    n = kw.get('length', NONE)
    rep.check(key_length(n), 'derived key has the length of the key', con, e.loc(), 'the derived key has the length %s' % show(n)[:60])
    # class of the derived key
    kc = ctx.p.classes.get(k.a[0].a[0]) if k.op == 'new' else None
    isa = {x.a[1].a[0] for x, b in o.facts.items() if b and x.op == 'isa' and x.a[1].op == 'cls' and base(x.a[0]) is SELF and '.key' in show(x.a[0])}
    if kc is not None and isa:
        rep.check(kc.qual in isa or any(kc.isa(ctx.p.classes[q]) for q in isa if q in ctx.p.classes), 'derived key has the class of the key', con, e.loc(), 'a %s key is derived for a %s key' % (kc.name, ', '.join(isa)))
    # algorithm
    alg = kw.get('algorithm', NONE)
    an = alg.a[0].a[0].split('.')[-1] if alg.op == 'call' and alg.a[0].op == 'ext' else None
    es = [(x, y) for x, b in o.facts.items() if b and x.op in ('eq', 'is') for y in x.a if y.op == 'enum' or y.op == 'attr' and y.a[0].op == 'cls']
    num_ = {hpke(ctx).get(member(y)) for x, y in es if member(y) in hpke(ctx)}
    if an is None or len(num_) != 1:
        rep.und('announced algorithm is used', con, show(alg)[:80])
    else:
        rep.check(HASHES.get(next(iter(num_))) == an, 'announced algorithm is used', con, e.loc(), 'KDF number %s is derived with %s' % (next(iter(num_)), an))
        fn = [y for x, b in o.facts.items() if b and x.op in ('eq', 'is') for y in subs(x) if y.op in ('call', 'mcall') and callee(y) == 'from_number']
        rep.check(all(mentions(y, D) for y in fn) if fn else None, 'announced algorithm is used', con, e.loc(), 'the algorithm comes from %s' % ', '.join(show(y)[:60] for y in fn))


def key_length(n):
    n = canon(n)
    if is_ext(n, 'ceil') or n.op == 'ceil':
        x = cargs(n)[0][0] if n.op == 'call' else n.a[0]
    else:
        x = n
    if x.op in ('div', 'fdiv', 'truediv') and num(x.a[1]) == 8 or x.op == 'shr' and num(x.a[1]) == 3:
        y = x.a[0]
        if y.op == 'len' and '.key' in show(y):
            return True
    if n.op == 'len' and ('_key' in show(n.a[0]) or 'key()' in show(n.a[0])):
        return True
    if num(n) is not None or n.op == 'len':
        return False
    return None


def member(t):
    if t.op == 'enum':
        return t.a[1] if isinstance(t.a[1], str) else None
    return t.a[1] if t.op == 'attr' else None


def hpke(ctx):
    """member name -> number of HpkeKdfIdentifiers"""
    import ast

    def build():
        c = ctx.p.cls('HpkeKdfIdentifiers')
        out = {}
        for n, v in c.attrs.items():
            x = v
            if isinstance(x, ast.Tuple) and x.elts and isinstance(x.elts[0], ast.Constant):
                out[n] = x.elts[0].value
            elif isinstance(x, ast.Constant):
                out[n] = x.value
        return out
    return ctx.lazy('crypto.hpke', build)


def kdf(ctx, rep):
    c = ctx.p.cls('HpkeKdfIdentifiers')
    h = hpke(ctx)
    want = {'HKDF_SHA256': 1, 'HKDF_SHA384': 2, 'HKDF_SHA512': 3}
    for n, v in want.items():
        if n in h:
            rep.check(h[n] == v, 'registered numbers', n, c.mod.rel, '%s has the number %s, RFC 9180 says %d' % (n, h[n], v))
    f = c.find('from_number')
    i = ctx.wire.i
    with rep.guard('number selects its algorithm', 'from_number'):
        par = mk('param', f.params[0])
        rets = [(v, {a: b for a, b in fc}, e) for o in i.run(f, selfcls=c) for e, ls in walk_events(o.events()) if e.kind == 'loop' for k, v, fc, ev, up in e.x.outs if k == 'return']
        direct = [o for o in i.run(f, selfcls=c) if o.kind == 'return']
        for v, fc, e in rets:
            ok = v is e.x.el and any(b and a.op in ('eq', 'is') and par in a.a and any(y.op == 'attr' and y.a[0] is v for y in a.a) for a, b in fc.items())
            rep.check(ok or (False if v is e.x.el else None), 'number selects its algorithm', 'from_number', f.loc(), 'returns %s without comparing its number' % show(v)[:40])
        for o in direct:
            v = canon(o.val)
            if v.op in ('lv', 'last', 'elem') or any(v is r[0] for r in rets):
                continue
            if v is NONE or v.op in ('enum', 'const') or v.op == 'attr' and v.a[0].op == 'cls':
                m = member(v)
                eqs = [num(y) for a, b in o.facts.items() if b and a.op == 'eq' for y in a.a if num(y) is not None]
                own = any(b and a.op in ('eq', 'is') and par in a.a and any(y.op == 'attr' and y.a[0] is v for y in a.a) for a, b in o.facts.items())
                rep.check(own or bool(m and eqs == [h.get(m)]), 'number selects its algorithm', 'from_number', f.loc(), 'an unknown number gives %s' % show(v))
    g = ctx.p.cls('KDF').find('derive')
    with rep.guard('number selects its algorithm', 'KDF.derive'):
        kid = mk('param', g.params[0])
        for o in exact(ctx).run(g):
            if o.kind != 'return':
                continue
            es = [h.get(member(y)) for x, b in o.facts.items() if b and x.op in ('eq', 'is') and kid in x.a for y in x.a if member(y) in h]
            hk = [s for s in subs(canon(o.val)) if is_ext(s, 'HKDF')]
            an = None
            if hk:
                al = cargs(hk[0])[1].get('algorithm', NONE)
                an = al.a[0].a[0].split('.')[-1] if al.op == 'call' and al.a[0].op == 'ext' else None
                for n, q in (('length', 'length'), ('salt', 'salt'), ('info', 'info')):
                    x = cargs(hk[0])[1].get(n, NONE)
                    rep.check(x is mk('param', q) or (False if x.op in ('param', 'const') else None), 'inputs reach the derivation', 'KDF.derive ' + n, g.loc(), '%s of the derivation is %s' % (n, show(x)[:40]))
                d = [s for s in subs(canon(o.val)) if s.op == 'mcall' and s.a[0] == 'derive']
                x = strip_arr(margs(d[0])[0][0]) if d and margs(d[0])[0] else NONE
                rep.check(x is mk('param', 'input_key') or (False if x.op in ('param', 'const') else None), 'inputs reach the derivation', 'KDF.derive input_key', g.loc(), 'derives from %s' % show(x)[:40])
            if not es:
                rep.check(False if hk else None, 'unknown algorithm is refused', 'KDF.derive', g.loc(), 'an unknown KDF is derived with %s' % an)
            else:
                rep.check(HASHES.get(es[0]) == an if an else None, 'number selects its algorithm', 'KDF.derive', g.loc(), 'KDF number %s is derived with %s' % (es[0], an))


RULES = {'K01': k01, 'K02': k02, 'K03': k03, 'K05': k05, 'K06': k06}
