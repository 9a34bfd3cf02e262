"""K04 signature verification fails closed, K07 secret hygiene, K08 key lookups."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *
from .crypto import SELF, octets, facts_text, callee, flat_args, strip_arr

VERIFIER_OF = {'ValidationAlg_Crc32c': 'Crc32cVerifier', 'ValidationAlg_RsaSha256': 'RsaSha256Verifier'}


def is_test(fn):
    return 'test' in fn.mod.name.lower().split('.')[-1] or '.tests.' in fn.mod.name


def library(p):
    return [f for f in sorted(p.funcs.values(), key=lambda f: f.qual) if not is_test(f)]


def short(f):
    return f.qual.split('.', 1)[-1]


def truth_of(a, b):
    """(term, truth) when the fact says that the term is true / false"""
    if a.op == 'truth':
        return a.a[0], b
    if a.op == 'not':
        return truth_of(a.a[0], not b)
    if a.op in ('eq', 'is'):
        for x, y in (a.a, a.a[::-1]):
            if y is TRUE:
                return x, b
            if y is FALSE:
                return x, not b
    if a.op in ('mcall', 'call'):
        return a, b
    return None, None


def verify_calls(t):
    return [s for s in subs(t) if s.op == 'mcall' and s.a[0] == 'verify']


# ------------------------------------------------------------------ K04
def k04(ctx, rep):
    p = ctx.p
    V, K = p.cls('Verifier'), p.cls('RsaKey')
    impl = {V, K} | set(V.all_subs())
    fl = ctx.lazy('keys.verify', lambda: Flow(ctx, {'verify', 'get_rsa', 'get_rsa_pub_key', 'validation_alg'}, nomerge=True))
    n = 0
    for f in library(p):
        if not calls_of(f, 'verify') or f.cls in impl or f.abstract:
            continue
        n += 1
        rule, con = 'accepted only when verified', short(f)
        with rep.guard(rule, con):
            for o in fl.run(f, selfcls=f.cls):
                if o.kind == 'return':
                    accepted(ctx, rep, fl, f, con, o)
    if not n:
        rep.und('accepted only when verified', 'validate_packet', 'no code verifies packets')
    for c in sorted(impl, key=lambda c: c.qual):
        f = c.methods.get('verify')
        if f is not None and not f.abstract:
            with rep.guard('verifier reports only success', c.name):
                verifier(ctx, rep, c, f)
    lookups_report(ctx, rep)
    swallow(ctx, rep)


def accepted(ctx, rep, fl, f, con, o):
    rule = 'accepted only when verified'
    evs = list(walk_events(o.events()))
    for a, b in o.facts.items():
        if a.op == 'isnone' and b and callee_name(a.a[0]) == 'validation_alg':
            rep.ok(rule, con)
            return
    good = [t for t, b in (truth_of(a, b) for a, b in o.facts.items()) if t is not None and b and t.op == 'mcall' and t.a[0] == 'verify']
    raised = {s for e, ls in evs if e.kind == 'except' and isinstance(e.term, T) for s in verify_calls(canon(e.term))}
    good = [t for t in good if canon(t) not in raised]
    if good:
        rep.ok(rule, con)
        matching(ctx, rep, fl, f, con, o, canon(good[-1]))
        return
    for a, b in o.facts.items():
        if a.op == 'isnone' and b:
            x = a.a[0]
            if any(c.name == 'InsecureKeystore' for c in fl.i.typeof(x, o.st).classes) and x.op in ('attr', 'param') and not any(verify_calls(q) for q in o.facts) \
                    and not any(q == 'ValidationAlg_Crc32c' for q in algs_of(o)):
                rep.ok('no key store: documented exception', con)
                return
            if callee_name(x) in ('get_rsa', 'get_rsa_pub_key'):
                rep.check(not may_be_none(ctx, callee_name(x)), rule, con, f.loc(), 'the packet is accepted when the key store has no key for it')
                return
    for e, ls in evs:
        if e.kind == 'except' and isinstance(e.term, T) and any(callee_name(s) in ('get_rsa', 'get_rsa_pub_key') for s in subs(canon(e.term))):
            rep.check('.apps.' in f.mod.name or 'apps' in f.mod.name, rule, con, e.loc(), 'the packet is accepted when looking up its key fails')
            return
    odd = [a for a in o.facts if verify_calls(a) and a.op not in ('truth', 'not', 'eq', 'is', 'isnone', 'isa', 'mcall')]
    rep.check(None if odd else False, rule, con, f.loc(), 'a packet with a validation algorithm is accepted without a successful verification (%s)' % facts_text(o))


def algs_of(o):
    return [a.a[1].a[0].split('.')[-1] for a, b in o.facts.items() if b and a.op == 'isa' and a.a[1].op == 'cls' and a.a[1].a[0].split('.')[-1] in VERIFIER_OF]


def callee_name(t):
    if t.op == 'mcall':
        return t.a[0]
    if t.op == 'attr':
        return t.a[1].lstrip('_')
    if t.op == 'call' and t.a[0].op in ('fn', 'ext'):
        return t.a[0].a[0].split('.')[-1]
    return ''


def may_be_none(ctx, name):
    p = ctx.p
    f = p.cls('InsecureKeystore').find(name)
    if f is None:
        return True
    for o in exact_keystore(ctx).run(f, selfcls=p.cls('InsecureKeystore')):
        if o.kind == 'return':
            v = canon(o.val)
            if v is NONE or v.op == 'mcall' and v.a[0] in ('get', 'pop', 'setdefault') or v.op in ('lv',):
                return True
    return False


def exact_keystore(ctx):
    return ctx.lazy('keys.store', lambda: Flow(ctx, {'digest', 'keyid'}, nomerge=True))


def matching(ctx, rep, fl, f, con, o, t):
    """the verifier is the one of the algorithm, with the key the packet names"""
    rule = 'verifier of the algorithm'
    r = t.a[1]
    cls = {c.name for c in fl.i.typeof(r, o.st).classes}
    if r.op == 'new':
        cls = {r.a[0].a[0].split('.')[-1]}
    algs = algs_of(o)
    if not algs or not cls or cls <= {'Verifier'}:
        rep.und(rule, con, 'algorithm %s, verifier %s' % (algs, sorted(cls)))
    else:
        rep.check(cls == {VERIFIER_OF[a] for a in algs}, rule, con, f.loc(), 'a packet with %s is verified by %s' % (algs, sorted(cls)))
    if r.op == 'new' and 'key' in kwargs(r):
        k = canon(kwargs(r)['key'])
        look = [s for s in subs(k) if callee_name(s) in ('get_rsa', 'get_rsa_pub_key') and s.op in ('mcall', 'call')]
        if not look:
            rep.check(False if k.op in ('param', 'const') or k.op == 'attr' and base(k) is SELF else None, 'key the packet names', con, f.loc(), 'the signature is verified with %s' % show(k)[:80])
        else:
            pos, kw = margs(look[0]) if look[0].op == 'mcall' else cargs(look[0])
            a = (pos + list(kw.values()) + [NONE])[0]
            ok = last(a) == 'keyid' and any(callee_name(s) == 'validation_alg' for s in subs(a))
            rep.check(ok or (False if a.op == 'const' or last(a) in ('name', 'key_link') else None), 'key the packet names', con, f.loc(), 'the key is looked up by %s' % show(a)[:80])


def last(t):
    t = octets(t)
    while t.op in ('mcall', 'attr') and callee_name(t) in ('digest', 'value'):
        t = t.a[1] if t.op == 'mcall' else t.a[0]
    return callee_name(t)


def verifier(ctx, rep, c, f):
    rule, con = 'verifier reports only success', '%s.verify' % c.name
    fl = ctx.lazy('keys.primitive', lambda: Flow(ctx, {'verify', 'crc32c', 'finalize', 'update', '__create_padding'}, nomerge=True, keep=()))
    buf = mk('param', '*' + f.vararg) if f.vararg else None
    vp = [mk('param', n) for n in f.params if n in ('validation_payload', 'signature')]
    keep = mk('param', 'validation_payload') if 'validation_payload' in f.params else vp[0] if vp else None
    for o in fl.run(f, selfcls=c):
        if o.kind != 'return':
            continue
        v = canon(o.val)
        evs = list(walk_events(o.events()))
        if v is NONE or v.op == 'const' and not v.a[0]:
            rep.ok(rule, con)
            continue
        failed = {s for e, ls in evs if e.kind == 'except' and isinstance(e.term, T) for s in verify_calls(canon(e.term))}
        done = [canon(e.term) for e, ls in evs if e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[0] == 'verify' and not ls and canon(e.term) not in failed]
        if v.op == 'const':
            eqs = [a for a, b in o.facts.items() if b and a.op == 'eq' and keep is not None and mentions(a, keep) and computed(o, a, buf)]
            if eqs and not done:
                compared(rep, f, con, canon(eqs[0]), keep)
                continue
            ok = bool(done)
            rep.check(ok, rule, con, f.loc(), 'reports success %s' % ('although the check raised an error' if failed else 'without a check (%s)' % facts_text(o)))
            for t in done:
                pos, kw = margs(t)
                pos = pos + list(kw.values())
                s = octets(pos[0]) if pos else NONE
                rep.check(mentions(s, keep) if keep is not None else None, 'the supplied signature is checked', con, f.loc(), 'checks %s' % show(s)[:60])
            continue
        if v.op == 'mcall' and v.a[0] == 'verify':
            pos, kw = margs(v)
            xs = pos + list(kw.values())
            rep.check(any(mentions(x, keep) for x in xs) if keep is not None else None, 'the supplied signature is checked', con, f.loc(), 'hands on %s' % ', '.join(show(x)[:40] for x in xs))
            rep.check(base(v.a[1]) is SELF or None, rule, con, f.loc(), 'asks %s' % show(v.a[1])[:60])
            continue
        has_vp, has_buf = keep is not None and mentions(v, keep), computed(o, v, buf)
        if not has_vp or not has_buf:
            rep.viol(rule, con, f.loc(), 'the result %s does not depend on %s' % (show(v)[:100], 'the supplied payload' if not has_vp else 'the supplied buffers'))
            continue
        if v.op == 'eq':
            compared(rep, f, con, v, keep)
        elif v.op in ('or', 'lt0', 'in', 'not'):
            rep.viol(rule, con, f.loc(), 'the result is %s' % show(v)[:120])
        else:
            rep.und(rule, con, show(v)[:120])


def compared(rep, f, con, v, keep):
    side = [x for x in v.a if mentions(x, keep)]
    comp = [x for x in v.a if not mentions(x, keep)]
    part = [s for x in v.a for s in subs(x) if s.op in ('slice', 'idx', 'band', 'len')]
    if part:
        rep.viol('the whole signature is compared', con, f.loc(), 'only %s is compared' % show(part[0])[:80])
        return
    rep.check(len(side) == 1 and len(comp) == 1 and whole(side[0], keep), 'verifier reports only success', con, f.loc(), 'the comparison is %s' % show(v)[:120])


def whole(x, keep):
    """the supplied payload, or its bytes"""
    x = octets(x)
    while x is not keep and x.op in ('mcall', 'attr') and callee_name(x) in ('payload', 'value', 'tobytes', 'serialize'):
        x = octets(x.a[1] if x.op == 'mcall' else x.a[0])
    return True if x is keep else None


def computed(o, v, buf):
    """v depends on the buffers, directly or through a loop over them"""
    if buf is None or mentions(v, buf) or any(s.op == 'param' and s.a[0].startswith('*') for s in subs(v)):
        return True
    lids = {s.a[0] for s in subs(v) if s.op in ('lv', 'last')}
    for e, ls in walk_events(o.events()):
        if e.kind == 'loop' and e.x.lid in lids and e.x.iter is not None:
            if any(s.op == 'param' and s.a[0].startswith('*') for s in subs(e.x.iter)):
                return True
    return False


def lookups_report(ctx, rep):
    """a lookup of an unknown key is an error, not an answer"""
    p = ctx.p
    for n in ('get_rsa', 'get_rsa_pub_key'):
        f = p.cls('InsecureKeystore').find(n)
        if f is not None:
            with rep.guard('unknown key is an error', n):
                rep.check(not may_be_none(ctx, n), 'unknown key is an error', n, f.loc(), '%s answers None for an unknown key, which ends in acceptance' % n)


def swallow(ctx, rep):
    """a failed validation is not ignored by the caller"""
    rule = 'failed validation is not ignored'
    fl = ctx.lazy('keys.callers', lambda: Flow(ctx, {'validate_packet', 'get', 'preorder', 'decrypt_manifest', 'write'}))
    for f in library(ctx.p):
        if not calls_of(f, 'validate_packet') or f.abstract:
            continue
        con = short(f)
        with rep.guard(rule, con):
            for o in fl.run(f, selfcls=f.cls):
                evs = list(walk_events(o.events()))
                hit = None
                for n, (e, ls) in enumerate(evs):
                    if e.kind == 'except' and isinstance(e.term, T):
                        src = [s for s in subs(canon(e.term)) if s.op in ('mcall', 'call') and callee_name(s) == 'validate_packet']
                        if src:
                            hit = (n, e, src[0])
                if hit is None or o.kind != 'return':
                    rep.ok(rule, con)
                    continue
                n, e, src = hit
                pk = set(flat_args(src)) - {SELF}
                pk = {x for x in pk if not any(c.name == 'InsecureKeystore' for c in fl.i.typeof(x, o.st).classes)}
                later = [q for q, ls in evs[n + 1:] if q.kind == 'call' and isinstance(q.term, T) and q.term.op in ('mcall', 'call') and callee_name(q.term) not in ('print', 'debug', 'info', 'warning', 'error', 'format', 'repr', 'str')
                         and any(mentions(canon(q.term), x) for x in pk)]
                rep.check(not later, rule, con, e.loc(), 'after a failed validation the packet is still used: %s' % (show(later[0].term)[:80] if later else ''))


# ------------------------------------------------------------------ K08
def k08(ctx, rep):
    keystore(ctx, rep)
    caches(ctx, rep)
    callers(ctx, rep)


KINDS = {'keyid': 'key id', 'key_id': 'key id', 'digest': 'key id', 'key_number': 'key number', 'key_num': 'key number', 'keynum': 'key number', 'name': 'name'}


def kinds_of(n):
    """identifier kinds a parameter name stands for"""
    n = n.lower()
    out = set()
    if 'keyid' in n or 'key_id' in n:
        out.add('key id')
    if 'num' in n:
        out.add('key number')
    if 'name' in n:
        out.add('name')
    return out


def map_of(t):
    """the container attribute of self a term is an entry of, and the key"""
    if t.op == 'idx' and t.a[0].op == 'attr' and base(t.a[0]) is SELF:
        return t.a[0], t.a[1]
    if t.op == 'mcall' and t.a[0] in ('get', '__getitem__') and t.a[1].op == 'attr' and base(t.a[1]) is SELF:
        pos, kw = margs(t)
        return (t.a[1], pos[0]) if pos else (None, None)
    return None, None


def ident(t):
    """the thing a dictionary key identifies: (kind, term) - accessors of identifier objects are stripped"""
    t = canon(t)
    names = []
    while t.op in ('mcall', 'attr') and base(t).op == 'param' and base(t) is not t:
        names.append(callee_name(t))
        t = t.a[1] if t.op == 'mcall' else t.a[0]
    return names, t


def has_param(t, par):
    return any(s.op == 'param' and s.a[0] == par for s in subs(t))


def keystore(ctx, rep):
    p = ctx.p
    c = p.cls('InsecureKeystore')
    fl = exact_keystore(ctx)
    filed = {}                  # map -> kinds it is filed under
    writes = {}
    for f in sorted(c.methods.values(), key=lambda f: f.name):
        if f.name == '__init__' or f.abstract:
            continue
        rule, con = 'entries are filed under their identifier', 'InsecureKeystore.%s' % f.name
        with rep.guard(rule, con):
            outs = fl.run(f, selfcls=c)
            ws = {}
            for o in outs:
                for e, ls in walk_events(o.events()):
                    if e.kind == 'setitem' and e.term.a[0].op == 'attr' and base(e.term.a[0]) is SELF:
                        m, k, v = [canon(x) for x in e.term.a]
                        ws.setdefault(m, []).append((o, e, k, v))
                    elif e.kind == 'mut' and e.term.a[0] in ('setdefault', 'update', 'pop', 'clear', 'popitem') and base(e.term.a[1]) is SELF:
                        if e.term.a[0] == 'setdefault':
                            rep.viol(rule, con, e.loc(), 'an entry filed again under the same identifier is not replaced')
                        else:
                            rep.und(rule, con, show(e.term)[:80])
            for m, es in ws.items():
                for o, e, k, v in es:
                    names, r = ident(k)
                    vr = base(v)
                    if v.op != 'param':
                        rep.und(rule, con, 'files %s' % show(v)[:60])
                    elif r is v and names:
                        ks = {KINDS[n] for n in names if n in KINDS}
                        rep.check(bool(ks) or None, rule, con, e.loc(), 'files under %s' % show(k)[:60])
                        filed.setdefault(m, set()).update(ks)
                    elif r.op == 'param' and not names and r is not v:
                        ks = kinds_of(r.a[0])
                        rep.check(bool(ks) or None, rule, con, e.loc(), 'files under %s' % show(k)[:60])
                        filed.setdefault(m, set()).update(ks)
                    else:
                        rep.check(False if r.op in ('const', 'param', 'band', 'mod', 'shr', 'lin', 'len') or k.op in ('slice', 'const') else None, rule, con, e.loc(), 'files the entry under %s' % show(k)[:60])
                for o in outs:
                    if o.kind == 'return':
                        rep.check(any(canon(e.term.a[0]) is m for e, ls in walk_events(o.events()) if e.kind == 'setitem'), 'every entry is filed', '%s %s' % (con, show(m)), f.loc(),
                                  'a path of %s does not file the entry in %s (%s)' % (f.name, show(m), facts_text(o)))
            writes[f.name] = ws
    if not filed:
        rep.und('entries are filed under their identifier', 'InsecureKeystore', 'nothing is filed')
    for m, ks in filed.items():
        rep.check(len(ks) == 1, 'one kind of identifier per map', show(m), c.mod.rel, '%s is filed under %s' % (show(m), ' and '.join(sorted(ks))))
    for f in sorted(c.methods.values(), key=lambda f: f.name):
        if not f.name.startswith('get') or f.abstract:
            continue
        rule, con = 'lookup returns the entry of its identifier', 'InsecureKeystore.%s' % f.name
        with rep.guard(rule, con):
            par = f.params[0]
            want = kinds_of(par) or kinds_of(f.name)
            reached = set()
            for o in fl.run(f, selfcls=c):
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                m, k = map_of(v)
                if m is None:
                    rep.check(False if v.op in ('const', 'param', 'elem', 'idx') or v.op == 'mcall' and v.a[0] in ('pop', 'popitem') or is_ext(v, 'next', 'iter', 'builtins.next') else None, rule, con, f.loc(),
                              'returns %s' % show(v)[:80])
                    continue
                if v.op == 'mcall':
                    pos, kw = margs(v)
                    facts = o.facts.get(mk('isnone', v))
                    has = o.facts.get(mk('in', k, m))
                    rep.check(facts is False or has is True, 'unknown identifier is an error', con, f.loc(), 'an unknown identifier gives %s' % (show(pos[1]) if len(pos) > 1 else 'None'))
                else:
                    rep.ok('unknown identifier is an error', con)
                names, r = ident(k)
                rep.check(r.op == 'param' and r.a[0] == par and all(n in ('value', 'digest', 'keyid', 'key_number', '_value') or n.lstrip('_') in ('value', 'digest') for n in names) or (False if k.op in ('const', 'slice') or r.op in ('band', 'mod', 'shr', 'slice', 'lin', 'idx', 'len') and has_param(r, par) or r.op == 'param' and r.a[0] != par else None),
                          rule, con, f.loc(), 'looks up %s' % show(k)[:60])
                if m in filed and want:
                    rep.check(filed[m] <= want, 'lookup uses the map of its identifier', con, f.loc(), '%s looks in a map filed under %s' % (f.name, ' and '.join(sorted(filed[m]))))
                    reached |= filed[m]
                elif m not in filed:
                    rep.viol('lookup uses the map of its identifier', con, f.loc(), '%s looks in %s, which is never filled' % (f.name, show(m)))
            if want and reached:
                rep.check(want <= reached, 'lookup uses the map of its identifier', con + ' all kinds', f.loc(), '%s never looks for a %s' % (f.name, ' or '.join(sorted(want - reached))))


def caches(ctx, rep):
    """a value remembered from an earlier call is returned only for the identifier it was made for"""
    p = ctx.p
    local = lambda f: f.cls is not None and ('Cache' in f.cls.name or 'RsaOaepDecryptor' in f.cls.name and f.name.startswith('_') and f.name != '__init__')
    fl = ctx.lazy('keys.cache', lambda: Flow(ctx, {'create', 'get_aes_key', 'key_id', 'key_number'}, also=local, nomerge=True))
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if not any(b in c.name for b in ('DecryptorCache', 'RsaOaepDecryptor')) or 'est' in c.mod.name.split('.')[-1]:
            continue
        for f in sorted(c.methods.values(), key=lambda f: f.name):
            if f.name in ('__init__', 'decrypt_manifest', 'decrypt_node') or not f.params or f.abstract:
                continue
            con = '%s.%s' % (c.name, f.name)
            with rep.guard('cached value belongs to the identifier', con):
                remembered(ctx, rep, fl, c, f, con)


def ident_terms(ctx0, t):
    """identifiers taken from the security context inside t"""
    out = set()
    for s in subs(t):
        if s.op in ('mcall', 'attr') and base(s) is ctx0:
            n = callee_name(s)
            if n in ('key_id', 'key_number'):
                out.add(n)
    return out


def identifiers(c, o, sc):
    """what tells two keys apart: a number, and for a wrapped key also the wrapping key"""
    for a, b in o.facts.items():
        if a.op == 'isa' and a.a[0] is sc and a.a[1].op == 'cls':
            n = a.a[1].a[0].split('.')[-1]
            if n == 'RsaOaepCtx' and not b or n == 'AeadCtx' and b:
                return {'key_number'}
    return {'key_id', 'key_number'}


def remembered(ctx, rep, fl, c, f, con):
    rule = 'cached value belongs to the identifier'
    sc = mk('param', f.params[0])
    i = fl.i
    outs = fl.run(f, selfcls=c)
    pairs = set()           # (attribute of the value, attribute of its identifier)
    for o in outs:
        if o.kind != 'return':
            continue
        v = canon(o.val)
        if v is NONE and all(x.kind != 'return' or x.val is NONE for x in outs):
            continue            # a helper that only files
        m, k = map_of(v)
        if m is not None:
            need = ident_terms(sc, k)
            want = identifiers(c, o, sc)
            rep.check(want <= need or False, rule, con, f.loc(), 'the cache is looked up by %s only' % (', '.join(sorted(need)) or show(k)[:60]))
            if v.op == 'mcall' and o.facts.get(mk('isnone', v)) is not False and o.facts.get(mk('in', k, m)) is not True:
                rep.viol(rule, con, f.loc(), 'a miss returns %s' % show(v)[:60])
            continue
        if v.op == 'attr' and base(v) is SELF:
            if v.a[0] is SELF and fixed(ctx, c, v.a[1]):
                t = {x.name for x in i.typeof(v, o.st).classes}
                isa = {a.a[1].a[0].split('.')[-1] for a, b in o.facts.items() if b and a.op == 'isa' and a.a[0] is sc and a.a[1].op == 'cls'}
                # an object made once, with its own cache: only for the kind of context it handles
                rep.check(isa == {'RsaOaepCtx'} if t == {'RsaOaepDecryptor'} else None, rule, con, f.loc(), 'the RSA-OAEP decryptor is returned for %s' % (', '.join(sorted(isa)) or 'any context'))
                continue
            eqs = [(x, y) for a, b in o.facts.items() if b and a.op in ('eq', 'is') for x, y in (a.a, a.a[::-1]) if x.op == 'attr' and base(x) is SELF and ident_terms(sc, y)]
            if not eqs:
                rep.viol(rule, con, f.loc(), 'the remembered %s is returned without comparing the identifier it was made for' % show(v))
            else:
                rep.ok(rule, con)
                for x, y in eqs:
                    if v.a[0] is SELF and x.a[0] is SELF:
                        pairs.add((v.a[1], x.a[1]))
            continue
        if any(s.op in ('mcall', 'call', 'new') for s in subs(v)):
            rep.check(made_for(v, sc) or None, rule, con, f.loc(), 'returns %s' % show(v)[:80])
        else:
            rep.check(False if v.op in ('const', 'param') else None, rule, con, f.loc(), 'returns %s' % show(v)[:80])
    # what is remembered stays consistent on every way out, also after an error
    for A, B in pairs:
        for o in outs:
            a, b = o.st.heap.get((SELF, A)), o.st.heap.get((SELF, B))
            if a is None and b is None:
                rep.ok('value and identifier are remembered together', con)
                continue
            how = 'after an error' if o.kind == 'raise' else 'on return'
            if a is None:
                # the identifier changed, the value did not: harmless only when there was no value
                none = o.facts.get(mk('isnone', mk('attr', SELF, A)))
                rep.check(b is NONE or (None if none else False), 'value and identifier are remembered together', con, f.loc(), '%s %s is the new identifier while %s is still the old value' % (how, B, A))
            elif b is None:
                rep.check(canon(a) is NONE or False, 'value and identifier are remembered together', con, f.loc(), '%s %s is a new value while %s is still the old identifier' % (how, A, B))
            else:
                a, b = canon(a), canon(b)
                if a is NONE or b is NONE:
                    rep.ok('value and identifier are remembered together', con)
                    continue
                rep.check(True if ident_terms(sc, b) and made_for(a, sc) else (False if b.op == 'const' else None), 'value and identifier are remembered together', con, f.loc(), '%s %s belongs to %s' % (how, show(a)[:60], show(b)[:60]))
    # a key that came with one manifest is there for the following ones, which need not carry it
    maps = {map_of(canon(o.val))[0] for o in outs if o.kind == 'return'} - {None}
    if maps:
        for o in outs:
            if o.kind != 'return' or map_of(canon(o.val))[0] is not None:
                continue
            v = canon(o.val)
            if v is NONE or not made_for(v, sc) or not any(x.op in ('call', 'mcall', 'new') and any(n in show(x)[:200] for n in ('create', 'Impl', 'Decryptor')) for x in subs(v)):
                continue
            kept_ = any(e.kind == 'setitem' and (canon(e.term.a[2]) is v) for e, ls in walk_events(o.events())) or \
                any(e.kind in ('mut', 'setattr') and any(isinstance(x, T) and mentions(canon(x), v) for x in e.term.a[1:]) for e, ls in walk_events(o.events()))
            opaque = any(e.kind == 'call' and any(isinstance(x, T) and mentions(canon(x), v) for x in e.term.a) and canon(e.term) is not v and base(e.term.a[1] if e.term.op == 'mcall' and isinstance(e.term.a[1], T) else v) is SELF
                         for e, ls in walk_events(o.events()))
            rep.check(kept_ or (None if opaque else False), 'what was made on a miss is remembered', con, f.loc(), '%s makes %s and does not keep it: the manifests that follow carry only its identifier' % (con, show(v)[:60]))
    # entries of a dictionary cache
    for o in outs:
        evs = list(walk_events(o.events()))
        for e, ls in evs:
            if e.kind != 'setitem' or base(e.term.a[0]) is not SELF:
                continue
            m, k, v = [canon(x) for x in e.term.a]
            need = ident_terms(sc, k)
            rep.check(identifiers(c, o, sc) <= need, 'entry is filed under its identifiers', con, e.loc(), 'the entry is filed under %s only' % (', '.join(sorted(need)) or show(k)[:60]))
            rep.check(made_for(v, sc) or (None if v.op == 'param' and f.name.startswith('_') else False if v.op in ('const', 'param') else None), 'entry was made for its identifiers', con, e.loc(), 'files %s' % show(v)[:60])
            if o.kind == 'raise':
                rep.viol('failure leaves no entry', con, e.loc(), 'after an error the entry %s stays behind' % show(v)[:60])
            keys = {canon(x) for a, x in [map_of(canon(q.val)) for q in outs if q.kind == 'return'] if a is m}
            rep.check(k in keys if keys else None, 'lookup and filing use the same key', con, e.loc(), 'filed under %s, looked up under %s' % (show(k)[:80], ', '.join(show(x)[:80] for x in keys)))


def fixed(ctx, c, attr):
    """assigned only in the constructor"""
    for m in c.methods.values():
        if m.name == '__init__':
            continue
        for n in ast.walk(m.node):
            if isinstance(n, ast.Attribute) and n.attr == attr and isinstance(n.ctx, (ast.Store, ast.Del)):
                return False
    return True


def made_for(v, sc):
    """built from the security context (or from a key looked up by its number)"""
    return mentions(v, sc)


def callers(ctx, rep):
    """every lookup asks for an identifier of the object at hand"""
    fl = ctx.lazy('keys.lookup', lambda: Flow(ctx, {'get_aes_key', 'get_rsa', 'get_rsa_pub_key'}))
    c = ctx.p.cls('InsecureKeystore')
    want = {'get_aes_key': ('key number',), 'get_rsa': ('key id', 'name'), 'get_rsa_pub_key': ('key id',)}
    for f in library(ctx.p):
        if f.cls is c or f.abstract or f.name.startswith('test') or not any(calls_of(f, n) for n in want):
            continue
        con = short(f)
        with rep.guard('lookup asks for the right identifier', con):
            for o in fl.run(f, selfcls=f.cls):
                for n in want:
                    for e, ls, r, pos, kw in mcalls(o, n):
                        x = canon((pos + list(kw.values()) + [NONE])[0])
                        names, root = ident(x)
                        ks = {KINDS[q.lstrip('_')] for q in names if q.lstrip('_') in KINDS} | (kinds_of(root.a[0]) if root.op == 'param' and not names else set())
                        if x.op == 'const' or x.op == 'new' and not any(q.op in ('param', 'elem', 'lv', 'mcall', 'call') for q in subs(x)):
                            rep.check(n == 'get_rsa', 'lookup asks for the right identifier', con, e.loc(), '%s is asked for %s' % (n, show(x)))
                        else:
                            ks &= {'key id', 'key number', 'name'}
                            rep.check(bool(ks & set(want[n])) if ks else None, 'lookup asks for the right identifier', con, e.loc(), '%s is asked for %s' % (n, show(x)[:80]))


# ------------------------------------------------------------------ K07
SINKS = {'print', 'pprint', 'debug', 'info', 'warning', 'warn', 'error', 'exception', 'critical', 'log'}
STORES = {'write', 'write_bytes', 'write_text', 'writelines', 'dump', 'save', 'tofile'}
QUIET = {'len', 'isnone', 'isa', 'eq', 'is', 'lt0', 'in', 'truth', 'not', 'or', 'and', 'hasattr', 'new', 'cls', 'fn', 'lin', 'mul'}
PASS = {'tobytes', 'hex', 'decode', 'encode', 'str', 'repr', 'format', 'b64encode', 'hexlify', 'list', 'tuple', 'bytes', 'bytearray', 'join', 'array', 'ascii', 'upper', 'lower', 'strip',
        'to_bytes', 'from_bytes', 'b2a_hex', 'unhexlify', 'fromhex', 'sorted', 'reversed', 'copy', 'dumps', 'pformat', 'vars', '__dict__', 'asdict', 'hexdump'}
PASSWORDS = ('password', 'passwd', 'passphrase', 'key_pass', 'wrap_pass', 'enc_key')


def named_secret(n):
    n = n.lower().strip('_')
    return n in PASSWORDS or n.endswith('_pass') or 'password' in n


def isa_name(i, t, st, name):
    return any(name in [b.name for b in c.mro()] for c in i.typeof(t, st).classes)


class Taint:
    def __init__(self, ctx, i):
        self.ctx, self.i = ctx, i
        self.args = secret_options(ctx)
        self.gives = {}         # functions whose result contains a secret: name -> classes

    def summaries(self, fl, fs):
        """which functions return secrets, to a fixed point"""
        for _ in range(4):
            n = sum(map(len, self.gives.values()))
            for f in fs:
                if f.cls is None or f.cls in self.gives.get(f.name, ()):
                    continue
                try:
                    outs = fl.run(f, selfcls=f.cls)
                except Exception:
                    continue
                if any(o.kind == 'return' and self.secret(canon(o.val), o.st) for o in outs):
                    self.gives.setdefault(f.name, set()).add(f.cls)
            if sum(map(len, self.gives.values())) == n:
                break

    def secret(self, t, st, depth=0):
        """a secret that can be read off the value t when it is shown, or None"""
        if depth > 60 or not isinstance(t, T):
            return None
        op = t.op
        if op in QUIET:
            return None
        if op == 'attr':
            if t.a[1] == '_key' and self.isa(t.a[0], st, 'AeadKey'):
                return 'the content key ' + show(t)[:60]
            if named_secret(t.a[1]):
                return 'the secret ' + show(t)[:60]
            if t.a[1] == '__dict__':
                return self.whole(t.a[0], st)
            if t.a[1] in ('_private_numbers', 'd', 'p', 'q') and 'private' in show(t.a[0]):
                return 'the private key'
            return None
        if op == 'param':
            if named_secret(t.a[0].lstrip('*')):
                return 'the password ' + t.a[0]
            return None
        if op in ('mcall', 'call'):
            n = callee(t)
            pos, kw = margs(t) if op == 'mcall' else cargs(t)
            if n == 'key' and op == 'mcall' and self.isa(t.a[1], st, 'AeadKey'):
                return 'the content key ' + show(t)[:60]
            if n == 'private_bytes':
                return None if encrypted(t) else 'the unencrypted private key'
            if n in ('private_numbers', 'private_key_pem', 'private_key_der'):
                return 'the private key'
            if n in ('getpass',):
                return 'a password'
            if n in ('decrypt_oaep_sha256', 'derive'):
                return 'key material from %s()' % n
            if op == 'mcall' and n in self.gives and any(g in c.mro() or c in g.mro() for c in self.i.typeof(t.a[1], st).classes for g in self.gives[n]):
                return 'key material from %s()' % n
            if n in PASS:
                for x in ([t.a[1]] if op == 'mcall' else []) + pos + list(kw.values()):
                    s = self.whole(x, st) if n in ('vars', 'asdict') else self.secret(x, st, depth + 1)
                    if s:
                        return s
                return None
            return None
        if op in ('exc',):
            return None
        for x in t.a:
            if isinstance(x, T):
                s = self.secret(x, st, depth + 1)
                if s:
                    return s
        return None

    def isa(self, t, st, name):
        return isa_name(self.i, t, st, name) or t.op == 'param' and t.a[0] == 'self' and False

    def whole(self, t, st):
        """every field of t is shown"""
        if self.isa(t, st, 'AeadKey'):
            return 'the content key inside ' + show(t)[:40]
        return None

    def namespace(self, t):
        """the whole namespace of command-line options"""
        return t.op == 'param' and t.a[0] in ('args', 'namespace', 'options') or t.op == 'mcall' and t.a[0] == 'parse_args' or t.op == 'call' and callee(t) in ('parse_args',)

    def shown(self, t, st):
        """secret in a value handed to a sink, following the conversion of objects to text"""
        s = self.secret(t, st)
        if s:
            return s
        return self.ns(t)

    def ns(self, t):
        if self.namespace(t):
            return 'the command-line options, among them %s' % ', '.join(sorted(self.args)) if self.args else None
        if t.op in ('fstr', 'cat', 'plus', 'kw', 'seq') or t.op in ('call', 'mcall') and callee(t) in PASS:
            for x in t.a:
                if isinstance(x, T):
                    s = self.ns(x)
                    if s:
                        return s
        return None


def secret_options(ctx):
    """destinations of the command-line options that hold secrets"""
    def build():
        out = set()
        for m in ctx.p.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
                    for k in n.keywords:
                        if k.arg == 'dest' and isinstance(k.value, ast.Constant) and named_secret(str(k.value.value)):
                            out.add(k.value.value)
        return out
    return ctx.lazy('keys.options', build)


def encrypted(t):
    """private_bytes() with an encryption that uses a password"""
    pos, kw = margs(t)
    e = kw.get('encryption_algorithm', pos[2] if len(pos) > 2 else None)
    if e is None:
        return False
    e = canon(e)
    if e.op == 'call' and callee(e) in ('BestAvailableEncryption',):
        return True
    return None if e.op not in ('call',) else False


def sink_calls(f):
    """the function shows or stores something itself"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else ''
            if nm in SINKS or nm in STORES:
                return True
        if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call) and (n.exc.args or n.exc.keywords):
            return True
        if isinstance(n, ast.Assert) and n.msg is not None:
            return True
    return f.name in ('__repr__', '__str__', '__format__')


def sunk(o, f):
    """(event, what kind of sink, values)"""
    for e, ls in walk_events(o.events()):
        t = e.term
        if not isinstance(t, T):
            continue
        if e.kind == 'call' and t.op in ('mcall', 'call'):
            n = callee(t)
            pos, kw = margs(t) if t.op == 'mcall' else cargs(t)
            xs = pos + list(kw.values())
            if n in SINKS and not (t.op == 'mcall' and n == 'error' and t.a[1].op == 'param' and t.a[1].a[0] == 'parser'):
                yield e, 'shown', [x for x in xs if x.op != 'kw']
            elif n in STORES:
                yield e, 'stored', xs
        elif e.kind == 'raise':
            if t.op == 'new':
                yield e, 'in an exception', [x for x in kwargs(t).values()]
            elif t.op == 'call':
                pos, kw = cargs(t)
                yield e, 'in an exception', pos + list(kw.values())
    if o.kind == 'return' and f.name in ('__repr__', '__str__', '__format__'):
        yield None, 'shown', [o.val]


def k07(ctx, rep):
    fl = ctx.lazy('keys.taint', lambda: Flow(ctx, set(), keep=(), logs=True))
    tn = Taint(ctx, fl.i)
    tn.summaries(fl, [f for f in library(ctx.p) if f.mod.name.startswith(('ccnpy.crypto', 'ccnpy.flic.RsaOaepCtx', 'ccnpy.flic.aeadctx')) and not f.abstract and not f.name.startswith('__')])
    through = {}            # function -> names of parameters it shows
    fs = [f for f in library(ctx.p) if not f.abstract and sink_calls(f)]
    rule = 'secrets are neither shown nor stored'
    for f in fs:
        con = short(f)
        with rep.guard(rule, con):
            outs = fl.run(f, selfcls=f.cls)
            for o in outs:
                for e, kind, xs in sunk(o, f):
                    for x in xs:
                        x = canon(x)
                        s = tn.shown(x, o.st)
                        loc = e.loc() if e is not None else f.loc()
                        if s:
                            rep.viol(rule, con, loc, '%s is %s' % (s, kind))
                        else:
                            rep.ok(rule, con)
                        for p in leaves(x):
                            if p in f.params:
                                through.setdefault(f, {}).setdefault(p, (loc, kind))
    # secrets handed to a function that shows its parameter
    names = {f.name for f in through}
    rule = 'secrets are not handed to code that shows them'
    for f in library(ctx.p):
        if f.abstract or not (called_names(f) & names):
            continue
        con = short(f)
        with rep.guard(rule, con):
            for o in fl.run(f, selfcls=f.cls):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind != 'call' or not isinstance(t, T) or t.op not in ('mcall', 'call') or callee(t) not in names:
                        continue
                    pos, kw = margs(t) if t.op == 'mcall' else cargs(t)
                    for g, ps in through.items():
                        if g.name != callee(t):
                            continue
                        got = dict(zip([q for q in g.params], pos))
                        got.update(kw)
                        for q, (loc, kind) in ps.items():
                            if q in got:
                                s = tn.shown(canon(got[q]), o.st)
                                rep.check(not s, rule, con, e.loc(), '%s is handed to %s, where it is %s (%s)' % (s, g.name, kind, loc))
    saved(ctx, rep)
    reprs(ctx, rep)
    masked(ctx, rep, fl, tn)


def all_options(tn, t):
    """a copy of every option in the namespace: dict(vars(args)), also as Namespace(**…)"""
    if t.op not in ('mcall', 'call'):
        return None
    n = callee(t)
    pos, kw = margs(t) if t.op == 'mcall' else cargs(t)
    if n == 'vars' and len(pos) == 1 and tn.namespace(pos[0]):
        return t
    if n in ('dict', 'copy', 'deepcopy') and not kw:
        inner = pos[0] if len(pos) == 1 else t.a[1] if t.op == 'mcall' and not pos else None
        return t if isinstance(inner, T) and all_options(tn, canon(inner)) is not None else None
    if n == 'Namespace' and not pos and len(kw) == 1:
        return all_options(tn, canon(next(iter(kw.values()))))
    return None


def masked(ctx, rep, fl, tn):
    """a copy of all options that a function makes to be shown does not have the secret ones in it"""
    rule = 'no secret is left in a copy of the options'
    for f in library(ctx.p):
        if f.abstract or not (called_names(f) & {'vars'}):
            continue
        con = short(f)
        with rep.guard(rule, con):
            for o in fl.run(f, selfcls=f.cls):
                if o.kind != 'return':
                    continue
                d = all_options(tn, canon(o.val))
                if d is None:
                    continue
                gone, vague = set(), False
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if not isinstance(t, T):
                        continue
                    if e.kind == 'setitem' and canon(t.a[0]) is d:
                        k = t.a[1]
                        if k.op != 'const' or ls:
                            vague = True
                        elif not isinstance(t.a[2], T) or tn.secret(canon(t.a[2]), o.st) or subs_has(t.a[2], d):
                            continue
                        else:
                            gone.add(k.a[0])
                    elif t.op == 'mcall' and canon(t.a[1]) is d and callee(t) in ('pop', 'update', 'clear', '__delitem__', '__setitem__', 'setdefault'):
                        pos = margs(t)[0]
                        if callee(t) == 'pop' and pos and pos[0].op == 'const':
                            gone.add(pos[0].a[0])
                        else:
                            vague = True
                    elif e.kind in ('call', 'mut') and t.op in ('call', 'mcall') and all_options(tn, canon(t)) is None and any(x is d for x in flat_args(t)):
                        vague = True        # handed to something that may change it
                    elif e.kind == 'loop':
                        vague = True
                for a, b in o.facts.items():
                    if a.op == 'in' and not b and isinstance(a.a[0], T) and a.a[0].op == 'const':
                        gone.add(a.a[0].a[0])       # not there at all
                    x = a.a[0] if a.op == 'isnone' and b else None
                    if x is not None and x.op in ('mcall', 'idx', 'attr'):
                        for y in (margs(x)[0][:1] if x.op == 'mcall' else [x.a[1]]):
                            y = y.a[0] if isinstance(y, T) and y.op == 'const' else y
                            if isinstance(y, str):
                                gone.add(y)
                for s in sorted(tn.args - gone):
                    rep.check(None if vague else False, rule, con, f.loc(), 'the option %s is copied as it is, and the copy is returned to be shown' % s)
                for s in sorted(tn.args & gone):
                    rep.ok(rule, con)


def subs_has(t, d):
    return any(x is d for x in subs(t))


def leaves(t):
    """parameters whose text is part of the value t"""
    if t.op == 'param':
        return {t.a[0]}
    if t.op in QUIET or t.op in ('attr', 'exc', 'idx'):
        return set()
    if t.op in ('mcall', 'call'):
        if callee(t) not in PASS:
            return set()
    out = set()
    for x in t.a:
        if isinstance(x, T):
            out |= leaves(x)
    return out


def saved(ctx, rep):
    """a private key is serialised for storage only under the password of the caller"""
    rule = 'private key is saved encrypted'
    fl = ctx.lazy('keys.save', lambda: Flow(ctx, {'private_bytes'}, keep=()))
    n = 0
    for f in library(ctx.p):
        if not calls_of(f, 'private_bytes') or f.abstract:
            continue
        con = short(f)
        with rep.guard(rule, con):
            stores = bool(called_names(f) & (STORES | {'open'}))
            for o in fl.run(f, selfcls=f.cls):
                for e, ls, r, pos, kw in mcalls(o, 'private_bytes'):
                    n += 1
                    a = canon(kw.get('encryption_algorithm', pos[2] if len(pos) > 2 else NONE))
                    good = a.op == 'call' and callee(a) == 'BestAvailableEncryption'
                    if good:
                        x, k = cargs(a)
                        pw = strip_arr((x + list(k.values()) + [NONE])[0])
                        root = pw
                        while root.op in ('mcall', 'call') and callee(root) in PASS and (root.op == 'mcall' or cargs(root)[0]):
                            root = root.a[1] if root.op == 'mcall' else cargs(root)[0][0]
                        rep.check(True if root.op == 'param' and named_secret(root.a[0]) else (False if root.op in ('const', 'or', 'sel', 'slice', 'idx', 'len') else None), rule, con, e.loc(), 'the private key is protected by %s' % show(pw)[:60])
                    elif stores or f.name.startswith('save'):
                        rep.check(False if a is NONE or a.op in ('call', 'const') else None, rule, con, e.loc(), 'the private key is written with %s' % show(a)[:80])
                    else:
                        rep.ok(rule, con)
    if not n:
        rep.und(rule, 'RsaKey', 'no private key is serialised')


def reprs(ctx, rep):
    """dataclass fields are part of the generated text"""
    rule = 'generated text shows no secret'
    for c in sorted(ctx.p.classes.values(), key=lambda c: c.qual):
        decos = [ast.dump(d) for d in c.node.decorator_list]
        if not any("'dataclass'" in d for d in decos) or '__repr__' in c.methods or any("arg='repr'" in d and 'value=False' in d for d in decos):
            continue
        for s in c.node.body:
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                hidden = isinstance(s.value, ast.Call) and any(k.arg == 'repr' and isinstance(k.value, ast.Constant) and k.value.value is False for k in s.value.keywords)
                rep.check(hidden or not named_secret(s.target.id), rule, '%s.%s' % (c.name, s.target.id), '%s:%d' % (c.mod.rel, s.lineno), 'the generated text of %s shows %s' % (c.name, s.target.id))


RULES = {'K04': k04, 'K07': k07, 'K08': k08}
