"""F10: every configured option reaches the field it is named after."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library
from .tree import short, pname, args_of, arg, SELF
from .build import *
from .build import opt
from .publish import *
from .publish import body_of_packet
from .names import role, ctors, impl_flow


def f10(ctx, rep):
    roots_carry(ctx, rep)
    manifests_carry(ctx, rep)
    data_carry(ctx, rep)
    factory_passes(ctx, rep)
    content(ctx, rep)
    wrappers(ctx, rep)
    prefixes(ctx, rep)
    forwards(ctx, rep)
    read_somewhere(ctx, rep)


def options(p):
    c = p.cls('ManifestTreeOptions')
    return list(c.anns)


def from_option(t, name, names):
    """is the value the option called name: True, False (something known to be else), None"""
    if t is None or t.op == 'const':
        return False
    hit = {s.a[1] for s in subs(t) if s.op == 'attr' and s.a[1] in names}
    if hit == {name}:
        return True if t.op == 'attr' else None
    if hit and name not in hit:
        return False
    return None


def built(o):
    for e, ls in walk_events(o.events()):
        t = e.term
        if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'build_packet':
            yield e, t


ROOT = (('name', 'name'), ('expiry_time', 'root_expiry_time'), ('signer', 'signer'))


def roots_carry(ctx, rep):
    """what the publisher asks the factory for"""
    rule = 'the root manifest has the configured name, expiry time and signer'
    p = ctx.p
    names = options(p)
    fl = pub_flow(ctx)
    for c in publisher_classes(ctx):
        for f in sorted(c.methods.values(), key=lambda f: f.qual):
            if f.name not in fl.rel or not calls_of(f, 'build_packet'):
                continue
            con = short(f)
            with rep.guard(rule, con):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    for e, t in built(o):
                        for k, n in ROOT:
                            v = arg(t, k)
                            v = canon(v) if v is not None else None
                            if v is not None and v.op == 'param' and v.a[0] == n:
                                continue
                            rep.check(from_option(v, n, names), rule, con, e.loc(), 'the %s is %s' % (k, show(v)[:60] if v is not None else 'not given'))
                        v = arg(t, 'nc_defs')
                        v = canon(v) if v is not None else NONE
                        r2 = 'the root manifest defines every name constructor'
                        if v.op == 'mcall' and v.a[0] == 'nc_def':
                            q = True if role(v.a[1]) is None else False
                        elif v.op == 'seq':
                            rs = {role(s.a[1]) for s in subs(v) if s.op == 'mcall' and s.a[0] == 'nc_def'}
                            q = None if None in rs else rs == {'data', 'manifest'}
                        else:
                            q = False if v.op in ('const', 'slice', 'idx') else None
                        rep.check(q, r2, con, e.loc(), 'the definitions are %s' % show(v)[:60])
                        v = arg(t, 'include_full_security_context')
                        v = canon(v) if v is not None else NONE
                        rep.check(True if v is const(True) else False if v.op == 'const' or undecided(v, o.facts) else None, 'the root manifest carries the full security context', con, e.loc(), 'it is asked for with %s' % show(v)[:60])
                        v = arg(t, 'source', 0)
                        v = canon(v) if v is not None else NONE
                        q = None
                        if v.op == 'new' and pname(v) == 'Pointers' and v.a[2:] and isinstance(arg(v, 'hash_values', 0), T) and arg(v, 'hash_values', 0).op == 'seq':
                            xs = arg(v, 'hash_values', 0).a[1:]
                            if not any(isinstance(x, T) and x.op in ('each', 'spread') for x in xs):
                                q = len(xs) == 1
                        rep.check(q, 'the root manifest has one pointer', con, e.loc(), 'the source is %s' % show(v)[:60])


ATOMS = ('isnone', 'truth', 'eq', 'is', 'lt0', 'in', 'isa', 'not', 'and', 'or', 'hasattr')


def undecided(v, facts):
    """a condition the path says nothing about, so that it can be false"""
    if v.op == 'attr':
        return v not in {a.a[0] for a in facts if a.a and isinstance(a.a[0], T)}
    while v.op == 'not':
        v = v.a[0]
    return v.op in ATOMS and v.op not in ('and', 'or', 'not') and v not in facts


def manifests_carry(ctx, rep):
    rule = 'other manifests have the manifest expiry time'
    names = options(ctx.p)
    for c, (cyc, entry) in sorted(builders(ctx).items(), key=lambda x: x[0].qual):
        fl = tree_flow(ctx, c)
        for f in sorted(set(c.methods.values()), key=lambda f: f.qual):
            if not calls_of(f, 'build_packet') and f not in cyc:
                continue
            con = short(f)
            with rep.guard(rule, con):
                for o in fl.run(f, selfcls=c):
                    for e, t in built(o):
                        v = arg(t, 'expiry_time')
                        v = canon(v) if v is not None else None
                        rep.check(from_option(v, 'manifest_expiry_time', names), rule, con, e.loc(), 'the expiry time is %s' % (show(v)[:60] if v is not None else 'not given'))


def data_carry(ctx, rep):
    rule = 'data packets have the data expiry time'
    names = options(ctx.p)
    for f, c, fl, outs in chunk_runs(ctx):
        con = '%s for %s' % (short(f), c.name if c else '')
        with rep.guard(rule, con):
            for o in outs:
                if o.kind != 'return':
                    continue
                for e, q, cm, ps, fs in data_chunks(o):
                    if q[0] == 'raise':
                        continue
                    for ev, P in ps:
                        real = body_of_packet(P)
                        if real is None:
                            rep.und(rule, con, show(P)[:60])
                            continue
                        x = real.get('expiry_time', NONE)
                        hit = {s.a[1] for s in subs(x) if s.op == 'attr' and s.a[1] in names}
                        if x is NONE or x.op == 'const':
                            none = any(a.op == 'isnone' and v and a.a[0].op == 'attr' and a.a[0].a[1] == 'data_expiry_time' for a, v in fs.items())
                            rep.check(none, rule, con, ev.loc(), 'the expiry time is %s' % show(x))
                        elif hit == {'data_expiry_time'}:
                            rep.check(True if x.op == 'attr' or unchanged(x) else None, rule, con, ev.loc(), '')
                        else:
                            rep.check(False if hit else None, rule, con, ev.loc(), 'the expiry time is %s' % show(x)[:80])


def unchanged(x):
    """a conversion of the option, without arithmetic on it"""
    return not any(s.op in ('lin', 'mul') for s in subs(x))


# ------------------------------------------------------------------ the factory
WAYS = {'Pointers': ('NodeData', 'GroupData'), 'HashGroup': ('NodeData',), 'List': ('NodeData',), 'list': ('NodeData',)}


def factory_passes(ctx, rep):
    for f in factories(ctx):
        con = short(f)
        rule = 'the manifest carries what the factory is given'
        with rep.guard(rule, con):
            fl, outs = factory_paths(ctx, f)
            for o in outs:
                yes, no = source_kind(o)
                for cls, pn, field in (('NodeData', 'nc_defs', 'nc_defs'), ('GroupData', 'nc_id', 'nc_id'), ('GroupData', 'start_segment_id', 'start_segment_id')):
                    if pn not in f.params or not any(cls in WAYS.get(y, ()) for y in yes):
                        continue
                    P = mk('param', pn)
                    xs = made(o, cls)
                    got = {arg(x, field) or NONE for x in xs} or {NONE}
                    none = opt(o, P)
                    for g in got:
                        if g is P:
                            rep.ok(rule, con)
                        elif g is NONE:
                            rep.check(True if none or no_value(o, P) else False, rule, con, f.loc(), 'the %s is dropped' % pn)
                        else:
                            rep.check(False if g.op in ('const', 'param') else None, rule, con, f.loc(), 'the %s is %s' % (pn, show(g)[:60]))
                packet(rep, f, con, o)


def content(ctx, rep):
    """making a content object of a manifest keeps name and expiry time"""
    rule = 'the packet carries the name and expiry time the factory is given'
    c = ctx.p.cls('Manifest')
    f = c.find('content_object')
    if f is None:
        return
    con = short(f)
    with rep.guard(rule, con):
        for o in Flow(ctx, {'ContentObject'}, samename=True, also=lambda g: g.name.startswith('create_')).run(f, selfcls=c):
            if o.kind != 'return':
                continue
            v = canon(o.val)
            if v.op != 'new':
                rep.und(rule, con, show(v)[:60])
                continue
            for k in ('name', 'expiry_time'):
                P = mk('param', k)
                x = arg(v, k)
                x = NONE if x is None else x
                rep.check(True if x is P or mentions(x, P) or x is NONE and (opt(o, P) or no_value(o, P)) else False if x.op in ('const', 'param') else None, rule, con, f.loc(), 'the %s is %s' % (k, show(x)[:60]))


def no_value(o, P):
    return any(a.op == 'truth' and v is False and a.a[0] is P for a, v in o.facts.items())


def packet(rep, f, con, o):
    v = canon(o.val)
    rule = 'the packet carries the name and expiry time the factory is given'
    bodies = [s for s in subs(v) if s.op == 'mcall' and s.a[0] == 'content_object']
    body = arg(v, 'body') if v.op == 'new' else None
    if body is not None and body.op == 'mcall' and body.a[0] == 'content_object':
        for k in ('name', 'expiry_time'):
            if k not in f.params:
                continue
            P = mk('param', k)
            x = arg(body, k)
            if x is None:
                x = NONE
            rep.check(True if x is P or x is NONE and opt(o, P) else False if x.op in ('const', 'param') else None, rule, con, f.loc(), 'the %s is %s' % (k, show(x)[:60]))
        m = body.a[1]
        r3 = 'the packet carries the manifest that was made'
        enc = [e.term for e, ls in walk_events(o.events()) if e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[0] == 'encrypt']
        if m.op == 'new' and pname(m) == 'Manifest' and enc:
            want = 'security_ctx', 'node', 'auth_tag'
            for i, k in enumerate(want):
                x = arg(m, k)
                t = enc[-1]
                ok = x is not None and x.op == 'idx' and x.a[0] is t and num(x.a[1]) == i
                rep.check(True if ok else False if x is None or x.op in ('const', 'param') or x.op == 'idx' and x.a[0] is t else None, r3, con, f.loc(), 'the %s of the encrypted manifest is %s' % (k, show(x)[:40] if x is not None else 'not given'))
            iw = arg(enc[-1], 'include_wrapper')
            if iw is None:
                for k, x in args_of(enc[-1]):
                    if x.op == 'dict' and 'include_wrapper' in show(x):
                        xs = list(x.a)
                        for i in range(0, len(xs) - 1):
                            if isinstance(xs[i], T) and xs[i] is const('include_wrapper'):
                                iw = xs[i + 1]
            P = mk('param', 'include_full_security_context')
            if iw is None and 'include_full_security_context' in f.params:
                asked = any(a.op == 'truth' and a.a[0] is P and not v for a, v in o.facts.items())
                rep.check(True if asked else None if any('include_full_security_context' in show(x) or '**' in show(x) for x in args_of(enc[-1]) for x in x if isinstance(x, T)) else False, 'the encryptor is told whether to include the wrapped key', con, f.loc(), 'it is not told')
            elif iw is not None:
                known = [v for a, v in o.facts.items() if a.op == 'truth' and a.a[0] is P]
                rep.check(True if iw is P or known and iw is const(known[0]) else False if iw.op in ('const', 'param') else None, 'the encryptor is told whether to include the wrapped key', con, f.loc(), 'it is told %s' % show(iw)[:60])
    else:
        rep.und(rule, con, show(v)[:60])
    # the signature
    if 'signer' not in f.params:
        return
    rule = 'the packet is signed by the signer the factory is given'
    S = mk('param', 'signer')
    none = opt(o, S)
    va, vp = (arg(v, 'validation_alg'), arg(v, 'validation_payload')) if v.op == 'new' else (None, None)
    if v.op != 'new':
        rep.und(rule, con, show(v)[:60])
    elif none or no_value(o, S):
        rep.ok(rule, con)
    else:
        good = va is not None and va.op == 'mcall' and va.a[1] is S and vp is not None and vp.op == 'mcall' and vp.a[0] == 'sign' and vp.a[1] is S
        bad = va is None or vp is None or va.op == 'const' or vp.op == 'const' or any(x.op == 'mcall' and x.a[1].op in ('attr', 'param') and x.a[1] is not S and not mentions(x.a[1], S) for x in (va, vp))
        rep.check(True if good else False if bad else None, rule, con, f.loc(), 'the signature is %s' % (show(vp)[:60] if vp is not None else 'missing'))


# ------------------------------------------------------------------ wrapped key
def wrappers(ctx, rep):
    """an encryptor with a wrapped key includes it exactly when asked"""
    rule = 'the security context includes the wrapped key when asked for'
    fl = Flow(ctx, {'encrypt'}, samename=True)
    for f in sorted(library(ctx.p), key=lambda f: f.qual):
        if f.name != 'encrypt' or f.abstract or f.cls is None or 'include_wrapper' not in f.params:
            continue
        con = short(f)
        with rep.guard(rule, con):
            P = mk('param', 'include_wrapper')
            for o in fl.run(f, selfcls=f.cls):
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                for x in news(v, 'RsaOaepCtx'):
                    w = arg(x, 'rsa_oaep_wrapper')
                    w = w if w is not None else NONE
                    asked = next((b for a, b in o.facts.items() if a.op == 'truth' and a.a[0] is P), None)
                    if asked is None:
                        rep.check(False if w.op == 'const' else None, rule, con, f.loc(), 'the wrapped key is %s' % show(w)[:40])
                    elif asked:
                        rep.check(True if w.op == 'attr' and 'wrap' in w.a[1] else False if w.op == 'const' else None, rule, con, f.loc(), 'asked for, the wrapped key is %s' % show(w)[:40])
                    else:
                        rep.check(w is NONE if w.op in ('const', 'attr') else None, rule, con, f.loc(), 'not asked for, the wrapped key is %s' % show(w)[:40])
    # whoever stands in front of it passes the question on
    rule = 'the request for the wrapped key reaches the encryptor'
    p = ctx.p
    for c in sorted(p.cls('ManifestEncryptor').all_subs(), key=lambda c: c.qual):
        f = c.find('encrypt')
        if f is None or f.abstract:
            continue
        con = '%s for %s' % (short(f), c.name)
        with rep.guard(rule, con):
            fa = f.node.args
            taken = 'include_wrapper' in f.params
            if fa.kwarg is None and not taken:
                rep.check(False if any(calls_named(g, 'encrypt') for g in ()) else None, rule, con, f.loc(), '')
                continue
            for call in ast.walk(f.node):
                if not (isinstance(call, ast.Call) and isinstance(call.func, ast.Attribute) and call.func.attr == 'encrypt'):
                    continue
                cs = inner_encrypt(ctx, c, call)
                takes = [g for g in cs if 'include_wrapper' in g.params or g.node.args.kwarg is not None]
                if not cs:
                    rep.und(rule, con, 'unknown encryptor')
                    continue
                if not takes:
                    rep.ok(rule, con)
                    continue
                fwd = any(k.arg is None for k in call.keywords) or any(k.arg == 'include_wrapper' for k in call.keywords) or len(call.args) > 1
                rep.check(fwd, rule, con, f.loc(), 'the request for the wrapped key is not passed on')


def calls_named(g, n):
    return calls_of(g, n)


def inner_encrypt(ctx, c, call):
    """the encrypt methods behind self.<attribute>.encrypt(…)"""
    recv = call.func.value
    if not (isinstance(recv, ast.Attribute) and isinstance(recv.value, ast.Name)):
        return []
    out = []
    i = ctors(ctx)
    for o in i.ctor(c):
        v = o.st.heap.get((SELF, recv.attr))
        if v is None:
            continue
        for k in i.typeof(v, o.st).classes or ():
            m = k.find('encrypt')
            if m is not None and m not in out:
                out.append(m)
    return out


# ------------------------------------------------------------------ name constructors
def prefixes(ctx, rep):
    """each constructor gets its own prefix or locators, and the name of the tree without one"""
    p = ctx.p
    c = p.cls('NameConstructorContext')
    fl = impl_flow(ctx)
    f = c.find('create')
    rule = 'each name constructor has its configured prefix or locators'
    with rep.guard(rule, short(f)):
        for o in fl.run(f, selfcls=c):
            if o.kind != 'return' or canon(o.val).op != 'new':
                continue
            v = canon(o.val)
            same = arg(v, 'manifest_schema_impl') is arg(v, 'data_schema_impl')
            for who in ('manifest', 'data'):
                x = arg(v, who + '_schema_impl')
                if x is None or x.op != 'new':
                    rep.und(rule, short(f), show(v)[:60])
                    continue
                s = arg(x, 'schema')
                if s is None:
                    rep.und(rule, short(f), show(x)[:60])
                    continue
                hashed = bool(news(s, 'HashSchema'))
                own = '%s_%s' % (who, 'locators' if hashed else 'prefix')
                other = '%s_%s' % ('data' if who == 'manifest' else 'manifest', 'locators' if hashed else 'prefix')
                hit = {y.a[1] for y in subs(s) if y.op == 'attr' and y.a[1] in ('name', 'manifest_prefix', 'data_prefix', 'manifest_locators', 'data_locators')}
                none = {}
                for a, b in o.facts.items():
                    if a.op == 'isnone' and a.a[0].op == 'attr':
                        none[a.a[0].a[1]] = b
                    if a.op == 'truth' and a.a[0].op == 'attr':
                        none.setdefault(a.a[0].a[1], not b)
                con = '%s, %s' % (short(f), who)
                if hit == {own}:
                    rep.check(True if none.get(own) is False else False if none.get(own) is None else None, rule, con, f.loc(), 'without %s it has no name' % own)
                elif hit == {'name'}:
                    # the tree's name only without a prefix of its own
                    q = none.get(own)
                    rep.check(True if q or same and eq_known(o, own, 'name') else None if same and eq_known(o, other) else False, rule, con, f.loc(), '%s is not used' % own)
                elif hit == {other}:
                    rep.check(True if same and (eq_known(o, own, other) or none.get(own) and eq_known(o, other, 'name')) else False, rule, con, f.loc(), '%s is used for the %s' % (other, who))
                elif not hit:
                    rep.check(False, rule, con, f.loc(), 'no configured name is used: %s' % show(s)[:60])
                else:
                    rep.und(rule, con, show(s)[:80])
                # the suffix a segmented name gets
                segs = [y for y in subs(s) if pname(y) in ('SegmentedSchema', 'create_for_manifest', 'create_for_data') and y.op in ('new', 'call', 'mcall')]
                if segs:
                    k = suffix_of(ctx, segs[0])
                    r2 = 'manifests and data get their own kind of name suffix'
                    want = {'manifest': 'manifest', 'data': 'chunk'}[who]
                    rep.check(None if k is None else k == want, r2, con, f.loc(), 'the %s names end in a %s number' % (who, k))


def eq_known(o, *names):
    return any(a.op == 'eq' and b and {s.a[1] for s in subs(a) if s.op == 'attr'} >= set(names) for a, b in o.facts.items())


def suffix_of(ctx, y):
    """'manifest' or 'chunk': the component type a segmented schema appends"""
    p = ctx.p
    n = pname(y)
    v = None
    if y.op == 'new':
        v = arg(y, 'suffix_type')
    else:
        cs = p.cls('SegmentedSchema')
        m = cs.find(n)
        if m is None:
            return None
        for o in Flow(ctx, set(), samename=True).run(m, selfcls=cs):
            if o.kind == 'return':
                w = canon(o.val)
                if w.op == 'new':
                    v = arg(w, 'suffix_type')
        if v is None:
            # a class method of a class whose constructor calls are not followed
            for x in ast.walk(m.node):
                if isinstance(x, ast.Call):
                    for kw in x.keywords:
                        if kw.arg == 'suffix_type':
                            s = ast.unparse(kw.value).lower()
                            return 'manifest' if 'manifest' in s else 'chunk' if 'chunk' in s else None
    if v is None:
        return None
    x = arg(v, 'value') if v.op == 'new' else v
    k = num(x) if x is not None else None
    if k is None:
        s = show(v).lower()
        return 'manifest' if 'manifest' in s else 'chunk' if 'chunk' in s else None
    return component_kind(ctx, k)


def component_kind(ctx, k):
    """which name component type has number k"""
    c = ctx.p.cls('NameComponent')
    for n, kind in (('chunk_id_type', 'chunk'), ('manifest_id_type', 'manifest')):
        m = c.find(n)
        for o in impl_flow(ctx).run(m, selfcls=c) if m is not None else ():
            if o.kind == 'return' and num(canon(o.val)) == k:
                return kind
    return None


# ------------------------------------------------------------------ lints over the whole package
def passed_name(f, v):
    """the name of a parameter or attribute; a local variable's name says nothing"""
    if isinstance(v, ast.Name):
        return v.id if v.id in f.params and v.id not in assigned(f) else ' '
    if isinstance(v, ast.Attribute):
        return v.attr.lstrip('_')
    return None


def assigned(f):
    return {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}


def callee_params(p, f, call, byname):
    """parameter lists of everything this call may reach"""
    fn = call.func
    out = []
    if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
        for k in f.cls.mro()[1:] if f.cls is not None else ():
            m = k.methods.get(fn.attr)
            if m is not None:
                out = [signature(m)]
                break
    elif isinstance(fn, ast.Name):
        cs = [f.cls] if fn.id == 'cls' and f.cls is not None else [c for c in p.classes.values() if c.name == fn.id]
        for c in cs:
            m = c.find('__init__')
            if m is not None:
                out.append(signature(m))
            elif c.anns:
                out.append((list(c.anns), 0, False))
        if not cs:
            out = [signature(g) for g in byname.get(fn.id, ()) if g.cls is None]
    elif isinstance(fn, ast.Attribute):
        k = [c for c in p.classes.values() if isinstance(fn.value, ast.Name) and c.name == fn.value.id]
        if k:
            m = k[0].find(fn.attr)
            if m is not None:
                out = [signature(m, bound='classmethod' in decorators(m))]
        else:
            out = [signature(g) for g in byname.get(fn.attr, ()) if g.cls is not None]
    return [ps for ps, need, more in out if fits(call, ps, need, more)]


def decorators(m):
    return {d.id for d in m.node.decorator_list if isinstance(d, ast.Name)}


def signature(m, bound=True):
    a = m.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    need = len(ps) - len(a.defaults)
    if bound and 'staticmethod' not in decorators(m) and m.cls is not None and ps:
        ps, need = ps[1:], need - 1
    return ps + [x.arg for x in a.kwonlyargs], need, a.vararg is not None or a.kwarg is not None


def fits(call, ps, need, more):
    """can this call be a call of something with these parameters"""
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return True
    n = len(call.args) + len(call.keywords)
    return n >= need and (more or n <= len(ps) and all(k.arg in ps for k in call.keywords))


def forwards(ctx, rep):
    """a value called x is not handed over as y to something that also takes an x"""
    rule = 'a value is handed over under its own name'
    p = ctx.p
    byname = {}
    for f in p.funcs.values():
        byname.setdefault(f.name, []).append(f)
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        con = short(f)
        n = 0
        for call in ast.walk(f.node):
            if not isinstance(call, ast.Call):
                continue
            ps = callee_params(p, f, call, byname)
            if not ps:
                continue
            n += 1
            wrong = None
            for P in ps:
                m = {k.arg: passed_name(f, k.value) for k in call.keywords if k.arg}
                for i, a in enumerate(call.args):
                    if isinstance(a, ast.Starred):
                        break
                    if i < len(P):
                        m[P[i]] = passed_name(f, a)
                w = {(k, v) for k, v in m.items() if v and v != k and v in P and k in P and (v not in m or m[v] not in (None, ' ', v))}
                wrong = w if wrong is None else wrong & w
            for k, v in sorted(wrong or ()):
                rep.viol(rule, con, '%s:%d' % (f.mod.rel, call.lineno), '%s is handed over as %s' % (v, k))
        if n:
            rep.ok(rule, con)


def read_somewhere(ctx, rep):
    """every option of a tree is looked at by the library"""
    rule = 'every tree option is read'
    p = ctx.p
    c = p.cls('ManifestTreeOptions')
    read = set()
    for f in library(p):
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                read.add(n.attr)
    for n in c.anns:
        rep.check(n in read, rule, 'ManifestTreeOptions.%s' % n, c.loc() if hasattr(c, 'loc') else 'ccnpy/flic/ManifestTreeOptions.py', 'the option is never read')


def announced(ctx, rep):
    from .names import announced as g
    g(ctx, rep)


def whole(v, facts, total):
    """is v the number of bytes of the file: True, False (it is known to differ on some input), None"""
    if v is None or v.op == 'const' or v.op == 'undef':
        return False
    if v.op == 'attr' and v.a[1] == total:
        return True
    if not mentions_attr(v, total):
        # the size of something else
        if v.op == 'len' and v.a[0].op in ('mcall', 'call', 'attr', 'new', 'param') and 'packet' in show(v.a[0]).lower():
            return False
        return False if v.op in ('len', 'lin', 'mul') and not any(s.op in ('lv', 'elem', 'sum', 'call', 'param', 'attr') and s.op != 'attr' for s in subs(v)) else None
    # arithmetic on it
    if v.op in ('min', 'max', 'mod', 'fdiv', 'shr', 'band'):
        return False if mentions_attr(v, total) else None
    c, d = lin_parts(v)
    own = [t for t in d if t.op == 'attr' and t.a[1] == total]
    if len(own) == 1 and (c or len(d) > 1 or d[own[0]] != 1):
        return False
    return None


def mentions_attr(v, name):
    return any(s.op == 'attr' and s.a[1] == name for s in subs(v))


def root_sizes(ctx, rep):
    """the tree below the root manifest holds the whole file: its sizes are the size of the file"""
    rule = 'the root manifest states the size of the whole file'
    fl = pub_flow(ctx)
    for c in publisher_classes(ctx):
        for f in sorted(c.methods.values(), key=lambda f: f.qual):
            if f.name not in fl.rel or not calls_of(f, 'build_packet'):
                continue
            con = short(f)
            with rep.guard(rule, con):
                for o in fl.run(f, selfcls=c):
                    if o.kind != 'return':
                        continue
                    for e, t in built(o):
                        for k in ('node_subtree_size', 'group_subtree_size'):
                            v = arg(t, k)
                            v = canon(v) if v is not None else NONE
                            ps = {s for s in subs(v) if s.op == 'param' and s.a[0] in f.params}
                            if len(ps) == 1:
                                # what the caller gives
                                x = ps.pop()
                                for y in given(ctx, fl, c, f, x.a[0]):
                                    w = fl.i.subst(v, {x: y})
                                    rep.check(whole(w, o.facts, 'total_bytes'), rule, con, e.loc(), '%s is %s' % (k, show(w)[:60]))
                                continue
                            rep.check(whole(v, o.facts, 'total_bytes'), rule, con, e.loc(), '%s is %s' % (k, show(v)[:60]))


def given(ctx, fl, c, f, name):
    """what the methods of the class pass for a parameter"""
    out = []
    for g in sorted(set(c.methods.values()), key=lambda g: g.qual):
        if g is f or g.name not in fl.rel or not calls_of(g, f.name):
            continue
        stopped = Flow(ctx, set(fl.rel) - {f.name}, stop={f.name})
        for o in stopped.run(g, selfcls=c):
            for e, ls in walk_events(o.events()):
                t = e.term
                if e.kind == 'call' and isinstance(t, T) and t.op in ('mcall', 'call') and pname(t).split('.')[-1] == f.name:
                    v = arg(t, name, f.params.index(name))
                    out.append(canon(v) if v is not None else NONE)
    return sorted(set(out), key=show)


RULES = {'F10': [f10, announced], 'F11': [root_sizes]}
