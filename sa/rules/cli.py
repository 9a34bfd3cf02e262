"""F13: the command-line tools read the options they define, and each option reaches what it controls."""
import ast
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library
from .tree import short, pname, args_of, arg, SELF
from .build import opt
from .names import ctors

SECRETS = ('key_pass', 'wrap_pass', 'enc_key')
PRIVATE = {'key_file': 'key_pass', 'wrap_key': 'wrap_pass'}
AES = {'enc_key', 'aes_mode'}
KDF = {'kdf_alg', 'kdf_info', 'kdf_uuid'}
WRAP = {'wrap_key', 'wrap_pass'}
SIGN = {'key_file', 'key_pass'}
PARAMS = AES | KDF | {'key_num', 'salt', 'kdf_salt'}

# (called, parameter) -> options that may stand there
SINKS = {
    ('AeadGcm', 'key'): {'enc_key'},
    ('AeadCcm', 'key'): {'enc_key'},
    ('AeadParameters', 'key'): AES,
    ('AeadParameters', 'key_number'): {'key_num', 'enc_key'},
    ('AeadParameters', 'aead_salt'): {'salt'},
    ('AeadParameters', 'kdf_data'): KDF,
    ('AeadParameters', 'kdf_salt'): {'kdf_salt'},
    ('KdfAlg', 'value'): {'kdf_alg'},
    ('KdfData', 'kdf_alg'): {'kdf_alg'},
    ('KdfData', 'kdf_info'): {'kdf_info', 'kdf_uuid'},
    ('RsaSha256Signer', 'key'): SIGN,
    ('RsaSha256Verifier', 'key'): SIGN,
    ('RsaOaepEncryptor', 'wrapping_key'): WRAP,
    ('RsaOaepEncryptor', 'params'): PARAMS,
    ('create_with_new_content_key', 'wrapping_key'): WRAP,
    ('create_with_new_content_key', 'kdf_data'): KDF,
    ('AeadEncryptor', 'params'): PARAMS,
    ('AeadDecryptor', 'params'): PARAMS,
    ('add_aes_key', 'params'): PARAMS,
    ('ManifestTreeOptions', 'name'): {'name'},
    ('ManifestTreeOptions', 'schema_type'): {'schema'},
    ('ManifestTreeOptions', 'signer'): SIGN,
    ('ManifestTreeOptions', 'manifest_prefix'): {'manifest_prefix'},
    ('ManifestTreeOptions', 'data_prefix'): {'data_prefix'},
    ('ManifestTreeOptions', 'manifest_locators'): {'manifest_locator'},
    ('ManifestTreeOptions', 'data_locators'): {'data_locator'},
    ('ManifestTreeOptions', 'root_expiry_time'): {'root_expiry'},
    ('ManifestTreeOptions', 'manifest_expiry_time'): {'node_expiry'},
    ('ManifestTreeOptions', 'data_expiry_time'): {'data_expiry'},
    ('ManifestTreeOptions', 'manifest_encryptor'): PARAMS | WRAP,
    ('ManifestTreeOptions', 'max_packet_size'): {'max_size'},
    ('ManifestTreeOptions', 'max_tree_degree'): {'tree_degree'},
    ('PacketDirectoryWriter', 'directory'): {'out_dir'},
    ('PacketDirectoryWriter', 'link_named_objects'): {'write_links'},
    ('PacketDirectoryWriter', 'signer'): SIGN,
    ('PacketDirectoryReader', 'directory'): {'in_dir'},
    ('traverse', 'root_name'): {'name'},
    ('traverse', 'hash_restriction'): {'hash_restriction'},
    ('ManifestTree', 'data_input'): {'filename'},
    ('ManifestTree', 'tree_options'): None,
}
# parameters that depend on all of these options
WHOLE = {('ManifestTreeOptions', 'manifest_encryptor'): {'wrap_key', 'enc_key'}}
# fields that stay at their default when the option is left out of the call: that would drop it
NEEDED = {k for k in SINKS if k[0] in ('AeadParameters', 'KdfData', 'KdfAlg', 'ManifestTreeOptions', 'PacketDirectoryWriter', 'PacketDirectoryReader', 'traverse')}


def f13(ctx, rep):
    c = Cli(ctx)
    if not c.tools:
        rep.und('tools', 'ccnpy.apps', 'no tool found')
        return
    defined(c, rep)
    honoured(c, rep)
    reach_component(c, rep)
    keys(c, rep)
    encryptors(c, rep)
    kinds(c, rep)
    choices(c, rep)
    prompts(c, rep)
    outputs(c, rep)
    concrete(c, rep)
    passwords(c, rep)
    unlocked(c, rep)
    network(c, rep)
    numbers(c, rep)
    stores(c, rep)
    present(c, rep)
    wired(c, rep)
    flags(c, rep)
    namespace_kept(c, rep)


class Cli:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.fl = Flow(ctx, set(), stop={'add_rsa_key', 'add_aes_key', 'load_pem_key', 'traverse'}, samename=True, nomerge=True, states=20000)
        self.apps = sorted((f for f in ctx.p.funcs.values() if f.qual.startswith('ccnpy.apps')), key=lambda f: f.qual)
        self.tools = [f for f in self.apps if any(isinstance(n, ast.Call) and self.fname(n) == 'parse_args' for n in ast.walk(f.node))]
        self.flows = {t: self.follow(t) for t in self.tools}
        self.opts = {t: self.options(t) for t in self.tools}
        self.sums = {}
        self.attrs = {}

    @staticmethod
    def fname(call):
        return call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else None

    def resolve(self, f, call):
        """application functions a call reaches: (function, its parameters without the receiver)"""
        n = call.func
        if isinstance(n, ast.Name):
            for g in self.apps:
                if g.cls is None and g.name == n.id:
                    return g, list(g.params)
            for c in self.p.classes.values():
                if c.name == n.id and c.qual.startswith('ccnpy.apps'):
                    g = c.find('__init__')
                    return (g, [x for x in g.params if x != g.first]) if g is not None else (False, [])
        elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
            for g in self.apps:
                if g.cls is None and g.name == n.attr and g.mod.name.split('.')[-1] == n.value.id:
                    return g, list(g.params)
            k = f.cls if n.value.id in (f.first, 'cls', 'self') else next((c for c in self.p.classes.values() if c.name == n.value.id and c.qual.startswith('ccnpy.apps')), None)
            g = k.find(n.attr) if k is not None else None
            if g is not None and g in self.apps:
                return g, [x for x in g.params if x != g.first]
        return None, []

    def follow(self, tool):
        """functions the parsed arguments of a tool reach -> variable names; functions the parser reaches; escapes"""
        ns, ps, esc = {}, {}, []
        todo = []
        av, pv = set(), set()
        for n in ast.walk(tool.node):
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                if self.fname(n.value) == 'parse_args':
                    av |= {t.id for t in n.targets if isinstance(t, ast.Name)}
                elif self.fname(n.value) == 'ArgumentParser':
                    pv |= {t.id for t in n.targets if isinstance(t, ast.Name)}
        todo = [(tool, av, ns), (tool, pv, ps)]
        while todo:
            f, vs, d = todo.pop()
            # plain aliases
            more = True
            vs = set(vs)
            while more:
                more = False
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in vs:
                        for t in n.targets:
                            if isinstance(t, ast.Name) and t.id not in vs:
                                vs.add(t.id)
                                more = True
                            elif isinstance(t, ast.Attribute):
                                esc.append((f, n))
            if d.get(f, set()) >= vs:
                continue
            d.setdefault(f, set()).update(vs)
            for n in ast.walk(f.node):
                if not isinstance(n, ast.Call):
                    continue
                hit = [(i, None) for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id in vs] + [(None, k.arg) for k in n.keywords if isinstance(k.value, ast.Name) and k.value.id in vs]
                if not hit:
                    continue
                g, params = self.resolve(f, n)
                for i, k in hit:
                    if g is False:          # an object that keeps nothing of its arguments
                        continue
                    if g is None:
                        if d is ns and self.fname(n) not in ('vars', 'print', 'debug', 'info', 'getattr', 'hasattr', 'setattr'):
                            esc.append((f, n))
                        continue
                    name = k if k is not None else params[i] if i < len(params) else None
                    if name is not None:
                        todo.append((g, {name}, d))
                    elif d is ns and (g.vararg or g.kwarg):
                        esc.append((f, n))
        return ns, ps, esc

    def options(self, tool):
        """dest -> add_argument call"""
        out = {}
        ns, ps, esc = self.flows[tool]
        for f, vs in ps.items():
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Call) and self.fname(n) in ('add_argument', 'set_defaults')):
                    continue
                if self.fname(n) == 'set_defaults':
                    for k in n.keywords:
                        out.setdefault(k.arg, (f, n))
                    continue
                d = next((k.value for k in n.keywords if k.arg == 'dest'), None)
                if isinstance(d, ast.Constant):
                    out[d.value] = (f, n)
                    continue
                names = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                if not names:
                    out[None] = (f, n)
                    continue
                long = [x for x in names if x.startswith('--')]
                x = long[0] if long else names[0]
                out[x.lstrip('-').replace('-', '_') if x.startswith('-') else x] = (f, n)
        return out

    def uses(self, tool):
        """option names read and assigned: (name, function, node)"""
        reads, writes = [], []
        for f, vs in self.flows[tool][0].items():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in vs:
                    (reads if isinstance(n.ctx, ast.Load) else writes).append((n.attr, f, n))
                elif isinstance(n, ast.Call) and self.fname(n) in ('getattr', 'setattr') and len(n.args) >= 2 and isinstance(n.args[0], ast.Name) and n.args[0].id in vs and isinstance(n.args[1], ast.Constant):
                    (reads if self.fname(n) == 'getattr' else writes).append((n.args[1].value, f, n))
        return reads, writes

    # ---------------------------------------------------------------- provenance of values
    def nsvars(self, f):
        out = set()
        for t in self.tools:
            out |= self.flows[t][0].get(f, set())
        return out

    def is_ns(self, t, f):
        return t.op == 'param' and t.a[0] in self.nsvars(f) or t.op == 'mcall' and t.a[0] == 'parse_args' or t.op == 'attr' and t.a[0] is SELF and t.a[1].lstrip('_') in ('args', 'arguments', 'options', 'namespace')

    def dests(self, v, f, depth=0):
        """options a value is made of"""
        out = set()
        if v is None or not isinstance(v, T) or depth > 6:
            return out
        for s in subs(v):
            if s.op == 'attr' and self.is_ns(s.a[0], f):
                out.add(s.a[1])
            elif s.op in ('call', 'mcall'):
                g = self.callee(s, f)
                if g is not None and any(self.is_ns(x, f) for k, x in args_of(s)):
                    out |= self.summary(g, depth + 1)
            elif s.op == 'attr' and s.a[0] is SELF and f.cls is not None:
                out |= self.attr_dests(f.cls, s.a[1], depth + 1)
        return out

    def callee(self, s, f):
        n = pname(s)
        for g in self.apps:
            if g.name == n and (g.cls is None and s.op == 'call' or g.cls is not None):
                return g
        return None

    def summary(self, g, depth=0):
        """options the result of an application function depends on, by value or by choice"""
        if g in self.sums:
            return self.sums[g]
        self.sums[g] = set()
        out = set()
        for o in self.fl.run(g, selfcls=g.cls):
            if o.kind == 'return':
                out |= self.dests(canon(o.val), g, depth) | self.fact_dests(o, g, depth)
        self.sums[g] = out
        return out

    def fact_dests(self, o, g, depth=0):
        out = set()
        for a in o.facts:
            out |= self.dests(a, g, depth)
        return out

    def attr_dests(self, c, a, depth=0):
        k = (c, a)
        if k in self.attrs:
            return self.attrs[k]
        self.attrs[k] = set()
        init = c.find('__init__')
        out = set()
        if init is not None and self.nsvars(init):
            for o in self.fl.run(init, selfcls=c):
                v = o.st.heap.get((SELF, a))
                if v is not None:
                    out |= self.dests(canon(v), init, depth)
        self.attrs[k] = out
        return out

    def reached(self):
        """functions that the arguments reach, and methods of the objects made of them"""
        out = []
        for t in self.tools:
            for f in self.flows[t][0]:
                if f not in out:
                    out.append(f)
        for f in list(out):
            if f.cls is not None and f.name == '__init__':
                for g in f.cls.methods.values():
                    if g not in out:
                        out.append(g)
        return sorted(out, key=lambda f: f.qual)


def at(f, n):
    return '%s:%d' % (f.mod.rel, n.lineno)


def tname(t):
    return t.mod.name.split('.')[-1]


# ------------------------------------------------------------------ A, B
def defined(c, rep):
    rule = 'a tool reads only options it defines'
    for t in c.tools:
        reads, writes = c.uses(t)
        if None in c.opts[t]:
            rep.und(rule, tname(t), 'an option with a computed name')
            continue
        have = set(c.opts[t]) | {w[0] for w in writes}
        for name, f, n in reads:
            rep.check(name in have, rule, '%s in %s' % (short(f), tname(t)), at(f, n), 'option %s is not defined by %s' % (name, tname(t)))


def honoured(c, rep):
    rule = 'every option of a tool is used'
    for t in c.tools:
        reads, writes = c.uses(t)
        got = {r[0] for r in reads}
        for d, (f, n) in sorted(c.opts[t].items(), key=lambda x: str(x[0])):
            if d is None:
                continue
            rep.check(d in got or (None if c.flows[t][2] else False), rule, '%s %s' % (tname(t), d), at(f, n), 'option %s is accepted and ignored' % d)


# ------------------------------------------------------------------ C
def reach_component(c, rep):
    rule = 'an option reaches the parameter it controls'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                seen = set()
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind not in ('new', 'call') or not isinstance(t, T) or t.op not in ('new', 'call', 'mcall') or t in seen:
                        continue
                    seen.add(t)
                    t = canon(t)
                    n = pname(t)
                    if t.op == 'new' and any(k[0] == n for k in SINKS):
                        i = ctors(c.ctx)
                    for (cn, pn), allowed in SINKS.items():
                        if cn != n or allowed is None:
                            continue
                        one(c, rep, rule, con, f, o, e, t, cn, pn, allowed)


def position(c, cn, pn):
    """index of a parameter among the positional arguments of what is called"""
    for k in c.p.classes.values():
        if k.name == cn:
            m = k.find('__init__')
            ps = [x for x in m.params if x != m.first] if m is not None else list(k.anns)
            return ps.index(pn) if pn in ps else None
    for g in c.p.funcs.values():
        if g.name == cn and not g.abstract:
            ps = [x for x in g.params if x != g.first]
            if pn in ps:
                return ps.index(pn)
    return None


def known_none(o, f, c, names):
    """the path knows that an option is not given"""
    for a, v in o.facts.items():
        if a.op in ('isnone', 'truth') and v == (a.op == 'isnone') and c.dests(a.a[0], f) & names:
            return True
    return False


def one(c, rep, rule, con, f, o, e, t, cn, pn, allowed):
    pos = position(c, cn, pn)
    v = arg(t, pn, pos) if pos is not None else arg(t, pn)
    if v is None:
        # left out: only a default value
        if (cn, pn) in NEEDED and t.op != 'new':
            rep.und(rule, con, '%s of %s is not given' % (pn, cn))
        elif (cn, pn) in NEEDED and not any(str(k).startswith('*') or x.op == 'dict' for k, x in args_of(t)):
            rep.check(False if not passed_on(o, f, c) else None, rule, con, e.loc(), '%s of %s is not given' % (pn, cn))
        return
    got = c.dests(v, f)
    if pn == 'kdf_info' and not got and any(a.op == 'truth' and b and 'kdf_uuid' in c.dests(a, f) for a, b in o.facts.items()):
        rep.ok(rule, con)
        return
    if not got:
        if (v is NONE or v.op == 'const') and (cn, pn) in NEEDED:
            main = allowed & {'enc_key', 'salt', 'key_num', 'kdf_alg', 'kdf_salt', 'kdf_info'} or allowed
            if known_none(o, f, c, main):
                rep.ok(rule, con)
            else:
                made_new = any(s.op in ('call', 'mcall') and pname(s) in ('generate', 'urandom') for s in subs(t))
                rep.check(None if made_new else False, rule, con, e.loc(), '%s of %s is always %s' % (pn, cn, show(v)[:30]))
        elif v.op == 'const':
            rep.und(rule, con, '%s of %s is %s' % (pn, cn, show(v)[:30]))
        return
    bad = got - allowed
    rep.check(not bad, rule, con, e.loc(), 'option %s is used as %s of %s' % (', '.join(sorted(bad)), pn, cn))
    need = WHOLE.get((cn, pn), set()) - got - c.fact_dests(o, f)
    have = {d for t2 in c.tools if f in c.flows[t2][0] or f.cls is not None and f.cls.find('__init__') in c.flows[t2][0] for d in c.opts[t2]}
    if need & have:
        rep.viol(rule, con, e.loc(), 'option %s has no effect on %s of %s' % (', '.join(sorted(need & have)), pn, cn))
    # values are passed as they are
    if not bad and (v.op in ('not', 'lin', 'mul', 'neg') or v.op in ('min', 'max', 'band', 'mod', 'fdiv', 'shr') and len(got) == 1 and not any(s.op in ('call', 'mcall', 'len') for s in subs(v))):
        rep.viol(rule, con, e.loc(), '%s of %s is %s' % (pn, cn, show(v)[:60]))
    if cn in ('AeadGcm', 'AeadCcm'):
        mode(c, rep, con, f, o, e, cn)
    if (cn, pn) == ('create_with_new_content_key', 'wrapping_key'):
        k = arg(t, 'key_class')
        ks = [x.name for x in c.p.cls('AeadKey').all_subs()] if c.p.cls('AeadKey') else []
        if k is not None and k.op == 'cls' and str(k.a[0]).split('.')[-1] in ks:
            mode(c, rep, con, f, o, e, str(k.a[0]).split('.')[-1])
    if (cn, pn) == ('AeadParameters', 'key_number'):
        numbered(c, rep, con, f, o, e, v)


def passed_on(o, f, c):
    return not c.nsvars(f)


def mode(c, rep, con, f, o, e, cn):
    rule = 'the encryption mode is the one asked for'
    k = c.p.cls(cn)
    m = k.find('aead_mode')
    want = {canon(x.val) for x in c.fl.run(m, selfcls=k) if x.kind == 'return'} if m is not None else set()
    eqs = [(a, b) for a, b in o.facts.items() if a.op == 'eq' and 'aes_mode' in c.dests(a, f)]
    yes = {x for a, b in eqs if b for x in a.a if x.op == 'const'}
    no = {x for a, b in eqs if not b for x in a.a if x.op == 'const'}
    if len(want) != 1:
        rep.und(rule, con, 'mode of %s' % cn)
    elif yes:
        rep.check(yes == want, rule, con, e.loc(), '%s is used for mode %s' % (cn, ', '.join(show(x) for x in yes)))
    else:
        rest = {const(x) for x in choice_values(c, 'aes_mode')} - no
        rep.check(True if rest == want else False if rest and want & rest != rest else None, rule, con, e.loc(), '%s is used for mode %s' % (cn, ', '.join(sorted(show(x) for x in rest))))


def choice_values(c, d):
    for t in c.tools:
        if d in c.opts[t]:
            f, n = c.opts[t][d]
            for k in n.keywords:
                if k.arg == 'choices' and isinstance(k.value, (ast.List, ast.Tuple, ast.Set)):
                    return [x.value for x in k.value.elts if isinstance(x, ast.Constant)]
    return []


RANDOM = ('urandom', 'random', 'randbytes', 'token_bytes', 'uuid1', 'uuid4', 'hash', 'id', 'getrandbits', 'time')


def numbered(c, rep, con, f, o, e, v):
    """the default key number is the same for everyone who has the key"""
    rule = 'the default key number follows from the key alone'
    if 'key_num' in c.dests(v, f):
        rep.ok(rule, con)
        return
    names = set()
    for s in subs(v):
        if s.op in ('call', 'mcall'):
            names.add(pname(s).split('.')[-1])
            if s.op == 'call' and isinstance(s.a[0], T) and s.a[0].op == 'ext':
                names.add(str(s.a[0].a[0]).split('.')[-1])
    rep.check(False if names & set(RANDOM) else True if 'enc_key' in c.dests(v, f) else None, rule, con, e.loc(), 'the key number is made with %s' % ', '.join(sorted(names & set(RANDOM))))


# ------------------------------------------------------------------ keys and passwords
def keys(c, rep):
    rule = 'a key file is opened with its own password'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind != 'call' or not isinstance(t, T) or t.op not in ('call', 'mcall') or pname(t) != 'load_pem_key':
                        continue
                    a, b = arg(t, 'filename', 0), arg(t, 'password', 1)
                    fs = c.dests(a, f)
                    if len(fs) != 1:
                        rep.und(rule, con, 'file %s' % show(a)[:40])
                        continue
                    k = next(iter(fs))
                    ps = c.dests(b, f) if b is not None else set()
                    want = PRIVATE.get(k)
                    if want is None:
                        rep.check(False, rule, con, e.loc(), 'option %s is read as a key' % k)
                    elif ps:
                        rep.check(ps == {want}, rule, con, e.loc(), '%s is opened with %s' % (k, ', '.join(sorted(ps))))
                    else:
                        rep.check(True if b is not None and 'getpass' in show(b) else False, rule, con, e.loc(), '%s is opened without its password' % k)
                    none = known_none(o, f, c, {k})
                    rep.check(not none, 'a key is read only when given', con, e.loc(), '%s is read when it is not given' % k)
                # what a store is given
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] == 'add_rsa_key':
                        ds = c.dests(arg(t, 'key', 1), f)
                        rep.check(True if ds in (SIGN, WRAP) else None, 'the key store gets each key', con, e.loc(), '')
    # a store is given every key there is
    rule = 'the key store gets each key'
    for f in c.reached():
        con = short(f)
        outs = [o for o in c.fl.run(f, selfcls=f.cls) if o.kind == 'return' and canon(o.val).op == 'new' and 'Keystore' in pname(canon(o.val))]
        if not outs:
            continue
        for o in outs:
            have = set()
            for e, ls in walk_events(o.events()):
                t = e.term
                if e.kind == 'call' and isinstance(t, T) and t.op == 'mcall' and t.a[0] in ('add_rsa_key', 'add_aes_key'):
                    for k, x in args_of(t):
                        have |= c.dests(x, f)
            for d in ('key_file', 'wrap_key', 'enc_key'):
                none = known_none(o, f, c, {d})
                rep.check(d in have or none, rule, con, f.loc(), 'the key of option %s is left out' % d)


def encryptors(c, rep):
    """an encryptor made from the options uses all of them"""
    rule = 'an encryptor uses every encryption option'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                if o.kind != 'return':
                    continue
                v = canon(o.val)
                n = pname(v) if v.op in ('new', 'call', 'mcall') else ''
                ks = [k for k in c.p.cls('ManifestEncryptor').all_subs() if k.name == n]
                if not (v.op == 'new' and ks or v.op in ('mcall', 'call') and n == 'create_with_new_content_key'):
                    continue
                got = c.dests(v, f) | c.fact_dests(o, f)
                need = {'salt', 'aes_mode', 'kdf_alg', 'kdf_info'}
                if not got & WRAP:
                    need |= {'key_num', 'kdf_salt'}
                miss = need - got
                rep.check(not miss, rule, con, f.loc(), 'option %s has no effect on the %s' % (', '.join(sorted(miss)), n))


# ------------------------------------------------------------------ types of options
def kind_of(c, f, n):
    """what the values of an option are: a set of names among str, int, bytes, bool, <class>; None when unknown"""
    kw = {k.arg: k.value for k in n.keywords}
    a = kw.get('action')
    if a is not None:
        s = ast.unparse(a)
        if 'store_true' in s or 'store_false' in s or 'BooleanOptional' in s:
            return {'bool'}
        if 'count' in s:
            return {'int'}
        if 'store' not in s:
            return None
    t = kw.get('type')
    if t is None:
        return {'str'}
    return converter(c, f, t)


def converter(c, f, t):
    if isinstance(t, ast.Constant) and t.value is None:
        return {'str'}
    if isinstance(t, ast.Name):
        if t.id in ('int', 'str', 'float', 'bytes', 'bool'):
            return {t.id}
        k = [k for k in c.p.classes.values() if k.name == t.id]
        if k:
            return {k[0].name}
        g = [g for g in c.p.funcs.values() if g.cls is None and g.name == t.id]
        if len(g) == 1:
            return result_kind(c, g[0])
        return None
    if isinstance(t, ast.Lambda):
        if isinstance(t.body, ast.Name) and t.args.args and t.body.id == t.args.args[0].arg:
            return {'str'}
        return expr_kind(c, t.body)
    return None


def expr_kind(c, x):
    if isinstance(x, ast.Call):
        if isinstance(x.func, ast.Name):
            if x.func.id in ('int', 'str', 'float', 'bytes', 'bool'):
                return {x.func.id}
            k = [k for k in c.p.classes.values() if k.name == x.func.id]
            if k:
                return {k[0].name}
        if isinstance(x.func, ast.Attribute):
            if x.func.attr in ('upper', 'lower', 'strip', 'removeprefix'):
                return {'str'}
            if x.func.attr == 'fromhex' and isinstance(x.func.value, ast.Name) and x.func.value.id == 'bytes':
                return {'bytes'}
    return None


def result_kind(c, g):
    out = set()
    for n in ast.walk(g.node):
        if isinstance(n, ast.Return) and n.value is not None:
            k = expr_kind(c, n.value)
            if k is None:
                return None
            out |= k
    return out or None


def ann_names(a):
    return {n.id for n in ast.walk(a) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(a) if isinstance(n, ast.Attribute)} if a is not None else None


def kinds(c, rep):
    rule = 'an option has the type its use needs'
    basic = {'int', 'bytes', 'float'}
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                seen = set()
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind not in ('new', 'call') or not isinstance(t, T) or t.op not in ('new', 'call', 'mcall') or t in seen:
                        continue
                    seen.add(t)
                    t = canon(t)
                    n = pname(t)
                    for pos, (k, v) in enumerate(args_of(t)):
                        ds = direct(c, v, f)
                        if ds is None:
                            continue
                        ann = annotation(c, n, t, k)
                        if ann is None:
                            continue
                        for tool in c.tools:
                            if ds not in c.opts[tool]:
                                continue
                            g, call = c.opts[tool][ds]
                            kk = kind_of(c, g, call)
                            if kk is None:
                                continue
                            cls = {x for x in ann if any(y.name == x for y in c.p.classes.values())}
                            want = (ann & basic) | cls
                            if not want or ann & {'str', 'Any', 'object'}:
                                continue
                            enum = any(y.name in cls and y.is_enum() for y in c.p.classes.values())
                            rep.check(False if kk == {'str'} or kk <= {'bytes', 'float', 'int'} and not kk & want and not (kk == {'int'} and ('float' in want or enum)) else True, rule, '%s %s' % (tname(tool), ds), at(g, call), 'option %s is a %s where %s of %s takes %s' % (ds, ', '.join(kk), k, n, ', '.join(sorted(want))))


def direct(c, v, f):
    """the option a value is, unconverted"""
    if v.op == 'attr' and c.is_ns(v.a[0], f):
        return v.a[1]
    if v.op == 'attr' and v.a[0] is SELF and f.cls is not None:
        init = f.cls.find('__init__')
        if init is not None and c.nsvars(init):
            for o in c.fl.run(init, selfcls=f.cls):
                w = o.st.heap.get((SELF, v.a[1]))
                if w is not None:
                    w = canon(w)
                    if w.op == 'attr' and c.is_ns(w.a[0], init):
                        return w.a[1]
    return None


def annotation(c, n, t, k):
    if t.op == 'new':
        cs = [x for x in c.p.classes.values() if x.name == n]
        if cs:
            m = cs[0].find('__init__')
            if m is not None:
                return ann_names(m.ann.get(k))
            return ann_names(cs[0].anns.get(k)) if isinstance(cs[0].anns, dict) and not isinstance(cs[0].anns.get(k), (str, type(None))) else None
        return None
    gs = [g for g in c.p.funcs.values() if g.name == n]
    if len(gs) == 1:
        return ann_names(gs[0].ann.get(k))
    return None


def choices(c, rep):
    """every value an option can have is understood"""
    rule = 'every choice of an option is understood'
    for t in c.tools:
        for d, (f, n) in sorted(c.opts[t].items(), key=lambda x: str(x[0])):
            kw = {k.arg: k.value for k in n.keywords}
            if 'choices' not in kw or not isinstance(kw['choices'], (ast.List, ast.Tuple)):
                continue
            vals = [x.value for x in kw['choices'].elts if isinstance(x, ast.Constant)]
            con = '%s %s' % (tname(t), d)
            ks, members = kind_of(c, f, n), [c.p.classes[k] for k in c.p.classes for x in kw['choices'].elts if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)
                                             and x.value.id == c.p.classes[k].name and c.p.classes[k].is_enum()]
            if members and ks is not None:
                rep.check(not ks <= {'str', 'int', 'float', 'bytes', 'bool'}, rule, con, at(f, n), 'a %s is none of the choices, which are members of %s' % (', '.join(sorted(ks)), members[0].name))
            if ks is not None and vals and all(isinstance(x, str) for x in vals):
                rep.check(not ks <= {'int', 'float', 'bytes', 'bool'}, rule, con, at(f, n), 'a %s is none of the choices, which are strings' % ', '.join(sorted(ks)))
            if vals and 'default' in kw and isinstance(kw['default'], ast.Constant) and kw['default'].value is not None:
                rep.check(kw['default'].value in vals, rule, con, at(f, n), 'the default %r is no choice' % kw['default'].value)
            for v in vals:
                for g in c.flows[t][0]:
                    understood(c, rep, rule, con, g, d, v)


def understood(c, rep, rule, con, g, d, v):
    """what function g does when option d has value v"""
    for o in c.fl.run(g, selfcls=g.cls):
        eqs = [(a, b) for a, b in o.facts.items() if a.op == 'eq' and any(x.op == 'attr' and c.is_ns(x.a[0], g) and x.a[1] == d for x in a.a)]
        if eqs and o.kind == 'raise':
            # a path that refuses the value: consistent with v?
            ok = all(b == (const(v) in a.a) for a, b in eqs)
            only = all(c.dests(a, g) <= {d, 'enc_key', 'wrap_key'} for a in o.facts)
            if ok and only:
                rep.viol(rule, con, g.loc(), '%s is refused in %s' % (v, short(g)))
            else:
                rep.ok(rule, con)
        # parsers of the value
        for e, ls in walk_events(o.events()):
            t = e.term
            if e.kind == 'call' and isinstance(t, T) and t.op in ('call', 'mcall') and any(direct(c, x, g) == d for k, x in args_of(t)):
                fs = [h for h in c.p.funcs.values() if h.name == pname(t) and h.cls is not None and h.cls.name in show(t).split('(')[0]]
                if len(fs) == 1:
                    h = fs[0]
                    ps = [x for x in h.params if x != h.first]
                    if ps:
                        res = c.fl.run(h, selfcls=h.cls, args={ps[0]: const(v)})
                        bad = [r for r in res if r.kind == 'raise']
                        fine = [r for r in res if r.kind == 'return' and r.val is not NONE]
                        rep.check(True if fine and not bad else False if bad and not fine else None, rule, con, h.loc(), '%s is refused by %s' % (v, short(h)))


# ------------------------------------------------------------------ prompts, secrets, output
def prompts(c, rep):
    rule = 'a password is asked only for a key that is given'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                st = {}
                for k, v in o.st.heap.items():
                    if isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], T) and c.is_ns(k[0], f) and isinstance(v, T) and 'getpass' in show(v):
                        st[k[1]] = v
                asked = any(e.kind == 'call' and isinstance(e.term, T) and pname(e.term).split('.')[-1] == 'getpass' for e, ls in walk_events(o.events()) if isinstance(e.term, T) and e.term.op in ('call', 'mcall'))
                if not asked:
                    continue
                given = {}
                for a, v in o.facts.items():
                    if a.op in ('isnone', 'truth'):
                        for d in c.dests(a.a[0], f):
                            given[d] = v == (a.op == 'truth')
                rep.check(any(given.get(k) for k in PRIVATE), rule, con, f.loc(), 'a password is asked for without a key')
                for pw, v in st.items():
                    k = next((k for k, x in PRIVATE.items() if x == pw), None)
                    if k is not None:
                        rep.check(True if given.get(k) else False, rule, con, f.loc(), 'the password %s is asked for without %s' % (pw, k))


def outputs(c, rep):
    """what the reader writes is what the packets carry"""
    rule = 'the output is the data, unchanged'
    for f in c.reached():
        con = short(f)
        for o in c.fl.run(f, selfcls=f.cls):
            for e, ls in walk_events(o.events()):
                t = e.term
                if e.kind == 'call' and isinstance(t, T) and t.op == 'call' and show(t).startswith('open('):
                    ds = c.dests(t, f)
                    if not ds & {'output_file_name', 'filename'}:
                        continue
                    m = [x for k, x in args_of(t)][1:2]
                    m = m[0].a[0] if m and m[0].op == 'const' else ('r' if not m else None)
                    want = 'w' if 'output_file_name' in ds else 'r'
                    rep.check(None if m is None else 'b' in m and want in m, rule, con, e.loc(), 'the file is opened with mode %r' % m)
    for k in sorted((k for k in c.p.classes.values() if k.qual.startswith('ccnpy.apps') and 'write' in k.methods), key=lambda k: k.qual):
        w = k.methods['write']
        ps = [x for x in w.params if x != w.first]
        con = short(w)
        with rep.guard(rule, con):
            P = mk('param', ps[0])
            for o in c.fl.run(w, selfcls=k):
                text = next((b for a, b in o.facts.items() if a.op == 'isa' and a.a[0] is P and any('str' == str(x.a[0]).split('.')[-1] for x in a.a[1:] if isinstance(x, T) and x.a)), None)
                ws = [e for e, ls in walk_events(o.events()) if e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[0] == 'write']
                if text:
                    continue
                rep.check(True if ws or o.kind == 'raise' else None, rule, con, w.loc(), 'nothing is written')
                for e in ws:
                    xs = [x for k2, x in args_of(e.term) if isinstance(x, T) and mentions(x, P)]
                    lossy = any(s.op in ('mcall', 'call') and pname(s) in ('decode', 'str', 'repr', 'hex') for x in xs for s in subs(x))
                    rep.check(False if lossy or not xs else True, rule, con, e.loc(), 'the data is written as %s' % (show(xs[0])[:60] if xs else 'something else'))


def concrete(c, rep):
    rule = 'what a tool creates can be created'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for n in ast.walk(f.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name)):
                    continue
                ks = [k for k in c.p.classes.values() if k.name == n.func.id]
                if len(ks) != 1:
                    continue
                k = ks[0]
                names = {m for x in k.mro() for m in x.methods}
                left = sorted(m for m in names if k.find(m) is not None and k.find(m).abstract)
                abc = any('ABC' in ast.unparse(b) for x in k.mro() for b in x.node.bases)
                rep.check(not (left and abc), rule, '%s %s' % (con, k.name), at(f, n), '%s has no %s' % (k.name, ', '.join(left)))


def passwords(c, rep):
    """a password given as text is made bytes before the crypto library sees it"""
    rule = 'a password given as text is accepted'
    n = 0
    for g in sorted(library(c.p), key=lambda g: g.qual):
        if not calls_of(g, 'load_pem_private_key'):
            continue
        con = short(g)
        with rep.guard(rule, con):
            for o in c.fl.run(g, selfcls=g.cls):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind != 'call' or not isinstance(t, T) or t.op not in ('call', 'mcall') or 'load_pem_private_key' not in show(t).split('(')[0]:
                        continue
                    v = arg(t, 'password', 1)
                    if v is None:
                        continue
                    n += 1
                    kinds = {}
                    for a, b in o.facts.items():
                        if a.op == 'isa' and a.a[0] is v:
                            for x in a.a[1:]:
                                if isinstance(x, T) and x.a:
                                    kinds[str(x.a[0]).split('.')[-1]] = b
                    safe = v.op != 'param' or kinds.get('str') is False or kinds.get('bytes') or opt(o, v)
                    rep.check(bool(safe), rule, con, e.loc(), 'a text password reaches the crypto library')
    if not n:
        rep.und(rule, 'crypto', 'no key is loaded')


def unlocked(c, rep):
    """the password that was given is the one a key is opened with"""
    rule = 'a key is opened with the password given for it'
    for g in sorted(library(c.p), key=lambda g: g.qual):
        ps = [n for n in g.params if n in ('password', 'passwd', 'passphrase')]
        if not ps or g in c.apps or g.abstract:
            continue
        con, P = short(g), mk('param', ps[0])
        with rep.guard(rule, con):
            for o in c.fl.run(g, selfcls=g.cls):
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind not in ('call', 'new') or not isinstance(t, T) or t.op not in ('call', 'mcall', 'new'):
                        continue
                    if pname(t).endswith('load_pem_private_key'):
                        v = arg(t, 'password', 1)
                    elif t.op == 'new' and pname(t) == 'RsaKey':
                        v = arg(canon(t), 'password', 1)
                    else:
                        h = [m for n, m in (g.cls.methods if g.cls is not None else {}).items() if (n == pname(t) or pname(t).endswith(n) and n.startswith('__')) and 'password' in m.params]
                        if not h:
                            continue
                        ps2 = [x for x in h[0].params if x != h[0].first]
                        v = arg(t, 'password', ps2.index('password'))
                    if v is not None and mentions(v, P):
                        rep.ok(rule, con)
                        continue
                    none = [a for a, b in o.facts.items() if a.op == 'isnone' and a.a[0] is P and b or a.op == 'truth' and a.a[0] is P and not b or
                            a.op == 'eq' and b and any(x.op == 'len' and x.a[0] is P for x in a.a) or
                            a.op == 'lt0' and mentions(a, mk('len', P))]
                    rep.check(bool(none) if v is None or v is NONE or v.op == 'const' else None, rule, con, e.loc(), 'the key is opened with %s although a password may be given' % (show(v) if v is not None else 'no password'))


def network(c, rep):
    """-T chooses the network, its absence the directory"""
    rule = 'the network is used exactly when asked for'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                tcp = next((b for a, b in o.facts.items() if a.op == 'truth' and a.a[0].op == 'attr' and a.a[0].a[1] == 'use_tcp' and c.is_ns(a.a[0].a[0], f)), None)
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'new' and isinstance(t, T) and t.op == 'new' and ('Network' in pname(t) or 'Directory' in pname(t)) and c.nsvars(f) | {'x'} and f in c.tools:
                        net = 'Network' in pname(t)
                        rep.check(None if tcp is None else tcp == net, rule, con, e.loc(), '%s is used %s -T' % (pname(t), 'with' if tcp else 'without'))


def numbers(c, rep):
    """whoever has the key has its number"""
    rule = 'a key that is given has a number'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                seen = set()
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'setattr' and isinstance(t, T) and t.a[1] == 'key_num' and c.is_ns(t.a[0], f):
                        numbered(c, rep, con, f, o, e, canon(t.a[2]))
                    if e.kind != 'new' or not isinstance(t, T) or pname(t) != 'AeadParameters' or t in seen:
                        continue
                    seen.add(t)
                    t = canon(t)
                    k, v = arg(t, 'key', 0), arg(t, 'key_number', 1)
                    if k is None or v is None or k is NONE or 'enc_key' not in c.dests(k, f) or known_none(o, f, c, {'enc_key'}):
                        continue
                    if v is NONE:
                        rep.viol(rule, con, e.loc(), 'the key has no number')
                    elif c.dests(v, f) == {'key_num'}:
                        some = any(a.op in ('isnone', 'truth') and b == (a.op == 'truth') and c.dests(a.a[0], f) == {'key_num'} for a, b in o.facts.items())
                        writes = all(any(w[0] == 'key_num' for w in c.uses(t2)[1]) for t2 in c.tools if f in c.flows[t2][0])
                        rep.check(True if some else None if writes else False, rule, con, e.loc(), 'the key has no number unless --key-num is given')
                    else:
                        rep.ok(rule, con)
                        # a number made of the key stands in for one that is not given
                        if 'key_num' not in c.dests(v, f):
                            rep.check(True if known_none(o, f, c, {'key_num'}) else False if 'enc_key' in c.dests(v, f) else None, 'the number that is given is used', con, e.loc(), 'the number is %s although --key-num may be given' % show(v)[:60])


def stores(c, rep):
    """keys are looked up in the store that holds the given keys"""
    rule = 'keys are looked up in the store of the given keys'
    for f in c.apps:
        con = short(f)
        if f.abstract:
            continue
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                added = {e.term.a[1] for e, ls in walk_events(o.events()) if e.kind == 'call' and isinstance(e.term, T) and e.term.op == 'mcall' and e.term.a[0] in ('add_rsa_key', 'add_aes_key')}
                seen = set()
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind not in ('call', 'new') or not isinstance(t, T) or t.op not in ('call', 'mcall', 'new') or t in seen:
                        continue
                    seen.add(t)
                    for k, v in args_of(t):
                        w = canon(v) if isinstance(v, T) else None
                        if k == 'keystore' or w is not None and w.op == 'new' and 'Keystore' in pname(w):
                            empty = w.op == 'new' and 'Keystore' in pname(w) and v not in added and w not in added and not any(pname(x) == 'add_rsa_key' for x in subs(w) if x.op == 'mcall')
                            late = empty and any(a.op == 'new' and pname(a) == pname(w) for a in added)
                            always = known_none(o, f, c, {'key_file'}) and known_none(o, f, c, {'wrap_key'})
                            rep.check(not empty or (None if late or always else False), rule, con, e.loc(), '%s gets a store without keys' % pname(t))


def given(c, v, f):
    """the option or parameter a value is"""
    d = direct(c, v, f)
    return {d} if d else {v.a[0]} if v.op == 'param' else set()


def present(c, rep):
    """a component is left out only when its option is not given, and then it is left out"""
    rule = 'a component is made exactly when its option is given'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            outs = [o for o in c.fl.run(f, selfcls=f.cls) if o.kind == 'return']
            none = [o for o in outs if o.val is NONE]
            some = [o for o in outs if o.val is not NONE and canon(o.val).op == 'new']
            if not none or not some:
                continue
            ds = []
            for o in none:
                d = {x for a, b in o.facts.items() if a.op in ('isnone', 'truth') and b == (a.op == 'isnone') for x in given(c, a.a[0], f)}
                ds.append(d)
                rep.check(bool(d), rule, con, f.loc(), 'nothing is made although %s' % (', '.join('%s is %s' % (show(a)[:30], b) for a, b in o.facts.items()) or 'nothing says so'))
            # without an option the component can do without
            why = [{x for a, b in o.facts.items() if a.op == 'isnone' and b for x in given(c, a.a[0], f)} for o in none]
            for o, d in zip(none, why):
                has = {x for a, b in o.facts.items() if a.op in ('isnone', 'truth') and b == (a.op == 'truth') for x in given(c, a.a[0], f)}
                if len(d) == 1 and any(len(x) == 1 and x != d and x <= has for x in why):
                    for t in {canon(s.val) for s in some}:
                        for k, v in args_of(t):
                            if given(c, canon(v), f) == d:
                                k2 = c.p.cls(pname(t))
                                g = k2.find('__init__') if k2 is not None else None
                                rep.check(False if g is not None and optional(g, k, t) else None, rule, con, f.loc(), 'nothing is made without %s, which %s does not need' % (', '.join(d), pname(t)))
            for o in some:
                d = {x for a, b in o.facts.items() if a.op in ('isnone', 'truth') and b == (a.op == 'isnone') for x in given(c, a.a[0], f)}
                rep.check(not any(x and x <= d for x in ds), rule, con, f.loc(), '%s is made without %s' % (pname(canon(o.val)), ', '.join(sorted(d))))


def optional(g, k, t):
    """may parameter k of a constructor be left out"""
    a = g.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    if isinstance(k, int):
        k = names[k + 1] if k + 1 < len(names) else None
    if k not in names:
        return False
    back = len(names) - names.index(k)
    ann = a.args[names.index(k) - len(a.posonlyargs)].annotation
    return back <= len(a.defaults) or ann is not None and ('Optional' in ast.unparse(ann) or 'None' in ast.unparse(ann))


def namespace_kept(c, rep):
    """showing the options does not change them"""
    rule = 'options keep their values'
    for f in c.reached():
        con = short(f)
        alias = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Assign) and (isinstance(n.value, ast.Call) and c.fname(n.value) == 'vars' or isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__'):
                alias |= {x.id for x in n.targets if isinstance(x, ast.Name)}
        hits = [n for n in ast.walk(f.node) if isinstance(n, ast.Assign) and isinstance(n.value, ast.Constant) and n.value.value is not None
                and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id in alias for x in n.targets)]
        for n in hits:
            rep.viol(rule, con, at(f, n), 'an option is overwritten with %s' % ast.unparse(n.value))
        if not hits:
            rep.ok(rule, con)


def nones(c, v, f, known=frozenset(), depth=0):
    """[options known not to be given] for every way in which a value can be None"""
    if v is NONE:
        return [known]
    if not isinstance(v, T) or depth > 5:
        return []
    if v.op == 'attr' and v.a[0] is SELF and f.cls is not None:
        init = f.cls.find('__init__')
        out = []
        for o in c.fl.run(init, selfcls=f.cls) if init is not None else []:
            w = o.st.heap.get((SELF, v.a[1]))
            if o.kind != 'raise' and w is not None:
                out += nones(c, canon(w), init, known | missing(c, o, init), depth + 1)
        return out
    if v.op in ('call', 'mcall'):
        g = c.callee(v, f)
        if g is not None and any(c.is_ns(x, f) for k, x in args_of(v)):
            out = []
            for o in c.fl.run(g, selfcls=g.cls):
                if o.kind == 'return':
                    out += nones(c, canon(o.val), g, known | missing(c, o, g), depth + 1)
            return out
    return []


def missing(c, o, f):
    """options that a path knows are not given"""
    return {d for a, b in o.facts.items() if a.op in ('isnone', 'truth') and b == (a.op == 'isnone') for d in c.dests(a.a[0], f)}


# (component, parameter): it is None only when none of these options is given
ONLY = {('ManifestTreeOptions', 'signer'): SIGN & {'key_file'}, ('PacketDirectoryWriter', 'signer'): SIGN & {'key_file'},
        ('ManifestTreeOptions', 'manifest_encryptor'): {'enc_key', 'wrap_key'}, ('traverse', 'hash_restriction'): {'hash_restriction'}}


def wired(c, rep):
    """what is made from the options reaches the part that uses it"""
    rule = 'what is made from the options is used'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            for o in c.fl.run(f, selfcls=f.cls):
                seen = set()
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind not in ('new', 'call') or not isinstance(t, T) or t.op not in ('new', 'call', 'mcall') or t in seen:
                        continue
                    seen.add(t)
                    t = canon(t)
                    n = pname(t)
                    for (cn, pn), need in ONLY.items():
                        if cn != n:
                            continue
                        pos = position(c, cn, pn)
                        v = arg(t, pn, pos) if pos is not None else arg(t, pn)
                        for known in nones(c, v, f, frozenset(missing(c, o, f))) if v is not None else []:
                            rep.check(need <= known, rule, '%s %s of %s' % (con, pn, cn), e.loc(), '%s of %s is None although %s may be given' % (pn, cn, ' or '.join(sorted(need - known))))
                        if v is not None:
                            rep.ok(rule, '%s %s of %s' % (con, pn, cn))
                    ks = [k for k in c.p.classes.values() if k.name == n and not k.is_abstract()]
                    m = ks[0].find('__init__') if len(ks) == 1 and t.op == 'new' else None
                    if m is not None and 'keystore' in m.params and not any(str(k).startswith('*') or x.op == 'dict' for k, x in args_of(t)):
                        v = arg(t, 'keystore', position(c, n, 'keystore'))
                        bad = v is None or nones(c, v, f)
                        rep.check(not bad, rule, '%s keystore of %s' % (con, n), e.loc(), '%s is made without the key store: it neither verifies nor decrypts' % n)
    # results that are always None
    for g in c.reached():
        if g.name == '__init__' or not c.nsvars(g) and g.cls is None:
            continue
        outs = [o for o in c.fl.run(g, selfcls=g.cls) if o.kind == 'return']
        used = [f for f in c.apps for n in ast.walk(f.node) if isinstance(n, ast.Call) and c.fname(n) == g.name and not statement(f, n)]
        if used and outs and c.nsvars(g):
            rep.check(not all(o.val is NONE for o in outs), rule, short(g), g.loc(), '%s makes nothing, whatever the options are' % short(g))
    # options whose value is looked at only to see whether there is one
    for t in c.tools:
        reads, writes = c.uses(t)
        for d, (f, n) in sorted(c.opts[t].items(), key=lambda x: str(x[0])):
            if d is None or any(k.arg == 'action' for k in n.keywords):
                continue
            mine = [r for r in reads if r[0] == d]
            if mine:
                rep.check(not all(only_tested(g, x) for _, g, x in mine) or None if c.flows[t][2] else not all(only_tested(g, x) for _, g, x in mine), rule, '%s %s' % (tname(t), d), at(mine[0][1], mine[0][2]),
                          'only the presence of option %s matters, its value is ignored' % d)


def statement(f, n):
    return any(isinstance(s, ast.Expr) and s.value is n for s in ast.walk(f.node))


def only_tested(f, n):
    for x in ast.walk(f.node):
        if isinstance(x, ast.Compare) and x.left is n and len(x.ops) == 1 and isinstance(x.ops[0], (ast.Is, ast.IsNot)):
            return True
        if isinstance(x, (ast.If, ast.IfExp, ast.While)) and x.test is n:
            return True
        if isinstance(x, ast.UnaryOp) and isinstance(x.op, ast.Not) and x.operand is n:
            return True
    return False


# flag -> call it asks for
FLAGS = {'kdf_uuid': 'uuid1', 'prettify': 'prettify', 'verbose': 'setLevel'}


def flags(c, rep):
    rule = 'a flag acts when it is set'
    for f in c.reached():
        con = short(f)
        with rep.guard(rule, con):
            by = {}
            for o in c.fl.run(f, selfcls=f.cls):
                n = {}
                for e, ls in walk_events(o.events()):
                    t = e.term
                    if e.kind == 'call' and isinstance(t, T) and t.op in ('call', 'mcall'):
                        x = pname(t).split('.')[-1]
                        n[x] = n.get(x, 0) + 1
                for a, b in o.facts.items():
                    if a.op == 'truth' and direct(c, a.a[0], f) in FLAGS and o.kind == 'return':
                        d = direct(c, a.a[0], f)
                        by.setdefault(d, {}).setdefault(b, []).append(n.get(FLAGS[d], 0))
            for d, x in by.items():
                if True not in x or False not in x:
                    rep.und(rule, '%s %s' % (con, d), 'one way only')
                    continue
                rep.check(min(x[True]) > max(x[False]) or (None if min(x[True]) == 0 == max(x[False]) else False), rule, '%s %s' % (con, d), f.loc(), '%s is not called exactly when %s is set' % (FLAGS[d], d))


RULES = {'F13': f13}
