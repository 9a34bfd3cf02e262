"""F08: every variant that can be configured or decoded is handled wherever the code branches on it; unknown ones raise."""
import ast
import re
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library
from .tree import short, pname, args_of, arg, SELF
from .names import ctors

BASES = ('NcSchema', 'SecurityCtx', 'ValidationAlg', 'AeadKey')
# functions that have to tell all variants apart, even when they test for none or one only
MUST = (
    ('Traversal._decrypt', 'SecurityCtx'), ('DecryptorCache.get_or_create', 'SecurityCtx'), ('apps.packet_utils.decrypt_manifest', 'SecurityCtx'),
    ('PacketValidator.validate_packet', 'ValidationAlg'), ('apps.packet_utils.validate_packet', 'ValidationAlg'),
    ('SchemaImplFactory.from_ncdef', 'NcSchema'), ('SchemaImplFactory.create', 'SchemaType'), ('NameConstructorContext.create', 'SchemaType'),
    ('KDF.derive', 'HpkeKdfIdentifiers'),
    ('AeadImpl._derive_key', 'AeadKey'), ('AeadImpl._create_aead_data', 'AeadKey'), ('AeadMode.from_key', 'AeadKey'),
    ('AeadImpl.decrypt_node', 'aead_mode'), ('RsaOaepImpl.decrypt_node', 'aead_mode'), ('ManifestFactory._build', 'source'),
)
SOURCES = ('Pointers', 'HashGroup', 'list', 'Node')
NOT = ('__eq__', '__ne__', '__repr__', '__str__', '__hash__', '__lt__', '__init__', '__post_init__', '__len__')


class Member:
    """a variant: a class, an enum member or a constant"""

    def __init__(self, name, cls=None, term=None):
        self.name, self.cls, self.term = name, cls, term

    def __repr__(self):
        return self.name


class Family:
    def __init__(self, name, members, closed=False):
        self.name, self.members = name, members
        self.closed = closed        # no other value can occur: nothing to refuse


def last(t):
    return str(t.a[0]).split('.')[-1] if isinstance(t, T) and t.a else str(t)


class Dispatch:
    def __init__(self, ctx):
        self.ctx, self.p = ctx, ctx.p
        self.fams = self.families()
        self.fl = Flow(ctx, set(), stop={'parse', 'deserialize', 'verify', 'decrypt', 'encrypt', 'content_object_hash', 'get_rsa', 'get_aes_key', '_derive', 'is_encrypted_by'} | {'decrypt_manifest'},
                       also=self.tests_family, samename=True, nomerge=True, states=20000)
        self.runs = {}

    def concrete(self, base):
        out = []
        for k in [base] + base.all_subs():
            names = {m for x in k.mro() for m in x.methods}
            abstract = any(k.find(m) is not None and k.find(m).abstract for m in names)
            isabc = any('ABC' in ast.unparse(b) for b in k.node.bases)
            if not abstract and not isabc and k is not base:
                out.append(k)
        return sorted(out, key=lambda k: k.qual)

    def families(self):
        p, out = self.p, {}
        for b in BASES:
            ks = [k for k in p.classes.values() if k.name == b]
            if len(ks) == 1:
                ms = self.concrete(ks[0])
                if len(ms) > 1:
                    out[b] = Family(b, [Member(k.name, cls=k) for k in ms])
        for k in p.classes.values():
            if k.is_enum():
                ms = [n for n in enum_members(k)]
                if len(ms) > 1:
                    out[k.name] = Family(k.name, [Member(n, term=mk('enum', k.qual, n)) for n in ms])
        if 'AeadKey' in out:
            vals = []
            for m in out['AeadKey'].members:
                f = m.cls.find('aead_mode')
                r = {n.value.value for n in ast.walk(f.node) if isinstance(n, ast.Return) and isinstance(n.value, ast.Constant)} if f is not None else set()
                if len(r) == 1:
                    vals.append(next(iter(r)))
            if len(vals) == len(out['AeadKey'].members) and len(set(vals)) == len(vals):
                out['aead_mode'] = Family('aead_mode', [Member(v, term=const(v)) for v in vals], closed=True)
        src = []
        for n in SOURCES:
            ks = [k for k in p.classes.values() if k.name == n]
            if len(ks) == 1:
                src.append(Member(n, cls=ks[0]))
            elif n == 'list':
                src.append(Member('list'))
        out['source'] = Family('source', src)
        return out

    def tests_family(self, f):
        """a helper that branches on a variant"""
        if f.name in NOT:
            return False
        names = {m.name for n, fam in self.fams.items() if n in BASES for m in fam.members}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Compare) and any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'type' for x in ast.walk(n)) and names & {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}:
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr.startswith('create_') and isinstance(n.func.value, ast.Name) and f.cls is not None and n.func.value.id not in (f.first, f.cls.name):
                # picks one of several named constructors
                others = {x.func.attr for x in ast.walk(f.node) if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr.startswith('create_')}
                if len(others) > 1:
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' and len(n.args) == 2:
                if names & {x.id for x in ast.walk(n.args[1]) if isinstance(x, ast.Name)}:
                    return True
        return False

    def outs(self, f):
        if f not in self.runs:
            self.runs[f] = self.fl.run(f, selfcls=f.cls)
        return self.runs[f]

    # ---------------------------------------------------------------- facts about a subject
    def says(self, a, x, m):
        """what atom a is for subject x being member m; None when it says nothing about the variant"""
        e = exact(a)
        if e is not None and e[0] is x:
            return None if m.cls is None else m.name == e[1]
        if a.op == 'isa' and a.a[0] is x:
            tested = {last(c) for c in a.a[1:]}
            if m.cls is not None:
                return bool(tested & {k.name for k in m.cls.mro()})
            if m.name == 'list':
                return bool(tested & {'list', 'List', 'Sequence', 'Iterable', 'Collection'})
            return None
        if a.op == 'eq' and any(y is x for y in a.a) and m.term is not None:
            o = [y for y in a.a if y is not x]
            if len(o) == 1 and (o[0].op == m.term.op):
                return o[0] is m.term
            return None
        if a.op == 'in' and a.a[0] is x and m.term is not None and isinstance(a.a[1], T) and a.a[1].op in ('seq', 'list', 'tuple', 'set'):
            return m.term in set(subs(a.a[1]))
        if a.op == 'isnone' and a.a[0] is x:
            return False
        return None

    def specific(self, a, x, fam):
        """the atom tells members of the family apart"""
        vs = [self.says(a, x, m) for m in fam.members]
        return None not in vs and len(set(vs)) > 1

    def subjects(self, outs, fam):
        """what is tested to be one of the family -> number of members told apart"""
        xs = {}
        for o in outs:
            for a in o.facts:
                if a.op in ('isa', 'eq', 'in', 'is'):
                    for x in a.a if exact(a) is None else exact(a)[:1]:
                        if isinstance(x, T) and x.op not in ('const', 'enum', 'cls') and self.specific(a, x, fam):
                            xs.setdefault(x, set()).add(a)
        return xs


def exact(a):
    """type(x) is C -> x, C"""
    if a.op in ('is', 'eq') and len(a.a) == 2:
        for x, y in (a.a, a.a[::-1]):
            if y.op == 'cls' and x.op == 'call' and show(x.a[0]) == 'type' and len(cargs(x)[0]) == 1:
                return cargs(x)[0][0], last(y)
    return None


def enum_members(k):
    out = []
    for s in k.node.body:
        if isinstance(s, ast.Assign):
            out += [t.id for t in s.targets if isinstance(t, ast.Name) and not t.id.startswith('_')]
    return out


def f08(ctx, rep):
    d = Dispatch(ctx)
    seen = set()
    for fq, famname in MUST:
        fs = [f for f in ctx.p.funcs.values() if (f.qual == fq or f.qual.endswith('.' + fq))]
        fam = d.fams.get(famname)
        if not fs or fam is None:
            rep.und('every variant is handled', fq, 'not found')
            continue
        one(d, rep, fs[0], fam, True)
        seen.add((fs[0], famname))
    every = sorted(set(library(ctx.p)) | {f for f in ctx.p.funcs.values() if f.qual.startswith('ccnpy.apps')}, key=lambda f: f.qual)
    for f in every:
        if f.name in NOT or f.abstract or f.cls is not None and f.cls.is_enum():
            continue
        for n in candidates(d, f):
            if (f, n) not in seen:
                one(d, rep, f, d.fams[n], False)
    parsers(d, rep)
    enums(d, rep)
    constants(d, rep)
    impls(d, rep)


def candidates(d, f):
    """families that a function may branch on"""
    words = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)} | {n.value for n in ast.walk(f.node) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    tests = any(isinstance(n, ast.Compare) or isinstance(n, ast.Match) or isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'isinstance' for n in ast.walk(f.node))
    if not tests:
        return []
    return [n for n, fam in d.fams.items() if n != 'source' and sum(m.name in words for m in fam.members) >= 2]


def one(d, rep, f, fam, must):
    rule = 'every variant is handled'
    con = '%s over %s' % (short(f), fam.name)
    with rep.guard(rule, con):
        outs = d.outs(f)
        xs = d.subjects(outs, fam)
        if not must:
            xs = {x: s for x, s in xs.items() if len(s) >= 2}
        if not xs:
            if must:
                rep.und(rule, con, 'no test of the variant found')
            return
        for x in sorted(xs, key=show):
            if not must and len(xs) > 3:
                return
            subject(d, rep, rule, con, f, fam, outs, x)


def consistent(d, o, x, m):
    for a, v in o.facts.items():
        s = d.says(a, x, m)
        if s is not None and s != v:
            return False
    return True


def positive(d, o, x, fam):
    """the path has found the variant by name"""
    return any(v and d.specific(a, x, fam) for a, v in o.facts.items())


def negative(d, o, x, fam):
    return any(not v and d.specific(a, x, fam) for a, v in o.facts.items())


def subject(d, rep, rule, con, f, fam, outs, x):
    for m in fam.members:
        cons = [o for o in outs if consistent(d, o, x, m)]
        named = [o for o in cons if positive(d, o, x, fam)]
        fine = [o for o in named if o.kind == 'return']
        left = [o for o in cons if o.kind == 'return' and negative(d, o, x, fam)]
        if fine:
            rep.ok(rule, con)
            branch(d, rep, con, f, fam, m, fine, x)
        elif left:
            # handled, but by not being another one: told below
            rep.ok(rule, con)
        elif not any(o.kind == 'return' and not positive(d, o, x, fam) and not negative(d, o, x, fam) and anyof(o, x) for o in outs):
            rep.viol(rule, con, f.loc(), '%s is refused' % m)
        else:
            rep.viol(rule, con, f.loc(), '%s is not handled' % m)
    # a variant is found by name and then nothing comes of it, although something does of the others
    got = {m: [o for o in outs if o.kind == 'return' and consistent(d, o, x, m) and positive(d, o, x, fam)] for m in fam.members}
    for m, os in got.items():
        if os and all(o.val is NONE and idle(o) for o in os) and any(o.val is not NONE for u, us in got.items() if u is not m for o in us if not consistent(d, o, x, m)):
            rep.viol(rule, con, f.loc(), 'nothing is done for %s' % m)
    # the raise meant for what nobody handles is not for a variant that was found
    ends = {raised(o) for o in outs if o.kind == 'raise' and negative(d, o, x, fam) and not positive(d, o, x, fam) and not any(consistent(d, o, x, m) for m in fam.members)} - {None}
    for m in fam.members:
        falls = [o for o in outs if o.kind == 'raise' and raised(o) in ends and consistent(d, o, x, m) and any(v and d.says(a, x, m) and d.specific(a, x, fam) for a, v in o.facts.items())]
        # the same circumstances do not stop another variant
        falls = [o for o in falls if any(p.kind == 'return' and positive(d, p, x, fam) and any(n is not m and consistent(d, p, x, n) for n in fam.members) and not consistent(d, p, x, m)
                                         and all(p.facts.get(a, v) == v for a, v in o.facts.items() if d.says(a, x, m) is None) for p in outs)]
        if falls:
            more = [('' if v else 'not ') + show(a)[:60] for a, v in falls[0].facts.items() if d.says(a, x, m) is None]
            rep.viol(rule, con, f.loc(), '%s is refused like an unknown one when %s' % (m, ' and '.join(more)))
    if fam.closed or predicate(outs):
        return
    rule = 'an unknown variant raises'
    nobody = [o for o in outs if negative(d, o, x, fam) and not any(consistent(d, o, x, m) for m in fam.members)]
    falls = [o for o in nobody if o.kind == 'return' and not reports(f, o)]
    if nobody:
        rep.check(not falls, rule, con, f.loc(), 'none of %s: returns %s' % (', '.join(m.name for m in fam.members), ', '.join(sorted({show(o.val)[:40] for o in falls}))))
    else:
        default = [o for o in outs if o.kind == 'return' and negative(d, o, x, fam) and not positive(d, o, x, fam)]
        who = {m.name for o in default for m in fam.members if consistent(d, o, x, m)}
        if default:
            rep.viol(rule, con, f.loc(), 'anything unknown is taken for %s' % ', '.join(sorted(who)))


def idle(o):
    """nothing is kept or told on the path"""
    return not any(e.kind in ('mut', 'setattr', 'setitem', 'yield') for e, ls in walk_events(o.events()))


def raised(o):
    """the raise statement that ended the path"""
    evs = [e for e in o.events() if e.kind == 'raise']
    return evs[-1].node if evs else None


def anyof(o, x):
    return any(mentions(a, x) for a in o.facts)


def predicate(outs):
    rs = [o.val for o in outs if o.kind == 'return']
    return bool(rs) and all(isinstance(v, T) and (v.op == 'const' and isinstance(v.a[0], bool) or v.op in ('not', 'and', 'or', 'isa', 'eq', 'truth', 'isnone', 'in')) for v in rs)


def reports(f, o):
    """a tool that says so and gives up"""
    if not f.qual.startswith('ccnpy.apps'):
        return False
    return any(e.kind == 'call' and isinstance(e.term, T) and (pname(e.term) if e.term.op in ('call', 'mcall') else '').split('.')[-1] in ('print', 'error', 'warning') for e, ls in walk_events(o.events())) or any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'print' for n in ast.walk(f.node)) and o.val is NONE


# ------------------------------------------------------------------ the branch of a variant
def words(name):
    xs = re.findall(r'[A-Z]+(?![a-z])|[A-Z]?[a-z]+|[0-9]+', name.replace('_', ' '))
    return [x.lower() for x in xs]


def stems(names):
    """name -> what sets it apart from its siblings"""
    w = {n: words(n) for n in names}
    common = set.intersection(*(set(x) for x in w.values())) if w else set()
    return {n: [y for y in x if y not in common] for n, x in w.items()}


def alike(a, b):
    return bool(a) and bool(b) and (a == b or all(x[:4] == y[:4] for x, y in zip(a, b)) and len(a) == len(b))


def branch(d, rep, con, f, fam, m, outs, x):
    """what the branch of a variant creates is the one of that variant"""
    rule = 'the branch of a variant makes what belongs to it'
    mine = stems([x.name for x in fam.members])
    for o in outs:
        made = set()
        for e, ls in walk_events(o.events()):
            t = e.term
            if not isinstance(t, T):
                continue
            if e.kind == 'new' and t.op == 'new':
                made.add((pname(t), 'new'))
            elif e.kind == 'call' and t.op == 'call' and t.a[0].op == 'ext':
                made.add((pname(t).split('.')[-1], 'ext'))
            elif e.kind == 'call' and t.op in ('call', 'mcall'):
                made.add((pname(t), 'call'))
        if isinstance(o.val, T):
            made |= {(pname(s), 'new') for s in subs(o.val) if s.op == 'new'}
        for n, kind in made:
            sib = siblings(d, n, kind, f)
            if len(sib) < 2 or elsewhere(d, o, x, n):
                continue
            st = stems(sib)
            own = next((k for k in sib if alike(st[k], mine[m.name])), None)
            other = next((u for u in fam.members if u is not m and alike(st[n], mine[u.name])), None)
            if own is None and other is None:
                continue
            rep.check(not (other is not None and own is not None and own != n), rule, con, f.loc(), '%s gets %s' % (m, n))


def elsewhere(d, o, x, n):
    """which of its kind is made was decided by a test of something else"""
    for fam in d.fams.values():
        if any(m.cls is not None and m.name == n for m in fam.members):
            for a, v in o.facts.items():
                if v and a.op in ('isa', 'eq') and any(isinstance(y, T) and y is not x and d.specific(a, y, fam) for y in a.a):
                    return True
    return False


def siblings(d, n, kind, f):
    """names of the things made instead for the other variants"""
    if kind == 'new':
        ks = [k for k in d.p.classes.values() if k.name == n]
        if len(ks) != 1:
            return []
        for b in ks[0].mro()[1:]:
            if b.name in ('TlvType', 'Serializable', 'IntegerTlvType', 'HashTlvType', 'OctetTlvType', 'object'):
                break
            cs = d.concrete(b)
            if len(cs) > 1:
                return [c.name for c in cs]
        return []
    if kind == 'ext':
        m = re.fullmatch(r'([A-Z]+)[0-9]+', n)
        if not m:
            return []
        return sorted({x.attr for x in ast.walk(f.node) if isinstance(x, ast.Attribute) and re.fullmatch(m.group(1) + r'[0-9]+', x.attr)} | {n} | {m.group(1) + s for s in ('256', '384', '512')})
    # factory functions of one class: create_x_128, create_y_128
    if f.cls is not None:
        fs = {x for k in d.p.classes.values() for x in k.methods if x.startswith('_create_') or x.startswith('create_')}
        w = words(n)
        if n in f.cls.methods:
            return sorted(x for x in f.cls.methods if len(words(x)) == len(w) and words(x)[:-1] == w[:-1])
    return []


# ------------------------------------------------------------------ parsers, enums, constants
def parsers(d, rep):
    """the parser of a family knows every member"""
    rule = 'the parser of a family knows every member'
    for b in BASES:
        ks = [k for k in d.p.classes.values() if k.name == b]
        if len(ks) != 1 or 'parse' not in ks[0].methods or b not in d.fams:
            continue
        f = ks[0].methods['parse']
        con = short(f)
        with rep.guard(rule, con):
            outs = d.fl.run(f, selfcls=ks[0])
            got, opaque = set(), False
            for o in outs:
                if o.kind != 'return' or not isinstance(o.val, T):
                    continue
                hit = set(members_parsed(d.fams[b], o.val))
                got |= hit
                if not hit:
                    opaque = True
            for m in d.fams[b].members:
                rep.check(True if m.name in got else None if opaque else False, rule, con, f.loc(), '%s is never parsed' % m)
            rep.check(not any(o.kind == 'return' and o.val is NONE for o in outs), 'an unknown variant raises', con, f.loc(), 'a TLV of no member gives None')
            asked = {}
            for o in outs:
                for a in o.facts:
                    if a.op == 'eq' and any(num(y) is not None for y in a.a):
                        for z in a.a:
                            if num(z) is None:
                                asked.setdefault(z, set()).update(num(y) for y in a.a if num(y) is not None)
            split = {z for z, ns in asked.items() if len(ns) > 1}
            for o in outs:
                if o.kind != 'return' or not isinstance(o.val, T):
                    continue
                for n in members_parsed(d.fams[b], o.val):
                    m = next(m for m in d.fams[b].members if m.name == n)
                    ct = m.cls.find('class_type')
                    nums = {num(canon(x.val)) for x in d.fl.run(ct, selfcls=m.cls) if x.kind == 'return'} if ct is not None else set()
                    tys = {num(y) for a, v in o.facts.items() if v and a.op == 'eq' for y in a.a if num(y) is not None and any(z in split for z in a.a)}
                    if len(nums) == 1 and tys:
                        rep.check(tys == nums, 'a member is parsed for its own type', con, f.loc(), '%s is parsed for another type' % m)
    # no two members share a type
    rule = 'members of a family have different types'
    for b in ('NcSchema', 'SecurityCtx', 'ValidationAlg'):
        if b not in d.fams:
            continue
        by = {}
        for m in d.fams[b].members:
            ct = m.cls.find('class_type')
            with rep.guard(rule, m.name):
                nums = [canon(x.val) for x in d.fl.run(ct, selfcls=m.cls) if x.kind == 'return']
                n = num(nums[0]) if len(nums) == 1 else None
                if n is None:
                    rep.und(rule, m.name, 'type number not known')
                    continue
                rep.check(n not in by, rule, m.name, ct.loc(), '%s and %s both have type %d' % (m, by.get(n), n))
                by[n] = m.name


def members_parsed(fam, val):
    """members that the value is parsed as"""
    out = set()
    for s in subs(val):
        if s.op == 'mcall' and s.a[0] in ('parse', 'deserialize') and s.a[1].op == 'cls':
            out.add(last(s.a[1]))
        elif s.op == 'new':
            out.add(pname(s))
    return sorted(out & {m.name for m in fam.members})


def enums(d, rep):
    """looking up a member of an enum finds every member"""
    rule = 'every member of an enum can be looked up'
    for k in sorted((k for k in d.p.classes.values() if k.is_enum()), key=lambda k: k.qual):
        ms = {n: v for s in k.node.body if isinstance(s, ast.Assign) for n, v in [(s.targets[0].id if isinstance(s.targets[0], ast.Name) else None, s.value)] if n and not n.startswith('_')}
        vals = {}
        for n, v in ms.items():
            try:
                vals[n] = ast.literal_eval(v)
            except ValueError:
                vals[n] = None
        flat = [x if isinstance(x, tuple) else (x,) for x in vals.values() if x is not None]
        width = max((len(x) for x in flat), default=0)
        for i in range(width):
            col = [x[i] for x in flat if len(x) > i]
            rep.check(len(set(col)) == len(col), 'members of an enum have different values', k.name, '%s:%d' % (k.mod.rel, k.node.lineno), 'two members share a value')
        for f in sorted(k.methods.values(), key=lambda f: f.name):
            if f.name in NOT or f.first is None or not f.params:
                continue
            con = short(f)
            with rep.guard(rule, con):
                lookup(d, rep, rule, con, f, k, vals, d.fl.run(f, selfcls=k))


def lookup(d, rep, rule, con, f, k, vals, outs):
    found = {o.val.a[1] for o in outs if o.kind == 'return' and isinstance(o.val, T) and o.val.op == 'enum' and o.val.a[0] == k.qual}
    if len(found) < 2:
        rep.und(rule, con, 'members not told apart')
        return
    opaque = any(o.kind == 'return' and not (isinstance(o.val, T) and o.val.op == 'enum') and o.val is not NONE for o in outs)
    live = set()
    for o in outs:
        if o.kind != 'return' or o.val.op != 'enum':
            continue
        n, wrong, dead, named, also = o.val.a[1], False, False, False, False
        for a, v in o.facts.items():
            if not v or a.op not in ('eq', 'is'):
                continue
            for y in a.a:
                z = [x for x in a.a if x is not y]
                es = {t.a[1] for t in subs(y) if t.op == 'enum' and t.a[0] == k.qual}
                lit = None
                if len(es) == 1:
                    named = True
                    wrong |= n not in es
                    also |= n in es
                    lit = vals.get(next(iter(es)))
                elif y.op == 'const' and isinstance(y.a[0], (str, int)) or num(y) is not None:
                    lit = y.a[0] if y.op == 'const' else num(y)
                    named = True
                    own = vals.get(n)
                    wrong |= own is not None and lit not in (own if isinstance(own, tuple) else (own,))
                    also |= own is not None and lit in (own if isinstance(own, tuple) else (own,))
                if isinstance(lit, str) and len(z) == 1 and z[0].op == 'mcall' and z[0].a[0] in ('lower', 'upper'):
                    dead |= getattr(lit, z[0].a[0])() != lit
        if wrong and also:
            continue        # two members at once: no such value
        rep.check(not wrong if named else None, 'a lookup gives the member asked for', con, f.loc(), 'what names another member gives %s' % n)
        if not dead:
            live.add(n)
    for n in vals:
        rep.check(True if n in live else None if opaque else False, rule, con, f.loc(), '%s is never found' % n)
    rep.check(not any(o.kind == 'return' and (o.val is NONE or isinstance(o.val, T) and o.val.op in ('call', 'new') and pname(o.val).endswith(('Error', 'Exception'))) for o in outs), 'an unknown name raises', con, f.loc(), 'an unknown name gives None or an exception that is not raised')


def tags(d):
    """classes whose values are made by named constructors from a number: class -> {number: name of the constructor}"""
    out = {}
    for k in sorted(d.p.classes.values(), key=lambda k: k.qual):
        if k.qual.startswith('ccnpy.apps') or k.is_enum():
            continue
        made = {}
        for f in k.methods.values():
            if f.kind != 'classmethod' and 'classmethod' not in str(f.decs) or f.params:
                continue
            if not any(isinstance(n, ast.Return) and isinstance(n.value, (ast.Call, ast.Name)) for n in ast.walk(f.node)) or any(isinstance(n, (ast.If, ast.For, ast.While, ast.Try)) for n in ast.walk(f.node)):
                continue
            try:
                for o in d.fl.run(f, selfcls=k):
                    if o.kind == 'return' and isinstance(o.val, T) and o.val.op == 'new' and pname(o.val) == k.name:
                        v = [num(x) for x in cargs2(o.val) if isinstance(x, T)]
                        if len(v) == 1 and v[0] is not None:
                            made[v[0]] = f.name
            except (Budget, AnalysisError):
                continue
        if len(made) > 1 and len(set(made.values())) == len(made):
            out[k] = made
    return out


def cargs2(t):
    return [t.a[i] for i in range(3, len(t.a), 2)]


def constants(d, rep):
    """methods that branch on the number a value was made with know every number"""
    rule = 'every number a value can have is known'
    tg = tags(d)
    for k, made in tg.items():
        for f in sorted(k.methods.values(), key=lambda f: f.name):
            if f.abstract or 'classmethod' in str(f.decs) or f.kind in ('classmethod', 'static', 'staticmethod'):
                continue
            con = short(f)
            with rep.guard(rule, con):
                outs = d.fl.run(f, selfcls=k)
                if predicate(outs):
                    continue
                numbered(d, rep, rule, con, f, made, outs, lambda x, o: x.op == 'attr' and x.a[0] is SELF, True)
    every = sorted(set(library(d.p)) | {f for f in d.p.funcs.values() if f.qual.startswith('ccnpy.apps')}, key=lambda f: f.qual)
    for k, made in tg.items():
        ask = {n for n in k.methods if n.startswith('is_')}
        for f in every:
            if f.abstract or f.cls is k:
                continue
            called = {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            if len(called & ask) < 2:
                continue
            con = short(f)
            with rep.guard(rule, con):
                outs = d.outs(f)
                numbered(d, rep, rule, con, f, made, outs, lambda x, o: x.op == 'attr' and k.name in {str(c).split('.')[-1].rstrip('>') if not hasattr(c, 'name') else c.name for c in (d.fl.i.typeof(x.a[0], o.st).classes or ())})
    rule = 'a number is made for what it stands for'
    for k, made in tg.items():
        for f in every + [x for x in k.methods.values() if x.name not in made.values()]:
            if f.abstract or f.name in made.values():
                continue
            src = {n.func.attr for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)} | {n.func.id for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
            helpers = {h for h in src if f.cls is not None and h in f.cls.methods and any(isinstance(n, ast.Attribute) and n.attr in made.values() for n in ast.walk(f.cls.methods[h].node))}
            if not src & set(made.values()) and not helpers:
                continue
            con = short(f)
            with rep.guard(rule, con):
                picks = set()
                for o in d.outs(f):
                    if o.kind != 'return':
                        continue
                    if isinstance(o.val, T) and o.val.op == 'new' and pname(o.val) == k.name:
                        picks |= {num(x) for x in cargs2(o.val)}
                    ts = [t for e, ls in walk_events(o.events()) if e.kind == 'new' for t in [e.term] if isinstance(t, T) and t.op == 'new' and pname(t) == k.name]
                    for t in ts:
                        v = [num(x) for x in cargs2(t)]
                        if len(v) != 1 or v[0] not in made:
                            continue
                        belongs(d, rep, rule, con, f, o, made, v[0])
                if len(picks & set(made)) >= max(3, len(made) - 1) and None not in picks:
                    for v, fn in sorted(made.items()):
                        rep.check(v in picks, 'every number is made', con, f.loc(), 'never gives %s' % fn)


def belongs(d, rep, rule, con, f, o, made, n):
    """the conditions under which number n is made speak of n"""
    mine, everyword = set(words(made[n])), {w for x in made.values() for w in words(x)}
    apart = everyword - set.intersection(*(set(words(x)) for x in made.values()))
    for a, v in o.facts.items():
        if not v:
            continue
        says = set()
        if a.op == 'isa' and len(a.a) == 2:
            says = set(words(last(a.a[1])))
        elif exact(a) is not None:
            says = set(words(exact(a)[1]))
        elif a.op == 'eq':
            says = {str(num(y)) for y in a.a if num(y) is not None} | {w for y in a.a if y.op == 'const' and isinstance(y.a[0], str) for w in words(y.a[0].replace('-', '_'))}
        says &= apart
        if says:
            rep.check(says <= mine, rule, con, f.loc(), '%s is made for %s' % (made[n], ', '.join(sorted(says))))


def numbered(d, rep, rule, con, f, made, outs, isit, own=False):
    xs = {}
    for o in outs:
        for a in o.facts:
            if a.op == 'eq':
                n = [num(y) for y in a.a if num(y) is not None]
                x = [y for y in a.a if num(y) is None and isit(y, o)]
                if len(n) == 1 and len(x) == 1:
                    xs.setdefault(x[0], set()).add(n[0])
    apart = {w for x in made.values() for w in words(x)} - set.intersection(*(set(words(x)) for x in made.values()))
    for x, ns in xs.items():
        if len(ns & set(made)) < (2 if own else max(2, len(made) - 1)):
            continue
        for v, fn in sorted(made.items()):
            ask = lambda o: [(num(next(y for y in a.a if num(y) is not None)), b) for a, b in o.facts.items() if a.op == 'eq' and any(y is x for y in a.a) and any(num(y) is not None for y in a.a)]
            cons = [o for o in outs if all((v == n) == b for n, b in ask(o))]
            pos = [o for o in cons if o.kind == 'return' and any(b for n, b in ask(o))]
            rest = [o for o in cons if o.kind == 'return' and ask(o) and not any(b for n, b in ask(o))]
            # a range test or the like decides it otherwise
            unclear = any(a.op not in ('eq',) and mentions(a, x) for o in outs for a in o.facts)
            rep.check(True if pos or rest else None if unclear else False, rule, con, f.loc(), 'the value of %s() is not known' % fn)
            for o in pos:
                got = set()
                if isinstance(o.val, T):
                    for s in subs(o.val):
                        if s.op == 'const' and isinstance(s.a[0], str):
                            got |= set(words(s.a[0].replace('-', '_')))
                        elif s.op == 'new' and not elsewhere(d, o, x, pname(s)):
                            got |= set(words(pname(s)))
                    if num(o.val) is not None:
                        got.add(str(num(o.val)))
                got &= apart
                if got:
                    rep.check(got <= set(words(fn)), 'the branch of a variant makes what belongs to it', con, f.loc(), '%s gives %s' % (fn, ', '.join(sorted(got))))


def impls(d, rep):
    """every schema has an implementation, and every implementation is made for its schema"""
    rule = 'a schema implementation checks for its own schema'
    if 'NcSchema' not in d.fams:
        return
    ks = [k for k in d.p.classes.values() if k.name == 'SchemaImpl']
    if len(ks) != 1:
        return
    im = d.concrete(ks[0])
    a, b = stems([m.name for m in d.fams['NcSchema'].members]), stems([k.name for k in im])
    for m in d.fams['NcSchema'].members:
        own = [k for k in im if alike(b[k.name], a[m.name])]
        rep.check(True if own else None, 'every schema has an implementation', m.name, '', '')
        for k in own:
            f = k.find('__init__')
            with rep.guard(rule, k.name):
                tested = set()
                for o in d.fl.run(f, selfcls=k):
                    if o.kind == 'return':
                        for at, v in o.facts.items():
                            if at.op == 'isa' and v:
                                tested |= {last(c) for c in at.a[1:]} & {x.name for x in d.fams['NcSchema'].members}
                if tested:
                    rep.check(m.name in tested, rule, k.name, f.loc(), '%s accepts only %s' % (k.name, ', '.join(sorted(tested))))


RULES = {'F08': f08}
