"""F15: different names have different link file names.  The text made from a name is followed back to the octets of its
components; on the way nothing may be left out or become equal.  What is tracked is which characters a text may contain."""
import ast
import string
from ..terms import *
from ..interp import *
from ..project import *
from ..wire import *
from ..flow import *
from .crypto import callee

OTHER = 'other'
ALL = frozenset(map(chr, range(128))) | {OTHER}
UNRESERVED = frozenset(string.ascii_letters + string.digits + '_.-~')
HEXDIGITS = frozenset('0123456789abcdefABCDEF')
DIGITS = frozenset(string.digits + '-')
LOSSY = ('lower', 'upper', 'casefold', 'title', 'capitalize', 'swapcase', 'strip', 'lstrip', 'rstrip', 'removeprefix', 'removesuffix', 'expandtabs')
NUMBERS = ('array_to_number', 'from_bytes', 'value_as_number', 'int', 'len')
RULE = 'different names have different link names'


class Lost(Exception):
    pass


class Unknown(Exception):
    pass


def varies(t):
    return t.op != 'const' and (has_op(t, 'param') or has_op(t, 'attr') or has_op(t, 'mcall') or has_op(t, 'call'))


def together(a, b):
    """both sets of facts can be true at once"""
    if any(b.get(k, v) != v for k, v in a.items()):
        return False
    is_ = {}
    for k, v in list(a.items()) + list(b.items()):
        if k.op == 'eq' and v and num(k.a[0]) is not None:
            if is_.setdefault(k.a[1], k.a[0]) is not k.a[0]:
                return False
    return True


class Text:
    def __init__(self, ctx, fl):
        self.ctx, self.fl, self.i, self.p = ctx, fl, fl.i, ctx.p
        self.depth = 0

    def method(self, c, n, facts):
        """union over what method n of class c returns"""
        f = c.find(n)
        if f is None or f.abstract or f.params or self.depth > 6:
            raise Unknown('%s.%s' % (c.name, n))
        self.depth += 1
        try:
            out = frozenset()
            for o in self.fl.run(f, selfcls=c):
                if o.kind == 'return' and together(facts, o.facts):
                    out |= self.chars(canon(o.val), c, o.facts)
            return out
        finally:
            self.depth -= 1

    def classes(self, t, sc):
        if t.op == 'param' and t.a[0] == 'self' and sc is not None:
            return [sc]
        if t.op == 'elem':
            x = t.a[0]
            if x.op == 'attr' and x.a[1].lstrip('_') == 'components' or x.op == 'mcall' and x.a[0] == 'components':
                c = [k for k in self.p.classes.values() if k.name == 'NameComponent']
                return c
        return list(self.i.typeof(t, None).classes) if t.op == 'param' else []

    def chars(self, t, sc, facts):
        op = t.op
        if op == 'const':
            v = t.a[0]
            return frozenset(v if v.isascii() else set(v) | {OTHER}) if isinstance(v, str) else ALL if isinstance(v, bytes) else frozenset(str(v))
        if op == 'fstr' and len(t.a) == 2 and t.a[0].op == 'const' and t.a[1].op == 'seq' and any(isinstance(x, T) and x.op == 'each' for x in t.a[1].a):
            return self.joined(t.a[0].a[0], t.a[1], sc, facts)
        if op in ('fstr', 'cat', 'plus', 'app'):
            out = frozenset()
            for x in t.a:
                if isinstance(x, T):
                    out |= self.chars(canon(x), sc, facts)
            return out
        if op in ('tobytes', 'arr', 'copyof'):
            return self.chars(canon(t.a[0]), sc, facts)
        if op == 'slice' and t.a[2] is NONE:
            raise Unknown(show(t))
        if op in ('slice', 'idx') and varies(t.a[0]):
            raise Lost('only a part of %s is kept' % show(t.a[0])[:60])
        if op == 'attr':
            if t.a[1] in ('_tlv_type', 'tlv_type'):
                return DIGITS
            if t.a[1] in ('_value', 'value'):
                return ALL
            if t.a[1] == 'path' and t.a[0].op == 'call' and t.a[0].a[0].op == 'ext' and t.a[0].a[0].a[0].split('.')[-1] in ('urlparse', 'urlsplit'):
                n = t.a[0].a[0].a[0].split('.')[-1]
                cs = self.chars(canon(t.a[0].a[2]), sc, facts)
                cut = cs & frozenset('?#;' if n == 'urlparse' else '?#')
                if cut:
                    raise Lost('%s() leaves out what follows a %s of the name' % (n, ' or a '.join(repr(x) for x in sorted(cut))))
                return cs
            raise Unknown(show(t))
        if op in ('lin', 'len', 'mul') or num(t) is not None:
            return DIGITS
        if op == 'mcall':
            return self.mcall(t, sc, facts)
        if op == 'call':
            f = t.a[0]
            n = callee(t)
            pos, kw = cargs(t)
            if n in ('quote', 'quote_plus') and pos:
                cs = self.chars(canon(pos[0]), sc, facts)
                safe = kw.get('safe', pos[1] if len(pos) > 1 else const('/' if n == 'quote' else ''))
                if safe.op != 'const':
                    raise Unknown('quote')
                s = safe.a[0] if isinstance(safe.a[0], str) else safe.a[0].decode('latin-1')
                if '%' in s and '%' in cs:
                    raise Lost('%s() leaves a %% of the name as it is' % n)
                return UNRESERVED | {'%'} | frozenset(s) | (frozenset('+') if n == 'quote_plus' else frozenset())
            if n in ('unquote', 'unquote_plus') and pos:
                raise Unknown(n)
            if n in NUMBERS:
                return DIGITS
            if n in ('repr', 'str', 'format') and len(pos) == 1:
                return self.shown(canon(pos[0]), sc, facts, n == 'repr')
            if n in ('bytes', 'bytearray') and len(pos) == 1:
                return self.chars(canon(pos[0]), sc, facts)
            raise Unknown(show(t))
        if op == 'param' or op == 'elem':
            return self.shown(t, sc, facts)
        raise Unknown(show(t))

    def shown(self, t, sc, facts, plain=False):
        cs = self.classes(t, sc)
        if len(cs) != 1:
            raise Unknown(show(t))
        c = cs[0]
        return self.method(c, '__repr__' if plain or c.find('__str__') is None else '__str__', facts)

    def joined(self, sep, s, sc, facts):
        out = frozenset(sep)
        for x in s.a[1:]:
            if x.op != 'each':
                cs = self.chars(canon(x), sc, facts)
            else:
                cs = frozenset()
                for alt in x.a[1]:
                    for el in (alt[1] if isinstance(alt, tuple) else ()):
                        cs |= self.chars(canon(el), sc, {})
            if not sep or cs & frozenset(sep) == frozenset(sep):
                raise Lost('a component may itself contain %r, which separates components' % sep)
            out |= cs
        return out

    def mcall(self, t, sc, facts):
        n, recv = t.a[0], canon(t.a[1])
        pos, kw = margs(t)
        if n == 'replace' and len(pos) == 2 and all(x.op == 'const' for x in pos):
            cs = self.chars(recv, sc, facts)
            a, b = pos[0].a[0], pos[1].a[0]
            if not all(x in cs for x in a) or a == b:
                return cs
            if len(a) != 1:
                raise Unknown(show(t))
            if b == '':
                raise Lost('each %r of the name is left out' % a)
            if len(b) == 1 and b in cs:
                raise Lost('a %r and a %r of the name become the same' % (a, b))
            if len(b) > 1 and all(x in cs for x in b) and not (b[0] == '%' and b[1:].upper() == '%02X' % ord(a) and OTHER not in cs):
                raise Lost('a %r and a %r of the name become the same' % (a, b))
            return cs - {a} | frozenset(b)
        if n == 'decode':
            e = kw.get('errors', pos[1] if len(pos) > 1 else None)
            if e is not None and e.op == 'const' and e.a[0] in ('ignore', 'replace', 'backslashreplace', 'xmlcharrefreplace', 'namereplace'):
                self.chars(recv, sc, facts)
                raise Lost('octets that are not text become the same as others (errors=%r)' % e.a[0])
            return self.chars(recv, sc, facts)
        if n == 'encode':
            return self.chars(recv, sc, facts)
        if n == 'hex':
            self.chars(recv, sc, facts)
            return HEXDIGITS
        if n in ('tobytes', 'copy'):
            return self.chars(recv, sc, facts)
        if n in LOSSY and varies(recv):
            self.chars(recv, sc, facts)
            raise Lost('%s() makes different names the same' % n)
        if n in NUMBERS:
            return DIGITS
        if n == 'value' and not pos:
            return ALL
        if n in ('type', 'tlv_type') and not pos:
            return DIGITS
        if n == 'serialize' and not pos:
            return ALL
        if n == 'join' and len(pos) == 1 and recv.op == 'const' and pos[0].op == 'seq':
            return self.joined(recv.a[0], canon(pos[0]), sc, facts)
        if not pos and not kw:
            cs = self.classes(recv, sc)
            if len(cs) == 1:
                return self.method(cs[0], n, facts)
        raise Unknown(show(t))


def f15_links(ctx, rep):
    p = ctx.p
    fl = ctx.lazy('linkname', lambda: Flow(ctx, set(), stop={'serialize'}))
    tx = Text(ctx, fl)
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.abstract or len(f.params) != 1 or f.node is None or isinstance(f.node, ast.Lambda):
            continue
        ann = next((a.annotation for a in f.node.args.args if a.arg == f.params[0]), None)
        if ann is None or ast.unparse(ann).split('.')[-1] not in ('Name', "'Name'") or f.node.returns is None or ast.unparse(f.node.returns) not in ('str', 'Path', 'PurePath'):
            continue
        con = '%s.%s' % (f.cls.name, f.name) if f.cls else f.name
        with rep.guard(RULE, con):
            for o in fl.run(f, selfcls=f.cls):
                if o.kind != 'return':
                    continue
                try:
                    tx.chars(canon(o.val), f.cls, dict(o.facts))
                    rep.ok(RULE, con)
                except Lost as e:
                    rep.viol(RULE, con, f.loc(), str(e))
                except Unknown as e:
                    rep.und(RULE, con, str(e)[:80])
