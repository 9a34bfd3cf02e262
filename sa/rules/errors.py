"""F14: no operation dies of a programming error (names, attributes, arguments, unset locals, missing results)."""
import ast
import builtins
import glob
import importlib
import importlib.util
import inspect
import os
import re
import string
import symtable
import sys
from ..terms import *
from ..interp import *
from ..project import *
from ..flow import *
from .objects import library, written_outside

BUILTIN_NAMES = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__builtins__', '__class__'}
STDLIB = {'array', 'math', 'os', 'os.path', 'sys', 'datetime', 'io', 'struct', 'hashlib', 'json', 'time', 'tempfile', 'binascii', 'logging',
          'copy', 'random', 'functools', 'itertools', 'collections', 'socket', 'string', 're', 'getpass', 'pathlib', 'argparse', 'enum', 'typing', 'abc'}
PRIMS = {'str': str, 'bytes': bytes, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict, 'tuple': tuple, 'set': set, 'array': __import__('array').array}
OBJECT_ATTRS = set(dir(object)) | {'__dict__', '__name__', '__qualname__', '__module__', '__mro__', '__bases__', '__subclasses__', '__members__', '__annotations__', '__slots__', '__wrapped__', 'mro'}
CONTAINERS = {'list', 'tuple', 'dict', 'set', 'str', 'bytes', 'array'}


def ext_module(dotted):
    """the imported standard-library object a dotted name refers to, (True, obj), (False, missing part) or None when not looked into"""
    parts = dotted.split('.')
    if parts[0] in dir(builtins) and parts[0] not in STDLIB:
        obj, rest, path = getattr(builtins, parts[0]), parts[1:], parts[0]
    else:
        for n in range(len(parts), 0, -1):
            m = '.'.join(parts[:n])
            if m in STDLIB:
                try:
                    obj, rest, path = importlib.import_module(m), parts[n:], m
                except ImportError:
                    return None
                break
        else:
            return None
    for r in rest:
        if not (inspect.ismodule(obj) or inspect.isclass(obj)):
            return None             # attributes of plain values are not followed
        if not hasattr(obj, r):
            return False, path + '.' + r
        obj = getattr(obj, r)
        path += '.' + r
    return True, obj


class Lint:
    """records what name, attribute and call resolution finds on every path"""

    def __init__(self, ctx, fl):
        self.ctx, self.p, self.i = ctx, ctx.p, fl.i
        self.sites = {}
        self.stores = ctx.lazy('attr_stores', lambda: {n.attr for m in self.p.mods.values() for n in ast.walk(m.tree)
                                                       if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)
                                                       and not (isinstance(n.value, ast.Name) and n.value.id in ('self', 'cls'))})
        self.locals = {}
        self.nulls = {}
        self.opt, self.opts = {}, {}

    def site(self, rule, fr, node, what, good, msg=''):
        f = fr.fn
        k = (rule, f.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), what)
        old = self.sites.get(k)
        if old is None or old[0] and good is False:
            self.sites[k] = (good, '%s:%s %s' % (f.mod.rel, getattr(node, 'lineno', 0), f.qual), msg)

    # ---- names
    def name(self, e, v, st, fr):
        if v.op != 'undef':
            return
        n = e.id
        if fr.fn.node is None or isinstance(fr.fn.node, ast.Lambda) or n in BUILTIN_NAMES:
            return
        loc = self.local_info(fr.fn)
        if n not in loc:
            return                  # undefined globals are found by scope analysis
        in_loop = loc[n]
        loops = [l for l in in_loop[1] if any(x is e for x in ast.walk(l))]
        if loops:
            return                  # may have been set by an earlier iteration
        self.site('local is set before it is used', fr, e, n, False, '%s is used on a path on which it was never assigned' % n)

    def local_info(self, f):
        if f not in self.locals:
            out = {}
            comp = set()
            for n in walk_local(f.node):
                if isinstance(n, ast.comprehension):
                    comp |= {id(x) for x in ast.walk(n.target)}
            glob = {x for n in walk_local(f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
            loops = [n for n in walk_local(f.node) if isinstance(n, (ast.For, ast.While))]
            for n in walk_local(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and id(n) not in comp and n.id not in glob:
                    d = out.setdefault(n.id, ([], []))
                    d[0].append(n)
                    d[1].extend(l for l in loops if any(x is n for x in ast.walk(l)))
            self.locals[f] = out
        return self.locals[f]

    # ---- attributes
    def open_class(self, c):
        """attributes may come from outside the project"""
        if any(b.split('.')[-1] not in ('ABC', 'object', 'Enum', 'IntEnum', 'Generic', 'Protocol') for b in c.ext_bases()):
            return True
        return c.find('__getattr__') is not None or c.find('__getattribute__') is not None

    def class_has(self, c, name):
        if name in OBJECT_ATTRS or self.open_class(c):
            return True
        for k in c.mro():
            if name in k.methods or name in k.attrs or name in k.nested:
                return True
            if k.dataclass and name in k.anns:
                return True
            if any(isinstance(n, ast.Constant) and n.value == name for s in k.node.body if isinstance(s, ast.Assign) for n in ast.walk(s)):
                return True         # __slots__ and the like
        if c.is_enum() and name in ('name', 'value', '_value_', '_name_'):
            return True
        return self.i.has_field(c, name)

    def has(self, c, name, exact):
        if self.class_has(c, name):
            return True
        if not exact and any(self.class_has(s, name) for s in c.all_subs()):
            return None
        if name in self.stores:
            return None
        return False

    def attr(self, o, name, st, fr, e):
        rule = 'attribute exists'
        if name.startswith('__') and name.endswith('__') and name in OBJECT_ATTRS:
            return
        if o.op == 'super':
            c = self.p.classes.get(o.a[1])
            if c is None or any(self.open_class(k) for k in c.mro()):
                return
            sc = fr.selfcls or c
            good = sc.find(name, after=c) is not None or c.find(name, after=c) is not None or hasattr(object, name)
            if not good and (any(c in s.mro()[1:] for s in [sc]) or any(name in (b.methods if isinstance(b, Cls) else ()) for s in c.all_subs() for b in s.mro())):
                good = None
            self.put(rule, fr, e, 'super().' + name, good, 'no class above %s has %s' % (c.name, name))
            return
        if o.op == 'cls':
            c = self.p.classes.get(o.a[0])
            if c is None or name in self.stores or self.open_class(c) and not c.is_enum():
                return
            good = name in OBJECT_ATTRS or any(name in k.methods or name in k.attrs or name in k.nested or name in k.anns for k in c.mro())
            if not good and c.is_enum():
                good = hasattr(__import__('enum').Enum, name) or name in ('from_bytes', 'to_bytes', '__members__')
            if not good and fr.fn.first and st.env.get(fr.fn.first) is o and any(name in s.methods or name in s.attrs for s in c.all_subs()):
                good = None
            self.put(rule, fr, e, c.name + '.' + name, good, 'class %s has no %s' % (c.name, name))
            return
        if o.op == 'mod':
            m = self.p.mods.get(o.a[0])
            if m is not None:
                self.put(rule, fr, e, o.a[0] + '.' + name, self.module_has(m, name), 'module %s has no %s' % (o.a[0], name))
            return
        if o.op == 'ext':
            r = ext_module(o.a[0] + '.' + name)
            if r is not None:
                self.put(rule, fr, e, o.a[0] + '.' + name, r[0], 'there is no %s' % r[1] if not r[0] else '')
            return
        if (o, name) in st.heap:
            return
        if o.op == 'const' and o.a[0] is None or (o.op != 'const' and self.i.decide(self.i.isnone(o), st) is True):
            self.put(rule, fr, e, 'None.' + name, False, '%s is None on this path and has no %s' % (show(o)[:60], name))
            return
        if o.op in ('undef', 'unknown'):
            return
        self.optional(o, name, st, fr, e)
        ty = self.i.typeof(o, st)
        if not ty.known:
            if ty.classes and not ty.prim and all(self.has(c, name, ty.exact) is False for c in ty.classes) and name not in dir(str):
                self.put(rule, fr, e, name, None)
            return
        goods = [self.has(c, name, ty.exact) for c in ty.classes] + [hasattr(PRIMS[q], name) if q in PRIMS else None for q in ty.prim]
        if not goods:
            return
        if o.op in ('lv', 'elem', 'idx', 'attr', 'mcall', 'param') and ty.prim and False in goods:
            goods = [None if g is False else g for g in goods]     # numbers and strings seen through a loop or a loose annotation
            if o.op in ('param', 'mcall') and not ty.classes and ty.known and all(q in PRIMS and not hasattr(PRIMS[q], name) for q in ty.prim):
                goods = [False]
        g = False if all(x is False for x in goods) else None if any(x is None for x in goods) or False in goods else True
        who = '/'.join(sorted([c.name for c in ty.classes] + list(ty.prim)))
        self.put(rule, fr, e, who + '.' + name, g, '%s (a %s) has no %s' % (show(o)[:60], who, name))
        return

    def put(self, rule, fr, e, what, good, msg=''):
        self.site(rule, fr, e, what, good, msg)

    def module_has(self, m, name):
        if name in m.names or m.name + '.' + name in self.p.mods or name in OBJECT_ATTRS or name in ('__file__', '__name__'):
            return True
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store) or isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                return None
        return False

    # ---- calls
    def call(self, f, args, kw, b, st, fr, e):
        rule = 'arguments fit the function called'
        if any(a.op == 'spread' for a in args) or '**' in kw:
            return
        self.put(rule, fr, e, f.qual, b is not None, 'the arguments of this call do not fit %s(%s): %s' % (f.qual, ', '.join(f.params), misfit(f, args, kw)) if b is None else '')

    def new(self, c, f, args, kw, st, fr, e):
        rule = 'arguments fit the constructor'
        if any(a.op == 'spread' for a in args) or '**' in kw:
            return
        if c.is_enum():
            return
        if c.is_abstract() and not self.is_self_class(c, st, fr):
            ms = sorted({n for k in c.mro() for n, m in k.methods.items() if m.abstract and c.find(n).abstract})
            if ms:
                self.put('only concrete classes are instantiated', fr, e, c.name, False, '%s is abstract (%s)' % (c.name, ', '.join(ms)))
        else:
            self.put('only concrete classes are instantiated', fr, e, c.name, True)
        if f is None:
            if any(b.split('.')[-1] not in ('ABC', 'object') for b in c.ext_bases()) or c.dataclass:
                return
            self.put(rule, fr, e, c.name, not args and not kw, '%s takes no arguments' % c.name)
            return
        b = self.i.bind(f, args, kw)
        self.put(rule, fr, e, c.name, b is not None, 'the arguments do not fit %s(%s): %s' % (c.name, ', '.join(f.params), misfit(f, args, kw)) if b is None else '')
        if b is not None and c is self.ctx.wire.tlv and isinstance(b.get('value'), T):
            self.tlv_value(b['value'], st, fr, e)

    def tlv_outs(self):
        """how the constructor of a TLV treats its value: outcomes of the constructor with its helpers inlined"""
        def build():
            c = self.ctx.wire.tlv
            fl = Flow(self.ctx, {'serialize', 'extend'}, keep=())
            f = c.find('__init__')
            v = f.params[1] if len(f.params) > 1 else None
            out = []
            for o in fl.run(f, selfcls=c):
                if o.kind == 'return' and v is not None:
                    out.append((dict(o.facts), [(x, l) for x, l in walk_events(o.events())]))
            return mk('param', v) if v is not None else None, out
        return self.ctx.lazy('tlv_outs', build)

    def tlv_value(self, val, st, fr, e):
        rule = 'the value of a TLV can be encoded'
        P, outs = self.tlv_outs()
        if P is None or not outs:
            return

        def isa(k, a):
            """is an object of kind k an instance of what the fact names? None: not known"""
            if a.op == 'cls':
                c = self.p.classes.get(a.a[0])
                return k.isa(c) if isinstance(k, Cls) and c is not None else False
            n = a.a[0] if a.op == 'ext' else None
            if n is None:
                return None
            return False if isinstance(k, Cls) and not self.open_class(k) else {'bytes': 'bytes', 'str': 'str', 'list': 'list', 'num': 'int', 'array': 'array'}.get(k) == n if k in ('bytes', 'str', 'list', 'num', 'array') else None

        def consistent(facts, x, k):
            for a, b in facts.items():
                if a.op == 'isnone' and a.a[0] is x and b:
                    return False
                if a.op == 'isa' and a.a[0] is x and isa(k, a.a[1]) not in (None, b):
                    return False
            return True

        def demands(x, k, evs):
            """the operation that an object of kind k does not support"""
            for ev, loops in evs:
                if ev.kind == 'mut' and ev.term.a[0] == 'extend' and ev.term.a[2] is x and isinstance(k, Cls) and not any(k.find(d) for d in ('__iter__', '__getitem__')):
                    return 'it is added to the bytes item by item'
                if ev.kind == 'mut' and ev.term.a[0] == 'extend' and ev.term.a[2] is x and k in ('num', 'str'):
                    return 'it is added to the bytes item by item'
                if ev.kind == 'mut' and ev.term.a[0] == 'append' and ev.term.a[2] is x and k != 'num':
                    return 'it is added to the bytes as one byte'
            return None

        def one(x, k, what):
            if k is None or k == 'none' or isinstance(k, Cls) and (self.open_class(k) or k.is_enum()):
                return
            if isinstance(k, Cls) and (k.is_abstract() or k.all_subs()):
                return
            bad = None
            if x is P:
                ways = [demands(P, k, evs) for facts, evs in outs if consistent(facts, P, k)]
            else:
                ways = []
                for facts, evs in outs:
                    if any(a.op == 'isa' and a.a[0] is P and show(a.a[1]) == 'list' and not b for a, b in facts.items()):
                        continue
                    for ev, loops in evs:
                        if ev.kind == 'loop' and ev.x.iter is P:
                            for kind, v, fs, tr, ups in ev.x.outs:
                                el = mk('elem', P)
                                d = {}
                                for a, b in fs:
                                    d[a] = b
                                if consistent(d, el, k):
                                    ways.append(demands(el, k, [(t, ()) for t in tr]))
            if ways and all(ways):
                bad = ways[0]
            if ways:
                self.put(rule, fr, e, what + (k.name if isinstance(k, Cls) else k), bad is None, '%s (a %s) is not bytes: %s' % (what, k.name if isinstance(k, Cls) else k, bad))

        if val.op == 'seq' and val.a[0] == 'list':
            for t in val.a[1:]:
                if t.op not in ('spread', 'each', 'rev'):
                    one(mk('elem', P), self.part_kind(t, st), 'a part of the value: ')
        else:
            one(P, self.part_kind(val, st), 'the value: ')

    def part_kind(self, t, st):
        if t is NONE:
            return None
        k = self.kind_of(t, st)
        if k is None and t.op in ('param', 'attr', 'mcall', 'call', 'elem', 'idx'):
            ty = self.i.typeof(t, st)
            if ty.known and len(ty.classes) == 1 and not ty.prim:
                return next(iter(ty.classes))
        return k if isinstance(k, Cls) or k in ('bytes', 'str', 'list', 'num', 'array') else None

    def is_self_class(self, c, st, fr):
        """cls(...) inside a class method: the class is the receiver's, not c itself"""
        f = fr.fn
        return f.kind == 'class' and f.first and st.env.get(f.first) is mk('cls', c.qual)

    def value(self, v, args, kw, st, fr, e):
        rule = 'only callables are called'
        if v.op == 'param' and v.a[0] not in fr.fn.ann and not self.i.typeof(v, st).known:
            cs = self.named_types().get(v.a[0])
            if cs and not any(s.find('__call__') or self.open_class(s) for c in cs for s in [c] + c.all_subs()):
                self.put(rule, fr, e, show(v)[:40], False, '%s is called, everywhere else a parameter of this name is a %s' % (show(v)[:60], '/'.join(sorted(c.name for c in cs))))
                return
        if v.op in ('param', 'attr', 'mcall') and not args and not kw or v.op in ('param', 'attr'):
            ty = self.i.typeof(v, st)
            if ty.known and ty.classes and not ty.prim and not any(s.find('__call__') or self.open_class(s) for c in ty.classes for s in [c] + c.all_subs()):
                self.put(rule, fr, e, show(v)[:40], False, '%s (a %s) is not callable' % (show(v)[:60], '/'.join(sorted(c.name for c in ty.classes))))
                return
        bad = v.op in ('const', 'seq', 'dict', 'fstr', 'cat', 'lin', 'arr', 'enum')
        if v.op == 'new':
            c = self.p.classes.get(v.a[0].a[0])
            bad = c is not None and c.find('__call__') is None and not self.open_class(c)
        if bad:
            self.put(rule, fr, e, show(v)[:40], False, '%s is not callable' % show(v)[:60])

    def named_types(self):
        """parameter name -> the project classes all its annotations name"""
        def build():
            out = {}
            for f in self.p.funcs.values():
                for n, a in f.ann.items():
                    ty = self.p._ann(f.mod, a, f.cls)
                    out.setdefault(n, []).append(ty)
            return {n: set().union(*[t.classes for t in ts]) for n, ts in out.items() if all(t.known and t.classes and not t.prim for t in ts)}
        return self.ctx.lazy('named_types', build)

    def method(self, o, name, args, kw, st, fr, e):
        self.attr(o, name, st, fr, e)
        # the value of a property or field that is called like a method
        if o.op not in ('cls', 'mod', 'ext', 'super'):
            ty = self.i.typeof(o, st)
            if ty.classes and ty.known:
                for c in ty.classes:
                    f = c.find(name)
                    if f is not None and f.kind == 'prop' and len(ty.classes) == 1 and not c.all_subs():
                        self.i.ret_types([f])
                        rt = self.i.ret_types([f])
                        bad = rt.known and (rt.classes or rt.prim) and not any(k.find('__call__') or self.open_class(k) for k in rt.classes)
                        if bad:
                            self.put('only callables are called', fr, e, c.name + '.' + name, False, 'property %s of %s is called' % (name, c.name))
        self.maybe_none(o, name, st, fr, e)
        if o.op == 'ext':
            self.ext_call(o.a[0] + '.' + name, args, kw, fr, e)

    def ext_call(self, n, args, kw, fr, e):
        r = ext_module(n)
        if r is None or not r[0] or not callable(r[1]) or any(a.op == 'spread' for a in args) or '**' in kw:
            return
        try:
            sig = inspect.signature(r[1])
        except (ValueError, TypeError):
            return
        try:
            sig.bind(*args, **kw)
            good = True
        except TypeError as x:
            good = False
            self.put('arguments fit the function called', fr, e, n, False, '%s: %s' % (n, x))
        if good:
            self.put('arguments fit the function called', fr, e, n, True)

    def may_be_none(self, f):
        """an explicit or implicit None among the results of f, and also something else"""
        if f not in self.nulls:
            self.nulls[f] = False
            if not f.is_gen and not f.abstract:
                vs = self.i.plain_returns(f, f.cls)
                none = [v for v in vs if v is NONE]
                self.nulls[f] = bool(none) and len(none) < len(vs)
        return self.nulls[f]

    def maybe_none(self, o, name, st, fr, e):
        """x.f() where x is the unchecked result of a function that may return None"""
        if o.op not in ('mcall', 'call') or (o.op == 'call' and o.a[0].op != 'fn'):
            return
        fs = self.i.method_impls(o.a[1], o.a[0], st) if o.op == 'mcall' else [self.p.funcs[o.a[0].a[0]]]
        fs = [f for f in fs if self.may_be_none(f)]
        if not fs:
            return
        d = self.i.decide(self.i.isnone(o), st)
        t = self.i.decide(mk('truth', o), st)
        ok = d is False or t is True
        self.put('a result that may be None is checked', fr, e, fs[0].qual, True if ok else None if self.related(o, st) else False,
                 '%s() is called on the result of %s, which may be None, without a check' % (name, fs[0].qual))

    def optional(self, o, name, st, fr, e):
        """a use of an attribute that the constructor may leave None"""
        if o.op != 'attr' or o.a[0].op in ('cls', 'mod', 'ext'):
            return
        ty = self.i.typeof(o.a[0], st)
        if not ty.known or ty.prim or len(ty.classes) != 1:
            return
        c = next(iter(ty.classes))
        k = (c, o.a[1])
        if k not in self.opt:
            me = mk('param', 'self')
            vals = []
            for out in self.i.ctor(c):
                v = out.st.heap.get((me, o.a[1]))
                if v is not None:
                    vals.append(v is NONE or self.i.decide(self.i.isnone(v), out.st) is True)
            self.opt[k] = any(vals) and not all(vals)
        if not self.opt[k]:
            return
        d = self.i.decide(self.i.isnone(o), st)
        t = self.i.decide(mk('truth', o), st)
        self.opts.setdefault(k, []).append((fr.fn, e, name, d is False or t is True, any(x is not o and mentions(x, o.a[0]) for a in st.facts for x in subs(a) if x.op == 'attr' or x.op == 'mcall')))

    def related(self, o, st):
        """some other fact about the receiver or the arguments of the call may imply that the result is there"""
        inner = [x for x in o.a[1:] if isinstance(x, T)] if o.op == 'mcall' else [x for x in o.a[2:] if isinstance(x, T)]
        inner = [x.a[1] if x.op == 'kw' else x for x in inner]
        for a in st.facts:
            if a.op == 'isnone':
                continue
            for x in inner:
                if x.op != 'const' and x in subs(a):
                    return True
        return False

    # ---- operators and protocols
    DUNDER = {'Lt': ('__lt__', '__gt__'), 'Gt': ('__gt__', '__lt__'), 'LtE': ('__le__', '__ge__'), 'GtE': ('__ge__', '__le__'), 'Add': ('__add__', '__radd__'),
              'Sub': ('__sub__', '__rsub__'), 'Mult': ('__mul__', '__rmul__'), 'FloorDiv': ('__floordiv__', '__rfloordiv__'), 'Div': ('__truediv__', '__rtruediv__')}

    def kind_of(self, t, st):
        """'str', 'num', 'list', 'bytes', a project class, or None"""
        if t.op == 'const':
            v = t.a[0]
            return None if isinstance(v, bool) else 'none' if v is None else 'str' if isinstance(v, str) else 'bytes' if isinstance(v, bytes) else 'num' if isinstance(v, (int, float)) else None
        if t.op == 'fstr':
            return 'bytes' if t.a and t.a[0].op == 'const' and isinstance(t.a[0].a[0], bytes) else 'str'
        if t.op == 'cat':
            ks = {self.kind_of(x, st) for x in t.a} - {None}
            return ks.pop() if len(ks) == 1 else None
        if t.op in ('lin', 'mul', 'len', 'shr', 'shl', 'band', 'bor', 'fdiv'):
            return 'num'
        if t.op == 'seq':
            return t.a[0] if t.a[0] in ('list', 'tuple') else None
        if t.op == 'new':
            return self.p.classes.get(t.a[0].a[0])
        if t.op in ('param', 'attr', 'mcall', 'call', 'elem', 'idx'):
            ty = self.i.typeof(t, st)
            if ty.null and self.i.decide(self.i.isnone(t), st) is not False:
                return None
            if ty.known and len(ty.classes) == 1 and not ty.prim:
                return next(iter(ty.classes))
            if ty.known and not ty.classes and len(ty.prim) == 1:
                q = next(iter(ty.prim))
                return {'int': 'num', 'float': 'num', 'str': 'str', 'bytes': 'bytes', 'list': 'list', 'tuple': 'tuple', 'array': 'array', 'dict': 'dict'}.get(q)
        return None

    def binop(self, op, a, b, st, fr, e):
        rule = 'operands support the operator'
        if op in ('In', 'NotIn'):
            self.item(b, '__contains__', st, fr, e)
            return
        if op not in self.DUNDER or op == 'Mult':
            return
        ka, kb = self.kind_of(a, st), self.kind_of(b, st)
        if ka is None or kb is None:
            return
        good = None
        da, db = self.DUNDER[op]
        if isinstance(ka, Cls) or isinstance(kb, Cls):
            cs = [(k, d) for k, d in ((ka, da), (kb, db)) if isinstance(k, Cls)]
            if any(self.open_class(k) or k.is_enum() or k.all_subs() or k.dataclass for k, d in cs):
                return
            good = any(k.find(d) is not None or '__lt__' in k.methods and d in ('__le__', '__gt__', '__ge__') for k, d in cs)
        elif 'none' in (ka, kb):
            good = False
        elif {ka, kb} <= {'str', 'num', 'list', 'tuple', 'bytes', 'array', 'dict'}:
            good = ka == kb and ka != 'dict' and (op in ('Lt', 'Gt', 'LtE', 'GtE', 'Add') or ka == 'num')
            if {ka, kb} == {'bytes', 'array'}:
                good = None
        if good is None:
            return
        sh = lambda k: k.name if isinstance(k, Cls) else k
        self.put(rule, fr, e, '%s %s %s' % (sh(ka), op, sh(kb)), good, '%s %s %s: these operands do not support the operator' % (show(a)[:40], op, show(b)[:40]))

    def item(self, o, dunder, st, fr, e):
        rule = 'subscripted, iterated and measured values support it'
        if o.op == 'const':
            v = o.a[0]
            if v is None or isinstance(v, (int, float)):
                self.put(rule, fr, e, '%s of %r' % (dunder, v), False, '%r does not support %s' % (v, dunder))
            return
        ty = self.i.typeof(o, st)
        if not ty.known or not (ty.classes or ty.prim):
            return
        alt = {'__contains__': ('__contains__', '__iter__', '__getitem__'), '__iter__': ('__iter__', '__getitem__')}.get(dunder, (dunder,))
        goods = []
        for c in ty.classes:
            if self.open_class(c) or c.is_enum():
                goods.append(None)
            elif any(c.find(d) is not None for d in alt):
                goods.append(True)
            else:
                goods.append(None if any(s.find(d) is not None for s in c.all_subs() for d in alt) else False)
        for q in ty.prim:
            goods.append(hasattr(PRIMS[q], dunder) or any(hasattr(PRIMS[q], d) for d in alt) if q in PRIMS else None)
        if o.op in ('lv', 'elem', 'idx') and ty.prim:
            return
        g = False if all(x is False for x in goods) else None if None in goods or False in goods else True
        who = '/'.join(sorted([c.name for c in ty.classes] + list(ty.prim)))
        self.put(rule, fr, e, '%s of %s' % (dunder, who), g, '%s (a %s) does not support %s' % (show(o)[:60], who, dunder))

    def builtin(self, n, args, kw, st, fr, e):
        if n == 'isinstance':
            return self.asked(args, st, fr, e)
        if not args:
            return
        d = {'len': '__len__', 'next': '__next__', 'reversed': None, 'bytes': None, 'array.array': None, 'min': None, 'max': None}.get(n, '__iter__')
        if d is None or any(a.op == 'spread' for a in args):
            return
        if n == 'next' and self.i.typeof(args[0], st).prim:
            return
        self.item(args[0], d, st, fr, e)

    def asked(self, args, st, fr, e):
        rule = 'isinstance() is asked about a class'
        if len(args) != 2:
            return
        c = args[1]
        for x in c.a[1:] if c.op == 'seq' else [c]:
            if not isinstance(x, T):
                continue
            bad = x.op in ('const', 'new', 'fstr', 'cat', 'lin', 'arr', 'dict')
            if x.op in ('param', 'attr') and not bad:
                k = self.i.typeof(x, st)
                bad = bool(k.classes) and k.known or k.prim in ('bytes', 'str', 'int', 'num', 'list', 'array')
            self.put(rule, fr, e, show(x)[:30], not bad, '%s is no class' % show(x)[:60])

    def raised(self, v, st, fr, s):
        rule = 'what is raised is an exception'
        bad = v.op in ('const', 'fstr', 'cat', 'seq', 'dict', 'lin') or v.op == 'ext' and v.a[0] == 'NotImplemented' or v.op == 'call' and v.a[0] == mk('ext', 'NotImplemented')
        if v.op in ('new', 'cls'):
            c = self.p.classes.get(v.a[0].a[0] if v.op == 'new' else v.a[0])
            bad = c is not None and not c.ext_bases()
        n = v.a[0].a[0] if v.op == 'call' and v.a[0].op == 'ext' else v.a[0] if v.op == 'ext' else None
        if n is not None and '.' not in n:
            o = getattr(builtins, n, None)
            bad = bad or o is not None and not (inspect.isclass(o) and issubclass(o, BaseException))
        self.put(rule, fr, s, show(v)[:30], not bad, '%s is not an exception' % show(v)[:60])


def misfit(f, args, kw):
    ps = f.params
    miss = [n for n in (f.pos[1:] if f.kind in ('inst', 'class', 'prop') else f.pos)[len(args):] + f.kwonly if n not in kw and n not in f.defaults]
    extra = [n for n in kw if n not in ps and not f.kwarg]
    return '; '.join(x for x in ('missing %s' % ', '.join(miss) if miss else '', 'unknown %s' % ', '.join(extra) if extra else '',
                                 '%d positional arguments' % len(args) if not miss and not extra else '') if x)


# ---------------------------------------------------------------- scopes
def scopes(ctx, rep):
    p = ctx.p
    rule = 'every name refers to something'
    for m in sorted(p.mods.values(), key=lambda m: m.name):
        with rep.guard(rule, m.name):
            top = symtable.symtable(m.src, m.path, 'exec')
            star = any(isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names) for n in ast.walk(m.tree))
            defined = {s.get_name() for s in top.get_symbols() if s.is_assigned() or s.is_imported() or s.is_namespace()}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Global):
                    defined |= set(n.names)
            lines = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    lines.setdefault(n.id, n.lineno)
            tops = [top]
            count = 0
            while tops:
                t = tops.pop()
                tops += t.get_children()
                for s in t.get_symbols():
                    if not s.is_referenced():
                        continue
                    if t is top and (s.is_assigned() or s.is_imported() or s.is_namespace()) or t is not top and not s.is_global():
                        continue
                    n = s.get_name()
                    count += 1
                    if n in defined or n in BUILTIN_NAMES or star:
                        rep.ok(rule)
                    else:
                        rep.viol(rule, m.name + '.' + n, '%s:%s' % (m.rel, lines.get(n, 0)), 'the name %s is not defined in %s (used in %s)' % (n, m.name, t.get_name()))
    rule = 'every import finds what it names'
    for m in sorted(p.mods.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                for local, b in p.import_bindings(m, n):
                    if b[0] == 'from' and b[1] in p.mods and b[2] != '*':
                        mm = p.mods[b[1]]
                        have = b[2] in mm.names or b[1] + '.' + b[2] in p.mods or any(
                            isinstance(x, ast.Name) and x.id == b[2] and isinstance(x.ctx, ast.Store) for x in ast.walk(mm.tree))
                        rep.check(have, rule, m.name + ' <- ' + b[1] + '.' + b[2], '%s:%d' % (m.rel, n.lineno), '%s has no %s' % (b[1], b[2]))
                    elif b[1].split('.')[0] == PKG and b[1] not in p.mods and b[2:] != ('*',):
                        known = any(x == b[1] or x.startswith(b[1] + '.') for x in p.mods)
                        if not known and 'test' not in b[1]:
                            rep.viol(rule, m.name + ' <- ' + b[1], '%s:%d' % (m.rel, n.lineno), 'there is no module %s' % b[1])
                    else:
                        dotted = b[1] + '.' + b[2] if b[0] == 'from' else b[1]
                        r = ext_module(dotted)
                        if r is not None:
                            rep.check(r[0], rule, m.name + ' <- ' + dotted, '%s:%d' % (m.rel, n.lineno), 'there is no %s' % dotted)


# ---------------------------------------------------------------- the interpreter pass
def sites(ctx, rep):
    p = ctx.p
    fl = Flow(ctx, set())
    fl.i.lint = lint = Lint(ctx, fl)
    fl.i.log_events = False
    for f in library(p):
        if isinstance(f.node, ast.Lambda):
            continue
        with rep.guard('function evaluated', f.qual):
            try:
                fl.run(f)
            except (Budget, RecursionError):
                rep.und('function evaluated', f.qual, 'too many paths')
                continue
            rep.ok('function evaluated', f.qual)
    rule = 'an attribute that may be None is checked before use'
    wr = written_outside(ctx)
    for (c, a), us in sorted(lint.opts.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        if any(a in wr.get(k, ()) for k in c.mro() + c.all_subs()):
            continue
        sites_ = {}
        for f, e, n, checked, related in us:
            g = sites_.get((f, e.lineno, n))
            v = True if checked else None if related or not any(u[3] for u in us) else False
            sites_[(f, e.lineno, n)] = v if g is None or v is False else g
        for (f, ln, n), v in sorted(sites_.items(), key=lambda x: (x[0][0].qual, x[0][1], x[0][2])):
            rep.check(v, rule, '%s.%s in %s' % (c.name, a, f.qual), '%s:%d %s' % (f.mod.rel, ln, f.qual),
                      '%s is None in some objects, other code checks that, and %s uses it (.%s) without a check' % (a, f.qual, n))
    for (rule, q, ln, col, what), (good, loc, msg) in sorted(lint.sites.items(), key=lambda x: (x[0][1], x[0][2], x[0][0], x[0][4])):
        f = p.funcs.get(q)
        where = f.cls.qual if f is not None and f.cls is not None else f.mod.name if f is not None else q
        rep.check(good, rule, where + ': ' + what, loc, msg or what)


# ---------------------------------------------------------------- results, overrides, formats
def falls(stmts):
    """can control reach the end of this block (structurally)?"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            if not falls(s.body) and s.orelse and not falls(s.orelse):
                return False
        elif isinstance(s, (ast.With,)):
            if not falls(s.body):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not falls(s.finalbody):
                return False
            body = falls(s.body) if not s.orelse else falls(s.body) and falls(s.orelse)
            if not body and all(not falls(h.body) for h in s.handlers):
                return False
        elif isinstance(s, ast.While):
            if isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)):
                return False
        elif isinstance(s, ast.Match):
            wild = any(isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None for c in s.cases)
            if wild and all(not falls(c.body) for c in s.cases):
                return False
        elif isinstance(s, ast.Assert) and isinstance(s.test, ast.Constant) and not s.test.value:
            return False
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ast.unparse(s.value.func) in ('sys.exit', 'exit', 'os._exit', 'quit'):
            return False
    return True


def results(ctx, rep):
    p = ctx.p
    fl = Flow(ctx, set())
    rule = 'a function that returns a value does so on every path'
    used = used_results(p)
    for f in library(p):
        if isinstance(f.node, ast.Lambda) or f.is_gen or f.abstract:
            continue
        rets = [n for n in walk_local(f.node) if isinstance(n, ast.Return)]
        vals = [n for n in rets if n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)]
        opt = f.node.returns is not None and (isinstance(f.node.returns, ast.Constant) and f.node.returns.value is None or 'Optional' in ast.unparse(f.node.returns) or 'None' in ast.unparse(f.node.returns))
        if not vals:
            if f.node.returns is not None and not opt and not rets and falls(f.node.body) and f.name in used and f.name != '__init__' \
                    and not all(isinstance(s, (ast.Pass, ast.Expr)) for s in f.node.body):
                rep.viol(rule, f.qual, f.loc(), 'announces a result, never returns one, and callers use it')
            continue
        if opt:
            continue
        bare = [n for n in rets if n.value is None]
        if not falls(f.node.body) and not bare:
            rep.ok(rule, f.qual)
            continue
        with rep.guard(rule, f.qual):
            try:
                outs = fl.run(f)
            except (Budget, RecursionError):
                rep.und(rule, f.qual, 'too many paths')
                continue
            ends = [o for o in outs if o.kind == 'return' and o.val is NONE]
            if not ends:
                rep.ok(rule, f.qual)
            elif f.name not in used:
                rep.und(rule, f.qual, 'falls off the end; no caller uses the result')
            elif all(loop_end(f) for o in ends):
                rep.und(rule, f.qual, 'ends after a loop')
            else:
                rep.viol(rule, f.qual, f.loc(), 'one path ends without a value (%s) although callers use the result' % ', '.join('%s%s' % ('' if b else 'not ', show(a)[:50]) for a, b in list(ends[0].facts.items())[:3]))


def loop_end(f):
    return isinstance(f.node.body[-1], (ast.For, ast.While))


def used_results(p):
    """names of functions whose result is used somewhere"""
    out = set()
    for m in p.mods.values():
        stmts = {id(n.value) for n in ast.walk(m.tree) if isinstance(n, ast.Expr)}
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and id(n) not in stmts:
                f = n.func
                out.add(f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else '')
    return out | {'__str__', '__repr__', '__len__', '__iter__', '__eq__', '__hash__', '__getitem__', '__contains__'}


def overrides(ctx, rep):
    p = ctx.p
    rule = 'an override accepts the calls of its base'
    kws = {}
    for m in p.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ''
                kws.setdefault(nm, set()).update(k.arg for k in n.keywords if k.arg)
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if 'test' in c.mod.name.lower().split('.')[-1]:
            continue
        for n, f in sorted(c.methods.items()):
            if n.startswith('__') and n.endswith('__'):
                continue
            b = c.find(n, after=c)
            if b is None:
                continue
            if b.kind == 'prop' or f.kind == 'prop':
                rep.check(b.kind == f.kind, rule, f.qual, f.loc(), 'a property and a method of the same name')
                continue
            bad = []
            fp = f.pos[1:] if f.kind in ('inst', 'class') else f.pos
            bp = b.pos[1:] if b.kind in ('inst', 'class') else b.pos
            if not f.vararg:
                if len(fp) < len(bp):
                    bad.append('takes %d positional arguments, the base takes %d' % (len(fp), len(bp)))
                if b.vararg:
                    bad.append('does not take further positional arguments')
            req_f = [x for x in fp[len(bp):] if x not in f.defaults] + [x for x in f.kwonly if x not in f.defaults and x not in b.kwonly]
            if req_f:
                bad.append('requires %s' % ', '.join(req_f))
            for i, x in enumerate(bp):
                if i < len(fp) and x in b.defaults and fp[i] not in f.defaults:
                    bad.append('requires %s, which the base does not' % fp[i])
            if not f.kwarg:
                for x in bp + b.kwonly:
                    if x not in fp + f.kwonly and x in kws.get(n, ()):
                        bad.append('has no parameter %s, which callers pass by name' % x)
                if b.kwarg:
                    bad.append('does not take further keywords')
            rep.check(not bad, rule, f.qual, f.loc(), '; '.join(bad) + ' (%s)' % b.qual)


def formats(ctx, rep):
    p = ctx.p
    rule = 'format strings fit their values'
    for m in sorted(p.mods.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, (str, bytes)):
                k = percent(n.left.value if isinstance(n.left.value, str) else n.left.value.decode('latin1'))
                if k is None:
                    continue
                vals = n.right.elts if isinstance(n.right, ast.Tuple) else None
                if vals is None and isinstance(n.right, (ast.Name, ast.Attribute, ast.Call, ast.Subscript)):
                    rep.check(True if k == 1 else None, rule, '%s %r' % (m.name, n.left.value[:30]), '', 'one value for %d conversions' % k)
                    continue
                cnt = len(vals) if vals is not None else 1
                if vals and any(isinstance(v, ast.Starred) for v in vals):
                    continue
                rep.check(cnt == k, rule, '%s %r' % (m.name, n.left.value[:30]), '%s:%d' % (m.rel, n.lineno), '%d conversions, %d values' % (k, cnt))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
                    continue
                try:
                    fields = [x[1] for x in string.Formatter().parse(n.func.value.value) if x[1] is not None]
                except ValueError as x:
                    rep.viol(rule, '%s %r' % (m.name, n.func.value.value[:30]), '%s:%d' % (m.rel, n.lineno), str(x))
                    continue
                auto = 0
                bad = []
                for x in fields:
                    h = x.split('.')[0].split('[')[0]
                    if h == '':
                        auto += 1
                    elif h.isdigit():
                        if int(h) >= len(n.args):
                            bad.append(h)
                    elif h not in {k.arg for k in n.keywords}:
                        bad.append(h)
                if auto > len(n.args):
                    bad.append('%d values for %d fields' % (len(n.args), auto))
                rep.check(not bad, rule, '%s %r' % (m.name, n.func.value.value[:30]), '%s:%d' % (m.rel, n.lineno), 'no value for ' + ', '.join(bad))


def percent(s):
    """number of values a %-format takes; None for the mapping form"""
    k, i = 0, 0
    while i < len(s):
        if s[i] != '%':
            i += 1
            continue
        i += 1
        if i < len(s) and s[i] == '(':
            return None
        while i < len(s) and s[i] in '#0- +':
            i += 1
        while i < len(s) and (s[i].isdigit() or s[i] in '.*'):
            k += s[i] == '*'
            i += 1
        if i < len(s) and s[i] != '%':
            k += 1
        i += 1
    return k


def known_names(ctx):
    """every attribute name that some object the program can hold may have"""
    def build():
        p = ctx.p
        out = set(OBJECT_ATTRS)
        for m in p.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.ClassDef, ast.Module)):
                    for b in n.body:
                        for t in b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) else []:
                            out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                    out.add(n.name)
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    out.add(n.attr)
                elif isinstance(n, ast.keyword) and n.arg == 'dest' and isinstance(n.value, ast.Constant):
                    out.add(n.value.value)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
                    out |= {a.value.lstrip('-').replace('-', '_') for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)}
                elif isinstance(n, ast.Call) and (isinstance(n.func, ast.Name) and n.func.id == 'namedtuple' or isinstance(n.func, ast.Attribute) and n.func.attr == 'namedtuple'):
                    return None
            for b in m.names.values():
                if b[0] in ('mod', 'from'):
                    out.add(b[-1].split('.')[-1])
        for q in (str, bytes, int, float, bool, list, dict, tuple, set, PRIMS['array'], BaseException, OSError, type, type(len), type(known_names), memoryview, bytearray, range, slice, complex):
            out |= set(dir(q))
        import io
        for q in (io.BytesIO, io.BufferedReader, io.BufferedWriter, io.TextIOWrapper, io.FileIO, io.StringIO):
            out |= set(dir(q))
        per, mods = {}, set()
        big = {'matplotlib', 'networkx', 'jsbeautifier', 'numpy', 'xml'}       # graph drawing: only where they are imported
        for m in p.mods.values():
            tops = set()
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Import):
                    tops |= {a.name.split('.')[0] for a in n.names}
                    mods |= {a.name for a in n.names}
                elif isinstance(n, ast.ImportFrom) and not n.level and n.module:
                    tops.add(n.module.split('.')[0])
                    mods.add(n.module)
            per[m] = tops - {PKG}
        alltops = set().union(*per.values())
        names = {t: None if t in big else top_names(t, {d for d in mods if d.split('.')[0] == t}) for t in alltops}
        for t in alltops - big:
            if names[t] is None:
                return None
            out |= names[t]
        return {m: None if any(names[t] is None for t in ts & big) else out.union(*[names[t] for t in ts & big]) for m, ts in per.items()}
    return ctx.lazy('known_names', build)


def top_names(t, dotted=frozenset()):
    files = module_files(t)
    if files is None:
        return None
    out = set()
    for f in files:
        src = open(f, encoding='utf-8', errors='replace').read()
        out |= defined_in(src)
        if f.endswith('__init__.py'):
            out |= set(WORDS.findall(src))
    if t in sys.builtin_module_names or t in sys.stdlib_module_names:
        todo = {}
        for d in sorted(dotted | {t}):
            try:
                todo.update(vars(importlib.import_module(d)))
            except ImportError:
                pass
        for k, v in todo.items():
            out.add(k)
            if inspect.isclass(v) or inspect.ismodule(v):
                out |= set(dir(v))
    return out



def defined_in(src):
    """names of the functions, classes and attributes a library source defines"""
    out = set()
    try:
        tree = ast.parse(src)
    except SyntaxError:
        return set(WORDS.findall(src))
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
            out.add(n.attr)
        elif isinstance(n, (ast.ClassDef, ast.Module)):
            pass
        if isinstance(n, (ast.ClassDef, ast.Module)):
            for b in n.body:
                for t in b.targets if isinstance(b, ast.Assign) else [b.target] if isinstance(b, ast.AnnAssign) else []:
                    out |= {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
    return out


WORDS = re.compile(r'\w+')


def module_files(top):
    """source files that may define the attributes of objects of an imported package; None when they cannot be found"""
    if top in sys.builtin_module_names:
        return []
    if top in sys.stdlib_module_names:
        spec = importlib.util.find_spec(top)
        f = spec.origin if spec else None
        if f is None:
            return None
        if f.endswith('__init__.py'):
            return glob.glob(os.path.join(os.path.dirname(f), '*.py'))
        return [f] if f.endswith('.py') else []
    for d in sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + [x for x in sys.path if x.endswith('-packages')]:
        b = os.path.join(d, top)
        if os.path.isdir(b):
            return [os.path.join(x, f) for x, _, fs in os.walk(b) for f in fs if f.endswith(('.py', '.pyi'))]
        if os.path.isfile(b + '.py'):
            return [b + '.py']
    return None


def anywhere(ctx, rep):
    """an attribute that nothing in the program or in the libraries it imports defines"""
    p = ctx.p
    rule = 'some object has an attribute of this name'
    names = known_names(ctx)
    if names is None:
        rep.und(rule, 'imported packages', 'their sources are not installed')
        return
    for m in sorted(p.mods.values(), key=lambda m: m.name):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                if names[m] is None:
                    rep.und(rule, m.name + ': ' + n.attr, 'the sources of an imported package are not installed')
                elif n.attr in names[m]:
                    rep.ok(rule)
                else:
                    rep.viol(rule, m.name + ': ' + n.attr, '%s:%d' % (m.rel, n.lineno), 'nothing in the program or the libraries it imports has an attribute %s' % n.attr)


def missing_results(ctx, rep):
    """an implementation without a result of a method whose other implementations have one"""
    p = ctx.p
    rule = 'every implementation of a method with a result has one'
    used = used_results(p)
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        for n, f in sorted(c.methods.items()):
            if f.abstract or f.is_gen or n not in used or n.startswith('__') or f.kind == 'prop':
                continue
            rets = [x for x in walk_local(f.node) if isinstance(x, ast.Return) and x.value is not None]
            root = [b for b in c.mro()[1:] if n in b.methods]
            if not root:
                continue
            fam = {s.methods[n] for b in root for s in [b] + b.all_subs() if n in s.methods} - {f}
            vals = [g for g in fam if not g.abstract and any(isinstance(x, ast.Return) and x.value is not None and not (isinstance(x.value, ast.Constant) and x.value.value is None) for x in walk_local(g.node))]
            if not vals:
                continue
            ends = falls(f.node.body)
            rep.check(bool(rets) or not ends, rule, f.qual, f.loc(), 'never returns a value; %s does and callers use it' % sorted(g.qual for g in vals)[0])


class Assigned:
    """attributes of the receiver that every normal end of a function has set"""

    def __init__(self, p, c):
        self.p, self.c = p, c
        self.busy = set()

    def of(self, f):
        if f in self.busy:
            return set()
        self.busy.add(f)
        self.ends = getattr(self, 'ends', None)
        keep, self.ends = self.ends, []
        out = self.block(f, f.node.body, frozenset())
        rets = self.ends + ([out] if out is not None else [])
        self.ends = keep
        self.busy.discard(f)
        return set.intersection(*(set(x) for x in rets)) if rets else set()

    def exprs(self, f, node, have):
        """calls of own methods that set attributes"""
        have = set(have)
        for n in ast.walk(node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                v = n.func.value
                g = None
                if isinstance(v, ast.Name) and v.id == f.first:
                    g = self.c.find(n.func.attr)
                elif isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and f.cls is not None:
                    mro = self.c.mro()
                    after = mro[mro.index(f.cls) + 1:] if f.cls in mro else []
                    g = next((k.methods[n.func.attr] for k in after if n.func.attr in k.methods), None)
                elif isinstance(v, ast.Name) and n.func.attr == '__init__':
                    g = next((k.methods['__init__'] for k in self.c.mro() if k.name == v.id and '__init__' in k.methods), None)
                if g is not None:
                    have |= self.of(g)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == f.first:
                have |= {n.args[1].value} if isinstance(n.args[1], ast.Constant) else {'*'}
        return have

    def targets(self, f, t, have):
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == f.first:
                have = set(have) | {n.attr}
        return have

    def block(self, f, stmts, have):
        for s in stmts:
            have = self.stmt(f, s, have)
            if have is None:
                return None
        return have

    @staticmethod
    def meet(a, b):
        return b if a is None else a if b is None else set(a) & set(b)

    def stmt(self, f, s, have):
        if isinstance(s, ast.Return):
            self.ends.append(self.exprs(f, s, have))
            return None
        if isinstance(s, (ast.Raise, ast.Continue, ast.Break)):
            return None
        if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            have = self.exprs(f, s, have)
            for t in s.targets if isinstance(s, ast.Assign) else [s.target] if getattr(s, 'value', None) is not None else []:
                have = self.targets(f, t, have)
            return have
        if isinstance(s, ast.If):
            h = self.exprs(f, s.test, have)
            return self.meet(self.block(f, s.body, h), self.block(f, s.orelse, h))
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                have = self.exprs(f, i.context_expr, have)
                if i.optional_vars is not None:
                    have = self.targets(f, i.optional_vars, have)
            return self.block(f, s.body, have)
        if isinstance(s, (ast.For, ast.AsyncFor, ast.While)):
            # a loop may run no time; what breaks out of an endless one is not told apart
            h = self.exprs(f, s.iter if not isinstance(s, ast.While) else s.test, have)
            inner = self.block(f, s.body, h)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                return set(h) | {a.attr for a in ast.walk(s) if isinstance(a, ast.Attribute) and isinstance(a.ctx, ast.Store)}
            return self.meet(self.block(f, s.orelse, h), h) if s.orelse else h
        if isinstance(s, ast.Try):
            a = self.block(f, s.body + s.orelse, have)
            for h in s.handlers:
                a = self.meet(a, self.block(f, h.body, have))
            if s.finalbody:
                b = self.block(f, s.finalbody, have if a is None else a)
                return None if a is None or b is None else b
            return a
        if isinstance(s, ast.Match):
            out, wild = None, False
            for k in s.cases:
                out = self.meet(out, self.block(f, k.body, have))
                wild |= isinstance(k.pattern, ast.MatchAs) and k.pattern.pattern is None and k.guard is None
            return out if wild else self.meet(out, have)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return have
        return self.exprs(f, s, have)


def always_read(f):
    """attributes of the receiver a call of f reads whatever happens, before it sets them"""
    out, done = {}, set()

    def expr(n):
        if isinstance(n, ast.BoolOp):
            expr(n.values[0])
            return
        if isinstance(n, ast.IfExp):
            expr(n.test)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            if not isinstance(n, ast.Lambda):
                expr(n.generators[0].iter)
            return
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == f.first and n.attr not in done:
            out.setdefault(n.attr, n)
        for x in ast.iter_child_nodes(n):
            expr(x)

    for s in f.node.body:
        if isinstance(s, (ast.Expr, ast.Return, ast.AugAssign)):
            if getattr(s, 'value', None) is not None:
                expr(s.value)
            if isinstance(s, ast.AugAssign):
                expr(ast.Attribute(value=s.target.value, attr=s.target.attr, ctx=ast.Load()) if isinstance(s.target, ast.Attribute) else s.target)
            if isinstance(s, ast.Return):
                break
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is not None:
                expr(s.value)
            done |= {n.attr for t in (s.targets if isinstance(s, ast.Assign) else [s.target]) for n in ast.walk(t) if isinstance(n, ast.Attribute)}
        elif isinstance(s, ast.If):
            expr(s.test)
            if any(isinstance(x, (ast.Return, ast.Raise)) for x in ast.walk(s)):
                break
            done |= {n.attr for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        elif isinstance(s, ast.For):
            expr(s.iter)
            break
        elif isinstance(s, ast.Pass):
            pass
        else:
            break
    return out


def half_made(ctx, rep):
    """what some ends of a constructor set, all of them set (if a method counts on it)"""
    p = ctx.p
    rule = 'every constructed object has the attributes its methods read'
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        init = c.methods.get('__init__')
        if init is None or c.is_enum():
            continue
        if any(n in k.methods for k in c.mro() for n in ('__getattr__', '__getattribute__')):
            continue
        with rep.guard(rule, c.qual):
            some = {n.attr: n for n in ast.walk(init.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == init.first}
            sure = Assigned(p, c).of(init)
            level = {n for k in c.mro() for n in list(getattr(k, 'attrs', {})) + list(getattr(k, 'anns', {})) + list(k.methods)}
            later = {n.attr for k in c.mro() for f in k.methods.values() if f.name != '__init__' for s in ast.walk(f.node) if isinstance(s, (ast.Assign, ast.AnnAssign, ast.For, ast.With, ast.NamedExpr)) for n in ast.walk(s) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
            for a, n in sorted(some.items()):
                if a in sure or '*' in sure or a in level:
                    rep.ok(rule, c.qual)
                    continue
                who = [f for k in [c] + c.all_subs() for f in sorted(k.methods.values(), key=lambda f: f.qual) if f.name not in ('__init__',) and f.first and f.kind not in ('static', 'class') and a in always_read(f)]
                rep.check(True if not who else None if a in later else False, rule, c.qual + '.' + a, '%s:%d' % (init.mod.rel, n.lineno), '%s is not set by every way through the constructor, and %s reads it' % (a, who[0].qual if who else ''))


def printable(ctx, rep):
    """an object can be shown whatever octets it holds: text for display is decoded with an error handler"""
    p = ctx.p
    rule = 'text for display exists for every value'
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.cls is None or f.name not in ('__repr__', '__str__', '__format__') or f.abstract:
            continue
        con = '%s.%s' % (f.cls.name, f.name)
        tried = {id(n) for t in ast.walk(f.node) if isinstance(t, ast.Try) and t.handlers for b in t.body for n in ast.walk(b)}
        fine = True
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'decode' and id(n) not in tried:
                recv = n.func.value
                text = isinstance(recv, ast.Call) and ast.unparse(recv.func).split('.')[-1] in ('hexlify', 'b64encode', 'urlsafe_b64encode', 'b32encode', 'b16encode', 'encode')
                err = next((k.value for k in n.keywords if k.arg == 'errors'), n.args[1] if len(n.args) > 1 else None)
                codec = n.args[0] if n.args else next((k.value for k in n.keywords if k.arg == 'encoding'), None)
                total = isinstance(codec, ast.Constant) and str(codec.value).lower().replace('_', '-') in ('latin-1', 'latin1', 'iso-8859-1', 'cp437')
                if err is None and not text and not total and not isinstance(recv, ast.Constant) or isinstance(err, ast.Constant) and err.value == 'strict' and not total:
                    fine = False
                    rep.viol(rule, con, '%s:%d' % (f.mod.rel, n.lineno), '%s fails for octets that are not such text' % ast.unparse(n)[:60])
        if fine:
            rep.ok(rule, con)


def defaults(ctx, rep):
    """an argument that may be left out may be left out: its default is not refused whatever else is given"""
    rule = 'an argument with a default may be left out'
    fl = ctx.lazy('errors.defaults', lambda: Flow(ctx, set()))
    for f in sorted(library(ctx.p), key=lambda f: f.qual):
        if f.abstract or not f.defaults or f.cls is not None and f.cls.is_enum() or not any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(f.node)):
            continue
        con = '%s.%s' % (f.cls.name, f.name) if f.cls is not None else f.name
        with rep.guard(rule, con):
            whole = fl.run(f, selfcls=f.cls)
            if not any(o.kind == 'return' for o in whole):
                continue
            for n, d in sorted(f.defaults.items()):
                if not isinstance(d, ast.Constant) or n not in f.params:
                    continue
                outs = fl.run(f, selfcls=f.cls, args={n: const(d.value)})
                if not outs:
                    rep.und(rule, con, n)
                    continue
                good = any(o.kind == 'return' for o in outs)
                if not good and any(o.kind == 'raise' and all(a.op in ('isnone', 'truth', 'isa', 'eq', 'is') and a.a[0] is mk('param', n) for a in o.facts) and o.facts.get(mk('isnone', mk('param', n))) for o in whole) and not left_out(ctx, f, n) \
                        and not (f.ann.get(n) is not None and any(w in ast.unparse(f.ann[n]) for w in ('Optional', 'None'))):
                    continue            # it is asked for by name, and everybody gives it
                rep.check(good, rule, con, f.loc(), 'nothing is made when %s is left out' % n)


def left_out(ctx, f, n):
    """does a call in the library leave the argument out"""
    name = f.cls.name if f.name == '__init__' and f.cls is not None else f.name
    k = [x for x in f.params if x != f.first].index(n)
    for g in library(ctx.p):
        for c in ast.walk(g.node):
            if isinstance(c, ast.Call) and (isinstance(c.func, ast.Name) and (c.func.id == name or c.func.id == 'cls' and f.name == '__init__' and g.cls is f.cls) or isinstance(c.func, ast.Attribute) and c.func.attr == name):
                if len(c.args) <= k and not any(w.arg == n or w.arg is None for w in c.keywords) and not any(isinstance(a, ast.Starred) for a in c.args):
                    return True
    return False


def absent_parts(ctx, fl):
    """class -> fields that its constructor accepts to be None, getter -> class -> such field; of classes that are decoded"""
    def build():
        opt, get = {}, {}
        for c in ctx.p.classes.values():
            f = c.methods.get('__init__')
            if f is None or not c.qual.startswith('ccnpy.') or c.find('parse') is None and c.find('deserialize') is None:
                continue
            for n in ast.walk(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and isinstance(n.value, ast.Name):
                    d = f.defaults.get(n.value.id)
                    if isinstance(d, ast.Constant) and d.value is None and any(o.kind == 'return' and o.st.heap.get((SELF_, n.targets[0].attr)) is NONE for o in fl.run(f, selfcls=c, args={n.value.id: NONE})):
                        opt.setdefault(c, set()).add(n.targets[0].attr)
            for m in c.methods.values():
                b = [x for x in m.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
                if len(b) == 1 and isinstance(b[0], ast.Return) and isinstance(b[0].value, ast.Attribute) and b[0].value.attr in opt.get(c, ()):
                    get.setdefault(m.name, {})[c] = b[0].value.attr
        return opt, get
    return ctx.lazy('errors.absent', build)


def unguarded(ctx, fl, outs, loc):
    """uses of a part that may be absent on a path that does not know it is there: (part, use, where, certain)"""
    opt, get = absent_parts(ctx, fl)
    i = fl.i

    def maybe(r, st):
        if r.op == 'attr':
            x, ks = r.a[0], [c for c in opt if r.a[1] in opt[c]]
        elif r.op == 'mcall' and r.a[0] in get and not margs(r)[0] and not margs(r)[1]:
            x, ks = r.a[1], list(get[r.a[0]])
        else:
            return None
        if not ks or not isinstance(x, T):
            return None
        cs = i.typeof(x, st).classes
        return x if cs and any(k in c.mro() for c in cs for k in ks) else None

    for o in outs:
        ts = [(a, loc) for a in o.facts] + ([(o.val, loc)] if isinstance(o.val, T) else []) + [(e.term, e.loc()) for e, ls in walk_events(o.events()) if isinstance(e.term, T)]
        inner = {}
        for e, ls in walk_events(o.events()):
            if e.kind == 'loop':
                for q in e.x.outs:
                    inner.update(dict(q[2]))
        seen = set()
        for t, where in ts:
            for s in subs(t):
                if s in seen:
                    continue
                seen.add(s)
                r = s.a[1] if s.op == 'mcall' else s.a[0] if s.op in ('attr', 'len') else None
                if not isinstance(r, T) or r.op not in ('attr', 'mcall'):
                    continue
                x = maybe(r, o.st)
                if x is None:
                    continue
                same = lambda y: y is r or isinstance(y, T) and canon(y) is canon(r)
                known = any(a.op == 'isnone' and same(a.a[0]) and v is False or a.op in ('truth', 'isa', 'eq', 'is', 'in') and any(same(y) for y in a.a) for a, v in list(o.facts.items()) + list(inner.items()))
                if known:
                    yield r, s, where, True, True
                    continue
                # something asked of its owner may tell that it is there
                hint = any(y.op in ('mcall', 'call') and mentions(y, x) and not mentions(y, r) for a in list(o.facts) + list(inner) for y in subs(a))
                yield r, s, where, False, not hint


def called_in(ctx, f):
    """functions of the project that f calls as functions of its own class or module"""
    out = []
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
            if nm is not None and not nm.startswith('__'):
                out += [g for g in ctx.p.funcs.values() if g.name == nm and g is not f and (g.cls is f.cls or g.mod is f.mod)]
    return out


def absent(ctx, rep):
    """a part that an object may lack is used only where it is known to be there"""
    rule = 'a part that may be absent is looked for first'
    p = ctx.p
    fl = ctx.lazy('errors.absent.flow', lambda: Flow(ctx, set()))
    opt, get = absent_parts(ctx, fl)
    called = {}
    for f in p.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else None
                called.setdefault(nm, set()).add(f)
    names = set(get) | {a for v in opt.values() for a in v}
    for f in sorted(p.funcs.values(), key=lambda f: f.qual):
        if f.abstract or f.name == '__init__' or not any(isinstance(n, ast.Attribute) and n.attr in names for n in ast.walk(f.node)):
            continue
        con = f.qual.removeprefix('ccnpy.')
        with rep.guard(rule, con):
            hits = {}
            for r, s, where, known, sure in unguarded(ctx, fl, fl.run(f, selfcls=f.cls), f.loc()):
                if known:
                    rep.ok(rule, con)
                else:
                    k = hits.setdefault(show(r), [r, s, where, sure])
                    k[3] = k[3] or sure
            if hits and f.name.startswith('_') and not f.name.startswith('__') and called.get(f.name):
                # a helper: its callers may know
                helper = ctx.lazy(('errors.absent.helper', f.qual), lambda: Flow(ctx, {f.name}, also=lambda g: g is f, samename=True))
                said = set()
                for g in called[f.name]:
                    if g is not f:
                        outs = helper.run(g, selfcls=g.cls)
                        if not outs:
                            said |= {h[0].a[-1] if h[0].op == 'attr' else h[0].a[0] for h in hits.values()}
                        for r, s, where, known, sure in unguarded(ctx, helper, outs, g.loc()):
                            if known:
                                said.add(r.a[1] if r.op == 'attr' else r.a[0])
                for h in hits.values():
                    r = h[0]
                    if (r.a[1] if r.op == 'attr' else r.a[0]) in said:
                        h[3] = False
            # something it calls looks at the part and may refuse an object without it
            for h in hits.values():
                part = h[0].a[1] if h[0].op == 'attr' else h[0].a[0]
                for g in called_in(ctx, f):
                    if any(isinstance(n, ast.Attribute) and n.attr.lstrip('_') == part.lstrip('_') for n in ast.walk(g.node)) and any(isinstance(n, (ast.Raise, ast.Assert)) for n in ast.walk(g.node)):
                        h[3] = False
            # what is raised for a part that is not there may be what is waited for
            waits = any(isinstance(n, ast.ExceptHandler) and (n.type is None or any(getattr(x, 'id', None) in ('AttributeError', 'TypeError', 'Exception', 'BaseException') for x in ast.walk(n.type)))
                        for g in [f] + sorted(called.get(f.name, ()), key=lambda g: g.qual) for n in ast.walk(g.node))
            for h in hits.values() if waits else ():
                h[3] = False
            for r, s, where, sure in hits.values():
                part = (r.a[1] if r.op == 'attr' else r.a[0]).lstrip('_')
                rep.check(False if sure else None, rule, '%s: %s' % (con, part), where, '%s is used without knowing that there is one' % show(r)[-60:])


SELF_ = mk('param', 'self')


RULES = {'F14': [printable, scopes, sites, results, missing_results, overrides, formats, anywhere, half_made, defaults, absent]}
