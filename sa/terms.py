"""Hash-consed value terms: the abstract domain (a Herbrand / value-numbering domain).

A term says where a value comes from: a parameter, an attribute of a value, the result of a call, a list with
known structure, arithmetic over other terms.  Terms are normalised when they are made, so that the usual ways to
write one computation give one term, and they are interned, so that equal terms are the same object.
"""
_table = {}


class T:
    __slots__ = ('op', 'a', '_h', '_s', '_sub')

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return skey(self) < skey(o)


def _k(x):
    return (type(x).__name__, x) if not isinstance(x, (T, tuple)) else x


def mk(op, *a):
    key = (op, tuple(id(x) if isinstance(x, T) else (tuple(id(y) if isinstance(y, T) else _k(y) for y in x)
                     if isinstance(x, tuple) else _k(x)) for x in a))
    try:
        t = _table.get(key)
    except TypeError:
        raise TypeError('unhashable in term %s %r' % (op, a))
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t._h = len(_table) * 2654435761 & 0xFFFFFFFFFFFF
        t._s = None
        t._sub = None
        _table[key] = t
    return t


def skey(t):
    if t._s is None:
        t._s = show(t)
    return t._s


def const(v):
    return mk('const', v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t, *ty):
    return t.op == 'const' and (not ty or (isinstance(t.a[0], ty) and not (isinstance(t.a[0], bool) and bool not in ty)))


def num(t):
    """the python number of a constant term, or None"""
    if t.op == 'const' and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
        return t.a[0]
    return None


# ---- linear forms -------------------------------------------------------------------------------------------
def lin_parts(t):
    """-> (constant, {term: coef})"""
    n = num(t)
    if n is not None:
        return n, {}
    if t.op == 'lin':
        return t.a[0], {t.a[i]: t.a[i + 1] for i in range(1, len(t.a), 2)}
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v != 0}
    if not d:
        return const(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    fl = []
    for k in sorted(d, key=skey):
        fl += [k, d[k]]
    return mk('lin', c, *fl)


def add(a, b, sign=1):
    ca, da = lin_parts(a)
    cb, db = lin_parts(b)
    d = dict(da)
    for k, v in db.items():
        d[k] = d.get(k, 0) + sign * v
    return mklin(ca + sign * cb, d)


def mul(a, b):
    for x, y in ((a, b), (b, a)):
        n = num(x)
        if n is not None:
            c, d = lin_parts(y)
            return mklin(c * n, {k: v * n for k, v in d.items()})
    x, y = sorted((a, b), key=skey)
    return mk('mul', x, y)


def value_at(t, env):
    """the integer value of a numeric term when the terms in env have the given values, or None"""
    if t in env:
        return env[t]
    n = num(t)
    if n is not None:
        return n
    if t.op == 'lin':
        c, d = lin_parts(t)
        for x, k in d.items():
            v = value_at(x, env)
            if v is None:
                return None
            c += k * v
        return c
    if t.op in ('min', 'max', 'mul', 'fdiv', 'mod', 'div', 'band', 'bor', 'bxor', 'shl', 'shr'):
        vs = [value_at(x, env) if isinstance(x, T) else x for x in t.a]
        if None in vs or len(vs) < 2:
            return None
        if t.op in ('min', 'max'):
            return (min if t.op == 'min' else max)(vs)
        if t.op == 'mul':
            r = 1
            for v in vs:
                r *= v
            return r
        try:
            x, y = vs
            return {'fdiv': lambda: x // y, 'mod': lambda: x % y, 'div': lambda: x / y, 'band': lambda: x & y, 'bor': lambda: x | y, 'bxor': lambda: x ^ y,
                    'shl': lambda: x << y, 'shr': lambda: x >> y}[t.op]()
        except Exception:
            return None
    return None


NUMERIC_OPS = {'lin', 'mul', 'len', 'shr', 'shl', 'band', 'bor', 'bxor', 'fdiv', 'div', 'mod', 'pow', 'min', 'max',
               'int', 'neg', 'ceil', 'round', 'floor'}


def is_numeric(t):
    return num(t) is not None or t.op in NUMERIC_OPS


# ---- byte / text / list sequences ---------------------------------------------------------------------------
# seq(kind, items...): items are terms; mk('spread', t) is the content of t; mk('each', var, iter, conds, items)
def seq(kind, items):
    out = []
    for i in items:
        if i.op == 'spread' and i.a[0].op == 'seq':
            out += i.a[0].a[1:]
        else:
            out.append(i)
    return mk('seq', kind, *out)


def seq_items(t):
    return t.a[1:]


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for x in t.a:
        if isinstance(x, T):
            yield from subterms(x, seen)
        elif isinstance(x, tuple):
            for y in x:
                if isinstance(y, T):
                    yield from subterms(y, seen)


def subs(t):
    """all subterms, cached, as a frozenset"""
    if t._sub is None:
        t._sub = frozenset(subterms(t))
    return t._sub


def mentions(t, x):
    return x in subs(t)


def has_op(t, *ops):
    return any(s.op in ops for s in subs(t))


# ---- printing -----------------------------------------------------------------------------------------------
def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ', '.join(show(x, depth) for x in t) + ')'
        return repr(t)
    if depth > 12:
        return '..'
    d = depth + 1
    op, a = t.op, t.a
    if op == 'const':
        return repr(a[0])
    if op == 'param':
        return str(a[0])
    if op in ('cls', 'fn', 'mod', 'ext'):
        return str(a[0]).split('ccnpy.')[-1]
    if op == 'attr':
        return '%s.%s' % (show(a[0], d), a[1]) + ("'" * a[2] if len(a) > 2 else '')
    if op == 'new':
        return '%s#%s(%s)' % (a[0].a[0].split('.')[-1], a[1] if a[1] else '', ', '.join(
            '%s=%s' % (a[i], show(a[i + 1], d)) for i in range(2, len(a), 2)))
    if op == 'mcall':
        return '%s.%s(%s)%s' % (show(a[1], d), a[0], ', '.join(_kw(x, d) for x in a[3:]), '#%s' % a[2] if a[2] else '')
    if op == 'call':
        return '%s(%s)%s' % (show(a[0], d), ', '.join(_kw(x, d) for x in a[2:]), '#%s' % a[1] if a[1] else '')
    if op == 'lin':
        s = [] if a[0] == 0 else [str(a[0])]
        for i in range(1, len(a), 2):
            s.append(show(a[i], d) if a[i + 1] == 1 else '%s*%s' % (a[i + 1], show(a[i], d)))
        return '(' + '+'.join(s) + ')'
    if op == 'seq':
        return '%s[%s]' % (a[0], ', '.join(show(x, d) for x in a[1:]))
    if op == 'spread':
        return '*' + show(a[0], d)
    return '%s(%s)' % (op, ', '.join(show(x, d) if isinstance(x, (T, tuple)) else repr(x) for x in a))


def _kw(x, d):
    if x.op == 'kw':
        return '%s=%s' % (x.a[0], show(x.a[1], d))
    return show(x, d)
