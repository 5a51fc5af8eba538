"""Hash-consed bit-vector terms with aggressive local simplification.

Every value in the executor (integers, pointers, conditions) is a Term of a
given bit width.  Width-1 terms are booleans.  Arrays (for objects of symbolic
size) are Terms of width 0 ('avar' / 'store').
"""
import sys
sys.setrecursionlimit(100000)

class Term:
    __slots__ = ('op', 'args', 'w', 'id', '_rng', '_m1', '_leaf', '_z3', '__weakref__')
    def __repr__(self):
        return pp(self, 4)

_tab = {}
_next = [0]

def mk(op, args, w):
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = Term()
        t.op = op; t.args = args; t.w = w
        t.id = _next[0]; _next[0] += 1
        t._rng = None; t._m1 = None; t._leaf = None; t._z3 = None
        _tab[k] = t
    return t

def pp(t, d=6):
    if not isinstance(t, Term): return str(t)
    if t.op == 'const': return '%d:%d' % (t.args, t.w)
    if t.op in ('var', 'avar'): return str(t.args)
    if d == 0: return '#%d' % t.id
    if t.op == 'lin':
        return '(' + '+'.join(['%d' % t.args[0]] + ['%d*%s' % (c, pp(a, d-1)) for c, a in t.args[1]]) + ')'
    return '%s(%s)' % (t.op, ','.join(pp(a, d-1) for a in t.args))

# ---------------------------------------------------------------- constants
def const(v, w):
    return mk('const', v & ((1 << w) - 1), w)

T = const(1, 1)
F = const(0, 1)

def var(name, w):
    return mk('var', name, w)

def is_const(t): return t.op == 'const'

def sval(t):
    v = t.args
    return v - (1 << t.w) if v >> (t.w - 1) else v

# ---------------------------------------------------------------- analyses
def rng(t):
    """unsigned range (lo, hi)"""
    r = t._rng
    if r is None:
        r = t._rng = _rng(t)
    return r

def _rng(t):
    op = t.op; w = t.w; full = (1 << w) - 1
    if op == 'const': return (t.args, t.args)
    if op == 'zext': return rng(t.args[0])
    if op == 'ite':
        a = rng(t.args[1]); b = rng(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if op == 'lin':
        c, ms = t.args
        half = 1 << (w - 1)
        # try both signed-coefficient interpretation
        lo = hi = c if c < half else c - (full + 1)
        for k, a in ms:
            if k >= half: k -= full + 1
            r = rng(a)
            if k >= 0: lo += k * r[0]; hi += k * r[1]
            else: lo += k * r[1]; hi += k * r[0]
        if lo >= 0 and hi <= full: return (lo, hi)
        if c >= half:
            lo += full + 1; hi += full + 1
            if lo >= 0 and hi <= full: return (lo, hi)
        return (0, full)
    if op == 'mul':
        a = rng(t.args[0]); b = rng(t.args[1])
        if a[1] * b[1] <= full: return (a[0]*b[0], a[1]*b[1])
        return (0, full)
    if op == 'udiv':
        a = rng(t.args[0]); b = rng(t.args[1])
        if b[0] > 0: return (a[0] // b[1], a[1] // b[0])
        return (0, full)
    if op == 'urem':
        a = rng(t.args[0]); b = rng(t.args[1])
        if b[0] > 0: return (0, min(a[1], b[1] - 1))
        return (0, full)
    if op == 'and':
        m = maybe1(t)
        return (0, min(m, rng(t.args[0])[1], rng(t.args[1])[1]))
    if op in ('or', 'xor', 'concat', 'extract'):
        m = maybe1(t)
        if op == 'extract':
            r = rng(t.args[0]); h = t.args[1] + 1
            if r[0] >> h == r[1] >> h: return ((r[0] >> t.args[2]) & full, (r[1] >> t.args[2]) & full)
        if op == 'concat':
            a = rng(t.args[0]); b = rng(t.args[1]); s = t.args[1].w
            return ((a[0] << s) + b[0], (a[1] << s) + b[1])
        if op == 'or':
            return (max(rng(t.args[0])[0], rng(t.args[1])[0]), m)
        return (0, m)
    if op == 'lshr':
        a = rng(t.args[0]); b = rng(t.args[1])
        return (0 if b[1] >= w else a[0] >> b[1], a[1] >> b[0] if b[0] < w else 0)
    if op == 'shl':
        a = rng(t.args[0]); b = rng(t.args[1])
        if b[1] < w and (a[1] << b[1]) <= full: return (a[0] << b[0], a[1] << b[1])
        return (0, full)
    if op == 'ashr':
        a = rng(t.args[0])
        if a[1] < (1 << (w - 1)): return (0, a[1])
        return (0, full)
    return (0, full)

def maybe1(t):
    m = t._m1
    if m is None:
        m = t._m1 = _maybe1(t)
    return m

def _maybe1(t):
    op = t.op; w = t.w; full = (1 << w) - 1
    if op == 'const': return t.args
    if op == 'zext': return maybe1(t.args[0])
    if op == 'concat': return (maybe1(t.args[0]) << t.args[1].w) | maybe1(t.args[1])
    if op == 'ite': return maybe1(t.args[1]) | maybe1(t.args[2])
    if op == 'and': return maybe1(t.args[0]) & maybe1(t.args[1])
    if op in ('or', 'xor'): return maybe1(t.args[0]) | maybe1(t.args[1])
    if op == 'extract': return (maybe1(t.args[0]) >> t.args[2]) & full
    if op == 'lin':
        h = rng(t)[1]
        m = (1 << h.bit_length()) - 1
        # trailing zeros
        g = 64
        c, ms = t.args
        if c: g = min(g, (c & -c).bit_length() - 1)
        for k, a in ms:
            tz = (k & -k).bit_length() - 1
            ma = maybe1(a)
            if ma: tz += (ma & -ma).bit_length() - 1
            g = min(g, tz)
        return (m >> g) << g & full
    if op in ('mul', 'udiv', 'urem', 'lshr', 'shl', 'ashr'):
        h = rng(t)[1]
        return (1 << h.bit_length()) - 1
    return full

def srng(t):
    """signed range"""
    w = t.w; half = 1 << (w - 1)
    if t.op == 'sext':
        return srng(t.args[0])
    if t.op == 'ite':
        a = srng(t.args[1]); b = srng(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    lo, hi = rng(t)
    if hi < half: return (lo, hi)
    if lo >= half: return (lo - 2*half, hi - 2*half)
    if t.op == 'lin':
        c, ms = t.args
        lo = hi = c - 2*half if c >= half else c
        for k, a in ms:
            if k >= half: k -= 2*half
            r = srng(a)
            if k >= 0: lo += k * r[0]; hi += k * r[1]
            else: lo += k * r[1]; hi += k * r[0]
        if -half <= lo and hi < half: return (lo, hi)
    if t.op == 'ashr' and t.args[1].op == 'const':
        r = srng(t.args[0]); s = min(t.args[1].args, w - 1)
        return (r[0] >> s, r[1] >> s)
    if t.op == 'mul':
        a = srng(t.args[0]); b = srng(t.args[1])
        ps = [x*y for x in a for y in b]
        if -half <= min(ps) and max(ps) < half: return (min(ps), max(ps))
    return (-half, half - 1)

# --- ite-trees with constant leaves ("cases")
MAXLEAF = 24
def leaves(t):
    """frozenset of constant leaves, or None when t is not a small const-leaf ite tree"""
    l = t._leaf
    if l is None:
        if t.op == 'const': l = frozenset((t.args,))
        elif t.op == 'ite':
            a = leaves(t.args[1]); b = leaves(t.args[2])
            l = False
            if a and b:
                u = a | b
                if len(u) <= MAXLEAF: l = u
        else: l = False
        t._leaf = l
    return l or None

def _map1(f, t):
    memo = {}
    def go(u):
        r = memo.get(u.id)
        if r is None:
            r = f(u) if u.op == 'const' else ite(u.args[0], go(u.args[1]), go(u.args[2]))
            memo[u.id] = r
        return r
    return go(t)

# ---------------------------------------------------------------- boolean
def not_(a):
    if a.w != 1:
        return lin(a.w, -1, ((-1, a),))
    if a.op == 'const': return F if a.args else T
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 1)

def and_(a, b):
    if a is b: return a
    if a.op == 'const':
        if a.args == 0: return a
        if a.args == (1 << a.w) - 1: return b
        if b.op == 'const': return const(a.args & b.args, a.w)
        return and_(b, a)
    if b.op == 'const':
        if b.args == 0: return b
        if b.args == (1 << b.w) - 1: return a
    w = a.w
    if w == 1:
        if not_(a) is b: return F
        # absorption
        if a.op == 'and' and b in a.args: return a
        if b.op == 'and' and a in b.args: return b
        if a.op == 'or' and b in a.args: return b
        if b.op == 'or' and a in b.args: return a
        na = not_(a); nb = not_(b)
        if b.op == 'or':
            if b.args[0] is na: return and_(a, b.args[1])
            if b.args[1] is na: return and_(a, b.args[0])
        if a.op == 'or':
            if a.args[0] is nb: return and_(b, a.args[1])
            if a.args[1] is nb: return and_(b, a.args[0])
        if b.op == 'and' and na in b.args: return F
        if a.op == 'and' and nb in a.args: return F
        if a.id > b.id: a, b = b, a
        return mk('and', (a, b), 1)
    if maybe1(a) & maybe1(b) == 0: return const(0, w)
    if b.op == 'const':
        m = b.args
        if maybe1(a) & ~m == 0: return a
        if a.op == 'and' and a.args[1].op == 'const':
            return and_(a.args[0], const(m & a.args[1].args, w))
        if leaves(a): return _map1(lambda u: const(u.args & m, w), a)
        if a.op == 'ite' and (a.args[1].op == 'const' or a.args[2].op == 'const'):
            return ite(a.args[0], and_(a.args[1], b), and_(a.args[2], b))
        # contiguous masks as extract/concat
        tz = (m & -m).bit_length() - 1
        mm = m >> tz
        if mm & (mm + 1) == 0:
            n = mm.bit_length()
            r = extract(a, tz + n - 1, tz)
            if tz: r = concat(r, const(0, tz))
            return zext(r, w)
        return mk('and', (a, b), w)
    if a.id > b.id: a, b = b, a
    return mk('and', (a, b), w)

def or_(a, b):
    if a is b: return a
    w = a.w
    full = (1 << w) - 1
    if a.op == 'const':
        if b.op == 'const': return const(a.args | b.args, w)
        return or_(b, a)
    if b.op == 'const':
        if b.args == 0: return a
        if b.args == full: return b
    if w == 1:
        if not_(a) is b: return T
        if a.op == 'or' and b in a.args: return a
        if b.op == 'or' and a in b.args: return b
        if a.op == 'and' and b in a.args: return b
        if b.op == 'and' and a in b.args: return a
        na = not_(a); nb = not_(b)
        if b.op == 'or' and na in b.args: return T
        if a.op == 'or' and nb in a.args: return T
        if b.op == 'and':
            if b.args[0] is na: return or_(a, b.args[1])
            if b.args[1] is na: return or_(a, b.args[0])
        if a.op == 'and':
            if a.args[0] is nb: return or_(b, a.args[1])
            if a.args[1] is nb: return or_(b, a.args[0])
        if a.op == 'and' and b.op == 'and':
            # (p&q)|(p&r) -> p&(q|r)
            for x in a.args:
                if x in b.args:
                    p = a.args[0] if a.args[1] is x else a.args[1]
                    q = b.args[0] if b.args[1] is x else b.args[1]
                    return and_(x, or_(p, q))
        if a.id > b.id: a, b = b, a
        return mk('or', (a, b), 1)
    ma = maybe1(a); mb = maybe1(b)
    if ma & mb == 0:
        # disjoint: build a concatenation when the ranges split cleanly
        r = _disjoint(a, ma, b, mb, w)
        if r is not None: return r
    if b.op == 'const':
        if leaves(a): return _map1(lambda u: const(u.args | b.args, w), a)
        return mk('or', (a, b), w)
    if a.id > b.id: a, b = b, a
    return mk('or', (a, b), w)

def _disjoint(a, ma, b, mb, w):
    if ma == 0: return b
    if mb == 0: return a
    la = (ma & -ma).bit_length() - 1; ha = ma.bit_length()
    lb = (mb & -mb).bit_length() - 1; hb = mb.bit_length()
    if hb <= la: pass
    elif ha <= lb:
        a, b = b, a; la, ha, lb, hb = lb, hb, la, ha
    else: return None
    # a occupies [la,w), b [0,la)
    return concat(extract(a, w - 1, la), extract(b, la - 1, 0))

def xor_(a, b):
    w = a.w
    if a is b: return const(0, w)
    if a.op == 'const':
        if b.op == 'const': return const(a.args ^ b.args, w)
        return xor_(b, a)
    if b.op == 'const':
        if b.args == 0: return a
        if b.args == (1 << w) - 1: return not_(a)
        if leaves(a): return _map1(lambda u: const(u.args ^ b.args, w), a)
    if w == 1:
        return not_(eq(a, b))
    if maybe1(a) & maybe1(b) == 0: return or_(a, b)
    if a.id > b.id: a, b = b, a
    return mk('xor', (a, b), w)

def implies(a, b): return or_(not_(a), b)

def ite(c, a, b):
    if c.op == 'const': return a if c.args else b
    if a is b: return a
    if c.op == 'not':
        c = c.args[0]; a, b = b, a
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    w = a.w
    assert w == b.w, (a, b)
    if w == 1:
        if a.op == 'const': return or_(c, b) if a.args else and_(not_(c), b)
        if b.op == 'const': return or_(not_(c), a) if b.args else and_(c, a)
        if a is c: return or_(c, b)
        if b is c: return and_(c, a)
        if not_(a) is b: return eq(c, a)
    if b.op == 'ite' and b.args[1] is a:   # ite(c,a,ite(d,a,e)) -> ite(c|d,a,e)
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == 'ite' and b.args[2] is a:   # ite(c,a,ite(d,e,a)) -> ite(!c&d, e, a)
        return ite(and_(not_(c), b.args[0]), b.args[1], a)
    if a.op == 'ite' and a.args[1] is b:
        return ite(and_(c, not_(a.args[0])), a.args[2], b)
    if a.op == 'ite' and a.args[2] is b:
        return ite(and_(c, a.args[0]), a.args[1], b)
    if w == 64 and c.op == 'eq' and c.args[1].op == 'const' and c.args[1].args == 0:
        d = sub(b, a); x = c.args[0]
        if d is x or (d.op == 'zext' and d.args[0] is x): return b      # ite(x == 0, a, a + x)
        if d.op == 'lin' and d.args[0] == 0 and len(d.args[1]) == 1:
            y = d.args[1][0][1]
            if y is x or (y.op == 'zext' and y.args[0] is x): return b
    if w > 1:
        if a.op == 'concat' and b.op == 'concat' and a.args[1].w == b.args[1].w \
           and (a.args[0] is b.args[0] or a.args[1] is b.args[1]):
            return concat(ite(c, a.args[0], b.args[0]), ite(c, a.args[1], b.args[1]))
        if a.op == 'zext' and b.op == 'zext' and a.args[0].w == b.args[0].w:
            return zext(ite(c, a.args[0], b.args[0]), w)
        if a.op == 'sext' and b.op == 'sext' and a.args[0].w == b.args[0].w:
            return sext(ite(c, a.args[0], b.args[0]), w)
        if a.op == 'zext' and b.op == 'const' and b.args < (1 << a.args[0].w):
            return zext(ite(c, a.args[0], const(b.args, a.args[0].w)), w)
        if b.op == 'const' and rng(a)[1] <= b.args and c is ult(a, b): return a   # min( a, b )
        if b.op == 'zext' and a.op == 'const' and a.args < (1 << b.args[0].w):
            return zext(ite(c, const(a.args, b.args[0].w), b.args[0]), w)
        if w == 64 and a.op == 'lin' and b.op == 'lin' and a.args[1] == b.args[1] and not (a.args[0] >> 40 == b.args[0] >> 40):
            pass
    return mk('ite', (c, a, b), w)

# ---------------------------------------------------------------- linear
def lin(w, c, ms):
    """c + sum k*a, ms iterable of (k, atom-term) (atoms may be any term)"""
    full = (1 << w) - 1
    acc = {}
    c &= full
    todo = list(ms)
    while todo:
        k, a = todo.pop()
        k &= full
        if k == 0: continue
        if a.op == 'const':
            c = (c + k * a.args) & full
        elif a.op == 'lin':
            c = (c + k * a.args[0]) & full
            for k2, a2 in a.args[1]:
                todo.append((k * k2, a2))
        else:
            o = acc.get(a.id)
            acc[a.id] = (((o[0] if o else 0) + k) & full, a)
    items = [(k, acc[i][1]) for i in sorted(acc) for k in (acc[i][0],) if k]
    if not items: return const(c, w)
    if c == 0 and len(items) == 1 and items[0][0] == 1: return items[0][1]
    if len(items) == 1 and leaves(items[0][1]):
        k, a = items[0]
        return _map1(lambda u: const(c + k * u.args, w), a)
    # ite(x, 1, 0)-style merging is left to the solver
    if len(items) == 2 and w <= 64:
        (k1, a1), (k2, a2) = items
        # k*ite(c,x,y) - k*ite(c,x',y') with same condition
        if a1.op == 'ite' and a2.op == 'ite' and a1.args[0] is a2.args[0] and (leaves(a1) and leaves(a2)):
            cc = a1.args[0]
            return ite(cc, lin(w, c, ((k1, a1.args[1]), (k2, a2.args[1]))),
                           lin(w, c, ((k1, a1.args[2]), (k2, a2.args[2]))))
    return mk('lin', (c, tuple(items)), w)

def add(a, b):
    if a.w == 1: return xor_(a, b)
    if a.op == 'const' and b.op == 'const': return const(a.args + b.args, a.w)
    return lin(a.w, 0, ((1, a), (1, b)))

def sub(a, b):
    if a.w == 1: return xor_(a, b)
    if a.op == 'const' and b.op == 'const': return const(a.args - b.args, a.w)
    return lin(a.w, 0, ((1, a), (-1, b)))

def neg(a): return lin(a.w, 0, ((-1, a),))

def mul(a, b):
    w = a.w
    if w == 1: return and_(a, b)
    if a.op == 'const':
        if b.op == 'const': return const(a.args * b.args, w)
        a, b = b, a
    if b.op == 'const':
        return lin(w, 0, ((b.args, a),))
    if a.id > b.id: a, b = b, a
    return mk('mul', (a, b), w)

def udiv(a, b):
    w = a.w
    if b.op == 'const' and b.args:
        if a.op == 'const': return const(a.args // b.args, w)
        if b.args == 1: return a
        if b.args & (b.args - 1) == 0:
            return lshr(a, const(b.args.bit_length() - 1, w))
        if rng(a)[1] < b.args: return const(0, w)
        if leaves(a): return _map1(lambda u: const(u.args // b.args, w), a)
    return mk('udiv', (a, b), w)

def urem(a, b):
    w = a.w
    if b.op == 'const' and b.args:
        if a.op == 'const': return const(a.args % b.args, w)
        if b.args & (b.args - 1) == 0: return and_(a, const(b.args - 1, w))
        if rng(a)[1] < b.args: return a
        if leaves(a): return _map1(lambda u: const(u.args % b.args, w), a)
    return mk('urem', (a, b), w)

def sdiv(a, b):
    w = a.w
    if a.op == 'const' and b.op == 'const' and b.args:
        x, y = sval(a), sval(b)
        q = abs(x) // abs(y)
        return const(-q if (x < 0) != (y < 0) else q, w)
    if srng(a)[0] >= 0 and srng(b)[0] > 0: return udiv(a, b)
    if b.op == 'const' and b.args and leaves(a): return _map1(lambda u: sdiv(u, b), a)
    # exact pointer-difference divisions: constant multiples
    return mk('sdiv', (a, b), w)

def srem(a, b):
    w = a.w
    if a.op == 'const' and b.op == 'const' and b.args:
        x, y = sval(a), sval(b)
        r = abs(x) % abs(y)
        return const(-r if x < 0 else r, w)
    if srng(a)[0] >= 0 and srng(b)[0] > 0: return urem(a, b)
    return mk('srem', (a, b), w)

# ---------------------------------------------------------------- shifts
def shl(a, b):
    w = a.w
    if w == 1: return and_(a, not_(b))
    if b.op == 'const':
        s = b.args
        if s == 0: return a
        if s >= w: return const(0, w)
        if a.op == 'const': return const(a.args << s, w)
        if w == 64 and a.op in ('lin',): return lin(w, 0, ((1 << s, a),))
        return concat(extract(a, w - 1 - s, 0), const(0, s))
    lb = leaves(b)
    if lb and len(lb) <= 16: return _map1(lambda u: shl(a, u), b)
    return mk('shl', (a, b), w)

def lshr(a, b):
    w = a.w
    if w == 1: return and_(a, not_(b))
    if b.op == 'const':
        s = b.args
        if s == 0: return a
        if s >= w: return const(0, w)
        return zext(extract(a, w - 1, s), w)
    lb = leaves(b)
    if lb and len(lb) <= 16: return _map1(lambda u: lshr(a, u), b)
    return mk('lshr', (a, b), w)

def ashr(a, b):
    w = a.w
    if w == 1: return a
    if b.op == 'const':
        s = b.args
        if s == 0: return a
        s = min(s, w - 1)
        if rng(a)[1] < (1 << (w - 1)): return lshr(a, const(s, w))
        return sext(extract(a, w - 1, s), w)
    if rng(a)[1] < (1 << (w - 1)): return lshr(a, b)
    lb = leaves(b)
    if lb and len(lb) <= 16: return _map1(lambda u: ashr(a, u), b)
    return mk('ashr', (a, b), w)

# ---------------------------------------------------------------- width changes
def zext(a, w):
    if a.w == w: return a
    if a.op == 'const': return const(a.args, w)
    if a.op == 'zext': return zext(a.args[0], w)
    if leaves(a): return _map1(lambda u: const(u.args, w), a)
    if w == 64 and a.op == 'concat' and a.args[1].op == 'const' and a.args[1].args == 0:
        return lin(64, 0, ((1 << a.args[1].w, zext(a.args[0], 64)),))
    if w == 64 and a.op == 'lin' and a.w >= 16 and a.args[0] + sum(k * rng(x)[1] for k, x in a.args[1]) < (1 << a.w):
        return lin(64, a.args[0], [(k, zext(x, 64)) for k, x in a.args[1]])   # nothing wraps: addresses add up in one sum
    if a.op == 'concat' and a.args[0].op == 'const' and a.args[0].args == 0:
        return zext(a.args[1], w)
    if a.w > 1:
        h = rng(a)[1].bit_length()
        if h < a.w and h > 0 and a.op in ('extract', 'concat'):
            return zext(extract(a, h - 1, 0), w)
        if h == 0: return const(0, w)
    return mk('zext', (a,), w)

def sext(a, w):
    if a.w == w: return a
    if a.op == 'const': return const(sval(a), w)
    if a.op == 'sext': return sext(a.args[0], w)
    if a.w > 1 and rng(a)[1] < (1 << (a.w - 1)): return zext(a, w)
    if leaves(a): return _map1(lambda u: const(sval(u), w), a)
    return mk('sext', (a,), w)

def trunc(a, w): return extract(a, w - 1, 0)

def extract(a, hi, lo):
    w = hi - lo + 1
    if w == a.w: return a
    op = a.op
    if op == 'const': return const(a.args >> lo, w)
    if (maybe1(a) >> lo) & ((1 << w) - 1) == 0: return const(0, w)
    if op == 'extract': return extract(a.args[0], hi + a.args[2], lo + a.args[2])
    if op == 'zext':
        x = a.args[0]
        if lo >= x.w: return const(0, w)
        if hi < x.w: return extract(x, hi, lo)
        return zext(extract(x, x.w - 1, lo), w)
    if op == 'sext':
        x = a.args[0]
        if hi < x.w: return extract(x, hi, lo)
        if lo < x.w: return sext(extract(x, x.w - 1, lo), w)
        return sext(extract(x, x.w - 1, x.w - 1), w)
    if op == 'concat':
        h, l = a.args
        if hi < l.w: return extract(l, hi, lo)
        if lo >= l.w: return extract(h, hi - l.w, lo - l.w)
        return concat(extract(h, hi - l.w, 0), extract(l, l.w - 1, lo))
    if op in ('and', 'or', 'xor'):
        f = {'and': and_, 'or': or_, 'xor': xor_}[op]
        return f(extract(a.args[0], hi, lo), extract(a.args[1], hi, lo))
    if op == 'ite':
        x, y = a.args[1], a.args[2]
        if leaves(a): return _map1(lambda u: const(u.args >> lo, w), a)
        return ite(a.args[0], extract(x, hi, lo), extract(y, hi, lo))
    if op == 'lin' and lo == 0 and w > 1:
        return lin(w, a.args[0], [(k, extract(x, hi, 0)) for k, x in a.args[1]])
    if op == 'lin' and w > 1 and not any(k & ((1 << lo) - 1) for k, x in a.args[1]):
        # c + 2**lo * sum: the bits of c below lo carry nowhere
        return lin(w, a.args[0] >> lo, [(k >> lo, extract(x, w - 1, 0)) for k, x in a.args[1]])
    if op == 'mul' and lo == 0 and w > 1:
        return mul(extract(a.args[0], hi, 0), extract(a.args[1], hi, 0))
    if w == 1 and lo == 0 and op == 'lin':
        r = const(a.args[0], 1)
        for k, x in a.args[1]:
            if k & 1: r = xor_(r, extract(x, 0, 0))
        return r
    return mk('extract', (a, hi, lo), w)

def concat(h, l):
    w = h.w + l.w
    if h.op == 'const' and l.op == 'const':
        return const((h.args << l.w) | l.args, w)
    if h.op == 'const' and h.args == 0: return zext(l, w)
    if h.op == 'extract' and l.op == 'extract' and h.args[0] is l.args[0] and h.args[2] == l.args[1] + 1:
        return extract(h.args[0], h.args[1], l.args[2])
    if l.op == 'concat' and h.op == 'extract' and l.args[0].op == 'extract' \
       and h.args[0] is l.args[0].args[0] and h.args[2] == l.args[0].args[1] + 1:
        return concat(concat(h, l.args[0]), l.args[1])
    if h.op == 'concat':   # right-assoc normal form
        return concat(h.args[0], concat(h.args[1], l))
    if h.op == 'zext':
        return zext(concat(h.args[0], l), w)
    return mk('concat', (h, l), w)

# ---------------------------------------------------------------- comparisons
def eq(a, b):
    if a is b: return T
    w = a.w
    assert w == b.w, (a, b)
    if a.op == 'const':
        if b.op == 'const': return F
        a, b = b, a
    if w == 1:
        if b.op == 'const': return a if b.args else not_(a)
        if not_(a) is b: return F
        if a.op == 'not' and b.op == 'not': a, b = a.args[0], b.args[0]
        elif a.op == 'not': return not_(eq(a.args[0], b))
        elif b.op == 'not': return not_(eq(a, b.args[0]))
        if a.id > b.id: a, b = b, a
        return mk('eq', (a, b), 1)
    ra = rng(a); rb = rng(b)
    if ra[1] < rb[0] or rb[1] < ra[0]: return F
    if b.op == 'const':
        if b.args & ~maybe1(a): return F
        la = leaves(a)
        if la:
            if b.args not in la: return F
            return _map1(lambda u: T if u.args == b.args else F, a)
        if a.op == 'ite':
            x, y = a.args[1], a.args[2]
            ex = eq(x, b) ; ey = eq(y, b)
            if ex.op == 'const' or ey.op == 'const': return ite(a.args[0], ex, ey)
        if a.op == 'zext': return eq(a.args[0], const(b.args, a.args[0].w))
        if a.op == 'sext':
            x = a.args[0]
            t = const(b.args, x.w)
            if sval(t) == sval(b): return eq(x, t)
            return F
        if a.op == 'concat':
            h, l = a.args
            return and_(eq(h, const(b.args >> l.w, h.w)), eq(l, const(b.args, l.w)))
        if a.op == 'lin' and len(a.args[1]) == 1:
            k, x = a.args[1][0]
            if k & 1:
                inv = pow(k, -1, 1 << w)
                return eq(x, const((b.args - a.args[0]) * inv, w))
        if a.op == 'lin' and a.args[0]:
            return eq(lin(w, 0, a.args[1]), const(b.args - a.args[0], w))
        return mk('eq', (a, b), 1)
    if a.op == 'lin' or b.op == 'lin':
        d = lin(w, 0, ((1, a), (-1, b)))
        if d.op == 'const': return T if d.args == 0 else F
        rd = rng(d)
        if rd[0] > 0: return F
    la = leaves(a); lb = leaves(b)
    if la and lb and not (la & lb): return F
    if a.op == 'zext' and b.op == 'zext':
        m = max(a.args[0].w, b.args[0].w)
        return eq(zext(a.args[0], m), zext(b.args[0], m))
    if a.op == 'sext' and b.op == 'sext':
        m = max(a.args[0].w, b.args[0].w)
        return eq(sext(a.args[0], m), sext(b.args[0], m))
    if a.op == 'concat' and b.op == 'concat' and a.args[1].w == b.args[1].w:
        return and_(eq(a.args[0], b.args[0]), eq(a.args[1], b.args[1]))
    if a.op == 'ite' and b.op == 'ite' and a.args[0] is b.args[0]:
        return ite(a.args[0], eq(a.args[1], b.args[1]), eq(a.args[2], b.args[2]))
    if a.op == 'ite' and (a.args[1] is b or a.args[2] is b):
        if a.args[1] is b: return or_(a.args[0], eq(a.args[2], b))
        return or_(not_(a.args[0]), eq(a.args[1], b))
    if b.op == 'ite' and (b.args[1] is a or b.args[2] is a):
        return eq(b, a)
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 1)

def ne(a, b): return not_(eq(a, b))

def ult(a, b):
    if a is b: return F
    w = a.w
    if w == 1: return and_(not_(a), b)
    ra = rng(a); rb = rng(b)
    if ra[1] < rb[0]: return T
    if ra[0] >= rb[1]: return F
    if b.op == 'const':
        if leaves(a): return _map1(lambda u: T if u.args < b.args else F, a)
        if b.args == 1: return eq(a, const(0, w))
        if a.op == 'ite':
            ex = ult(a.args[1], b); ey = ult(a.args[2], b)
            if ex.op == 'const' or ey.op == 'const': return ite(a.args[0], ex, ey)
    if a.op == 'const':
        if leaves(b): return _map1(lambda u: T if a.args < u.args else F, b)
        if b.op == 'ite':
            ex = ult(a, b.args[1]); ey = ult(a, b.args[2])
            if ex.op == 'const' or ey.op == 'const': return ite(b.args[0], ex, ey)
        if a.args == 0: return not_(eq(b, a))
    if a.op == 'zext' and b.op == 'zext':
        m = max(a.args[0].w, b.args[0].w)
        if m < w: return ult(zext(a.args[0], m), zext(b.args[0], m))
    if a.op == 'zext' and b.op == 'const' and b.args < (1 << a.args[0].w):
        return ult(a.args[0], const(b.args, a.args[0].w))
    if b.op == 'zext' and a.op == 'const' and a.args < (1 << b.args[0].w):
        return ult(const(a.args, b.args[0].w), b.args[0])
    if w == 64 and a.op in ('lin', 'const') and b.op in ('lin', 'const'):
        # pointer comparisons inside one region: compare offsets (regions never wrap)
        ca = a.args[0] if a.op == 'lin' else a.args
        cb = b.args[0] if b.op == 'lin' else b.args
        if ca >> REGION_BITS == cb >> REGION_BITS and 0 < ca >> REGION_BITS < (1 << 18):
            base = (ca >> REGION_BITS << REGION_BITS) + REGION_BASE
            x = lin(64, -base, ((1, a),)); y = lin(64, -base, ((1, b),))
            if rng(x)[1] < REGION_BASE and rng(y)[1] < REGION_BASE:
                return ult(x, y)
    if w == 64 and (a.op == 'lin' or b.op == 'lin') and a.op != 'const' and b.op != 'const':
        # cancel what both sides share (sound when neither side wraps): a = n + c, b = p + c
        d = sub(b, a)
        if d.op == 'lin': c0, ms = d.args
        elif d.op == 'const': c0, ms = d.args, ()
        else: c0, ms = 0, ((1, d),)
        H = 1 << 63
        p = lin(w, c0 if c0 < H else 0, [(k, x) for k, x in ms if k < H])
        n = lin(w, (1 << w) - c0 if c0 >= H else 0, [((1 << w) - k, x) for k, x in ms if k >= H])
        if not (p is b and n is a):
            c = sub(a, n)
            if rng(c)[1] + rng(n)[1] < (1 << w) and rng(c)[1] + rng(p)[1] < (1 << w): return ult(n, p)
    return mk('ult', (a, b), 1)

# pointer regions: object k lives at [k*2^REGION_BITS + REGION_BASE, ...)
REGION_BITS = 42
REGION_BASE = 1 << 40

def ule(a, b): return not_(ult(b, a))
def ugt(a, b): return ult(b, a)
def uge(a, b): return not_(ult(a, b))

def slt(a, b):
    if a is b: return F
    w = a.w
    if w == 1: return and_(a, not_(b))   # true == -1
    ra = srng(a); rb = srng(b)
    if ra[1] < rb[0]: return T
    if ra[0] >= rb[1]: return F
    if ra[0] >= 0 and rb[0] >= 0: return ult(a, b)
    if b.op == 'const' and leaves(a): return _map1(lambda u: T if sval(u) < sval(b) else F, a)
    if a.op == 'const' and leaves(b): return _map1(lambda u: T if sval(a) < sval(u) else F, b)
    if a.op == 'sext' and b.op == 'sext':
        m = max(a.args[0].w, b.args[0].w)
        return slt(sext(a.args[0], m), sext(b.args[0], m))
    if a.op == 'sext' and b.op == 'const':
        t = const(b.args, a.args[0].w)
        if sval(t) == sval(b): return slt(a.args[0], t)
    if b.op == 'sext' and a.op == 'const':
        t = const(a.args, b.args[0].w)
        if sval(t) == sval(a): return slt(t, b.args[0])
    if b.op == 'const' and b.args == 0:
        return extract(a, w - 1, w - 1) if a.op not in ('lin', 'mul') else mk('slt', (a, b), 1)
    return mk('slt', (a, b), 1)

def sle(a, b): return not_(slt(b, a))

# ---------------------------------------------------------------- arrays (64 -> 8)
def avar(name): return mk('avar', name, 0)

_sel = {}
def select(arr, idx):
    k = (arr.id, idx.id)
    r = _sel.get(k)
    if r is None:
        r = _sel[k] = _select(arr, idx)
    return r

def _select(arr, idx):
    while arr.op == 'store':
        a0, i0, v0 = arr.args
        e = eq(i0, idx)
        if e is T: return v0
        if e is F:
            arr = a0
            continue
        break
    if arr.op == 'aite':
        return ite(arr.args[0], select(arr.args[1], idx), select(arr.args[2], idx))
    if arr.op == 'azero': return const(0, 8)
    if arr.op == 'acopy':      # (dst, src, doff, soff, n)
        d, sr, do, so, n = arr.args
        rel = sub(idx, do)
        c = ult(rel, n)
        if c is T: return select(sr, add(rel, so))
        if c is F: return select(d, idx)
        return ite(c, select(sr, add(rel, so)), select(d, idx))
    if arr.op == 'aset':       # (dst, off, n, v)
        d, do, n, v = arr.args
        return ite(ult(sub(idx, do), n), v, select(d, idx))
    if arr.op == 'store':
        # undecided: expand so that derived arrays never reach the solver
        if _derived(arr): return ite(eq(arr.args[1], idx), arr.args[2], select(arr.args[0], idx))
    return mk('select', (arr, idx), 8)

_der = {}
def _derived(a):
    r = _der.get(a.id)
    if r is None:
        if a.op in ('acopy', 'aset', 'aite'): r = True
        elif a.op == 'store': r = _derived(a.args[0])
        else: r = False
        _der[a.id] = r
    return r

def store(arr, idx, v):
    if arr.op == 'store' and arr.args[1] is idx: arr = arr.args[0]
    return mk('store', (arr, idx, v), 0)

def aite(c, a, b):
    if c.op == 'const': return a if c.args else b
    if a is b: return a
    return mk('aite', (c, a, b), 0)

def uf(name, args, w):
    return mk('uf', (name,) + tuple(args), w)

def andl(ts):
    r = T
    for t in ts: r = and_(r, t)
    return r

# ---------------------------------------------------------------- evaluation
def evaluate(t, env, memo=None):
    """concrete value of t; env: var name -> int (missing = 0)"""
    if memo is None: memo = {}
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in memo: stack.pop(); continue
        ch = children(u)
        pend = [x for x in ch if x.id not in memo]
        if pend: stack.extend(pend); continue
        stack.pop()
        memo[u.id] = _ev(u, env, memo)
    return memo[t.id]

def children(u):
    op = u.op
    if op in ('const', 'var', 'avar', 'azero'): return ()
    if op == 'lin': return tuple(a for _, a in u.args[1])
    if op == 'extract': return (u.args[0],)
    if op == 'uf': return u.args[1:]
    return u.args

def _ev(u, env, m):
    op = u.op; w = u.w; full = (1 << w) - 1
    g = lambda x: m[x.id]
    def sg(x):
        v = m[x.id]
        return v - (1 << x.w) if v >> (x.w - 1) else v
    if op == 'const': return u.args
    if op == 'var': return env.get(u.args, 0) & full
    if op == 'avar': return ('a', u.args, {})
    if op == 'azero': return ('z', None, {})
    a = u.args
    if op == 'lin': return (a[0] + sum(k * g(x) for k, x in a[1])) & full
    if op == 'not': return 1 - g(a[0])
    if op == 'and': return g(a[0]) & g(a[1])
    if op == 'or': return g(a[0]) | g(a[1])
    if op == 'xor': return g(a[0]) ^ g(a[1])
    if op == 'ite': return g(a[1]) if g(a[0]) else g(a[2])
    if op == 'eq': return int(g(a[0]) == g(a[1]))
    if op == 'ult': return int(g(a[0]) < g(a[1]))
    if op == 'slt': return int(sg(a[0]) < sg(a[1]))
    if op == 'mul': return g(a[0]) * g(a[1]) & full
    if op == 'udiv': return g(a[0]) // g(a[1]) if g(a[1]) else full
    if op == 'urem': return g(a[0]) % g(a[1]) if g(a[1]) else g(a[0])
    if op == 'sdiv':
        if not g(a[1]): return full if sg(a[0]) >= 0 else 1
        return sdiv(const(g(a[0]), w), const(g(a[1]), w)).args
    if op == 'srem':
        if not g(a[1]): return g(a[0])
        return srem(const(g(a[0]), w), const(g(a[1]), w)).args
    if op == 'shl': return (g(a[0]) << g(a[1])) & full if g(a[1]) < w else 0
    if op == 'lshr': return g(a[0]) >> g(a[1]) if g(a[1]) < w else 0
    if op == 'ashr': return (sg(a[0]) >> min(g(a[1]), w)) & full
    if op == 'zext': return g(a[0])
    if op == 'sext': return sg(a[0]) & full
    if op == 'extract': return (g(a[0]) >> a[2]) & full
    if op == 'concat': return (g(a[0]) << a[1].w) | g(a[1])
    if op == 'store':
        k, n, d = g(a[0]); d = dict(d); d[g(a[1])] = g(a[2]); return (k, n, d)
    if op == 'aite': return g(a[1]) if g(a[0]) else g(a[2])
    if op == 'select':
        k, n, d = g(a[0]); i = g(a[1])
        if i in d: return d[i]
        if k == 'z': return 0
        f = env.get(('arr', n))
        return f(i) if f else 0
    if op == 'uf':
        f = env.get(('uf', a[0]))
        return f(*[g(x) for x in a[1:]]) & full if f else 0
    raise Exception('eval ' + op)


# memoise the recursive simplifying constructors (terms are hash-consed)
def _memo1(f):
    d = {}
    def g(a):
        r = d.get(a.id)
        if r is None:
            r = f(a); d[a.id] = r
        return r
    return g
def _memo2(f):
    d = {}
    def g(a, b):
        k = (a.id, b.id)
        r = d.get(k)
        if r is None:
            r = f(a, b); d[k] = r
        return r
    return g
def _memo2i(f):
    d = {}
    def g(a, w):
        k = (a.id, w)
        r = d.get(k)
        if r is None:
            r = f(a, w); d[k] = r
        return r
    return g
def _memo3i(f):
    d = {}
    def g(a, hi, lo):
        k = (a.id, hi, lo)
        r = d.get(k)
        if r is None:
            r = f(a, hi, lo); d[k] = r
        return r
    return g
def _memo3(f):
    d = {}
    def g(a, b, c):
        k = (a.id, b.id, c.id)
        r = d.get(k)
        if r is None:
            r = f(a, b, c); d[k] = r
        return r
    return g
srng = _memo1(srng)
extract = _memo3i(extract)
zext = _memo2i(zext); sext = _memo2i(sext)
and_ = _memo2(and_); or_ = _memo2(or_); xor_ = _memo2(xor_)
eq = _memo2(eq); ult = _memo2(ult); slt = _memo2(slt)
shl = _memo2(shl); lshr = _memo2(lshr); ashr = _memo2(ashr); mul = _memo2(mul)
concat = _memo2(concat); select = _memo2(select)
ite = _memo3(ite)
