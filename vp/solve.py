"""Term -> z3 / SMT-LIB translation, feasibility queries, obligation discharge."""
import hashlib
import os, subprocess, tempfile, time, signal, json
from . import terms as tm
import z3

# ------------------------------------------------------------------ z3 API
_vars = {}
_pins = []   # keep term objects alive: ids are stable because _tab never forgets
def bool2bv(x): return z3.If(x, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))

def to_z3(t):
    stack = [t]
    while stack:
        u = stack[-1]
        if u._z3 is not None: stack.pop(); continue
        pend = [x for x in tm.children(u) if x._z3 is None]
        if pend: stack.extend(pend); continue
        stack.pop()
        u._z3 = _z(u)
    return t._z3

def _bvz(x):
    z = x._z3
    return bool2bv(z) if x.w == 1 else z

def _z(u):
    op = u.op; a = u.args; w = u.w
    if op == 'const': return z3.BoolVal(bool(a)) if w == 1 else z3.BitVecVal(a, w)
    if op == 'var': return z3.Bool(a) if w == 1 else z3.BitVec(a, w)
    if op == 'avar': return z3.Array(a, z3.BitVecSort(64), z3.BitVecSort(8))
    if op == 'azero': return z3.K(z3.BitVecSort(64), z3.BitVecVal(0, 8))
    if op == 'lin':
        r = None
        for k, x in a[1]:
            e = _bvz(x)
            sk = k - (1 << w) if k >> (w - 1) else k
            if sk == 1: r = e if r is None else r + e
            elif sk == -1: r = -e if r is None else r - e
            else:
                e = e * z3.BitVecVal(k, w)
                r = e if r is None else r + e
        if a[0]: r = r + z3.BitVecVal(a[0], w)
        return r
    if op == 'not': return z3.Not(a[0]._z3)
    if w == 1 and op in ('and', 'or', 'xor'):
        return {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}[op](a[0]._z3, a[1]._z3)
    if op == 'ite': return z3.If(a[0]._z3, a[1]._z3, a[2]._z3)
    if op == 'aite': return z3.If(a[0]._z3, a[1]._z3, a[2]._z3)
    if op == 'eq': return a[0]._z3 == a[1]._z3
    if op == 'ult': return z3.ULT(a[0]._z3, a[1]._z3)
    if op == 'slt': return a[0]._z3 < a[1]._z3
    if op == 'zext':
        if a[0].w == 1: return z3.If(a[0]._z3, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        return z3.ZeroExt(w - a[0].w, a[0]._z3)
    if op == 'sext':
        if a[0].w == 1: return z3.If(a[0]._z3, z3.BitVecVal(-1, w), z3.BitVecVal(0, w))
        return z3.SignExt(w - a[0].w, a[0]._z3)
    if op == 'extract':
        e = z3.Extract(a[1], a[2], _bvz(a[0]))
        return e == z3.BitVecVal(1, 1) if w == 1 else e
    if op == 'concat': return z3.Concat(_bvz(a[0]), _bvz(a[1]))
    if op == 'select': return z3.Select(a[0]._z3, a[1]._z3)
    if op == 'store': return z3.Store(a[0]._z3, a[1]._z3, a[2]._z3)
    if op == 'uf':
        f = z3.Function(a[0], *([z3.BitVecSort(x.w) for x in a[1:]] + [z3.BitVecSort(w)]))
        return f(*[x._z3 for x in a[1:]])
    x = a[0]._z3; y = a[1]._z3
    if op == 'and': return x & y
    if op == 'or': return x | y
    if op == 'xor': return x ^ y
    if op == 'mul': return x * y
    if op == 'udiv': return z3.UDiv(x, y)
    if op == 'urem': return z3.URem(x, y)
    if op == 'sdiv': return x / y
    if op == 'srem': return z3.SRem(x, y)
    if op == 'shl': return x << y
    if op == 'lshr': return z3.LShR(x, y)
    if op == 'ashr': return x >> y
    raise Exception('z3: ' + op)

_varcache = {}
def tvars(t):
    """frozenset of variable names of t (memo)"""
    r = _varcache.get(t.id)
    if r is not None: return r
    stack = [t]
    while stack:
        u = stack[-1]
        if u.id in _varcache: stack.pop(); continue
        ch = tm.children(u)
        pend = [x for x in ch if x.id not in _varcache]
        if pend: stack.extend(pend); continue
        stack.pop()
        if u.op == 'var': s = frozenset((u.args,))
        elif u.op == 'avar': s = frozenset((('arr', u.args),))
        else:
            s = frozenset()
            for x in ch:
                y = _varcache[x.id]
                if y: s = y if not s else (s if y <= s else s | y)
            if u.op == 'uf': s = s | {('uf', u.args[0])}
        _varcache[u.id] = s
    return _varcache[t.id]

def slice_(conds, goal):
    """conjuncts (transitively) sharing variables with goal"""
    vs = set(tvars(goal))
    rest = list(conds); out = []
    ch = True
    while ch:
        ch = False
        nr = []
        for c in rest:
            cv = tvars(c)
            if cv & vs:
                vs |= cv; out.append(c); ch = True
            else: nr.append(c)
        rest = nr
    return out

class Stats:
    feas = 0; feas_time = 0.0; unknown = 0; reused = 0; renamed = 0
_fcache = {}
def narrow(conds, goal):
    """conjuncts that speak of nothing but what goal speaks of"""
    vs = tvars(goal)
    return [c for c in conds if tvars(c) <= vs]

_ccache = {}
RENAME = False   # remember queries up to names
def canon(ts):
    """a key that is the same for queries that differ only in the names of their variables"""
    num = {}; out = []; names = {}
    for t in ts:
        stack = [t]
        while stack:
            u = stack[-1]
            if u.id in num: stack.pop(); continue
            ch = tm.children(u)
            pend = [x for x in ch if x.id not in num]
            if pend: stack.extend(reversed(pend)); continue
            stack.pop()
            op = u.op
            if op == 'var':
                k = names.setdefault(u.args, len(names)); r = ('v', u.w, k)
            elif op in ('avar', 'uf'): return None
            elif op == 'const': r = ('c', u.w, u.args)
            elif op == 'lin': r = ('l', u.w, u.args[0], tuple((k, num[x.id]) for k, x in u.args[1]))
            elif op == 'extract': r = ('x', u.args[1], u.args[2], num[ch[0].id])
            else: r = (op, u.w) + tuple(num[x.id] for x in ch)
            num[u.id] = len(out); out.append(r)
        out.append(('.', num[t.id]))
    return hashlib.blake2b(repr(out).encode(), digest_size=16).digest()

def feasible(conds, goal, timeout=1000):
    """may (conds and goal) hold?  True when sat or unknown."""
    if goal is tm.T: return True
    if goal is tm.F: return False
    rel = slice_(conds, goal)
    if RENAME and len(rel) > 12:
        few = narrow(rel, goal)
        if len(few) < len(rel) // 2 and not feasible(few, goal, timeout): return False
    key = (goal.id, tuple(sorted(c.id for c in rel)))
    r = _fcache.get(key)
    if r is not None: return r
    plain = RENAME and all(x.__class__ is str for x in tvars(goal)) and all(x.__class__ is str for c in rel for x in tvars(c))
    if plain:
        # an assignment found before may do
        for i, (env, memo) in enumerate(_models):
            if tm.evaluate(goal, env, memo) and all(tm.evaluate(c, env, memo) for c in rel):
                if i: _models.insert(0, _models.pop(i))
                Stats.reused += 1
                _fcache[key] = True
                return True
    ck = canon([goal] + rel) if plain and RENAME else None
    if ck is not None:
        r = _ccache.get(ck)
        if r is not None:
            Stats.renamed += 1
            _fcache[key] = r
            return r
    t0 = time.time()
    s = z3.SolverFor('QF_AUFBV') if False else z3.Solver()
    s.set('timeout', timeout)
    for c in rel: s.add(to_z3(c))
    s.add(to_z3(goal))
    res = s.check()
    Stats.feas += 1; Stats.feas_time += time.time() - t0
    if res == z3.unknown: Stats.unknown += 1
    r = res != z3.unsat
    _fcache[key] = r
    if ck is not None and res != z3.unknown: _ccache[ck] = r
    if plain and res == z3.sat:
        env = model_env(s.model())
        if _models:
            for k, v in _models[0][0].items(): env.setdefault(k, v)
        _models.insert(0, (env, {})); del _models[24:]
    return r
_models = []

def quick(conds, timeout):
    """in-process z3: 'sat' / 'unsat' / 'unknown'"""
    if any(c is tm.F for c in conds): return 'unsat'
    ck = canon(conds) if RENAME else None
    if ck is not None and ck in _ccache: return 'sat' if _ccache[ck] else 'unsat'
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in conds: s.add(to_z3(c))
    r = str(s.check())
    if ck is not None and r != 'unknown': _ccache[ck] = r == 'sat'
    return r

def quick_model(conds, timeout):
    """in-process z3: an assignment to the variables (no arrays or functions), or None"""
    if any(x.__class__ is not str for c in conds for x in tvars(c)): return None
    s = z3.Solver()
    s.set('timeout', timeout)
    for c in conds: s.add(to_z3(c))
    if s.check() != z3.sat: return None
    return model_env(s.model())
def model_env(m):
    env = {}
    for d in m.decls():
        v = m[d]
        env[d.name()] = v.as_long() if hasattr(v, 'as_long') else int(z3.is_true(v))
    return env

# ------------------------------------------------------------------ SMT-LIB
def smtlib(conds, want_model=True):
    lines = ['(set-option :produce-models true)', '(set-logic ALL)' ]
    decl = []; defs = []; names = {}
    ufs = {}
    order = []
    seen = set()
    for c in conds:
        stack = [c]
        while stack:
            u = stack[-1]
            if u.id in seen: stack.pop(); continue
            pend = [x for x in tm.children(u) if x.id not in seen]
            if pend: stack.extend(pend); continue
            stack.pop(); seen.add(u.id); order.append(u)
    sort = lambda w: 'Bool' if w == 1 else ('(Array (_ BitVec 64) (_ BitVec 8))' if w == 0 else '(_ BitVec %d)' % w)
    bvc = lambda v, w: '(_ bv%d %d)' % (v, w)
    selects = []; vars_ = []
    for u in order:
        op = u.op; a = u.args; w = u.w
        if op == 'const':
            names[u.id] = ('true' if a else 'false') if w == 1 else bvc(a, w); continue
        if op in ('var', 'avar'):
            n = '|%s|' % a
            decl.append('(declare-fun %s () %s)' % (n, sort(w))); names[u.id] = n
            vars_.append(u); continue
        if op == 'azero':
            names[u.id] = '((as const %s) (_ bv0 8))' % sort(0); continue
        N = lambda x: names[x.id]
        B = lambda x: '(ite %s #b1 #b0)' % N(x) if x.w == 1 else N(x)
        if op == 'lin':
            parts = []
            for k, x in a[1]:
                sk = k - (1 << w) if k >> (w - 1) else k
                if sk == 1: parts.append(B(x))
                elif sk == -1: parts.append('(bvneg %s)' % B(x))
                elif sk > 0 and sk & (sk - 1) == 0: parts.append('(bvshl %s %s)' % (B(x), bvc(sk.bit_length() - 1, w)))
                else: parts.append('(bvmul %s %s)' % (B(x), bvc(k, w)))
            if a[0]: parts.append(bvc(a[0], w))
            e = parts[0]
            for p in parts[1:]: e = '(bvadd %s %s)' % (e, p)
        elif op == 'not': e = '(not %s)' % N(a[0])
        elif op in ('and', 'or', 'xor'):
            e = '(%s%s %s %s)' % ('' if w == 1 else 'bv', op, N(a[0]), N(a[1]))
        elif op in ('ite', 'aite'): e = '(ite %s %s %s)' % (N(a[0]), N(a[1]), N(a[2]))
        elif op == 'eq': e = '(= %s %s)' % (N(a[0]), N(a[1]))
        elif op in ('ult', 'slt'): e = '(bv%s %s %s)' % (op, N(a[0]), N(a[1]))
        elif op == 'zext':
            e = '(ite %s %s %s)' % (N(a[0]), bvc(1, w), bvc(0, w)) if a[0].w == 1 else '((_ zero_extend %d) %s)' % (w - a[0].w, N(a[0]))
        elif op == 'sext':
            e = '(ite %s %s %s)' % (N(a[0]), bvc((1 << w) - 1, w), bvc(0, w)) if a[0].w == 1 else '((_ sign_extend %d) %s)' % (w - a[0].w, N(a[0]))
        elif op == 'extract':
            e = '((_ extract %d %d) %s)' % (a[1], a[2], B(a[0]))
            if w == 1: e = '(= %s #b1)' % e
        elif op == 'concat': e = '(concat %s %s)' % (B(a[0]), B(a[1]))
        elif op == 'select':
            e = '(select %s %s)' % (N(a[0]), N(a[1])); selects.append(u)
        elif op == 'store': e = '(store %s %s %s)' % (N(a[0]), N(a[1]), N(a[2]))
        elif op == 'uf':
            n = '|uf_%s|' % a[0]
            if n not in ufs:
                ufs[n] = 1
                decl.append('(declare-fun %s (%s) %s)' % (n, ' '.join(sort(x.w) for x in a[1:]), sort(w)))
            e = '(%s %s)' % (n, ' '.join(N(x) for x in a[1:]))
        else:
            o = {'mul':'bvmul','udiv':'bvudiv','urem':'bvurem','sdiv':'bvsdiv','srem':'bvsrem','shl':'bvshl','lshr':'bvlshr','ashr':'bvashr'}[op]
            e = '(%s %s %s)' % (o, N(a[0]), N(a[1]))
        n = 't%d' % u.id
        decl.append('(define-fun %s () %s %s)' % (n, sort(w), e))
        names[u.id] = n
    lines += decl
    for c in conds: lines.append('(assert %s)' % names[c.id])
    lines.append('(check-sat)')
    if want_model:
        gv = [names[v.id] for v in vars_ if v.op == 'var']
        for s in selects:
            gv.append(names[s.args[1].id]); gv.append(names[s.id])
        for i in range(0, len(gv), 200):
            lines.append('(get-value (%s))' % ' '.join(gv[i:i+200]))
    return '\n'.join(lines) + '\n', vars_, selects, names

def parse_values(txt):
    """parse the concatenated (get-value) answers: name -> int"""
    import re
    out = {}
    tok = re.findall(r'\|[^|]*\||[()]|[^\s()]+', txt)
    # parse s-exprs
    def parse(i):
        if tok[i] == '(':
            r = []; i += 1
            while tok[i] != ')':
                x, i = parse(i); r.append(x)
            return r, i + 1
        return tok[i], i + 1
    i = 0; exprs = []
    while i < len(tok):
        try:
            x, i = parse(i)
        except IndexError: break
        exprs.append(x)
    def val(v):
        if v == 'true': return 1
        if v == 'false': return 0
        if isinstance(v, str) and v.startswith('#x'): return int(v[2:], 16)
        if isinstance(v, str) and v.startswith('#b'): return int(v[2:], 2)
        if isinstance(v, list) and len(v) == 3 and v[0] == '_' and v[1].startswith('bv'): return int(v[1][2:])
        return None
    def key(k):
        if isinstance(k, str): return k
        if isinstance(k, list) and len(k) == 3 and k[0] == '_' : return '(_ %s %s)' % (k[1], k[2])
        return str(k)
    for e in exprs:
        if not isinstance(e, list): continue
        for p in e:
            if isinstance(p, list) and len(p) == 2:
                v = val(p[1])
                if v is not None:
                    out[key(p[0])] = v
    return out

SOLVERS = [
    ('z3', ['z3-new', '-smt2', '{f}']),
    ('cvc5', ['cvc5', '--lang=smt2', '--incremental', '{f}']),
    ('cvc5-int', ['cvc5', '--lang=smt2', '--incremental', '--solve-bv-as-int=sum', '{f}']),
    ('z3-alt', ['z3-new', '-smt2', 'sat.euf=true', 'tactic.default_tactic=smt', '{f}']),
]

def solve(conds, timeout=60, tmpdir=None, solvers=('z3', 'cvc5')):
    """-> (result, solver, seconds, model env or None)"""
    conds = [c for c in conds if c is not tm.T]
    t0 = time.time()
    if any(c is tm.F for c in conds): return ('unsat', 'simplifier', 0.0, None)
    if not conds: return ('sat', 'simplifier', 0.0, {})
    txt, vars_, selects, names = smtlib(conds)
    fd, path = tempfile.mkstemp(suffix='.smt2', dir=tmpdir)
    os.write(fd, txt.encode()); os.close(fd)
    procs = []
    try:
        started = 0
        pend = list(solvers)
        res = None
        last_err = ''
        def start(n):
            cmd = [x.replace('{f}', path) for x in dict(SOLVERS)[n]]
            out = tempfile.TemporaryFile(dir=tmpdir)
            procs.append((n, subprocess.Popen(cmd, stdout=out, stderr=subprocess.DEVNULL, preexec_fn=os.setsid), out))
        start(pend.pop(0))
        while True:
            for i, (n, p, out) in enumerate(procs):
                if p.poll() is not None:
                    out.seek(0); s = out.read().decode(errors='replace')
                    first = s.strip().split('\n')[0] if s.strip() else ''
                    if first in ('sat', 'unsat'):
                        res = (first, n, s); break
                    last_err = '%s: %s' % (n, s[:300])
                    procs[i] = None
            procs = [p for p in procs if p]
            if res: break
            el = time.time() - t0
            if pend and (el > 3 or not procs): start(pend.pop(0)); continue
            if not procs and not pend: break
            if el > timeout: break
            time.sleep(0.01 if el < 2 else 0.05)
        if not res: return ('unknown', last_err or 'timeout', time.time() - t0, None)
        if res[0] == 'unsat': return ('unsat', res[1], time.time() - t0, None)
        vals = parse_values(res[2].split('\n', 1)[1] if '\n' in res[2] else '')
        env = {}
        for v in vars_:
            if v.op == 'var': env[v.args] = vals.get('|%s|' % v.args, vals.get(v.args, 0))
        arrs = {}
        for s in selects:
            b = s.args[0]
            iv = vals.get(names[s.args[1].id]); vv = vals.get(names[s.id])
            if s.args[1].op == 'const': iv = s.args[1].args
            while b.op in ('store',): b = b.args[0]
            if b.op == 'avar' and iv is not None and vv is not None and s.args[0].op == 'avar':
                arrs.setdefault(b.args, {})[iv] = vv
            elif b.op == 'avar' and iv is not None and vv is not None:
                arrs.setdefault(b.args, {}).setdefault(iv, vv)
        env['__arrays__'] = arrs
        for n, d in arrs.items():
            env[('arr', n)] = (lambda d: (lambda i: d.get(i, 0)))(d)
        return ('sat', res[1], time.time() - t0, env)
    finally:
        for x in procs:
            if x:
                try: os.killpg(x[1].pid, signal.SIGKILL)
                except Exception: pass
                x[1].wait()
        os.unlink(path)
