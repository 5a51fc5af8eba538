"""Symbolic executor / verification-condition generator over LLVM IR with state
merging.  Every obligation is recorded as (path condition, condition)."""
import heapq, time, ctypes as C, struct
from . import terms as tm
from .terms import const, T, F, ite, eq, add, sub, and_, or_, not_, ult, ule, lin, rng, zext, sext, extract, concat
from . import llir
from .llir import L, VK
from . import solve

class ToolError(Exception): pass

RB = tm.REGION_BITS; BASE = tm.REGION_BASE
def obj_addr(i): return (i << RB) + BASE

class Obj:
    __slots__ = ('id', 'size', 'cells', 'arr', 'default', 'maxw', 'alive', 'name', 'ro', 'owner', 'kind', 'init')
    def clone(self, owner):
        o = Obj()
        o.id = self.id; o.size = self.size; o.cells = dict(self.cells); o.arr = self.arr; o.default = self.default
        o.maxw = self.maxw; o.alive = self.alive; o.name = self.name; o.ro = self.ro; o.owner = owner; o.kind = self.kind; o.init = self.init
        return o

class Frame:
    __slots__ = ('fn', 'bi', 'ip', 'regs', 'allocas', 'iters', 'key', 'depth')
    def clone(self):
        f = Frame()
        f.fn = self.fn; f.bi = self.bi; f.ip = self.ip; f.regs = dict(self.regs); f.allocas = list(self.allocas)
        f.iters = dict(self.iters); f.key = self.key
        return f

class State:
    __slots__ = ('frames', 'mem', 'pc', 'token', 'caught', 'tag')

class Dead(Exception): pass
class Fork(Exception):
    def __init__(self, states): self.states = states

_tok = [0]
def newtok():
    _tok[0] += 1
    return _tok[0]

STD_BASES = {
 '_ZTISt12out_of_range': ['_ZTISt11logic_error'], '_ZTISt12length_error': ['_ZTISt11logic_error'],
 '_ZTISt16invalid_argument': ['_ZTISt11logic_error'], '_ZTISt12domain_error': ['_ZTISt11logic_error'],
 '_ZTISt11logic_error': ['_ZTISt9exception'], '_ZTISt13runtime_error': ['_ZTISt9exception'],
 '_ZTISt11range_error': ['_ZTISt13runtime_error'], '_ZTISt14overflow_error': ['_ZTISt13runtime_error'],
 '_ZTISt12system_error': ['_ZTISt13runtime_error'], '_ZTISt9bad_alloc': ['_ZTISt9exception'],
 '_ZTISt8bad_cast': ['_ZTISt9exception'], '_ZTISt17bad_function_call': ['_ZTISt9exception'],
 '_ZTISt20bad_array_new_length': ['_ZTISt9bad_alloc'],
 '_ZTISt9exception': [],
}
THROWERS = {
 '_ZSt20__throw_length_errorPKc': '_ZTISt12length_error', '_ZSt24__throw_out_of_range_fmtPKcz': '_ZTISt12out_of_range',
 '_ZSt20__throw_out_of_rangePKc': '_ZTISt12out_of_range', '_ZSt19__throw_logic_errorPKc': '_ZTISt11logic_error',
 '_ZSt17__throw_bad_allocv': '_ZTISt9bad_alloc', '_ZSt28__throw_bad_array_new_lengthv': '_ZTISt20bad_array_new_length',
 '_ZSt25__throw_bad_function_callv': '_ZTISt17bad_function_call', '_ZSt24__throw_invalid_argumentPKc': '_ZTISt16invalid_argument',
 '_ZSt20__throw_runtime_errorPKc': '_ZTISt13runtime_error', '_ZSt16__throw_bad_castv': '_ZTISt8bad_cast',
}
NOOP_PREFIX = (
 '_ZNSt12out_of_rangeC', '_ZNSt12out_of_rangeD', '_ZNSt11logic_errorC', '_ZNSt11logic_errorD', '_ZNSt13runtime_errorC', '_ZNSt13runtime_errorD',
 '_ZNSt16invalid_argumentC', '_ZNSt16invalid_argumentD', '_ZNSt9exceptionD', '_ZNSt8ios_base4InitC', '_ZNSt8ios_base4InitD',
 '_ZNSt12system_errorC', '_ZNSt12system_errorD', '_ZNSt11range_errorC', '_ZNSt11range_errorD', '__cxa_atexit', '__cxa_end_cleanup',
 '_ZNSt12length_errorC', '_ZNSt12length_errorD', '_ZNSt12domain_errorC', '_ZNSt12domain_errorD',
 '_ZNSt9bad_allocD', '__cxa_thread_atexit', '_ZNSt15__exception_ptr',
)

class Engine:
    def __init__(self, mod, cfg=None):
        self.m = mod
        self.cfg = cfg or {}
        self.nextobj = 16
        self.gaddr = {}      # global name -> obj id
        self.faddr = {}      # func name -> address
        self.fby = {}
        self.cmemo = {}
        self.obligations = []     # dicts
        self.trivial = {}         # name -> count of trivially discharged
        self.covers = {}          # name -> list of pcs
        self.assumes = {}
        self.replace = self.cfg.get('replace', {})
        self.noop = set(self.cfg.get('noop', ()))
        self.max_iter = self.cfg.get('max_iter', 5000)
        self.max_states = self.cfg.get('max_states', 3000)
        self.deadline = self.cfg.get('deadline')
        self.feas_timeout = self.cfg.get('feas_ms', 1000)
        self.excinfo = {}     # exception object id -> typeinfo name
        self.tids = {}
        self.work = []
        self.steps = 0; self.forks = 0; self.merges = 0; self.mergefail = 0
        self.seen_funcs = {}
        self.nondets = {}
        self.freshn = 0
        self.finished = []
        self.sizes = []
        self.uncaught_ok = False
        self.externals_used = set()
        self.oblkeys = {}
        self.typebases = {}
        self.trace = self.cfg.get('trace', False)
        self._kpc = (0, set(), {})
        self.handlers = dict(EXT)
        self.base_mem = {}
        self.nomerge = set(self.cfg.get('nomerge', ()))
        self.hints = []
        self.mergeloops = self.cfg.get('mergeloops', ())

    # ------------------------------------------------------------ objects
    def new_obj(self, st, size, name, default='undef', kind='cell'):
        o = Obj()
        o.id = self.nextobj; self.nextobj += 1
        o.size = size; o.cells = {}; o.arr = None; o.default = default; o.maxw = 1; o.alive = T; o.name = name; o.ro = False
        o.owner = st.token if st else 0; o.kind = kind; o.init = None
        if kind == 'arr':
            o.arr = tm.avar('undefarr%d' % o.id) if default == 'undef' else tm.mk('azero', (), 0)
        (st.mem if st else self.base_mem)[o.id] = o
        return o

    def fresh(self, w, hint='undef'):
        self.freshn += 1
        return tm.var('%s!%d' % (hint, self.freshn), w)

    def wobj(self, st, oid):
        o = st.mem[oid]
        if o.owner != st.token:
            o = o.clone(st.token)
            st.mem[oid] = o
        return o

    # cell access on concrete offsets (no checks)
    def cread(self, o, off, n):
        c = o.cells.get(off)
        if c is not None and c.w == 8 * n: return c
        if o.init is not None and not o.cells and False: pass
        # gather bytes
        r = None
        i = n - 1
        parts = []
        k = 0
        while k < n:
            b = off + k
            c = o.cells.get(b)
            if c is not None:
                nb = c.w // 8
                take = min(nb, n - k)
                parts.append(c if take == nb else extract(c, 8 * take - 1, 0))
                k += take; continue
            found = False
            for back in range(1, o.maxw):
                c = o.cells.get(b - back)
                if c is not None:
                    nb = c.w // 8
                    if nb > back:
                        take = min(nb - back, n - k)
                        parts.append(extract(c, 8 * (back + take) - 1, 8 * back))
                        k += take; found = True
                    break
            if not found:
                if o.default == 'zero': parts.append(const(0, 8))
                elif o.default == 'undef': parts.append(tm.var('undef_%s%d_%d' % (o.name, o.id, b), 8))
                else: raise ToolError('default ' + str(o.default))
                k += 1
        r = parts[-1]
        for p in reversed(parts[:-1]): r = concat(r, p)
        return r

    def cwrite(self, o, off, v):
        n = v.w // 8
        cells = o.cells
        # split overlapping cells
        if o.maxw > 1:
            for back in range(1, o.maxw):
                c = cells.get(off - back)
                if c is not None:
                    nb = c.w // 8
                    if nb > back:
                        del cells[off - back]
                        cells[off - back] = extract(c, 8 * back - 1, 0)
                        if nb > back + n:
                            cells[off + n] = extract(c, c.w - 1, 8 * (back + n))
                    break
        for k in range(n):
            c = cells.get(off + k)
            if c is not None:
                nb = c.w // 8
                if k + nb > n:
                    cells[off + n] = extract(c, c.w - 1, 8 * (n - k))
                del cells[off + k]
        cells[off] = v
        if n > o.maxw: o.maxw = n

    # ------------------------------------------------------------ pointers
    def ptr_cases(self, p, guard=T, depth=0):
        """-> [(guard, objid, off term)]  objid None for invalid"""
        if p.op == 'const':
            r = p.args >> RB
            return [(guard, r, const(p.args - obj_addr(r), 64))]
        if p.op == 'ite':
            if depth > 40: raise ToolError('pointer case depth')
            c = p.args[0]
            return self.ptr_cases(p.args[1], and_(guard, c), depth + 1) + self.ptr_cases(p.args[2], and_(guard, not_(c)), depth + 1)
        if p.op == 'lin':
            c0 = p.args[0]
            r = c0 >> RB
            if 0 < r < self.nextobj:
                return [(guard, r, lin(64, -obj_addr(r), ((1, p),)))]
            for k, a in p.args[1]:
                if k == 1 and a.op == 'ite':
                    rest = lin(64, 0, ((1, p), (-1, a)))
                    c = a.args[0]
                    return self.ptr_cases(add(rest, a.args[1]), and_(guard, c), depth + 1) + \
                           self.ptr_cases(add(rest, a.args[2]), and_(guard, not_(c)), depth + 1)
        return [(guard, None, p)]

    def valid_cases(self, st, p, what, ins):
        cs = self.ptr_cases(p)
        out = {}
        for g, oid, off in cs:
            if g is F: continue
            if len(cs) > 1 and self.known(st, g) is False: continue
            if oid is not None and oid not in st.mem and oid in self.base_mem:
                st.mem[oid] = self.base_mem[oid]
            if oid is None or oid not in st.mem:
                self.oblige(st, 'memory-safety: invalid pointer (%s)' % what, not_(g), ins, 'mem')
                continue
            if oid in out:
                g0, off0 = out[oid]
                out[oid] = (or_(g0, g), ite(g, off, off0))
            else: out[oid] = (g, off)
        return [(g, oid, off) for oid, (g, off) in out.items()]

    def bounds(self, st, o, off, n, g, ins, what):
        """emit bounds/liveness obligations for n (int or term) bytes at off"""
        size = o.size
        if o.alive is not T:
            self.oblige(st, 'memory-safety: use after lifetime (%s)' % what, or_(not_(g), o.alive), ins, 'mem')
        if isinstance(size, int) and isinstance(n, int):
            if off.op == 'const':
                if off.args + n <= size: return
                ok = F
            elif size < n: ok = F
            else: ok = ule(off, const(size - n, 64))
        else:
            S = const(size, 64) if isinstance(size, int) else size
            N = const(n, 64) if isinstance(n, int) else n
            ok = and_(ule(N, S), ule(off, sub(S, N)))
        if ok is T: return
        self.oblige(st, 'memory-safety: %s within bounds of %s' % (what, o.name), or_(not_(g), ok), ins, 'mem')

    def cand(self, off, size, n, st=None):
        lo, hi = rng(off)
        hi = min(hi, size - n)
        m = tm.maybe1(off)
        step = 1
        if off.op == 'lin':
            import math
            gcd = 0
            for k, a in off.args[1]:
                ma = tm.maybe1(a)
                tz = (ma & -ma) if ma else 1
                gcd = math.gcd(gcd, min(k, (1 << 64) - k) * (tz or 1))
            if gcd > 1:
                step = gcd
                # align lo
                r = (off.args[0] - lo) % step
                lo += r
        else:
            step = (m & -m) if m else 1
            if lo % step: lo += step - lo % step
        return lo, hi, step

    def load_obj(self, st, o, off, n):
        if o.kind == 'arr':
            r = None
            for i in range(n):
                b = tm.select(o.arr, add(off, const(i, 64)))
                r = b if r is None else concat(b, r)
            return r
        if off.op == 'const': return self.cread(o, off.args, n)
        lv = tm.leaves(off)
        if lv:
            return tm._map1(lambda u: self.cread(o, u.args, n) if 0 <= u.args <= (1 << 62) else self.fresh(8 * n), off)
        size = o.size if isinstance(o.size, int) else min(rng(o.size)[1], 1 << 20)
        lo, hi, step = self.cand(off, size, n)
        cnt = (hi - lo) // step + 1
        if cnt <= 0: return self.fresh(8 * n, 'oob')
        if cnt > self.cfg.get('max_cand', 20000): raise ToolError('symbolic load over %d candidates in %s' % (cnt, o.name))
        vals = [self.cread(o, lo + i * step, n) for i in range(cnt)]
        def tree(a, b):
            if a == b: return vals[a]
            v0 = vals[a]
            m = (a + b + 1) // 2
            x = tree(a, m - 1); y = tree(m, b)
            if x is y: return x
            return ite(ult(off, const(lo + m * step, 64)), x, y)
        return tree(0, cnt - 1)

    def store_obj(self, st, oid, off, v, g):
        o = self.wobj(st, oid)
        n = v.w // 8
        if o.kind == 'arr':
            for i in range(n):
                b = extract(v, 8 * i + 7, 8 * i)
                ix = add(off, const(i, 64))
                if g is not T: b = ite(g, b, tm.select(o.arr, ix))
                o.arr = tm.store(o.arr, ix, b)
            return
        if off.op == 'const':
            if g is not T: v = ite(g, v, self.cread(o, off.args, n))
            self.cwrite(o, off.args, v)
            return
        lv = tm.leaves(off)
        if lv:
            cands = sorted(x for x in lv if x + n <= (o.size if isinstance(o.size, int) else 1 << 40))
        else:
            size = o.size if isinstance(o.size, int) else min(rng(o.size)[1], 1 << 20)
            lo, hi, step = self.cand(off, size, n)
            cnt = (hi - lo) // step + 1
            if cnt > self.cfg.get('max_cand', 20000): raise ToolError('symbolic store over %d candidates in %s' % (cnt, o.name))
            cands = [lo + i * step for i in range(cnt)]
            if 1 < cnt <= 4096 and rng(off)[1] > 4 * size:   # a length of its own: ask which positions are possible at all
                cands = self.possible(st, g, off, cands)
        step1 = len(cands) > 1 and min(b - a for a, b in zip(cands, cands[1:])) < n
        if step1:   # overlapping candidates: go byte-wise
            for i in range(n):
                b = extract(v, 8 * i + 7, 8 * i)
                for c in cands:
                    cc = and_(g, eq(off, const(c, 64)))
                    self.cwrite(o, c + i, ite(cc, b, self.cread(o, c + i, 1)))
            return
        for c in cands:
            cc = and_(g, eq(off, const(c, 64)))
            if cc is F: continue
            self.cwrite(o, c, ite(cc, v, self.cread(o, c, n)))

    def possible(self, st, g, off, cands):
        """the candidate values that off can take under the path condition and g (by bisection)"""
        pcs = self.pc_list(st)
        out = []
        def go(a, b):
            c = and_(g, and_(ule(const(cands[a], 64), off), ule(off, const(cands[b], 64))) if a != b else eq(off, const(cands[a], 64)))
            if not solve.feasible(pcs, c, self.feas_timeout): return
            if a == b: out.append(cands[a]); return
            m = (a + b) // 2
            go(a, m); go(m + 1, b)
        if cands: go(0, len(cands) - 1)
        return out

    def most(self, st, g, n, hi):
        """an upper bound, at most hi, of n under the path condition and g"""
        pcs = self.pc_list(st)
        lo = 0
        while lo < hi:
            m = (lo + hi) // 2
            if solve.feasible(pcs, and_(g, ult(const(m, 64), n)), self.feas_timeout): lo = m + 1
            else: hi = m
        return hi

    def load(self, st, p, n, ins):
        if p.op == 'const':   # fast path
            r = p.args >> RB
            o = st.mem.get(r)
            if o is not None and o.kind == 'cell' and o.alive is T:
                off = p.args - obj_addr(r)
                if isinstance(o.size, int) and 0 <= off and off + n <= o.size:
                    c = o.cells.get(off)
                    if c is not None and c.w == 8 * n: return c
                    return self.cread(o, off, n)
        cs = self.valid_cases(st, p, 'load of %d bytes' % n, ins)
        if not cs: raise Dead()
        r = None
        for g, oid, off in cs:
            o = st.mem[oid]
            self.bounds(st, o, off, n, g, ins, 'load of %d bytes' % n)
            v = self.load_obj(st, st.mem[oid], off, n)
            r = v if r is None else ite(g, v, r)
        return r

    def store(self, st, p, v, ins):
        if v.w % 8: v = zext(v, (v.w + 7) // 8 * 8)
        n = v.w // 8
        if p.op == 'const':
            r = p.args >> RB
            o = st.mem.get(r)
            if o is not None and o.kind == 'cell' and o.alive is T and not o.ro:
                off = p.args - obj_addr(r)
                if isinstance(o.size, int) and 0 <= off and off + n <= o.size:
                    self.cwrite(self.wobj(st, r), off, v)
                    return
        cs = self.valid_cases(st, p, 'store of %d bytes' % n, ins)
        if not cs: raise Dead()
        single = len(cs) == 1
        for g, oid, off in cs:
            o = st.mem[oid]
            self.bounds(st, o, off, n, g, ins, 'store of %d bytes' % n)
            if o.ro: self.oblige(st, 'memory-safety: store to constant %s' % o.name, not_(g), ins, 'mem')
            self.store_obj(st, oid, off, v, T if single else g)

    # ------------------------------------------------------------ path condition
    def pc_list(self, st):
        out = []
        n = st.pc
        while n is not None:
            out.append(n[1]); n = n[0]
        return out

    def assume(self, st, c):
        if c is T: return
        if c is F: raise Dead()
        if c.op == 'and':
            self.assume(st, c.args[0]); self.assume(st, c.args[1]); return
        n = st.pc
        while n is not None:
            if n[1] is c: return
            n = n[0]
        nc = not_(c)
        n = st.pc
        while n is not None:
            if n[1] is nc: raise Dead()
            n = n[0]
        st.pc = (st.pc, c, (st.pc[2] + 1 if st.pc else 1))

    def known(self, st, c):
        """syntactic: True/False/None"""
        if c.op == 'const': return bool(c.args)
        if self._kpc[0] is not st.pc:
            facts = set()
            n = st.pc
            while n is not None:
                facts.add(n[1]); n = n[0]
            self._kpc = (st.pc, facts, {})
        return self.known_(c, self._kpc[1], self._kpc[2])

    def known_(self, c, facts, memo):
        if c.op == 'const': return bool(c.args)
        if c in facts: return True
        if c in memo: return memo[c]
        r = None
        if not_(c) in facts: r = False
        elif c.op == 'and':
            a = self.known_(c.args[0], facts, memo)
            b = self.known_(c.args[1], facts, memo) if a is not False else None
            if a is False or b is False: r = False
            elif a and b: r = True
        elif c.op == 'or':
            a = self.known_(c.args[0], facts, memo)
            b = self.known_(c.args[1], facts, memo) if not a else None
            if a or b: r = True
            elif a is False and b is False: r = False
        elif c.op == 'not':
            a = self.known_(c.args[0], facts, memo)
            if a is not None: r = not a
        memo[c] = r
        return r

    def decide(self, st, c):
        """True / False / None (both possible), using the solver"""
        k = self.known(st, c)
        if k is not None: return k
        pcs = self.pc_list(st)
        if not solve.feasible(pcs, c, self.feas_timeout): return False
        if not solve.feasible(pcs, not_(c), self.feas_timeout): return True
        return None

    def oblige(self, st, name, cond, ins, kind, keep=True):
        loc = self.where(st, ins)
        if cond is T:
            self.trivial[name] = self.trivial.get(name, 0) + 1
            return
        if self.known(st, cond) is True:
            self.trivial[name] = self.trivial.get(name, 0) + 1
            return
        self.obligations.append({'name': name, 'kind': kind, 'pc': self.pc_list(st), 'cond': cond, 'loc': loc})
        if keep: self.assume(st, cond)

    def where(self, st, ins):
        l = self.m.loc(ins) if ins else None
        fn = st.frames[-1].fn.name if st.frames else '?'
        return {'function': fn, 'file': l[0] if l else None, 'line': l[1] if l else None,
                'callers': [f.fn.name for f in reversed(st.frames[:-1])][:6]}

    # ------------------------------------------------------------ constants
    def func_addr(self, fn):
        a = self.faddr.get(fn.name)
        if a is None:
            a = (1 << 61) + (len(self.faddr) + 1) * 16
            self.faddr[fn.name] = a; self.fby[a] = fn
        return a

    def global_obj(self, ref):
        l = L()
        name = self.m.gbyref[ref]
        oid = self.gaddr.get(name)
        if oid is None:
            t = self.m.ty(l.LLVMGlobalGetValueType(ref))
            init = None if l.LLVMIsDeclaration(ref) else l.LLVMGetInitializer(ref)
            o = Obj()
            o.id = self.nextobj; self.nextobj += 1
            o.size = t.size if init else max(t.size, 16); o.cells = {}; o.arr = None; o.default = 'zero' if init else 'undef'; o.maxw = 1
            o.alive = T; o.name = name; o.ro = bool(l.LLVMIsGlobalConstant(ref)) and init is not None; o.owner = 0; o.kind = 'cell'; o.init = None
            self.gaddr[name] = o.id
            self.base_mem[o.id] = o
            if init: self.flatten(o, 0, init, t)
            elif name == '__libc_single_threaded':
                self.cwrite(o, 0, const(1, 8))
            elif name.startswith('_ZTVN10__cxxabiv') or name.startswith('_ZTI') or name.startswith('_ZTV'):
                o.size = 256; o.default = 'zero'
            oid = o.id
        return oid

    def flatten(self, o, off, v, t):
        l = L()
        k = VK[l.LLVMGetValueKind(v)]
        if k in ('aggzero', 'undef', 'poison') or (k == 'null'): return
        if k == 'cdataarray' and l.LLVMIsConstantString(v):
            n = llir.c_size_t()
            p = l.LLVMGetAsString(v, llir.byref(n))
            for i, b in enumerate(C.string_at(p, n.value)): o.cells[off + i] = const(b, 8)
            return
        if t.kind == llir.STRUCT:
            for i, f in enumerate(t.fields): self.flatten(o, off + t.offs[i], l.LLVMGetAggregateElement(v, i), f)
            return
        if t.kind in (llir.ARRAY, llir.VECTOR):
            for i in range(t.n): self.flatten(o, off + i * t.elem.size, l.LLVMGetAggregateElement(v, i), t.elem)
            return
        x = self.cval(v)
        if x.w % 8: x = zext(x, (x.w + 7) // 8 * 8)
        o.cells[off] = x
        if x.w // 8 > o.maxw: o.maxw = x.w // 8

    def cval(self, v):
        r = self.cmemo.get(v)
        if r is None:
            r = self._cval(v)
            self.cmemo[v] = r
        elif r is False:
            raise ToolError('recursive constant')
        return r

    def _cval(self, v):
        l = L()
        k = VK[l.LLVMGetValueKind(v)]
        t = self.m.ty(l.LLVMTypeOf(v))
        if k == 'cint':
            if t.w > 64:
                s = self.m.vstr(v); return const(int(s.split()[-1]), t.w)
            return const(l.LLVMConstIntGetZExtValue(v), t.w)
        if k == 'null': return const(0, 64)
        if k in ('undef', 'poison'): return self.undef(t)
        if k == 'aggzero': return self.zero(t)
        if k == 'func': return const(self.func_addr(self.m.fbyref[v]), 64)
        if k == 'global': return const(obj_addr(self.global_obj(v)), 64)
        if k == 'alias': return self.cval(self.m.aliases[v])
        if k in ('cstruct', 'carray', 'cdataarray', 'cvector', 'cdatavector'):
            n = len(t.fields) if t.kind == llir.STRUCT else t.n
            return tuple(self.cval(l.LLVMGetAggregateElement(v, i)) for i in range(n))
        if k == 'cfp':
            lo = llir.c_int()
            d = l.LLVMConstRealGetDouble(v, llir.byref(lo))
            if t.kind == llir.FLOAT: return const(struct.unpack('<I', struct.pack('<f', d))[0], 32)
            if t.kind == llir.DOUBLE: return const(struct.unpack('<Q', struct.pack('<d', d))[0], 64)
            return self.fresh(t.w, 'fp80')
        if k == 'cexpr':
            opc = llir.OPC.get(l.LLVMGetConstOpcode(v))
            if opc == 'gep':
                coff, terms = self.m._gep(v, {}, 1)
                base = self.cval(l.LLVMGetOperand(v, 0))
                r = lin(64, coff, ((1, base),))
                for s, o in terms: r = lin(64, 0, ((1, r), (s, sext(self.cval(o[1]), 64))))
                return r
            ops = [self.cval(l.LLVMGetOperand(v, i)) for i in range(l.LLVMGetNumOperands(v))]
            if opc in ('bitcast', 'inttoptr', 'ptrtoint', 'addrspacecast'): return zext(ops[0], t.w) if ops[0].w <= t.w else extract(ops[0], t.w - 1, 0)
            if opc == 'trunc': return extract(ops[0], t.w - 1, 0)
            if opc in BIN: return BIN[opc](*ops)
            if opc == 'icmp': return self.icmp(llir.PRED[l.LLVMGetICmpPredicate(v)], *ops)
        if k == 'metadata': return const(0, 64)
        raise ToolError('constant kind %s: %s' % (k, self.m.vstr(v)[:200]))

    def undef(self, t):
        if t.kind == llir.STRUCT: return tuple(self.undef(f) for f in t.fields)
        if t.kind in (llir.ARRAY, llir.VECTOR): return tuple(self.undef(t.elem) for _ in range(t.n))
        return self.fresh(t.w, 'undef')

    def zero(self, t):
        if t.kind == llir.STRUCT: return tuple(self.zero(f) for f in t.fields)
        if t.kind in (llir.ARRAY, llir.VECTOR): return tuple(self.zero(t.elem) for _ in range(t.n))
        return const(0, t.w)

    # ------------------------------------------------------------ typed memory
    def loadt(self, st, p, t, ins):
        k = t.kind
        if k == llir.STRUCT:
            return tuple(self.loadt(st, lin(64, o, ((1, p),)), f, ins) for f, o in zip(t.fields, t.offs))
        if k in (llir.ARRAY, llir.VECTOR):
            return tuple(self.loadt(st, lin(64, i * t.elem.size, ((1, p),)), t.elem, ins) for i in range(t.n))
        v = self.load(st, p, t.store, ins)
        if v.w != t.w: v = extract(v, t.w - 1, 0)
        return v

    def storet(self, st, p, v, t, ins):
        k = t.kind
        if k == llir.STRUCT:
            for x, f, o in zip(v, t.fields, t.offs): self.storet(st, lin(64, o, ((1, p),)), x, f, ins)
            return
        if k in (llir.ARRAY, llir.VECTOR):
            for i, x in enumerate(v): self.storet(st, lin(64, i * t.elem.size, ((1, p),)), x, t.elem, ins)
            return
        self.store(st, p, v, ins)

    def icmp(self, pred, a, b):
        if isinstance(a, tuple): return tuple(self.icmp(pred, x, y) for x, y in zip(a, b))
        if pred == 'eq': return eq(a, b)
        if pred == 'ne': return not_(eq(a, b))
        if pred == 'ult': return ult(a, b)
        if pred == 'ugt': return ult(b, a)
        if pred == 'ule': return not_(ult(b, a))
        if pred == 'uge': return not_(ult(a, b))
        if pred == 'slt': return tm.slt(a, b)
        if pred == 'sgt': return tm.slt(b, a)
        if pred == 'sle': return not_(tm.slt(b, a))
        return not_(tm.slt(a, b))

    # ------------------------------------------------------------ state handling
    def fork(self, st):
        s = State()
        s.frames = [f.clone() for f in st.frames]
        s.mem = dict(st.mem)
        s.pc = st.pc; s.caught = list(st.caught); s.tag = st.tag
        s.token = newtok(); st.token = newtok()
        self.forks += 1
        return s

    def fkey(self, f):
        prefix, heads, r = f.fn.blocks[f.bi].pos or ((), (), 0)
        out = []
        it = f.iters
        for p, h in zip(prefix, heads):
            out.append(p); out.append(it.get(h, 0))
        out.append(r); out.append(f.ip)
        return tuple(out)

    def key(self, st):
        return tuple(self.fkey(f) for f in st.frames)

    def loc(self, st):
        return st.tag + tuple((f.fn.name, f.bi, f.ip) for f in st.frames)

    def jump(self, st, fr, dst):
        fn = fr.fn
        B = fn.blocks[dst]
        src = fr.bi
        # loop counters
        pos = B.pos
        if pos is not None and pos[2] == -1:
            spos = fn.blocks[src].pos
            if spos is not None and dst in spos[1]:
                n = fr.iters.get(dst, 0) + 1
                fr.iters[dst] = n
                if n > self.max_iter:
                    raise ToolError('loop bound %d exceeded in %s' % (self.max_iter, fn.name))
            else: fr.iters[dst] = 0
        if B.phis:
            regs = fr.regs
            vals = [(ph[1], self.val(fr, ph[2][src])) for ph in B.phis]
            for r, v in vals: regs[r] = v
        fr.bi = dst; fr.ip = 0

    def val(self, fr, o):
        if o[0] == 'r':
            return fr.regs[o[1]]
        return self.cval(o[1])

    def mergev(self, c, a, b):
        if a is b: return a
        if isinstance(a, tuple):
            return tuple(self.mergev(c, x, y) for x, y in zip(a, b))
        return ite(c, a, b)

    def try_merge(self, A, B):
        """merge B into A (both at same location); returns merged or None"""
        if len(A.caught) != len(B.caught): return None
        pa, pb = A.pc, B.pc
        la = pa[2] if pa else 0; lb = pb[2] if pb else 0
        sa = []; sb = []
        while la > lb: sa.append(pa[1]); pa = pa[0]; la -= 1
        while lb > la: sb.append(pb[1]); pb = pb[0]; lb -= 1
        while pa is not pb:
            sa.append(pa[1]); pa = pa[0]
            sb.append(pb[1]); pb = pb[0]
        ca = tm.andl(reversed(sa)); cb = tm.andl(reversed(sb))
        if len(sa) <= len(sb): c = ca
        else: c = not_(cb)
        if ca is T and cb is T: c = T
        if self.cfg.get('slim') and sa and sb:
            # a single condition that tells the two apart, rather than all that they went through
            fa, fb = set(sa), set(sb)
            ks = [(len(solve.tvars(k)), k.id, k, not_(k) in fb, sb) for k in sa] + [(len(solve.tvars(k)), k.id, not_(k), not_(k) in fa, sa) for k in sb]
            ks.sort(key=lambda t: t[:2])
            n = 0
            for _, _, k, sure, other in ks:
                if not sure:
                    n += 1
                    if n > 6: continue
                    g = k if other is sb else not_(k)
                    sure = not solve.feasible(solve.narrow(other, g), g, self.feas_timeout)
                if sure: c = k; break
        for f in A.frames:
            if f.fn.name in self.nomerge and f is A.frames[-1]: return None
        # quick veto on pointer merges in memory is not attempted: merged pointers become ite
        M = State()
        M.frames = []
        for i, (f, g) in enumerate(zip(A.frames, B.frames)):
            h = f.clone()
            live = self.m.live_at(f.fn, f.bi, f.ip)
            nr = {}
            fr, gr = f.regs, g.regs
            for r in live:
                if r in fr and r in gr:
                    x = fr[r]; y = gr[r]
                    nr[r] = x if x is y else self.mergev(c, x, y)
            h.regs = nr
            for k, v in g.iters.items():
                if h.iters.get(k, 0) < v: h.iters[k] = v
            if f.allocas != g.allocas:
                h.allocas = list(dict.fromkeys(f.allocas + g.allocas))
            M.frames.append(h)
        M.caught = [self.mergev(c, x, y) for x, y in zip(A.caught, B.caught)]
        M.token = newtok()
        mem = {}
        am, bm = A.mem, B.mem
        for oid, o in am.items():
            p = bm.get(oid)
            if p is None or p is o: mem[oid] = o
            else: mem[oid] = self.merge_obj(c, o, p, M.token)
        for oid, p in bm.items():
            if oid not in am: mem[oid] = p
        M.mem = mem
        M.pc = pa; M.tag = A.tag
        cc = or_(ca, cb)
        if cc is not T and self.cfg.get('slim') and cc is not F:
            # drop what the rest of the path condition already says
            nc = not_(cc)
            if not solve.feasible(solve.narrow(self.pc_list(M), nc), nc, self.feas_timeout): cc = T
        if cc is not T:
            try: self.assume(M, cc)
            except Dead: return None
        self.merges += 1
        if self.hints: self.use_hints(M, A)
        return M

    def use_hints(self, M, A):
        """values that provably equal a suggested term (vp_hint) on all paths that were merged are replaced by it"""
        pcs = self.pc_list(M)
        memo = {}
        def better(v):
            if v.__class__ is tuple or v.op == 'const' or v.w > 32: return v
            if v in memo: return memo[v]
            vs = solve.tvars(v)
            r = v
            if len(vs) > 1:
                for h in self.hints:
                    if v is h or (v.op == 'zext' and v.args[0] is h): break
                    if not solve.tvars(h) < vs: continue
                    t = h if h.w == v.w else zext(h, v.w) if h.w < v.w else extract(h, v.w - 1, 0)
                    ne = not_(eq(v, t))
                    if ne is not F and solve.feasible(solve.narrow(pcs, ne), ne, self.feas_timeout) and solve.feasible(pcs, ne, self.feas_timeout): continue
                    r = t; break
            memo[v] = r
            return r
        for f, g in zip(M.frames, A.frames):
            for r, v in f.regs.items():
                if g.regs.get(r) is not v: f.regs[r] = better(v)
        for oid, o in M.mem.items():
            p = A.mem.get(oid)
            if p is None or p is o or o.kind in ('trace', 'arr') or p.kind == 'arr': continue
            for k, v in list(o.cells.items()):
                if p.cells.get(k) is not v:
                    w = better(v)
                    if w is not v: self.wobj(M, oid).cells[k] = w

    def merge_obj(self, c, o, p, tok):
        n = o.clone(tok)
        if o.kind == 'trace':
            n.arr = tuple(pos_merge(c, x, y) for x, y in zip(o.arr, p.arr))
            nc = n.cells
            for k, e in o.cells.items():
                f = p.cells.get(k)
                if f is e: continue
                if f is None: nc[k] = (e[0], and_(c, e[1])) + e[2:]
                else: nc[k] = (e[0], ite(c, e[1], f[1]), ite2(c, e[2], f[2]), ite2(c, e[3], f[3]))
            for k, f in p.cells.items():
                if k not in o.cells: nc[k] = (f[0], and_(not_(c), f[1])) + f[2:]
            return n
        if o.alive is not p.alive: n.alive = ite(c, o.alive, p.alive)
        if o.kind == 'arr' or p.kind == 'arr':
            n.arr = tm.aite(c, as_arr(o), as_arr(p)); n.kind = 'arr'; n.cells = {}
            return n
        oc, pc_ = o.cells, p.cells
        if oc is pc_: return n
        n.maxw = max(o.maxw, p.maxw)
        diff = [k for k, v in oc.items() if pc_.get(k) is not v]
        diff += [k for k in pc_ if k not in oc]
        if not diff: return n
        nc = n.cells
        simple = True
        for k in diff:
            a = oc.get(k); b = pc_.get(k)
            if a is None or b is None or a.w != b.w: simple = False; break
        if simple:
            for k in diff: nc[k] = ite(c, oc[k], pc_[k])
            return n
        # general: work on byte ranges touched by differing cells
        touched = set()
        for k in diff:
            for d in (oc, pc_):
                x = d.get(k)
                if x is not None: touched.update(range(k, k + x.w // 8))
        done = set()
        for k in sorted(touched):
            if k in done: continue
            a = oc.get(k); b = pc_.get(k)
            w = 1
            if a is not None and (b is None or b.w <= a.w): w = a.w // 8
            elif b is not None: w = b.w // 8
            # don't straddle into a cell that begins earlier
            va = self.cread(o, k, w); vb = self.cread(p, k, w)
            self.cwrite(n, k, ite(c, va, vb) if va is not vb else va)
            done.update(range(k, k + w))
        return n

    # ------------------------------------------------------------ running
    def start(self, fname, args=()):
        fn = self.m.funcs.get(fname)
        if fn is None or fn.decl: raise ToolError('no function ' + fname)
        st = State()
        self.traces = []
        for i in range(16):
            o = self.new_obj(None, 0, 'trace%d' % i, kind='trace')
            o.arr = (const(0, 64), const(0, 64)); self.traces.append(o.id)
        st.frames = []; st.mem = dict(self.base_mem); st.pc = None; st.token = newtok(); st.caught = []; st.tag = ()
        return st

    def run_ctors(self, st):
        g = self.m.globals.get('llvm.global_ctors')
        if g is None or L().LLVMIsDeclaration(g): return st
        init = L().LLVMGetInitializer(g)
        import re
        lst = [(int(p), n.strip('"')) for p, n in re.findall(r'i32 (\d+), ptr @("[^"]+"|[\w.$]+)', self.m.vstr(init))]
        for p, n in sorted(lst, key=lambda x: x[0]):
            self.push_frame(st, self.m.funcs[n], [])
            fin = self.run_all(st)
            if len(fin) != 1: raise ToolError('static initialiser %s' % n)
            st = fin[0]
        return st

    def push_frame(self, st, fn, args):
        self.m.decode(fn)
        if len(st.frames) > 400: raise ToolError('recursion depth')
        f = Frame()
        f.fn = fn; f.bi = 0; f.ip = 0; f.allocas = []; f.iters = {}; f.key = None
        f.regs = dict(zip(fn.params, args))
        st.frames.append(f)
        if fn.name not in self.seen_funcs: self.seen_funcs[fn.name] = 0
        self.seen_funcs[fn.name] += 1
        B = fn.blocks[0]

    def run_all(self, st):
        """run to completion; returns list of finished states"""
        self.work = []; self.finished = []
        self.pending = []
        self.cnt = 0
        cur = st
        self.byloc = {}
        self.cur = st
        while True:
            try:
                res = self.run(cur)
            except Dead:
                res = ()
            except Fork as e:
                res = e.states
            for s in res: self.enqueue(s)
            while self.work and self.work[0].e[3]: heapq.heappop(self.work)
            if not self.work: break
            cur = self.dequeue()
            self.cur = cur
        return self.finished

    def may_merge(self, s):
        """in functions named by 'mergeloops', states are merged only at the heads of outermost loops (and after the return)"""
        for f in (s.frames if self.mergeloops else ()):
            if any(x in f.fn.name for x in self.mergeloops):
                pos = f.fn.blocks[f.bi].pos
                if f is not s.frames[-1] or f.ip != 0 or pos is None or pos[2] != -1 or len(pos[1]) != 1: return False
        return True

    def enqueue(self, s):
        if not s.frames:
            self.finished.append(s); return
        while True:
            lk = self.loc(s) if self.may_merge(s) else None
            o = self.byloc.get(lk) if lk is not None else None
            if o is None: break
            m = self.try_merge(o[2], s)
            if m is None:
                self.mergefail += 1
                lk = None
                break
            # remove o lazily
            o[3] = True
            del self.byloc[lk]
            s = m
        self.cnt += 1
        ent = [self.key(s), self.cnt, s, False]
        if lk is not None: self.byloc[lk] = ent
        heapq.heappush(self.work, EntryW(ent))
        if len(self.work) > self.max_states: raise ToolError('too many states')

    def dequeue(self):
        while True:
            e = heapq.heappop(self.work).e
            if e[3]: 
                if not self.work: 
                    raise ToolError('internal: queue')
                continue
            lk = self.loc(e[2])
            if self.byloc.get(lk) is e: del self.byloc[lk]
            # purge dead heads
            while self.work and self.work[0].e[3]: heapq.heappop(self.work)
            return e[2]

    def should_yield(self, st):
        if not self.work: return False
        return True

    def run(self, st):
        """execute until fork / yield / end; returns list of successor states"""
        while True:
            fr = st.frames[-1]
            B = fr.fn.blocks[fr.bi]
            ins = B.ins[fr.ip]
            self.steps += 1
            if self.deadline and (self.steps & 1023) == 0 and time.time() > self.deadline:
                raise ToolError('time budget exhausted in execution')
            op = ins[0]
            h = DISPATCH.get(op)
            if h is None: raise ToolError('instruction %s: %s' % (op, self.m.vstr(ins[-1])[:200]))
            r = h(self, st, fr, ins)
            if r is None: continue
            if r == 'y':
                if not st.frames: return [st]
                if self.work: return [st]
                continue
            return r   # list of states

class EntryW:
    __slots__ = ('e',)
    def __init__(self, e): self.e = e
    def __lt__(self, o):
        return (self.e[0], self.e[1]) < (o.e[0], o.e[1])
    def __getitem__(self, i): return self.e[i]

# ---------------------------------------------------------------- instructions
BIN = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul, 'udiv': tm.udiv, 'sdiv': tm.sdiv, 'urem': tm.urem, 'srem': tm.srem,
       'shl': tm.shl, 'lshr': tm.lshr, 'ashr': tm.ashr, 'and': tm.and_, 'or': tm.or_, 'xor': tm.xor_}

def i_bin(E, st, fr, ins):
    op, me, t, a, b, ref = ins
    x = E.val(fr, a); y = E.val(fr, b)
    if isinstance(x, tuple):
        fr.regs[me] = tuple(BIN[op](p, q) for p, q in zip(x, y))
        fr.ip += 1; return
    if op in ('udiv', 'sdiv', 'urem', 'srem'):
        nz = not_(eq(y, const(0, y.w)))
        if nz is not T: E.oblige(st, 'arithmetic: division by zero', nz, ref, 'arith')
        if nz is F: raise Dead()
    elif op in ('shl', 'lshr', 'ashr') and x.w > 1:
        ok = ult(y, const(x.w, x.w))
        if ok is not T and E.cfg.get('check_shift', True):
            E.oblige(st, 'arithmetic: shift amount below width', ok, ref, 'arith')
    fr.regs[me] = BIN[op](x, y)
    fr.ip += 1

def fdec(v, w):
    return struct.unpack('<d', struct.pack('<Q', v))[0] if w == 64 else struct.unpack('<f', struct.pack('<I', v))[0]
def fenc(d, w):
    try:
        return struct.unpack('<Q', struct.pack('<d', d))[0] if w == 64 else struct.unpack('<I', struct.pack('<f', d))[0]
    except OverflowError:
        return fenc(float('inf') if d > 0 else float('-inf'), w)

def i_fbin(E, st, fr, ins):
    op, me, t, a, b, ref = ins
    x = E.val(fr, a); y = E.val(fr, b)
    if isinstance(x, tuple): raise ToolError('vector float')
    if x.op == 'const' and y.op == 'const' and x.w in (32, 64):
        p, q = fdec(x.args, x.w), fdec(y.args, x.w)
        try:
            r = {'fadd': lambda: p + q, 'fsub': lambda: p - q, 'fmul': lambda: p * q,
                 'fdiv': lambda: (p / q if q else (float('nan') if p == 0 or p != p else (float('inf') if (p > 0) == (str(q)[0] != '-') else float('-inf'))))}[op]()
        except KeyError: raise ToolError(op)
        fr.regs[me] = const(fenc(r, x.w), x.w)
    else:
        fr.regs[me] = tm.uf(op + str(x.w), (x, y), x.w)
    fr.ip += 1

def i_icmp(E, st, fr, ins):
    fr.regs[ins[1]] = E.icmp(ins[2], E.val(fr, ins[3]), E.val(fr, ins[4]))
    fr.ip += 1

def i_fcmp(E, st, fr, ins):
    op, me, pred, a, b, ref = ins
    x = E.val(fr, a); y = E.val(fr, b)
    if x.op == 'const' and y.op == 'const' and x.w in (32, 64):
        p, q = fdec(x.args, x.w), fdec(y.args, x.w)
        uno = p != p or q != q
        o, lt, gt, e = pred & 1, 0, 0, 0
        # LLVM: bit0 eq, bit1 gt, bit2 lt, bit3 unordered
        r = (uno and bool(pred & 8)) or (not uno and ((pred & 1 and p == q) or (pred & 2 and p > q) or (pred & 4 and p < q)))
        fr.regs[me] = T if r else F
    else:
        fr.regs[me] = extract(tm.uf('fcmp%d_%d' % (pred, x.w), (x, y), 8), 0, 0)
    fr.ip += 1

def i_cast(E, st, fr, ins):
    op, me, t, a, ft, ref = ins
    x = E.val(fr, a)
    def one(x, w):
        if op == 'trunc': return extract(x, w - 1, 0)
        if op == 'zext': return zext(x, w)
        if op == 'sext': return sext(x, w)
        if op in ('ptrtoint', 'inttoptr'):
            return extract(x, w - 1, 0) if w < x.w else zext(x, w)
        return x
    if op == 'bitcast' and isinstance(x, tuple) and t.kind != llir.VECTOR:
        r = x[-1]
        for p in reversed(x[:-1]): r = concat(r, p)
        fr.regs[me] = r
    elif op == 'bitcast' and t.kind == llir.VECTOR:
        if isinstance(x, tuple):
            r = x[-1]
            for p in reversed(x[:-1]): r = concat(r, p)
            x = r
        w = t.elem.w
        fr.regs[me] = tuple(extract(x, (i + 1) * w - 1, i * w) for i in range(t.n))
    elif isinstance(x, tuple):
        w = t.elem.w if t.kind == llir.VECTOR else 0
        fr.regs[me] = tuple(one(y, w) for y in x) if w else x
    else: fr.regs[me] = one(x, t.w)
    fr.ip += 1

def i_fcast(E, st, fr, ins):
    op, me, t, a, ft, ref = ins
    x = E.val(fr, a)
    if x.op == 'const' and x.w in (8, 16, 32, 64) and t.w in (1, 8, 16, 32, 64):
        if op == 'sitofp': v = fenc(float(tm.sval(x)), t.w)
        elif op == 'uitofp': v = fenc(float(x.args), t.w)
        elif op in ('fptosi', 'fptoui'):
            d = fdec(x.args, x.w)
            v = int(d) if d == d and abs(d) < 1e300 else 0
        elif op in ('fptrunc', 'fpext'): v = fenc(fdec(x.args, x.w), t.w)
        elif op == 'fneg': v = x.args ^ (1 << (x.w - 1))
        fr.regs[me] = const(v, t.w)
    else:
        fr.regs[me] = tm.uf('%s_%d_%d' % (op, x.w, t.w), (x,), t.w)
    fr.ip += 1

def i_select(E, st, fr, ins):
    c = E.val(fr, ins[2])
    a = E.val(fr, ins[3]); b = E.val(fr, ins[4])
    if isinstance(c, tuple):
        fr.regs[ins[1]] = tuple(ite(x, y, z) for x, y, z in zip(c, a, b))
    else:
        k = None
        if c.op != 'const':
            k = E.known(st, c)
            if k is not None: c = T if k else F
        fr.regs[ins[1]] = E.mergev(c, a, b)
    fr.ip += 1

def i_alloca(E, st, fr, ins):
    op, me, t, n, ref = ins
    cnt = E.val(fr, n)
    if cnt.op != 'const': raise ToolError('variable alloca')
    o = E.new_obj(st, max(t.size * cnt.args, 0), 'stack:' + fr.fn.name[:60])
    fr.allocas.append(o.id)
    fr.regs[me] = const(obj_addr(o.id), 64)
    fr.ip += 1

def i_load(E, st, fr, ins):
    op, me, t, p, ref = ins
    fr.regs[me] = E.loadt(st, E.val(fr, p), t, ref)
    fr.ip += 1

def i_store(E, st, fr, ins):
    op, t, v, p, ref = ins
    E.storet(st, E.val(fr, p), E.val(fr, v), t, ref)
    fr.ip += 1

def i_gep(E, st, fr, ins):
    op, me, base, coff, terms, ref = ins
    b = E.val(fr, base)
    if isinstance(b, tuple): raise ToolError('vector gep')
    if not terms:
        fr.regs[me] = const(b.args + coff, 64) if b.op == 'const' else lin(64, coff, ((1, b),))
    else:
        fr.regs[me] = lin(64, coff, [(1, b)] + [(s, sext(E.val(fr, o), 64)) for s, o in terms])
    fr.ip += 1

def i_br(E, st, fr, ins):
    E.jump(st, fr, ins[1])
    if E.work: return 'y'

def i_cbr(E, st, fr, ins):
    c = E.val(fr, ins[1])
    if c.op == 'const': d = bool(c.args)
    else: d = E.decide(st, c)
    if d is True: E.jump(st, fr, ins[2])
    elif d is False: E.jump(st, fr, ins[3])
    else:
        o = E.fork(st)
        out = []
        E.pending = [st, o]
        try:
            E.assume(st, c); E.jump(st, fr, ins[2]); out.append(st)
        except Dead: pass
        try:
            E.assume(o, not_(c)); E.jump(o, o.frames[-1], ins[3]); out.append(o)
        except Dead: pass
        E.pending = []
        return out
    if E.work: return 'y'

def i_switch(E, st, fr, ins):
    x = E.val(fr, ins[1])
    if x.op == 'const':
        for v, b in ins[3]:
            if v == x.args: E.jump(st, fr, b); break
        else: E.jump(st, fr, ins[2])
        return 'y' if E.work else None
    groups = {}
    dflt = T
    for v, b in ins[3]:
        c = eq(x, const(v, x.w))
        groups[b] = or_(groups[b], c) if b in groups else c
        dflt = and_(dflt, not_(c))
    groups[ins[2]] = or_(groups[ins[2]], dflt) if ins[2] in groups else dflt
    out = []
    cands = []
    for b, c in groups.items():
        if c is F: continue
        k = E.known(st, c)
        if k is False: continue
        if not solve.feasible(E.pc_list(st), c, E.feas_timeout): continue
        cands.append((b, c))
    states = [E.fork(st) for _ in cands[1:]] + [st] if cands else []
    E.pending = list(states)
    for s, (b, c) in zip(states, cands):
        try:
            if len(cands) > 1: E.assume(s, c)
            E.jump(s, s.frames[-1], b); out.append(s)
        except Dead: pass
    E.pending = []
    return out

def i_unreachable(E, st, fr, ins):
    E.oblige(st, 'control: unreachable code reached in %s' % fr.fn.name[:80], F, ins[1], 'ub')
    raise Dead()

def do_return(E, st, v):
    fr = st.frames.pop()
    for a in fr.allocas:
        st.mem.pop(a, None)
    if not st.frames: return 'y'
    c = st.frames[-1]
    return finish_call(E, st, c, v)

def finish_call(E, st, c, v):
    ins = c.fn.blocks[c.bi].ins[c.ip]
    if v is not None: c.regs[ins[1]] = v
    if ins[0] == 'invoke': E.jump(st, c, ins[5])
    else: c.ip += 1
    return 'y' if E.work else None

def i_ret(E, st, fr, ins):
    v = E.val(fr, ins[1]) if ins[1] is not None else None
    return do_return(E, st, v)

def i_call(E, st, fr, ins):
    callee = ins[2]; args = [E.val(fr, a) if not is_meta(E, a) else None for a in ins[3]]
    if isinstance(callee, tuple):
        p = E.val(fr, callee)
        if p.op == 'ite':
            # fork over the possible targets
            cs = []
            def go(q, g):
                if q.op == 'ite': go(q.args[1], and_(g, q.args[0])); go(q.args[2], and_(g, not_(q.args[0])))
                else: cs.append((q, g))
            go(p, T)
            out = []
            states = [E.fork(st) for _ in cs[1:]] + [st]
            for s, (q, g) in zip(states, cs):
                try:
                    E.assume(s, g)
                    if callee[0] == 'r': s.frames[-1].regs[callee[1]] = q
                    out.append(s)
                except Dead: pass
            return out
        fn = E.fby.get(p.args) if p.op == 'const' else None
        if fn is None:
            if p.op == 'const':
                E.oblige(st, 'memory-safety: call through invalid function pointer', F, ins[-1], 'mem'); raise Dead()
            raise ToolError('indirect call to %r: %s' % (p, E.m.vstr(ins[-1])[:200]))
    else: fn = callee
    return call_fn(E, st, fr, fn, args, ins)

def is_meta(E, a):
    if a[0] != 'c': return False
    return L().LLVMGetTypeKind(L().LLVMTypeOf(a[1])) == llir.META

def call_fn(E, st, fr, fn, args, ins):
    name = fn.name
    rep = E.replace.get(name)
    if rep is not None and not any(f.fn.name == rep for f in st.frames):
        fn = E.m.funcs[rep]; name = rep
        E.externals_used.add('contract stub: ' + rep)
    h = E.handlers.get(name)
    if h is not None:
        r = h(E, st, args, ins)
        if r == 'pushed': return 'y' if E.work else None
        if r == 'unwound': return 'y'
        if isinstance(r, list): return r
        return finish_call(E, st, st.frames[-1], r)
    if name.startswith('llvm.'):
        r = intrinsic(E, st, name, args, ins)
        if r == 'unwound': return 'y'
        return finish_call(E, st, fr, r)
    if not fn.decl and name not in E.noop:
        E.push_frame(st, fn, args)
        return None
    if name in E.noop or name.startswith(NOOP_PREFIX):
        E.externals_used.add(name)
        t = ins[4]
        return finish_call(E, st, fr, None if t.kind == llir.VOID else E.zero(t))
    if name in THROWERS:
        return throw_std(E, st, THROWERS[name], ins)
    raise ToolError('external function %s called from %s' % (name, fr.fn.name))

# ---------------------------------------------------------------- exceptions
def throw_std(E, st, ti, ins):
    o = E.new_obj(st, 64, 'exception:' + ti)
    E.excinfo[o.id] = ti
    return unwind(E, st, const(obj_addr(o.id), 64), ins)

def bases(E, ti):
    b = E.typebases.get(ti)
    if b is None:
        b = []
        g = E.m.globals.get(ti)
        if g is not None and not L().LLVMIsDeclaration(g):
            init = L().LLVMGetInitializer(g)
            s = E.m.vstr(init)
            import re
            names = re.findall(r'@(_ZTI[\w]+)', s)
            b = [n for n in names if n != ti]
        else: b = STD_BASES.get(ti, [])
        E.typebases[ti] = b
    return b

def derives(E, ti, base):
    if ti == base: return True
    return any(derives(E, x, base) for x in bases(E, ti))

def tid(E, name):
    if name not in E.tids: E.tids[name] = len(E.tids) + 1
    return E.tids[name]

def ti_name(E, v):
    if L().LLVMIsNull(v): return None
    if VK[L().LLVMGetValueKind(v)] == 'alias': v = E.m.aliases[v]
    return E.m.vname(v)

def unwind(E, st, exc, ins):
    """exc: pointer term (constant)"""
    if exc.op == 'ite':
        out = []
        o = E.fork(st)
        for s, c, p in ((st, exc.args[0], exc.args[1]), (o, not_(exc.args[0]), exc.args[2])):
            try:
                E.assume(s, c)
                r = unwind(E, s, p, ins)
                out.extend(r if isinstance(r, list) else [s])
            except Dead: pass
        return out
    oid = exc.args >> RB
    ti = E.excinfo[oid]
    first = True
    while st.frames:
        fr = st.frames[-1]
        cur = fr.fn.blocks[fr.bi].ins[fr.ip]
        if cur[0] == 'invoke':
            dst = cur[6]
            B = fr.fn.blocks[dst]
            lp = next((x for x in B.ins if x[0] == 'landingpad'), None)
            sel = None
            for cl in lp[3]:
                n = ti_name(E, cl) if VK[L().LLVMGetValueKind(cl)] not in ('aggzero', 'carray') else False
                if n is False: continue   # filter: nothrow specs
                if n is None: sel = tid(E, '<any>'); break
                if derives(E, ti, n): sel = tid(E, n); break
            if sel is None and lp[2]: sel = 0
            if sel is not None:
                E.jump(st, fr, dst)
                fr.regs[lp[1]] = (exc, const(sel, 32))
                fr.ip = B.ins.index(lp) + 1
                return [st]
        for a in fr.allocas: st.mem.pop(a, None)
        last = fr
        st.frames.pop()
    # uncaught
    st.frames.append(last)
    E.oblige(st, 'control: uncaught exception %s' % ti, F, ins[-1] if isinstance(ins, tuple) else None, 'exc')
    raise Dead()

def i_resume(E, st, fr, ins):
    v = E.val(fr, ins[1])
    for a in fr.allocas: st.mem.pop(a, None)
    if len(st.frames) == 1:
        E.oblige(st, 'control: uncaught exception', F, ins[2], 'exc'); raise Dead()
    st.frames.pop()
    return unwind(E, st, v[0], ins)

def i_landingpad(E, st, fr, ins):
    raise ToolError('landingpad reached directly')

def i_extractvalue(E, st, fr, ins):
    v = E.val(fr, ins[2])
    for i in ins[3]: v = v[i]
    fr.regs[ins[1]] = v; fr.ip += 1

def i_insertvalue(E, st, fr, ins):
    v = E.val(fr, ins[2]); x = E.val(fr, ins[3])
    def rec(v, idx):
        l = list(v)
        l[idx[0]] = x if len(idx) == 1 else rec(l[idx[0]], idx[1:])
        return tuple(l)
    fr.regs[ins[1]] = rec(v, ins[4]); fr.ip += 1

def i_extractelement(E, st, fr, ins):
    v = E.val(fr, ins[2]); i = E.val(fr, ins[3])
    if i.op != 'const': raise ToolError('extractelement')
    fr.regs[ins[1]] = v[i.args]; fr.ip += 1

def i_insertelement(E, st, fr, ins):
    v = list(E.val(fr, ins[2])); i = E.val(fr, ins[4])
    if i.op != 'const': raise ToolError('insertelement')
    v[i.args] = E.val(fr, ins[3]); fr.regs[ins[1]] = tuple(v); fr.ip += 1

def i_shuffle(E, st, fr, ins):
    a = E.val(fr, ins[2]); b = E.val(fr, ins[3]); ab = a + b
    fr.regs[ins[1]] = tuple(ab[k] if k >= 0 else ab[0] for k in ins[4]); fr.ip += 1

def i_atomicrmw(E, st, fr, ins):
    op, me, t, bop, p, v, ref = ins
    P_ = E.val(fr, p); x = E.val(fr, v)
    old = E.loadt(st, P_, t, ref)
    new = {0: lambda: x, 1: lambda: tm.add(old, x), 2: lambda: tm.sub(old, x), 3: lambda: and_(old, x), 5: lambda: or_(old, x)}[bop]()
    E.storet(st, P_, new, t, ref)
    fr.regs[me] = old; fr.ip += 1

DISPATCH = {'icmp': i_icmp, 'fcmp': i_fcmp, 'select': i_select, 'alloca': i_alloca, 'load': i_load, 'store': i_store, 'gep': i_gep,
            'br': i_br, 'cbr': i_cbr, 'switch': i_switch, 'unreachable': i_unreachable, 'ret': i_ret, 'call': i_call, 'invoke': i_call,
            'resume': i_resume, 'landingpad': i_landingpad, 'extractvalue': i_extractvalue, 'insertvalue': i_insertvalue,
            'extractelement': i_extractelement, 'insertelement': i_insertelement, 'shufflevector': i_shuffle, 'atomicrmw': i_atomicrmw}
for _o in BIN: DISPATCH[_o] = i_bin
for _o in ('fadd', 'fsub', 'fmul', 'fdiv'): DISPATCH[_o] = i_fbin
for _o in ('trunc', 'zext', 'sext', 'ptrtoint', 'inttoptr', 'bitcast', 'freeze', 'addrspacecast'): DISPATCH[_o] = i_cast
for _o in ('fptoui', 'fptosi', 'uitofp', 'sitofp', 'fptrunc', 'fpext', 'fneg'): DISPATCH[_o] = i_fcast

# ---------------------------------------------------------------- intrinsics
def vmap(f, *a):
    if isinstance(a[0], tuple): return tuple(vmap(f, *x) for x in zip(*a))
    return f(*a)

def intrinsic(E, st, name, a, ins):
    ref = ins[-1]
    n = name.split('.')
    k = n[1]
    if k in ('memcpy', 'memmove'):
        mem_copy(E, st, a[0], a[1], a[2], ref); return None
    if k == 'memset':
        mem_set(E, st, a[0], a[1], a[2], ref); return None
    if k == 'umin': return vmap(lambda x, y: ite(ult(x, y), x, y), a[0], a[1])
    if k == 'umax': return vmap(lambda x, y: ite(ult(x, y), y, x), a[0], a[1])
    if k == 'smin': return vmap(lambda x, y: ite(tm.slt(x, y), x, y), a[0], a[1])
    if k == 'smax': return vmap(lambda x, y: ite(tm.slt(x, y), y, x), a[0], a[1])
    if k == 'abs': return vmap(lambda x: ite(tm.slt(x, const(0, x.w)), tm.neg(x), x), a[0])
    if k == 'bswap':
        x = a[0]; r = None
        for i in range(x.w // 8):
            b = extract(x, 8 * i + 7, 8 * i)
            r = b if r is None else concat(r, b)
        return r
    if k == 'ctpop':
        x = a[0]
        return lin(x.w, 0, [(1, zext(extract(x, i, i), x.w)) for i in range(x.w)])
    if k == 'ctlz':
        x = a[0]; r = const(x.w, x.w)
        for i in range(x.w): r = ite(extract(x, i, i), const(x.w - 1 - i, x.w), r)
        return r
    if k == 'cttz':
        x = a[0]; r = const(x.w, x.w)
        for i in range(x.w - 1, -1, -1): r = ite(extract(x, i, i), const(i, x.w), r)
        return r
    if k in ('fshl', 'fshr'):
        x, y, s = a
        w = x.w
        s = tm.urem(s, const(w, w)) if True else s
        z = concat(x, y)
        if k == 'fshl':
            return extract(tm.shl(z, zext(s, 2 * w)), 2 * w - 1, w)
        return extract(tm.lshr(z, zext(s, 2 * w)), w - 1, 0)
    if len(n) > 3 and n[2] == 'with' and n[3] == 'overflow' or k in ('uadd', 'usub', 'umul', 'sadd', 'ssub', 'smul'):
        x, y = a[0], a[1]; w = x.w
        f = {'add': tm.add, 'sub': tm.sub, 'mul': tm.mul}[k[1:]]
        r = f(x, y)
        if n[2] == 'sat':
            if k == 'usub': return ite(ult(x, y), const(0, w), r)
            if k == 'uadd': return ite(ult(r, x), const(-1, w), r)
            X, Y = sext(x, w + 1), sext(y, w + 1)
            R = f(X, Y)
            mx = const((1 << (w - 1)) - 1, w); mn = const(1 << (w - 1), w)
            return ite(tm.slt(sext(mx, w + 1), R), mx, ite(tm.slt(R, sext(mn, w + 1)), mn, r))
        if k == 'uadd': o = ult(r, x)
        elif k == 'usub': o = ult(x, y)
        elif k == 'umul':
            if rng(x)[1] * rng(y)[1] < (1 << w): o = F
            else:
                R = tm.mul(zext(x, 2 * w), zext(y, 2 * w)); o = not_(eq(extract(R, 2 * w - 1, w), const(0, w)))
        else:
            W = 2 * w if k == 'smul' else w + 1
            R = f(sext(x, W), sext(y, W)); o = not_(eq(R, sext(r, W)))
        return (r, o)
    if k == 'expect': return a[0]
    if k == 'objectsize': return const(-1, ins[4].w)
    if k == 'is' : return F
    if k == 'eh' and n[2] == 'typeid':
        p = a[0]
        nm = None
        for g, oid in E.gaddr.items():
            if p.op == 'const' and obj_addr(oid) == p.args: nm = g
        return const(tid(E, nm if nm else '<any>'), 32)
    if k == 'trap':
        E.oblige(st, 'control: trap', F, ref, 'ub'); raise Dead()
    if k in ('stacksave',): return const(0, 64)
    if k in ('stackrestore', 'prefetch', 'assume', 'dbg', 'lifetime', 'invariant', 'va_start', 'va_end'): return None
    if k in ('launder', 'strip', 'threadlocal', 'ssa'): return a[0]
    if k == 'ptrmask': return and_(a[0], a[1])
    if k in ('fabs', 'sqrt', 'floor', 'ceil', 'rint', 'round', 'trunc', 'lrint', 'lround'):
        import math
        x = a[0]
        if x.op == 'const':
            d = fdec(x.args, x.w)
            if k in ('lrint',): return const(round(d), ins[4].w)
            return const(fenc({'fabs': abs, 'sqrt': math.sqrt, 'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'round': lambda z: math.floor(z + .5), 'trunc': math.trunc}[k](d) * 1.0, x.w), x.w)
        return tm.uf(k + str(x.w), (x,), ins[4].w)
    if k == 'fmuladd':
        if all(x.op == 'const' for x in a):
            return const(fenc(fdec(a[0].args, a[0].w) * fdec(a[1].args, a[0].w) + fdec(a[2].args, a[0].w), a[0].w), a[0].w)
        return tm.uf('fadd%d' % a[0].w, (tm.uf('fmul%d' % a[0].w, (a[0], a[1]), a[0].w), a[2]), a[0].w)
    if k == 'vector' and n[2] == 'reduce':
        f = {'add': tm.add, 'or': or_, 'and': and_, 'xor': tm.xor_, 'mul': tm.mul}.get(n[3])
        if f:
            r = a[0][0]
            for x in a[0][1:]: r = f(r, x)
            return r
    raise ToolError('intrinsic ' + name)

def mem_copy(E, st, d, s, n, ref):
    if n.op != 'const':
        lv = tm.leaves(n)
        hi = rng(n)[1]
        if hi > E.cfg.get('max_symcopy', 4096): 
            return mem_copy_sym(E, st, d, s, n, ref)
        # read then conditionally write
        E_check_range(E, st, s, n, ref, 'memcpy source'); E_check_range(E, st, d, n, ref, 'memcpy destination')
        scs = E.valid_cases(st, s, 'memcpy source', ref); dcs = E.valid_cases(st, d, 'memcpy destination', ref)
        data = []
        for i in range(hi):
            data.append(read_masked(E, st, scs, i, ult(const(i, 64), n)))
        for i in range(hi):
            g = ult(const(i, 64), n)
            if g is F: break
            for gd, oid, off in dcs:
                o = st.mem[oid]
                oo = add(off, const(i, 64))
                if oo.op == 'const' and isinstance(o.size, int) and not (0 <= oo.args < o.size): continue
                E.store_obj(st, oid, oo, data[i], g if len(dcs) == 1 else and_(g, gd))
        return
    n = n.args
    if n == 0: return
    scs = E.valid_cases(st, s, 'memcpy source', ref)
    dcs = E.valid_cases(st, d, 'memcpy destination', ref)
    for g, oid, off in scs: E.bounds(st, st.mem[oid], off, n, g, ref, 'memcpy source of %d bytes' % n)
    for g, oid, off in dcs:
        E.bounds(st, st.mem[oid], off, n, g, ref, 'memcpy destination of %d bytes' % n)
    if not scs or not dcs: raise Dead()
    if len(scs) == 1 and len(dcs) == 1 and scs[0][2].op == 'const' and dcs[0][2].op == 'const' \
       and st.mem[scs[0][1]].kind == 'cell' and st.mem[dcs[0][1]].kind == 'cell':
        so = st.mem[scs[0][1]]; soff = scs[0][2].args; doff = dcs[0][2].args
        items = []
        k = 0
        while k < n:
            c = so.cells.get(soff + k)
            if c is not None and k + c.w // 8 <= n:
                items.append((k, c)); k += c.w // 8
            else:
                items.append((k, E.cread(so, soff + k, 1))); k += 1
        do = E.wobj(st, dcs[0][1])
        for k, c in items: E.cwrite(do, doff + k, c)
        return
    if n >= 32 and any(st.mem[x[1]].kind == 'arr' for x in dcs):
        return mem_copy_sym(E, st, d, s, const(n, 64), ref)
    data = []
    for i in range(n):
        v = None
        for g, oid, off in scs:
            x = E.load_obj(st, st.mem[oid], add(off, const(i, 64)), 1)
            v = x if v is None else ite(g, x, v)
        data.append(v)
    for g, oid, off in dcs:
        for i in range(n):
            E.store_obj(st, oid, add(off, const(i, 64)), data[i], T if len(dcs) == 1 else g)

def read_masked(E, st, scs, i, g):
    v = None
    for gs, oid, off in scs:
        o = st.mem[oid]
        oo = add(off, const(i, 64))
        if o.kind == 'cell' and oo.op == 'const' and isinstance(o.size, int) and not (0 <= oo.args < o.size):
            x = const(0, 8)
        else: x = E.load_obj(st, o, oo, 1)
        v = x if v is None else ite(gs, x, v)
    return v

def E_check_range(E, st, p, n, ref, what):
    for g, oid, off in E.valid_cases(st, p, what, ref):
        E.bounds(st, st.mem[oid], off, n, or_(F, and_(g, not_(eq(n, const(0, 64))))), ref, what)

def as_arr(o):
    """the contents of an object as an array term"""
    if o.kind == 'arr': return o.arr
    if isinstance(o.size, int) and o.size > (1 << 14): raise ToolError('large cell object %s used as an array' % o.name)
    a = tm.mk('azero', (), 0) if o.default == 'zero' else tm.avar('undefarr%d' % o.id)
    for k in sorted(o.cells):
        v = o.cells[k]
        for i in range(v.w // 8): a = tm.store(a, const(k + i, 64), extract(v, 8 * i + 7, 8 * i))
    return a

def mem_copy_sym(E, st, d, s, n, ref):
    """copy of unbounded symbolic length between array objects: the destination
    becomes a fresh array; its contents are defined lazily by select rewriting"""
    E_check_range(E, st, s, n, ref, 'memcpy source'); E_check_range(E, st, d, n, ref, 'memcpy destination')
    scs = E.valid_cases(st, s, 'memcpy source', ref); dcs = E.valid_cases(st, d, 'memcpy destination', ref)
    srcs = [(g, as_arr(st.mem[oid]), off) for g, oid, off in scs]
    for gd, oid, doff in dcs:
        do = E.wobj(st, oid)
        if do.kind != 'arr' and isinstance(do.size, int) and do.size <= (4096 if doff.op == 'const' else 128) and not any(q == oid for _, q, _ in scs):
            # a small object (a string with its short buffer, say): byte by byte, the rest would be out of bounds
            if doff.op == 'const': at = [doff.args]
            else: at = E.possible(st, and_(gd, not_(eq(n, const(0, 64)))), doff, list(range(do.size)))
            for d0 in at:
                gc = and_(gd, eq(doff, const(d0, 64)))
                for i in range(E.most(st, gc, n, max(0, do.size - d0))):
                    g = and_(gc, ult(const(i, 64), n))
                    if g is F: break
                    E.store_obj(st, oid, const(d0 + i, 64), read_masked(E, st, scs, i, g), g)
            continue
        if do.kind != 'arr': do.arr = as_arr(do); do.kind = 'arr'; do.cells = {}
        base = do.arr; new = None
        for gs, sarr, soff in srcs:
            c = tm.mk('acopy', (base, sarr, doff, soff, n), 0)
            new = c if new is None else tm.aite(gs, c, new)
        do.arr = new if len(dcs) == 1 else tm.aite(gd, new, base)

def mem_set(E, st, d, v, n, ref):
    v = extract(v, 7, 0) if v.w > 8 else v
    if n.op != 'const':
        hi = rng(n)[1]
        if hi > E.cfg.get('max_symcopy', 4096):
            E_check_range(E, st, d, n, ref, 'memset destination')
            dcs = E.valid_cases(st, d, 'memset destination', ref)
            for gd, oid, doff in dcs:
                do = E.wobj(st, oid)
                if do.kind != 'arr': do.arr = as_arr(do); do.kind = 'arr'; do.cells = {}
                new = tm.mk('aset', (do.arr, doff, n, v), 0)
                do.arr = new if len(dcs) == 1 else tm.aite(gd, new, do.arr)
            return
        E_check_range(E, st, d, n, ref, 'memset destination')
        for i in range(hi):
            g = ult(const(i, 64), n)
            for gd, oid, off in E.valid_cases(st, d, 'memset destination', ref):
                o = st.mem[oid]
                oo = add(off, const(i, 64))
                if oo.op == 'const' and isinstance(o.size, int) and not (0 <= oo.args < o.size): continue
                E.store_obj(st, oid, oo, v, and_(g, gd))
        return
    n = n.args
    if n == 0: return
    dcs = E.valid_cases(st, d, 'memset destination', ref)
    for g, oid, off in dcs:
        E.bounds(st, st.mem[oid], off, n, g, ref, 'memset of %d bytes' % n)
    if len(dcs) == 1 and dcs[0][2].op == 'const' and v.op == 'const' and st.mem[dcs[0][1]].kind == 'cell':
        o = E.wobj(st, dcs[0][1]); off = dcs[0][2].args
        if v.args == 0 and o.default == 'zero' and off == 0 and n == o.size: o.cells = {}; return
        if v.args == 0 and off == 0 and n == o.size: o.cells = {}; o.default = 'zero'; return
        k = 0
        while k < n:
            w = 8 if (off + k) % 8 == 0 and n - k >= 8 and o.maxw >= 8 else 1
            E.cwrite(o, off + k, const(int.from_bytes(bytes([v.args]) * w, 'little'), 8 * w)); k += w
        return
    for g, oid, off in dcs:
        for i in range(n): E.store_obj(st, oid, add(off, const(i, 64)), v, T if len(dcs) == 1 else g)

# ---------------------------------------------------------------- externals
def cstr(E, st, p):
    if p.op != 'const': return '?'
    r = p.args >> RB
    o = st.mem.get(r) or E.base_mem.get(r)
    off = p.args - obj_addr(r)
    s = b''
    while True:
        c = E.cread(o, off, 1)
        if c.op != 'const' or c.args == 0: break
        s += bytes([c.args]); off += 1
    return s.decode(errors='replace')

def x_new(E, st, a, ins):
    n = a[0]
    if n.op == 'const': o = E.new_obj(st, n.args, 'heap', kind='cell' if n.args < (1 << 32) else 'arr')
    else:
        hi = rng(n)[1]
        o = E.new_obj(st, n, 'heap', kind='cell' if hi <= (1 << 20) else 'arr')
    return const(obj_addr(o.id), 64)

def x_delete(E, st, a, ins):
    p = a[0]
    if p.op == 'const' and p.args == 0: return None
    for g, oid, off in E.ptr_cases(p):
        if g is F: continue
        if oid in (0, None) or oid not in st.mem: continue
        o = E.wobj(st, oid)
        o.alive = and_(o.alive, not_(g)) if g is not T else F
        if o.alive is F and len(st.mem) > 4000: pass
    return None

def x_calloc(E, st, a, ins):
    n = tm.mul(a[0], a[1])
    if n.op != 'const': raise ToolError('calloc')
    return const(obj_addr(E.new_obj(st, n.args, 'heap', default='zero').id), 64)

def x_memcpy(E, st, a, ins):
    mem_copy(E, st, a[0], a[1], a[2], ins[-1]); return a[0]
def x_memset(E, st, a, ins):
    mem_set(E, st, a[0], a[1], a[2], ins[-1]); return a[0]

def x_memcmp(E, st, a, ins):
    n = a[2]
    w = ins[4].w
    if n.op != 'const':
        hi = rng(n)[1]
        if hi > 4096: raise ToolError('memcmp with symbolic length')
        r = const(0, w)
        scs = E.valid_cases(st, a[0], 'memcmp', ins[-1]); dcs = E.valid_cases(st, a[1], 'memcmp', ins[-1])
        E_check_range(E, st, a[0], n, ins[-1], 'memcmp'); E_check_range(E, st, a[1], n, ins[-1], 'memcmp')
        for i in range(hi - 1, -1, -1):
            g = ult(const(i, 64), n)
            x = read_masked(E, st, scs, i, g); y = read_masked(E, st, dcs, i, g)
            r = ite(and_(g, not_(eq(x, y))), ite(ult(x, y), const(-1, w), const(1, w)), r)
        return r
    r = const(0, w)
    for i in range(n.args - 1, -1, -1):
        x = E.load(st, lin(64, i, ((1, a[0]),)), 1, ins[-1]); y = E.load(st, lin(64, i, ((1, a[1]),)), 1, ins[-1])
        if x is y: continue
        r = ite(eq(x, y), r, ite(ult(x, y), const(-1, w), const(1, w)))
    return r

def x_bcmp(E, st, a, ins):
    n = a[2]; w = ins[4].w
    if n.op != 'const': return x_memcmp(E, st, a, ins)
    r = T
    i = 0
    while i < n.args:
        k = 8 if n.args - i >= 8 else 1
        x = E.load(st, lin(64, i, ((1, a[0]),)), k, ins[-1]); y = E.load(st, lin(64, i, ((1, a[1]),)), k, ins[-1])
        r = and_(r, eq(x, y)); i += k
    return ite(r, const(0, w), const(1, w))

def x_strlen(E, st, a, ins):
    p = a[0]
    if p.op != 'const': raise ToolError('strlen of a symbolic pointer')
    o = st.mem.get(p.args >> RB) or E.base_mem.get(p.args >> RB)
    off = p.args - obj_addr(p.args >> RB)
    n = 0
    while True:
        c = E.cread(o, off + n, 1)
        if c.op != 'const': raise ToolError('strlen of symbolic bytes')
        if c.args == 0: return const(n, 64)
        n += 1

def x_alloc_exc(E, st, a, ins):
    o = E.new_obj(st, a[0].args, 'exception')
    return const(obj_addr(o.id), 64)

def x_throw(E, st, a, ins):
    oid = a[0].args >> RB
    ti = a[1]
    nm = None
    for g, o in E.gaddr.items():
        if ti.op == 'const' and obj_addr(o) == ti.args: nm = g
    E.excinfo[oid] = nm
    return unwind(E, st, a[0], ins)

def x_begin_catch(E, st, a, ins):
    st.caught.append(a[0]); return a[0]
def x_end_catch(E, st, a, ins):
    if st.caught: st.caught.pop()
    return None
def x_rethrow(E, st, a, ins):
    return unwind(E, st, st.caught[-1], ins)
def x_terminate(E, st, a, ins):
    E.oblige(st, 'control: std::terminate', F, ins[-1], 'exc'); raise Dead()
def x_abort(E, st, a, ins):
    E.oblige(st, 'control: abort', F, ins[-1], 'exc'); raise Dead()
def x_assert_fail(E, st, a, ins):
    E.oblige(st, 'in-place assertion: %s (%s)' % (cstr(E, st, a[0]), cstr(E, st, a[1]).split('/')[-1]), F, ins[-1], 'assert'); raise Dead()
def x_pure_virtual(E, st, a, ins):
    E.oblige(st, 'control: pure virtual call', F, ins[-1], 'ub'); raise Dead()

def x_guard_acquire(E, st, a, ins):
    v = E.load(st, a[0], 1, ins[-1])
    return ite(eq(v, const(0, 8)), const(1, 32), const(0, 32))
def x_guard_release(E, st, a, ins):
    E.store(st, a[0], const(1, 8), ins[-1]); return None
def x_zero(E, st, a, ins):
    t = ins[4]
    return None if t.kind == llir.VOID else E.zero(t)

# harness intrinsics
def sym_name(E, st, a):
    n = cstr(E, st, a[0])
    if a[1].op != 'const': raise ToolError('nondet index must be concrete: ' + n)
    return '%s#%d' % (n, a[1].args) if a[1].args else n

def v_nondet(E, st, a, ins):
    w = a[2].args
    n = sym_name(E, st, a)
    v = tm.var(n, w)
    E.nondets[n] = w
    return zext(v, 64)

def v_assume(E, st, a, ins):
    c = a[0] if a[0].w == 1 else not_(eq(a[0], const(0, a[0].w)))
    E.assume(st, c); return None

def v_assert(E, st, a, ins):
    c = a[0] if a[0].w == 1 else not_(eq(a[0], const(0, a[0].w)))
    E.oblige(st, 'ensures: ' + cstr(E, st, a[1]), c, ins[-1], 'ensures'); return None

def v_cover(E, st, a, ins):
    E.covers.setdefault(cstr(E, st, a[0]), []).append(E.pc_list(st)); return None

def v_bytes(E, st, a, ins):
    """uint8_t* vp_bytes(name, size): array object with arbitrary contents"""
    n = cstr(E, st, a[0])
    size = a[1]
    o = E.new_obj(st, size.args if size.op == 'const' else size, n, kind='arr')
    o.arr = tm.avar(n)
    if size.op != 'const': E.sizes.append(size)
    E.nondets[n] = 'bytes'
    return const(obj_addr(o.id), 64)

def v_fill(E, st, a, ins):
    """vp_fill(ptr, nbytes, name): fresh bytes name#i"""
    n = a[1].args; nm = cstr(E, st, a[2])
    for i in range(n):
        k = '%s#%d' % (nm, i)
        E.nondets[k] = 8
        E.store(st, lin(64, i, ((1, a[0]),)), tm.var(k, 8), ins[-1])
    return None

def v_uf(E, st, a, ins):
    return tm.uf(cstr(E, st, a[0]), (a[1], a[2]), 64)

def v_cases(E, st, a, ins): return v_concretize(E, st, a, ins, True)
def v_concretize(E, st, a, ins, keep=False):
    """uint64_t vp_split(x, lo, hi): case split on the value of x in [lo,hi]"""
    x = a[0]
    if x.op == 'const': return x
    lo, hi = a[1].args, a[2].args
    out = []
    me = ins[1]
    vals = []
    for v in range(lo, hi + 1):
        c = eq(x, const(v, 64))
        if c is F or E.known(st, c) is False: continue
        if not solve.feasible(E.pc_list(st), c, E.feas_timeout): continue
        vals.append((v, c))
    if keep and st.tag == () and E.cfg.get('shards', 1) > 1:
        vals = [x for i, x in enumerate(vals) if i % E.cfg['shards'] == E.cfg['shard']]
    E.oblige(st, 'case split covers all values', and_(ule(const(lo, 64), x), ule(x, const(hi, 64))), ins[-1], 'split')
    states = [E.fork(st) for _ in vals[1:]] + [st] if vals else []
    for s, (v, c) in zip(states, vals):
        try:
            E.assume(s, c)
            if keep: s.tag = s.tag + (v,)
            finish_call(E, s, s.frames[-1], const(v, 64))
            out.append(s)
        except Dead: pass
    return out

def pos_merge(c, a, b):
    """merged position: what both share stays outside the case distinction"""
    if a is b: return a
    da = dict((x.id, (k, x)) for k, x in (a.args[1] if a.op == 'lin' else () if a.op == 'const' else ((1, a),)))
    db = dict((x.id, (k, x)) for k, x in (b.args[1] if b.op == 'lin' else () if b.op == 'const' else ((1, b),)))
    com = lin(64, 0, [(k, x) for i, (k, x) in da.items() if i in db and db[i][0] == k])
    return add(com, ite(c, sub(a, com), sub(b, com)))

def ite2(c, a, b):
    w = max(a.w, b.w)
    return ite(c, zext(a, w) if a.w < w else a, zext(b, w) if b.w < w else b)
def same2(a, b):
    w = max(a.w, b.w)
    return eq(zext(a, w) if a.w < w else a, zext(b, w) if b.w < w else b)

TRACE_OB = 'ensures: the reader asks for exactly the bits that were written, with the probabilities they were written with'
def v_trace_put(E, st, a, ins):
    o = E.wobj(st, E.traces[a[0].args])
    w, r = o.arr
    bit = a[1] if a[1].w == 1 else not_(eq(a[1], const(0, a[1].w)))
    o.cells[w.id] = (w, T, bit, extract(a[2], 7, 0))
    o.arr = (add(w, const(1, 64)), r)
    return None

def v_trace_put_word(E, st, a, ins):
    o = E.wobj(st, E.traces[a[0].args])
    w, r = o.arr
    o.cells[w.id] = (w, T, a[1], a[2])
    o.arr = (add(w, const(1, 64)), r)
    return None

def v_trace_get_word(E, st, a, ins): return trace_get(E, st, a, a[1], ins)
def v_trace_get(E, st, a, ins): return trace_get(E, st, a, extract(a[1], 7, 0), ins)
def trace_get(E, st, a, tag, ins):
    o = E.wobj(st, E.traces[a[0].args])
    w, r = o.arr
    e = o.cells.get(r.id)
    if e is not None and e[1] is not T and E.cfg.get('slim') and E.known(st, e[1]) is not True and E.decide(st, e[1]) is not True: e = None
    if e is not None: cands = [(e[1], e)]
    else:
        best = []
        for k, x in o.cells.items():
            if k.__class__ is tuple: continue
            d = eq(x[0], r)
            if d is F or x[1] is F or E.known(st, x[1]) is False: continue
            d = and_(d, x[1])
            if d is F: continue
            dd = sub(x[0], r)
            best.append((len(dd.args[1]) if dd.op == 'lin' else 1, dd.id, x, d))
        best.sort(key=lambda t: t[:2])
        cands = []
        pcs = E.pc_list(st)
        for _, _, x, d in best if not E.cfg.get('slim') else ():
            if E.decide(st, d) is True: best = [(0, 0, x, T)]; break
        for _, _, x, d in best[:24] if best and best[0][3] is not T else ():
            nd = not_(d)
            if not solve.feasible(solve.narrow(pcs, nd), nd, E.feas_timeout): best = [(0, 0, x, d)]; break
        for _, _, x, d in best:
            k = E.known(st, d)
            if k is None: k = solve.feasible(solve.narrow(pcs, d), d, E.feas_timeout)
            if not k: continue
            cands.append((d, x))
            # the common case: what is here does not depend on how much was written before
            if d is T: break
        if len(cands) > 1 and len(cands) <= 3:
            cands = [(d, x) for d, x in cands if solve.feasible(pcs, d, E.feas_timeout)]
    if not cands:
        E.oblige(st, TRACE_OB, F, ins[-1], 'ensures', keep=not E.cfg.get('slim'))
        raise Dead()
    if len(cands) > 1:
        E.oblige(st, TRACE_OB, tm.orl([d for d, x in cands]) if hasattr(tm, 'orl') else not_(tm.andl([not_(d) for d, x in cands])), ins[-1], 'ensures', keep=not E.cfg.get('slim'))
    states = [E.fork(st) for _ in cands[1:]] + [st]
    out = []
    for s, (d, x) in zip(states, cands):
        try:
            if len(cands) > 1: E.assume(s, d)
            so = E.wobj(s, E.traces[a[0].args])
            E.oblige(s, TRACE_OB, and_(T if len(cands) > 1 else d, same2(tag, x[3])), ins[-1], 'ensures', keep=not E.cfg.get('slim'))
            nr = add(x[0], const(1, 64))
            so.arr = (w, nr)
            rw = ins[4].w
            v = x[2]
            v = zext(v, rw) if v.w < rw else extract(v, rw - 1, 0) if v.w > rw else v
            # sections of the sequence (vp_trace_mark): at the end of one, the next begins
            ends = [(e[1], k[2]) for k, e in so.cells.items() if k.__class__ is tuple and k[1] == nr.id and e[1] is not F]
            where = []
            stay = T
            for g, target in ends:
                k = E.known(s, g)
                if k is None: k = E.decide(s, g)
                if k is False: continue
                if k: where = [(T, target)]; stay = F; break
                where.append((g, target)); stay = and_(stay, not_(g))
            if stay is not F: where.append((stay, None))
            sub_ = [E.fork(s) for _ in where[1:]] + [s]
            for t, (g, target) in zip(sub_, where):
                try:
                    if g is not T: E.assume(t, g)
                    if target is not None:
                        to = E.wobj(t, E.traces[a[0].args]); to.arr = (w, const(target << 16, 64))
                    if len(cands) == 1 and len(where) == 1: return v
                    finish_call(E, t, t.frames[-1], v)
                    out.append(t)
                except Dead: pass
        except Dead:
            if len(cands) == 1: raise
    return out

def v_hint(E, st, a, ins):
    """vp_hint(x): x may be what merged values come to; a suggestion only, used where it is proved"""
    x = a[0]
    if x.op == 'zext': x = x.args[0]
    if x.op != 'const' and x not in E.hints: E.hints.append(x)
    return None

def v_trace_mark(E, st, a, ins):
    """vp_trace_mark(which, n): what is written from here on is section n; a name for positions, no part of the sequence"""
    o = E.wobj(st, E.traces[a[0].args])
    w, r = o.arr
    o.cells[('end', w.id, a[1].args)] = (w, T, T, T)
    o.arr = (const(a[1].args << 16, 64), r)
    return None

def v_trace_done(E, st, a, ins):
    o = st.mem[E.traces[a[0].args]]
    E.oblige(st, 'ensures: everything that was written has been read', eq(o.arr[0], o.arr[1]), ins[-1], 'ensures')
    return None
def v_trace_rewind(E, st, a, ins):
    o = E.wobj(st, E.traces[a[0].args]); o.arr = (o.arr[0], const(0, 64)); return None
def v_trace_reset(E, st, a, ins):
    o = E.wobj(st, E.traces[a[0].args]); o.cells = {}; o.arr = (const(0, 64), const(0, 64)); return None

def v_log(E, st, a, ins):
    print('LOG', cstr(E, st, a[0]), a[1]); return None
def v_symbolic(E, st, a, ins): return const(1, 32)
def v_kill(E, st, a, ins): raise Dead()

def x_abs(E, st, a, ins): return ite(tm.slt(a[0], const(0, a[0].w)), tm.neg(a[0]), a[0])

EXT = {
 'abs': x_abs, 'labs': x_abs, 'llabs': x_abs,
 '_Znwm': x_new, '_Znam': x_new, 'malloc': x_new, '_ZnwmSt11align_val_t': x_new, '_ZnwmRKSt9nothrow_t': x_new,
 '_ZdlPv': x_delete, '_ZdlPvm': x_delete, '_ZdaPv': x_delete, 'free': x_delete, '_ZdlPvmSt11align_val_t': x_delete, '_ZdaPvm': x_delete,
 'calloc': x_calloc, 'memcpy': x_memcpy, 'memmove': x_memcpy, 'memset': x_memset, 'memcmp': x_memcmp, 'bcmp': x_bcmp, 'strlen': x_strlen,
 '__cxa_allocate_exception': x_alloc_exc, '__cxa_free_exception': x_zero, '__cxa_throw': x_throw, '__cxa_begin_catch': x_begin_catch,
 '__cxa_end_catch': x_end_catch, '__cxa_rethrow': x_rethrow, '_ZSt9terminatev': x_terminate, 'abort': x_abort, '__assert_fail': x_assert_fail,
 '__clang_call_terminate': x_terminate, '__cxa_pure_virtual': x_pure_virtual, '__cxa_guard_acquire': x_guard_acquire,
 '__cxa_guard_release': x_guard_release, '__cxa_guard_abort': x_zero, '_ZSt21__glibcxx_assert_failPKciS0_S0_': x_abort,
 'vp_nondet': v_nondet, 'vp_assume': v_assume, 'vp_assert': v_assert, 'vp_cover': v_cover, 'vp_bytes': v_bytes, 'vp_fill': v_fill,
 'vp_trace_put': v_trace_put, 'vp_trace_put_word': v_trace_put_word, 'vp_trace_get_word': v_trace_get_word, 'vp_trace_get': v_trace_get, 'vp_trace_done': v_trace_done, 'vp_trace_mark': v_trace_mark, 'vp_hint': v_hint, 'vp_trace_rewind': v_trace_rewind, 'vp_trace_reset': v_trace_reset,
 'vp_uf': v_uf, 'vp_split': v_concretize, 'vp_cases': v_cases, 'vp_log': v_log, 'vp_symbolic': v_symbolic, 'vp_kill': v_kill,
 'pthread_mutex_lock': x_zero, 'pthread_mutex_unlock': x_zero,
}
