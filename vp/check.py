"""Driver: decide one property.
   check.py ID [--tier quick|thorough] [--entry NAME] [--keep]"""
import sys, os, re, json, time, subprocess, shutil, tempfile, traceback, hashlib, pickle, glob, multiprocessing, signal
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, ROOT)
sys.setrecursionlimit(100000)
LLVM = '/usr/lib/llvm-18/bin/'
INC = ['src/util', 'src/decoder', 'src/encoder', 'src/net', 'src/input']
CXX = ['-std=c++14', '-pthread', '-DNDEBUG', '-include', 'cstdint', '-fno-access-control']
IRFLAGS = ['-O1', '-Xclang', '-disable-llvm-passes', '-emit-llvm', '-c', '-fno-strict-aliasing', '-fwrapv', '-gline-tables-only', '-w',
           '-fno-vectorize', '-fno-slp-vectorize', '-fno-builtin', '-fno-threadsafe-statics']
PASSES = 'globaldce,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg),cgscc(inline,function(sroa,early-cse,instcombine<no-verify-fixpoint>,simplifycfg)),globaldce'
NPROC = int(os.environ.get('VP_JOBS', '8'))

class BuildError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if r.returncode:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd)[:400], r.stdout.decode(errors='replace')[-4000:]))
    return r.stdout.decode(errors='replace')

def parse_harness(path):
    d = {'path': path, 'sources': [], 'replace': [], 'noop': [], 'drop': [], 'flags': [], 'opts': {}, 'entries': {}, 'trusted': [], 'passes': PASSES}
    txt = open(path).read()
    for line in txt.splitlines():
        m = re.match(r'\s*//@\s*(\w+)\s*(\w*)\s*:\s*(.*)$', line)
        if not m: continue
        k, arg, v = m.group(1), m.group(2), m.group(3).strip()
        if k == 'sources': d['sources'] += v.split()
        elif k == 'replace':
            a, b = v.split('=>'); d['replace'].append((a.strip(), b.strip()))
        elif k == 'noop': d['noop'].append(v)
        elif k == 'drop':
            a, b = v.split('=>'); d['drop'].append((a.strip(), b.strip()))
        elif k == 'flags': d['flags'] += v.split()
        elif k == 'opts': d['opts'].update(dict(x.split('=') for x in v.split()))
        elif k == 'passes': d['passes'] = v
        elif k == 'trusted': d['trusted'].append(v)
        elif k == 'entry': d['entries'][arg] = dict(x.split('=') for x in v.split())
        else: raise BuildError('unknown directive %s in %s' % (k, path))
    d['names'] = re.findall(r'extern\s+"C"\s+void\s+((?:prove|bounded)_\w+)\s*\(', txt)
    # entries generated by macro: VP_ENTRY( name )
    d['names'] += re.findall(r'^PROOF\(\s*((?:prove|bounded)_\w+)\s*\)', txt, re.M)
    d['ensures'] = re.findall(r'ENSURES\s*\((?:[^;]|\n)*?"([^"]+)"\s*\)\s*;', txt)
    d['assumes'] = len(re.findall(r'\bREQUIRES\b|\bvp_assume\b', txt))
    return d

def make_overlay(h, work):
    if not h['drop']: return []
    # explicit instantiation directives (no code) that only g++ accepts where they stand
    files = {}
    for f, rx in h['drop']:
        src = files.get(f) or open(os.path.join(REPO, f)).read()
        files[f] = re.sub(rx, lambda m: '\n' * m.group(0).count('\n'), src, flags=re.M)
    roots = []
    for i, (f, txt) in enumerate(files.items()):
        o = os.path.join(work, 'ov%d.cc' % i)
        open(o, 'w').write(txt)
        roots.append({'type': 'file', 'name': os.path.join(REPO, f), 'external-contents': o})
    json.dump({'version': 0, 'use-external-names': False, 'roots': roots}, open(os.path.join(work, 'ov.json'), 'w'))
    return ['-ivfsoverlay', os.path.join(work, 'ov.json')]

def build(h, work):
    """compile harness + sources to one optimised bitcode file"""
    incs = ['-I' + os.path.join(ROOT, 'harness/include')] + ['-I' + os.path.join(REPO, i) for i in INC]
    ub = []
    if h['opts'].get('ubsan'): ub = ['-fsanitize=signed-integer-overflow', '-fsanitize-trap=all']
    jobs = []; outs = []
    overlay = make_overlay(h, work)
    for i, s in enumerate([h['path'], os.path.join(ROOT, 'harness/include/stdlib_inst.cc')] + [os.path.join(REPO, s) for s in h['sources']]):
        if not os.path.exists(s): raise BuildError('source file missing: ' + s)
        o = os.path.join(work, 'm%d.bc' % i)
        outs.append(o)
        fl = [] if h['opts'].get('threadsafe') else []
        cmd = ['clang++'] + overlay + CXX + IRFLAGS + ub + incs + h['flags'] + fl + [s, '-o', o]
        jobs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT))
    err = ''
    for p in jobs:
        out = p.communicate()[0].decode(errors='replace')
        if p.returncode: err += out
    if err: raise BuildError('compilation failed:\n' + err[-4000:])
    linked = os.path.join(work, 'linked.bc')
    sh([LLVM + 'llvm-link'] + outs + ['-o', linked])
    return linked

def demangle(names):
    p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
    return dict(zip(names, p.stdout.decode().split('\n')))

def prepare(h, work):
    """resolve replaced functions, mark them noinline, optimise"""
    linked = build(h, work)
    nm = sh([LLVM + 'llvm-nm', '--format=just-symbols', linked]).split()
    # llvm-nm hides nothing defined/undefined
    nm = [n for n in dict.fromkeys(nm)]
    dm = demangle(nm)
    rep = {}
    for pat, stub in h['replace']:
        opt = pat.startswith('?')
        if opt: pat = pat[1:].strip()
        rx = re.compile(pat)
        hits = [n for n in nm if rx.fullmatch(dm[n]) or n == pat]
        if not hits and not opt: raise BuildError('contract target not found in the code: ' + pat)
        for n in hits: rep[n] = stub
    noop = set()
    for pat in h['noop']:
        opt = pat.startswith('?')
        if opt: pat = pat[1:].strip()
        rx = re.compile(pat)
        hits = [n for n in nm if rx.fullmatch(dm[n]) or n == pat]
        if not hits and not opt: raise BuildError('noop target not found: ' + pat)
        noop.update(hits)
    keep = set(h['names']) | set(rep.values())
    from . import llir
    tmp = os.path.join(work, 'marked.bc')
    llir.mark_noinline(linked, tmp, set(rep) | noop | set(rep.values()) | keep, (REPO + '/src/', ))
    out = os.path.join(work, 'final.bc')
    sh([LLVM + 'opt', '-passes=internalize,' + h['passes'], '--internalize-public-api-list=' + ','.join(sorted(keep)), tmp, '-o', out])
    return out, rep, noop, dm

# ------------------------------------------------------------------ one entry
def run_entry(h, bc, rep, noop, entry, tier, sem, deadline, shard):
    from . import llir, execu, solve, terms as tm
    t0 = time.time()
    opt = dict(h['opts']); opt.update(h['entries'].get(entry, {}))
    solve.RENAME = bool(opt.get('slim'))
    cfg = {'mergeloops': [x for x in opt.get('mergeloops', '').split(',') if x], 'slim': int(opt.get('slim', 0)), 'replace': rep, 'noop': noop, 'max_iter': int(opt.get('max_iter', 5000)), 'max_states': int(opt.get('max_states', 3000)),
           'feas_ms': int(opt.get('feas_ms', 1000)), 'max_cand': int(opt.get('max_cand', 20000)),
           'nomerge': [x for x in opt.get('nomerge', '').split(',') if x], 'deadline': deadline,
           'shard': shard, 'shards': int(opt.get('shards', 1)), 'check_shift': opt.get('shift', '1') == '1', 'max_symcopy': int(opt.get('max_symcopy', 4096))}
    m = llir.Module(bc)
    E = execu.Engine(m, cfg)
    st = E.start(entry)
    st = E.run_ctors(st)
    E.push_frame(st, m.funcs[entry], [])
    E.deadline = t0 + 0.33 * (deadline - t0)
    stopped = None
    try: E.run_all(st)
    except execu.ToolError as e:
        # what was reached before is still worth looking at: a change that breaks the property often breaks the proof's course too
        if not E.obligations: raise
        stopped = e
    E.deadline = None
    texec = time.time() - t0
    # dedupe obligations
    obl = {}
    for o in E.obligations:
        k = (o['name'], o['cond'].id, tuple(c.id for c in o['pc']))
        obl.setdefault(k, o)
    obls = list(obl.values())
    if os.environ.get('VP_VERBOSE'):
        print('[%s] executed: %.1fs steps=%d forks=%d merges=%d failed-merges=%d obligations=%d feas=%d/%.1fs' %
              (entry, texec, E.steps, E.forks, E.merges, E.mergefail, len(obls), solve.Stats.feas, solve.Stats.feas_time), flush=True)
    tmo = float(opt.get('timeout', 60)) * (4 if tier == 'thorough' else 1)
    solvers = tuple(opt.get('solvers', 'z3,cvc5').split(','))
    tasks = [('o', i) for i in range(len(obls))]
    covers = []
    for n, pcs in E.covers.items(): covers.append((n, pcs))
    tasks += [('c', i) for i in range(len(covers))]
    tasks.append(('e', 0))   # self-test: end state reachable
    workd = os.path.dirname(bc)
    nsat = multiprocessing.Value('i', 0)
    def do(task):
        kind, i = task
        if time.time() > deadline: return ('unknown', 'check deadline', 0, None)
        t1 = time.time()
        if kind == 'o':
            o = obls[i]
            if nsat.value > 12: return ('skipped', 'others of this entry fail', 0, None)
            conds = solve.slice_(o['pc'], o['cond']) + [tm.not_(o['cond'])]
            few = solve.narrow(o['pc'], o['cond']) + [tm.not_(o['cond'])]
            if opt.get('slim') and len(few) < len(conds) and solve.quick(few, 1000) == 'unsat': return ('unsat', 'z3-api', time.time() - t1, None)
            r = solve.quick(conds, int(opt.get('quick_ms', 3000)))
            if r == 'unsat': return ('unsat', 'z3-api', time.time() - t1, None)
            # fetch a full model with the whole path condition when satisfiable
            if r == 'sat':
                conds = o['pc'] + [tm.not_(o['cond'])]
                with nsat.get_lock(): nsat.value += 1
                env = solve.quick_model(conds, 20000) if not E.sizes else None
                if env is not None:
                    env['__arrays__'] = {}
                    return ('sat', 'z3-api', time.time() - t1, env)
            r = solve.solve(conds, min(tmo, max(5, deadline - time.time())), workd, solvers)
            if r[0] == 'sat' and len(conds) != len(o['pc']) + 1:
                r2 = solve.solve(o['pc'] + [tm.not_(o['cond'])], min(tmo, max(5, deadline - time.time())), workd, solvers)
                if r2[0] != 'unknown': r = r2
            if r[0] == 'sat' and E.sizes:
                for lim in (64, 4096, 1 << 24):
                    small = [tm.ule(z, tm.const(lim, 64)) for z in E.sizes]
                    r2 = solve.solve(o['pc'] + small + [tm.not_(o['cond'])], 20, workd, solvers)
                    if r2[0] == 'sat': r = r2; break
            env = r[3]
            if env is not None:
                env = {k: v for k, v in env.items() if not isinstance(k, tuple)}
            return (r[0], r[1], time.time() - t1, env)
        if kind == 'c':
            best = 'unsat'
            for pc in covers[i][1]:
                r = solve.quick(list(pc), 20000)
                if r == 'unknown':
                    r = solve.solve(list(pc), min(tmo, max(5, deadline - time.time())), workd, solvers)[0]
                if r == 'sat': return ('sat', '', time.time() - t1, None)
                if r == 'unknown': best = 'unknown'
            return (best, '', time.time() - t1, None)
        if kind == 'e':
            if not E.finished: return ('unsat', '', 0, None)
            for s in E.finished:
                r = solve.quick(E.pc_list(s), 20000)
                if r != 'unsat': return ('sat', '', 0, None)
            return ('unsat', '', 0, None)
    if stopped:
        import random
        random.Random(1).shuffle(obls)
        obls = obls[:3000]
        deadline = min(deadline, time.time() + 60)
        tasks = [('o', i) for i in range(len(obls))]
    res = parallel(do, tasks, sem, 2 if opt.get('slim') else None)   # few workers: each remembers what it has solved
    if stopped and not any(r[0] == 'sat' for r in res): raise stopped
    out = {'entry': entry, 'exec_s': texec, 'steps': E.steps, 'forks': E.forks, 'merges': E.merges,
           'obligations': [], 'covers': {}, 'trivial': dict(E.trivial), 'feas': solve.Stats.feas, 'feas_s': solve.Stats.feas_time,
           'feas_unknown': solve.Stats.unknown, 'externals': sorted(E.externals_used), 'functions': {}, 'end_reachable': None, 'partial': bool(stopped),
           'nondets': {k: v for k, v in E.nondets.items()}}
    for (kind, i), r in zip(tasks, res):
        if kind == 'o':
            o = obls[i]
            d = {'name': o['name'], 'kind': o['kind'], 'loc': o['loc'], 'result': r[0], 'solver': r[1], 'secs': r[2], 'env': r[3]}
            out['obligations'].append(d)
        elif kind == 'c': out['covers'][covers[i][0]] = r[0]
        else: out['end_reachable'] = r[0] == 'sat'
    for fn in E.seen_funcs:
        f = m.func_file(fn)
        if f and '/src/' in f and f.startswith(REPO): out['functions'][fn] = os.path.relpath(f, REPO)
    out['wall'] = time.time() - t0
    return out

def parallel(fn, tasks, sem, n=None):
    n = n or NPROC
    if len(tasks) <= 2:
        return [fn(t) for t in tasks]
    n = min(n, len(tasks))
    ctr = multiprocessing.Value('i', 0)
    pipes = []
    for w in range(n):
        r, wfd = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            out = []
            try:
                with os.fdopen(wfd, 'wb') as f:
                    while True:
                        with ctr.get_lock():
                            i = ctr.value; ctr.value += 1
                        if i >= len(tasks): break
                        sem.acquire()
                        try: v = fn(tasks[i])
                        except Exception as e: v = ('unknown', 'internal: ' + repr(e)[:300], 0, None)
                        finally: sem.release()
                        out.append((i, v))
                    pickle.dump(out, f)
            finally: os._exit(0)
        os.close(wfd)
        pipes.append((pid, r))
    res = [('unknown', 'worker died', 0, None)] * len(tasks)
    for pid, r in pipes:
        with os.fdopen(r, 'rb') as f:
            try:
                for i, v in pickle.load(f): res[i] = v
            except EOFError: pass
        os.waitpid(pid, 0)
    return res

def entry_proc(h, bc, rep, noop, entry, tier, sem, deadline, outpath, shard):
    try:
        r = run_entry(h, bc, rep, noop, entry, tier, sem, deadline, shard)
    except Exception as e:
        r = {'entry': entry, 'error': '%s: %s' % (type(e).__name__, str(e)[:1500]), 'trace': traceback.format_exc()[-3000:]}
    with open(outpath, 'wb') as f: pickle.dump(r, f)

# ------------------------------------------------------------------ replay
def native_replay(h, entry, o, work, prop, tag, search=0):
    """build the same harness natively with the real code and run the counterexample"""
    env = o.get('env') or {}
    vals = os.path.join(work, 'vals_%s.txt' % tag)
    with open(vals, 'w') as f:
        for k, v in env.items():
            if k == '__arrays__':
                for an, d in v.items():
                    for i, b in d.items(): f.write('a %s %d %d\n' % (an, i, b))
            elif isinstance(v, int): f.write('v %s %d\n' % (k.replace(' ', '_'), v))
    exe = os.path.join(work, 'replay_' + entry)
    incs = ['-I' + os.path.join(ROOT, 'harness/include')] + ['-I' + os.path.join(REPO, i) for i in INC]
    if not os.path.exists(exe):
        cmd = ['clang++'] + make_overlay(h, work) + CXX + ['-g', '-O1', '-w', '-fsanitize=address,shift-exponent,integer-divide-by-zero', '-fno-sanitize-recover=all', '-fno-strict-aliasing', '-fwrapv', '-DVP_NATIVE', '-DVP_ENTRY=' + entry] + \
              (['-fsanitize=signed-integer-overflow', '-fno-sanitize-recover=all'] if h['opts'].get('ubsan') else []) + \
              incs + h['flags'] + [h['path'], os.path.join(ROOT, 'harness/include/replay.cc')] + \
              [os.path.join(REPO, s) for s in h['sources']] + ['-no-pie', '-fno-pie', '-Wl,-z,lazy', '-Wl,--unresolved-symbols=ignore-all', '-o', exe]
        try: sh(cmd, timeout=240)
        except (BuildError, subprocess.TimeoutExpired) as e: return False, 'replay build failed: ' + str(e)[-1500:], open(vals).read()
    e = dict(os.environ); e['VP_REPLAY'] = vals
    if search: e['VP_SEARCH'] = str(search)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:alloc_dealloc_mismatch=0:allocator_may_return_null=0:max_malloc_fill_size=1048576:malloc_fill_byte=0:max_allocation_size_mb=4096'
    try:
        r = subprocess.run([exe], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60 + search, cwd=work)
        txt = r.stdout.decode(errors='replace'); code = r.returncode
    except subprocess.TimeoutExpired: return False, 'replay timed out', open(vals).read()
    ok = False
    if 'pc 0x000000000000' in txt: ok = False   # a function outside the harness was not linked: says nothing about the code
    elif code == 10: ok = True
    elif code not in (0, 77, 78, 99) and ('Sanitizer' in txt or 'runtime error' in txt or 'terminate called' in txt): ok = True
    return ok, 'exit %d\n%s' % (code, txt[-4000:]), open(vals).read()

# ------------------------------------------------------------------ main
def load_known(prop):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+entry=(\S+)\s+obligation="([^"]*)"(?:\s+at=(\S+))?\s+(.*)$', line.strip())
            if m and m.group(1) == prop: out.append({'entry': m.group(2), 'name': m.group(3), 'at': m.group(4), 'what': m.group(5)})
    return out

def main():
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--entry'); ap.add_argument('--keep', action='store_true'); ap.add_argument('--budget', type=float)
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    budget = a.budget or (780 if a.tier == 'quick' else 7200)
    deadline = t0 + budget
    evd = os.path.join(ROOT, 'evidence'); os.makedirs(evd, exist_ok=True)
    work = tempfile.mkdtemp(prefix='vp_%s_' % prop)
    code = 2
    try:
        code = decide(prop, a, work, deadline, t0, evd)
    except BuildError as e:
        print('ERROR: %s' % e); code = 2
    except Exception:
        traceback.print_exc(); code = 2
    finally:
        if not a.keep: shutil.rmtree(work, ignore_errors=True)
        else: print('kept', work)
    sys.stdout.flush()
    sys.exit(code)

def decide(prop, a, work, deadline, t0, evd):
    files = sorted(glob.glob(os.path.join(ROOT, 'harness', prop, '*.cc')))
    if not files: raise BuildError('no harness for ' + prop)
    sem = multiprocessing.Semaphore(NPROC)
    todo = []; skipped = []
    hs = []
    preps = []
    # prepare all harness files in parallel
    for i, f in enumerate(files):
        h = parse_harness(f)
        names = [n for n in h['names'] if not a.entry or re.fullmatch(a.entry, n)]
        names = [n for n in names if a.tier == 'thorough' or h['entries'].get(n, {}).get('tier') != 'thorough']
        if not names: continue
        w = os.path.join(work, 'h%d' % i); os.makedirs(w)
        h['work'] = w
        hs.append((h, names))
    def prep(k):
        h, names = hs[k]
        try: return ('ok',) + prepare(h, h['work'])
        except BuildError as e: return ('err', str(e))
    preps = parallel(prep, list(range(len(hs))), sem)
    unbuilt = []
    for (h, names), r in zip(hs, preps):
        if r[0] != 'ok':
            unbuilt.append('%s: none of its obligations could be generated from the current source: %s' % (os.path.relpath(h['path'], ROOT), r[1])); continue
        h['bc'], h['rep'], h['noop_'], h['dm'] = r[1:]
        for n in names:
            need = h['entries'].get(n, {}).get('needs')
            if need and not (need in h['rep'].values() or any(re.fullmatch(need, x) for x in h['dm'].values())):
                skipped.append('%s (contract target %s not in the code)' % (n, need)); continue
            for sh_ in range(int(h['entries'].get(n, {}).get('shards', 1))): todo.append((h, n, sh_))
    if not todo and not unbuilt: raise BuildError('no entries')
    # longest first when annotated
    todo.sort(key=lambda x: -float(x[0]['entries'].get(x[1], {}).get('cost', 10)))
    results = {}
    running = []
    queue = list(todo)
    maxpar = NPROC
    while queue or running:
        while queue and len(running) < maxpar:
            h, n, sd = queue.pop(0)
            op = os.path.join(h['work'], '%s.%d.pkl' % (n, sd))
            p = multiprocessing.get_context('fork').Process(target=entry_proc, args=(h, h['bc'], h['rep'], h['noop_'], n, a.tier, sem, deadline, op, sd))
            p.start(); running.append((p, h, n, op, sd))
        time.sleep(0.02)
        nr = []
        for x in running:
            if x[0].is_alive():
                if time.time() > deadline + 60: x[0].kill()
                nr.append(x); continue
            p, h, n, op, sd = x
            if os.path.exists(op):
                with open(op, 'rb') as f: r = pickle.load(f)
            else: r = {'entry': n, 'error': 'process died (exit %s)' % p.exitcode}
            if os.environ.get('VP_VERBOSE'):
                print('[%s.%d] %s' % (n, sd, r.get('error') or '%d obligations, %.1fs' % (len(r['obligations']), r['wall'])), flush=True)
                if 'trace' in r: print(r['trace'])
            if n not in results: results[n] = (h, r)
            else:
                q = results[n][1]
                if 'error' in q: pass
                elif 'error' in r: results[n] = (h, r)
                else:
                    q['obligations'] += r['obligations']
                    for k, v in r['trivial'].items(): q['trivial'][k] = q['trivial'].get(k, 0) + v
                    for k, v in r['covers'].items():
                        if q['covers'].get(k) != 'sat': q['covers'][k] = v
                    q['functions'].update(r['functions'])
                    for k in ('steps', 'feas', 'forks', 'merges'): q[k] += r[k]
        running = nr
    known = load_known(prop)
    errors = list(unbuilt); fails = []; kf = []; undecided = {}
    for (h, names), r in zip(hs, preps):
        if r[0] != 'ok':
            for n in names: undecided[n] = (h, {'env': {}})
    nob = ndis = 0; solver_s = {}; bounded = []; fns = {}; exts = set(); trusted = set(); names_reached = set()
    nb_ob = nb_dis = 0
    samples = []
    for n, (h, r) in sorted(results.items()):
        if 'error' in r: errors.append('%s: %s' % (n, r['error'])); undecided[n] = (h, {'env': {}}); continue
        b = n.startswith('bounded_')
        if b: bounded.append(n)
        triv = sum(r['trivial'].values())
        fns.update(r['functions']); exts.update(r['externals'])
        trusted.update(h['trusted'])
        names_reached.update(k.replace('ensures: ', '') for k in r['trivial'])
        tot = triv + len(r['obligations']); dis = triv
        if triv: solver_s.setdefault('simplifier', [0, 0.0])[0] += triv
        for o in r['obligations']:
            names_reached.add(o['name'].replace('ensures: ', ''))
            if o['result'] == 'unsat':
                dis += 1
                s = solver_s.setdefault(o['solver'], [0, 0.0]); s[0] += 1; s[1] += o['secs']
            elif o['result'] == 'sat':
                k = next((k for k in known if k['entry'] == n and k['name'] == o['name'] and (not k['at'] or k['at'] == '%s:%s' % (os.path.basename(o['loc']['file'] or ''), o['loc']['line']))), None)
                if k: kf.append(k)
                else: fails.append((n, h, o))
            elif o['result'] != 'skipped':
                undecided.setdefault(n, (h, {'env': {}}))
                errors.append('%s: obligation undecided (%s): %s at %s' % (n, o['solver'], o['name'], o['loc']))
        if b: nb_ob += tot; nb_dis += dis
        else: nob += tot; ndis += dis
        if tot == 0: errors.append('%s: vacuous, no obligation generated' % n)
        if r['partial']: errors.append('%s: not executed to the end' % n); continue
        if not r['covers']: errors.append('%s: no cover (vacuity check) reached' % n)
        for c, v in r['covers'].items():
            if v != 'sat': errors.append('%s: vacuity check %s: %s' % (n, c, v))
        if len(samples) < 12 and r['obligations']:
            o = r['obligations'][-1]
            samples.append('%s: %s [%s by %s, %.2fs]' % (n, o['name'], o['result'], o['solver'], o['secs']))
    if not a.entry:
        for (h, names) in hs:
            if h['opts'].get('allnames', '1') != '1' or a.tier not in ('quick', 'thorough'): continue
            if [n for n in h['names'] if n not in names] or skipped: continue
            for e in h['ensures']:
                if e not in names_reached and not errors and not fails: errors.append('vacuous: postcondition never reached: ' + e)
    lines = []
    code = 0
    viol = 0
    for k in {(x['entry'], x['name'], x['at'], x['what']): x for x in kf}.values():
        lines.append('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if fails:
        code = 1
        # one replay per (entry, obligation name); prefer ensures
        order = {'ensures': 0, 'assert': 1, 'exc': 2, 'mem': 3}
        fails.sort(key=lambda x: (order.get(x[2]['kind'], 5), not x[0].startswith('prove'), x[0]))
        seen = set(); chosen = []
        for x in fails:
            k = (x[0], x[2]['name'])
            if k in seen: continue
            seen.add(k); chosen.append(x)
        rdir = os.path.join(evd, 'replay', prop)
        shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
        conf = None; first = None
        for i, (n, h, o) in enumerate(chosen[:6]):
            if i and time.time() > deadline: break
            ok, txt, vals = native_replay(h, n, o, h['work'], prop, '%d' % i)
            p = os.path.join(rdir, '%d_%s.txt' % (i, n))
            with open(p, 'w') as f:
                f.write('property: %s\nharness: %s\nentry: %s\nfailed obligation: %s\nkind: %s\nlocation: %s\nsolver: %s\n' %
                        (prop, os.path.relpath(h['path'], ROOT), n, o['name'], o['kind'], json.dumps(o['loc']), o['solver']))
                f.write('replayed natively against the real code: %s\n--- counterexample (v name value / a array index byte)\n%s--- native run\n%s\n' % ('CONFIRMED' if ok else 'not confirmed', vals, txt))
            viol += 1
            if first is None: first = p
            if ok and conf is None:
                conf = p
                break
        if conf is None:
            # the counterexample does not fail as it stands: look for one that does, near it and at random
            tried = {}
            for i, (n, h, o) in enumerate(chosen[:6]): tried.setdefault((id(h), n), (i, n, h, o))
            def search(i):
                j, n, h, o = list(tried.values())[i]
                return native_replay(h, n, o, h['work'], prop, 's%d' % j, 20)
            if time.time() + 60 < deadline + 90:
                for i, (ok, txt, vals) in enumerate(parallel(search, list(range(len(tried))), sem)):
                    j, n, h, o = list(tried.values())[i]
                    p = os.path.join(rdir, '%d_%s.txt' % (j, n))
                    with open(p, 'a') as f: f.write('--- native search around the counterexample%s\n%s\n' % (': CONFIRMED' if ok else '', txt))
                    if ok and conf is None: conf = p
        for n, h, o in chosen[:20]:
            lines.append('FAILED obligation [%s] %s at %s:%s' % (n, o['name'], os.path.basename(o['loc']['file'] or '?'), o['loc']['line']))
        viol = len(chosen)
        if conf: lines.append('VIOLATION property=%s replay=%s' % (prop, conf))
        else: lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, first))
    elif errors:
        # obligations that could not be generated or not be discharged: not proved, so reported; look for an input that fails
        code = 1; viol = 1
        rdir = os.path.join(evd, 'replay', prop)
        shutil.rmtree(rdir, ignore_errors=True); os.makedirs(rdir)
        first = os.path.join(rdir, 'undischarged.txt')
        with open(first, 'w') as f: f.write('property: %s\nobligations that were not discharged:\n%s\n' % (prop, '\n'.join(errors)))
        conf = None
        todo_ = sorted(undecided.items())[:8]
        def search_(i):
            n, (h, o) = todo_[i]
            return native_replay(h, n, o, h['work'], prop, 'u%d' % i, 20)
        if time.time() < deadline + 30:
            for (n, _), (ok, txt, vals) in zip(todo_, parallel(search_, list(range(len(todo_))), sem)):
                with open(first, 'a') as f: f.write('--- native search, entry %s%s\n%s\n' % (n, ': CONFIRMED' if ok else '', txt))
                if ok: conf = first
        lines.append('VIOLATION property=%s replay=%s%s' % (prop, first, '' if conf else ' no-failing-input-found'))
    for e in errors[:30]: lines.append('ERROR: ' + e)
    wall = time.time() - t0
    base = ['clang 18 front end and LLVM mid-level passes (%s) as the extraction of the C++ text to IR' % PASSES,
            'vp (this repository): IR semantics, memory model, VC generation', 'SMT solvers: z3 5.x, cvc5 1.1.2',
            'contracts of the C/C++ runtime modelled by the verifier: operator new/delete, memcpy/memset/memcmp, exception throwing, std::exception hierarchy']
    ev = {'property': prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': int(os.environ.get('VERIF_SEED', '1')),
          'level': 'proof',
          'coverage': {'obligations': nob, 'discharged': ndis, 'checker_cmd': './check %s' % prop,
                       'trusted_base': base + sorted(trusted),
                       'entries': len(results), 'bounded_entries': bounded, 'skipped_entries': skipped, 'bounded_obligations': nb_ob, 'bounded_discharged': nb_dis,
                       'functions_verified': sorted('%s (%s)' % (k, v) for k, v in demangled(fns).items()),
                       'functions_verified_count': len(fns),
                       'discharged_by': {k: {'obligations': v[0], 'solver_seconds': round(v[1], 2)} for k, v in solver_s.items()},
                       'symbolic_steps': sum(r.get('steps', 0) for h, r in results.values()),
                       'branch_feasibility_queries': sum(r.get('feas', 0) for h, r in results.values()),
                       'vacuity_checks': sum(len(r.get('covers', {})) for h, r in results.values()),
                       'samples': samples},
          'assumptions': sorted(trusted) + ['external or stubbed: ' + x for x in sorted(exts)] +
                         ['signed arithmetic has two\'s-complement wrap-around meaning (-fwrapv)', 'memory allocation succeeds', 'single-threaded execution'],
          'wall_s': round(wall, 2), 'violations': viol, 'errors': errors[:20]}
    if not a.entry:
        with open(os.path.join(evd, prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('property %s: %d entries, %d/%d obligations discharged (+%d/%d bounded), %d repository functions, %.1fs' %
          (prop, len(results), ndis, nob, nb_dis, nb_ob, len(fns), wall))
    for l in lines: print(l)
    return code

def demangled(fns):
    d = demangle(list(fns)) if fns else {}
    return {d.get(k, k): v for k, v in fns.items()}

if __name__ == '__main__':
    main()
