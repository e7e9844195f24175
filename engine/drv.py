"""Check driver: build the harness, explore it symbolically, replay counterexamples natively."""
import sys, os, time, json, subprocess, tempfile, shutil, re, math, multiprocessing as mp, traceback, gc
from fractions import Fraction
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, VERIF)
sys.setrecursionlimit(100000)
REPO = os.environ.get('VERIF_REPO', '/repo')
import z3
import llir, symex, rexpr

BASE = ['-std=c++17', '-w', '-ffp-contract=off', '-I' + VERIF + '/rt']
SYM = ['-O1', '-gline-tables-only', '-S', '-emit-llvm', '-DVS_SYMBOLIC', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fno-discard-value-names',
       '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-DEIGEN_DONT_VECTORIZE', '-DEIGEN_MAX_STATIC_ALIGN_BYTES=0', '-fno-builtin-printf',
       '-fno-use-cxa-atexit', '-fno-pic', '-U_FORTIFY_SOURCE', '-I' + VERIF + '/stubs/sym']
NAT = ['-O1', '-g1', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-ftrivial-auto-var-init=pattern', '-rdynamic',
       '-fno-omit-frame-pointer', '-DEIGEN_DONT_VECTORIZE']
ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:alloc_dealloc_mismatch=0',
           UBSAN_OPTIONS='print_stacktrace=0:halt_on_error=1')


def flags(u):
    f = []
    for i in u.get('inc', []):
        f.append('-I' + i.replace('$REPO', REPO).replace('$VERIF', VERIF))
    return f + [x.replace('$REPO', REPO).replace('$VERIF', VERIF) for x in u.get('flags', [])]


def build(u, d, tier, k):
    src = os.path.join(VERIF, 'harness', u['src'])
    common = BASE + flags(u) + ['-DVS_TIER=%d' % (2 if tier == 'thorough' else 1), '-DREPO_DIR="%s"' % REPO]
    ll = '%s/u%d.ll' % (d, k); exe = '%s/u%d.exe' % (d, k)
    p1 = subprocess.Popen(['clang++'] + SYM + common + u.get('symflags', []) + [src, '-o', ll], stderr=subprocess.PIPE, stdout=subprocess.DEVNULL)
    p2 = subprocess.Popen(['clang++'] + NAT + common + ['-I' + VERIF + '/stubs/nat'] + u.get('natflags', []) + [src, VERIF + '/rt/vs_rt.cpp', '-o', exe, '-ldl', '-lm'] + u.get('libs', []),
                          stderr=subprocess.PIPE, stdout=subprocess.DEVNULL)
    e2 = p2.communicate()[1]; e1 = p1.communicate()[1]
    if p1.returncode or p2.returncode:
        raise RuntimeError('build of %s failed:\n%s' % (u['src'], (e1 + e2).decode()[-3000:]))
    return ll, exe


def entries(u):
    """entry -> reach labels, from the harness text"""
    txt = open(os.path.join(VERIF, 'harness', u['src'])).read()
    out = {}
    for mm in re.finditer(r'^HARNESS\((\w+)\)(.*?)^\}', txt, re.S | re.M):
        out[mm.group(1)] = re.findall(r'vs_reach\("([^"]+)"\)', mm.group(2))
    return out


_mods = {}


def explore(job):
    """worker: symbolic exploration of one entry"""
    ukey, entry, opts = job
    t0 = time.time()
    rexpr.reset(); rexpr.ROUND = False
    res = {'entry': entry, 'unit': ukey}
    ex = None
    try:
        ex = symex.Executor(_mods[ukey], opts)
        try:
            ex.run(entry)
        except symex.Budget as b:
            res['budget'] = str(b)
        except llir.Unsupported as e:
            res['unsupported'] = str(e)
        except rexpr.NFTooBig:
            res['unsupported'] = 'normal form too large'
        except rexpr.RealUnsupported as e:
            res['unsupported'] = 'real: ' + str(e)
    except Exception:
        res['error'] = traceback.format_exc()[-3000:]
    if ex is not None:
        res.update(obls=ex.obls, cands=[(l, dt, ins, s) for l, dt, ins, s in ex.cands], undecided=ex.undecided, reached=sorted(ex.reached),
                   paths=ex.paths, instrs=ex.instrs, queries=ex.st_queries, qtime=ex.st_qtime, sat=ex.st_sat, unsat=ex.st_unsat,
                   unknown=ex.st_unknown, funcs=dict(ex.funcs_run), notes=sorted(ex.notes))
    res['wall'] = time.time() - t0
    return res


def concrete(job):
    """worker: run recorded concrete inputs through the executor, return observations"""
    ukey, entry, vals, opts = job
    rexpr.reset(); rexpr.ROUND = True
    try:
        o = dict(opts); o['concrete'] = vals; o['time'] = 60
        ex = symex.Executor(_mods[ukey], o)
        ex.run(entry)
        if ex.cands:
            return ('cand', ex.cands[0][0] + ': ' + ex.cands[0][1])
        return ('ok', ex.last.obs if hasattr(ex, 'last') else [])
    except (llir.Unsupported, symex.Budget) as e:
        return ('unsupported', str(e))
    except Exception:
        return ('error', traceback.format_exc()[-1500:])
    finally:
        rexpr.ROUND = False


def merge(rs):
    r = rs[0]
    for q in rs[1:]:
        for l, o in q.get('obls', {}).items():
            t = r['obls'].setdefault(l, [0, 0, 0])
            for i in range(3):
                t[i] += o[i]
        for k in ('cands', 'undecided'):
            r[k] = r.get(k, []) + q.get(k, [])
        r['reached'] = sorted(set(r.get('reached', [])) | set(q.get('reached', [])))
        r['notes'] = sorted(set(r.get('notes', [])) | set(q.get('notes', [])))
        for k in ('paths', 'instrs', 'queries', 'qtime', 'sat', 'unsat', 'unknown'):
            r[k] = r.get(k, 0) + q.get(k, 0)
        for f, n in q.get('funcs', {}).items():
            r['funcs'][f] = r['funcs'].get(f, 0) + n
        for k in ('budget', 'unsupported', 'error'):
            if q.get(k):
                r[k] = q[k]
        r['wall'] = max(r['wall'], q['wall'])
    return r


def native(exe, args, timeout):
    try:
        p = subprocess.run([exe] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=ENV, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, '', ''
    return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')


def write_inputs(path, inputs):
    with open(path, 'w') as f:
        for n, k, v in inputs:
            f.write('IN %s %s %s\n' % (n.replace(' ', '_'), k, float(v).hex() if k == 'd' else int(v)))


def parse_fail(out):
    mm = re.search(r'^FAIL (.*)$', out, re.M)
    return mm.group(1) if mm else None


def mine(label, pid):
    return True


class Check:
    def __init__(self, pid, prop, tier, seed):
        self.pid = pid; self.prop = prop; self.tier = tier; self.seed = seed
        self.t0 = time.time()
        self.viol = []
        self.inconc = []; self.undec = []
        self.known = []

    def run(self):
        prop = self.prop
        th = self.tier == 'thorough'
        limit = prop.get('limit', {}).get(self.tier, 780 if th else 240)
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        d = tempfile.mkdtemp(prefix='vs_')
        self.d = d
        try:
            return self._run(prop, th, limit, rdir, d)
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def _run(self, prop, th, limit, rdir, d):
        pid = self.pid
        units = prop['units']
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as tp:
            futs = [tp.submit(build, u, d, self.tier, k) for k, u in enumerate(units)]
            built = [f.result() for f in futs]
        tb = time.time() - self.t0
        jobs = []
        ents = []
        for k, u in enumerate(units):
            _mods[k] = llir.Module(open(built[k][0]).read())
            ee = entries(u)
            sel = u.get('entries') or [e for e in ee if not e.startswith('kf_')]
            if th:
                sel = sel + u.get('thorough_entries', [])
            for e in sel:
                if e not in ee:
                    raise RuntimeError('no harness ' + e)
                o = {'time': max(20, limit - tb - 30), 'qtimeout': 20000 if th else 10000, 'max_paths': 600000 if th else 40000}
                o.update(u.get('opts', {}))
                o.update(u.get('opts_' + self.tier, {}))
                o.update(u.get('eopts', {}).get(e, {}))
                jobs.append((k, e, o))
                ents.append((k, e, ee[e]))
            for e in ee:
                if e.startswith('kf_') and (not u.get('kf') or e in u['kf']):
                    self.kf(k, e, built[k][1], prop)
        # translator validation inputs
        nval = 12 if th else 4
        vjobs = []
        vmeta = []
        self.valfail = []
        for (k, e, o) in jobs:
            rc, out, err = native(built[k][1], [e, 'dump', str(nval), str(self.seed)], 60)
            lab = parse_fail(out)
            if rc == 1 and lab is not None:
                p = '%s/%s_%s_val.txt' % (rdir, pid, e)
                open(p, 'w').write('# entry %s unit %s\n' % (e, units[k]['src']) + out[out.index('FAIL'):])
                self.viol.append((e, lab, 'failing execution of the real code during validation', p))
                continue
            if rc != 0:
                self.inconc.append('%s: native validation run failed rc=%s %s' % (e, rc, err[-300:]))
                continue
            for r in out.split('RUN\n')[1:]:
                vals = []; ob = []
                for ln in r.split('\n'):
                    q = ln.split(' ')
                    if q[0] == 'IN':
                        vals.append(float.fromhex(q[3]) if q[2] == 'd' else int(q[3]))
                    elif q[0] == 'OB':
                        ob.append((q[1], float.fromhex(q[3]) if q[2] == 'd' else int(q[3])))
                vjobs.append((k, e, vals, {kk: vv for kk, vv in o.items() if kk != 'concrete'}))
                vmeta.append((e, ob))
        gc.collect(); gc.freeze()
        ctx = mp.get_context('fork')
        results = []
        traces = 0; vobs = 0
        with ctx.Pool(8, maxtasksperchild=1) as pool:
            ar = []
            for j in jobs:
                ns = j[2].get('shards', 1)
                ar.append([pool.apply_async(explore, ((j[0], j[1], dict(j[2], shard=(i, ns) if ns > 1 else None)),)) for i in range(ns)])
            av = [pool.apply_async(concrete, (j,)) for j in vjobs]
            for j, a in zip(jobs, ar):
                left = self.t0 + limit + 40 - time.time()
                try:
                    results.append(merge([x.get(max(left, 1)) for x in a]))
                except mp.TimeoutError:
                    results.append({'entry': j[1], 'unit': j[0], 'budget': 'wall', 'obls': {}, 'cands': [], 'undecided': [], 'reached': [], 'paths': 0,
                                    'instrs': 0, 'queries': 0, 'qtime': 0, 'sat': 0, 'unsat': 0, 'unknown': 0, 'funcs': {}, 'notes': [], 'wall': 0})
            for (e, ob), a in zip(vmeta, av):
                left = self.t0 + limit + 60 - time.time()
                try:
                    r = a.get(max(left, 1))
                except mp.TimeoutError:
                    continue
                if r[0] != 'ok':
                    self.inconc.append('%s: executor validation: %s %s' % (e, r[0], r[1]))
                    continue
                if len(r[1]) != len(ob):
                    self.inconc.append('%s: executor validation: %d observations vs %d native' % (e, len(r[1]), len(ob)))
                    continue
                bad = None
                for (l1, v1), (l2, v2) in zip(ob, r[1]):
                    vobs += 1
                    if l1 != l2 or not same(v1, v2):
                        bad = (l1, v1, l2, v2)
                if bad:
                    self.inconc.append('%s: executor disagrees with the compiled code: %r' % (e, bad))
                else:
                    traces += 1
        samples = []
        searched = set()
        for r, (k, e, reach) in zip(results, ents):
            if 'error' in r:
                self.inconc.append('%s: engine error %s' % (e, r['error']))
                continue
            labs = set()
            for n, (lab, det, ins, sat) in enumerate(r['cands']):
                if lab in labs:
                    continue
                p = '%s/%s_%s_%d.txt' % (rdir, pid, e, n)
                write_inputs(p, ins)
                rc, out, err = native(built[k][1], [e, 'replay', p], 40)
                fl = parse_fail(out)
                if rc == 1 and fl is not None:
                    with open(p, 'w') as f:
                        f.write('# entry %s harness %s obligation %s (%s)\n' % (e, units[k]['src'], lab, det) + out[out.index('FAIL'):])
                    self.viol.append((e, fl, det, p)); labs.add(lab)
            left = [c for c in r['cands'] if c[0] not in labs]
            und = r['undecided']
            unresolved = ([('cand', c[0], c[1]) for c in left] + [('undecided', u_[0], u_[1]) for u_ in und])
            if r.get('budget') or r.get('unsupported'):
                unresolved.append(('incomplete', r.get('budget') or '', r.get('unsupported') or ''))
            if unresolved and not any(v[0] == e for v in self.viol):
                # look for a concrete witness of the open obligations in the real code
                found = False
                seeds = [c[2] for c in left][:3] + [None]
                for n, b in enumerate(seeds):
                    a = [e, 'search', '200000', str(self.seed + n), '25' if th else '8']
                    if b is not None:
                        p0 = '%s/base_%s_%d.txt' % (self.d, e, n)
                        write_inputs(p0, b)
                        a.append(p0)
                    rc, out, err = native(built[k][1], a, 90)
                    fl = parse_fail(out)
                    if rc == 1 and fl is not None:
                        p = '%s/%s_%s_s%d.txt' % (rdir, pid, e, n)
                        with open(p, 'w') as f:
                            f.write('# entry %s harness %s (witness found by search for the open obligations %s)\n' % (e, units[k]['src'], unresolved[:3]) + out[out.index('FAIL'):])
                        self.viol.append((e, fl, 'open: %s' % (unresolved[:1],), p))
                        found = True
                        break
                if not found:
                    tot = sum(sum(o) for o in r.get('obls', {}).values())
                    few = not left and not r.get('budget') and not r.get('unsupported') and len(und) * 20 <= tot
                    (self.undec if few else self.inconc).append('%s: %s' % (e, unresolved[:6]))
            elif not unresolved and not r['cands']:
                miss = [l for l in reach if l not in r['reached']]
                if miss or not reach:
                    self.inconc.append('%s: vacuous, never reached %s' % (e, miss))
        self.results = results
        self.evidence(results, ents, traces, vobs, tb)
        out = []
        for e, lab, det, p in self.viol:
            print('VIOLATION property=%s replay=%s' % (pid, p))
            print('  obligation %s in %s: %s' % (lab, e, det))
        for x in self.undec:
            print('UNDECIDED %s %s' % (pid, x))
        for x in self.known:
            print('KNOWN-FINDING: property=%s %s' % (pid, x))
        nd = sum(o[0] for r in results for o in r.get('obls', {}).values())
        print('%s %s: %d harnesses, %d paths, %d obligations discharged, %d solver queries (%.1fs), %d traces validated, %.1fs' % (
            pid, self.tier, len(results), sum(r.get('paths', 0) for r in results), nd, sum(r.get('queries', 0) for r in results),
            sum(r.get('qtime', 0) for r in results), traces, time.time() - self.t0))
        if self.viol:
            return 1
        if self.inconc:
            for x in self.inconc:
                print('INCONCLUSIVE %s %s' % (pid, x))
            return 2
        return 0

    def kf(self, k, e, exe, prop):
        rc, out, err = native(exe, [e, 'search', '1', '1', '5'], 30)
        fl = parse_fail(out)
        what = prop.get('known', {}).get(e)
        if rc == 1 and fl is not None and what:
            self.known.append(what)

    def evidence(self, results, ents, traces, vobs, tb):
        prop = self.prop
        th = self.tier == 'thorough'
        funcs = {}
        for r in results:
            for f, n in r.get('funcs', {}).items():
                funcs[f] = funcs.get(f, 0) + n
        names = sorted({x for m in _mods.values() for x in m.sources(list(funcs), os.path.realpath(REPO))})
        harn = [{'entry': r['entry'], 'paths': r.get('paths', 0), 'instructions': r.get('instrs', 0), 'queries': r.get('queries', 0), 'sat': r.get('sat', 0),
                 'unsat': r.get('unsat', 0), 'unknown': r.get('unknown', 0), 'solver_s': round(r.get('qtime', 0), 2), 'obligations': r.get('obls', {}),
                 'reached': r.get('reached', []), 'notes': r.get('notes', []), 'wall_s': round(r.get('wall', 0), 2)} for r in results]
        obl = sum(sum(o) for r in results for o in r.get('obls', {}).values())
        dis = sum(o[0] for r in results for o in r.get('obls', {}).values())
        level = prop.get('level', 'model_checking')
        cov = {'states': sum(r.get('paths', 0) for r in results), 'transitions': sum(r.get('instrs', 0) for r in results),
               'traces_validated_against_impl': traces, 'observations_compared': vobs,
               'samples': [{'entry': v[0], 'label': v[1], 'replay': v[3]} for v in self.viol][:5] or
                          [{'entry': h['entry'], 'obligations': h['obligations']} for h in harn][:4],
               'meaning': 'states = complete symbolic paths; transitions = LLVM instructions executed symbolically; obligations are decided by z3 for every input within the bounds',
               'functions_encoded': names[:200], 'bounds': prop.get('bounds', ''), 'harnesses': harn,
               'obligations': obl, 'discharged': dis, 'solver_queries': sum(r.get('queries', 0) for r in results),
               'solver_s': round(sum(r.get('qtime', 0) for r in results), 2), 'build_s': round(tb, 2),
               'inconclusive': self.inconc[:10], 'undecided_excluded_from_claim': self.undec[:20], 'known_findings': self.known}
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2),
              'assumptions': prop.get('assume', []) + ['floating-point arithmetic of the code is modelled over the reals (rounding outside the model)',
                                                       'symbolic divisors are non-zero where the harness does not constrain them'],
              'violations': len(self.viol)}
        p = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(p + '.tmp', 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.tmp', p)


def same(a, b):
    if not isinstance(a, (int, float)) or not isinstance(b, (int, float)):
        return False
    if a == b or (a != a and b != b):
        return True
    if isinstance(a, int) and isinstance(b, int):
        return False
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b)) or abs(a - b) <= 1e-6 * abs(a)


def demangle(names):
    try:
        p = subprocess.run(['c++filt'], input='\n'.join(names).encode(), stdout=subprocess.PIPE)
        return p.stdout.decode().split('\n')
    except OSError:
        return names


def main():
    pid, tier = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
    import registry
    prop = registry.PROPS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    c = Check(pid, prop, tier, seed)
    try:
        rc = c.run()
    except RuntimeError as e:
        print('INCONCLUSIVE %s: %s' % (pid, e))
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
