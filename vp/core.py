"""Runs solver jobs in parallel, replays what the solver finds against the real build, writes evidence."""
import collections, fractions, hashlib, heapq, json, os, queue, re, shutil, signal, struct, subprocess, sys, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec'))
import build

VERIF = build.VERIF
NCPU = min(8, os.cpu_count() or 1)


# ------------------------------------------------------------------ engine pool
class Pool:
    def __init__(self, module, deadline, on_result, engine):
        self.module, self.deadline, self.on_result, self.engine = module, deadline, on_result, engine
        self.stop = False
        self.procs = []
        self.functions = set()
        self.lock = threading.Lock()

    def spawn(self):
        p = subprocess.Popen([self.engine, self.module], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, bufsize=1)
        with self.lock:
            self.procs.append(p)
        return p

    def run(self, jobs):
        q = queue.Queue()
        for j in sorted(jobs, key=lambda j: -j.get('_cost', 1)):
            q.put(j)

        def worker():
            p = None
            while not self.stop:
                try:
                    j = q.get_nowait()
                except queue.Empty:
                    break
                left = self.deadline - time.time()
                if left < 2:
                    self.on_result(j, {'status': 'not-run', 'id': j['id']})
                    continue
                if p is None or p.poll() is not None:
                    p = self.spawn()
                hard = min(left, 4 * j.get('budget', 60) + 60)
                timer = threading.Timer(hard, p.kill)
                timer.start()
                t = time.time()
                try:
                    p.stdin.write(json.dumps({k: v for k, v in j.items() if not k.startswith('_')}) + '\n')
                    p.stdin.flush()
                    line = p.stdout.readline()
                except (BrokenPipeError, OSError):
                    line = ''
                timer.cancel()
                if not line:
                    p.wait()
                    p = None
                    if not self.stop:
                        self.on_result(j, {'status': 'engine-ended', 'id': j['id'], 't': time.time() - t})
                    continue
                d = json.loads(line)
                d['t'] = time.time() - t
                self.on_result(j, d)
            if p and p.poll() is None:
                try:
                    p.stdin.close()
                    line = p.stdout.readline()
                    p.wait(5)
                    with self.lock:
                        self.functions.update(json.loads(line).get('functions', []))
                except Exception:
                    p.kill()

        ts = [threading.Thread(target=worker) for _ in range(min(NCPU, len(jobs)))]
        [t.start() for t in ts]
        [t.join() for t in ts]

    def halt(self):
        self.stop = True
        with self.lock:
            for p in self.procs:
                if p.poll() is None:
                    p.kill()


# ------------------------------------------------------------------ concrete texts
def exact_decimal(bits):
    """decimal literal (with a point) that reads as exactly this positive single"""
    bits &= 0x7fffffff
    if bits == 0x7f800000:
        return '1' + '0' * 45 + '.0'
    e, m = bits >> 23, bits & 0x7fffff
    x = fractions.Fraction(m | (0x800000 if e else 0)) * fractions.Fraction(2) ** (max(e, 1) - 150)
    i = x.numerator // x.denominator
    f = x - i
    s = ''
    while f:
        f *= 10
        d = f.numerator // f.denominator
        s += str(d)
        f -= d
    return '%d.%s' % (i, s or '0')


def concretize(job, model):
    """texts of all runs under the model; floating holes become exact decimal literals"""
    holes = {h['name']: h for h in job['holes']}
    flo = set(job.get('floats', []))
    texts = []
    for run in job['runs']:
        out = b''
        skip = 0
        for p in run:
            if isinstance(p, str):
                b = bytes.fromhex(p)
                out += b[skip:]
                skip = 0
                continue
            n = p['h']
            h = holes[n]
            if n in flo:
                assert out.endswith(b'1')
                out = out[:-1] + exact_decimal(model['fv_' + n]).encode()
                skip = 2  # the ".5" that follows
            elif 'alts' in h:
                alts = [bytes.fromhex(a) for a in h['alts']]
                L = max(len(a) for a in alts)
                out += alts[model[n]].ljust(L) if model[n] < len(alts) else b''
            else:
                out += bytes([model[n]])
        texts.append(out)
    return texts


# ------------------------------------------------------------------ replay
class Replayer:
    def __init__(self):
        self.p = {}

    def run(self, texts, job, san=False):
        key = 'san' if san else 'plain'
        if key not in self.p or self.p[key].poll() is not None:
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:abort_on_error=0', UBSAN_OPTIONS='exitcode=78:halt_on_error=1')
            self.p[key] = subprocess.Popen([build.native('replay', san)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True, bufsize=1, env=env)
        p = self.p[key]
        p.stdin.write(('f ' if job.get('fresh') else 'b ' if job.get('shared') else 's ') + ' '.join(t.hex() or '-' for t in texts) + '\n')
        p.stdin.flush()
        return json.loads(p.stdout.readline())

    def close(self):
        for p in self.p.values():
            p.stdin.close()
            p.wait()


def smt_holds(job, model, outs):
    """the property, evaluated on what the real program did: True, False, or None if it cannot be evaluated"""
    d = []
    for h in job['holes']:
        d.append('(define-fun %s () (_ BitVec 8) (_ bv%d 8))' % (h['name'], model[h['name']]))
    for f in job.get('floats', []):
        d.append('(define-fun fv_%s () (_ BitVec 32) (_ bv%d 32))' % (f, model['fv_' + f]))
    nr = 1 if job.get('mode') == 'cli' else len(job['runs'])
    for r in range(nr):
        o = outs[r] if r < len(outs) else {'kind': 'none', 'code': 0, 'words': [], 'stderr': ''}
        err = bytes.fromhex(o['stderr'])
        B = lambda n, v: d.append('(define-fun %s%d () Bool %s)' % (n, r, 'true' if v else 'false'))
        N = lambda n, v: d.append('(define-fun %s%d () (_ BitVec 32) (_ bv%d 32))' % (n, r, v & 0xffffffff))
        B('ok', o['kind'] == 'ok')
        B('ex', o['kind'] == 'exit')
        B('msg', len(err) > 0)
        N('code', o['code'])
        N('n', len(o['words']))
        N('en', len(err))
        out = bytes.fromhex(o.get('out', ''))
        N('on', len(out))
        N('os', o.get('outstate', 0))
        for k in range(job.get('maxw', 4)):
            d.append('(define-fun w%d_%d () (_ BitVec 64) #x%s)' % (r, k, o['words'][k]) if k < len(o['words']) else '(declare-const w%d_%d (_ BitVec 64))' % (r, k))
        for k in range(job.get('maxe', 0)):
            d.append('(define-fun e%d_%d () (_ BitVec 8) #x%02x)' % (r, k, err[k]) if k < len(err) else '(declare-const e%d_%d (_ BitVec 8))' % (r, k))
        for k in range(job.get('maxo', 0)):
            d.append('(define-fun o%d_%d () (_ BitVec 8) #x%02x)' % (r, k, out[k]) if k < len(out) else '(declare-const o%d_%d (_ BitVec 8))' % (r, k))
    s = '\n'.join(d) + '\n' + job.get('defs', '') + '\n(assert (not %s))\n(check-sat)\n' % job['prop']
    r = subprocess.run(['/usr/bin/z3', '-in', '-T:60'], input=s, capture_output=True, text=True).stdout.strip()
    if '(error' in r:
        return None
    return {'sat': False, 'unsat': True}.get(r.split('\n')[-1])


MEMKINDS = ('oob', 'uaf', 'free', 'uninit', 'ub', 'null', 'abort', 'throw', 'hang', 'stack')


def confirm(job, viol, rp, cli_run=None):
    """replays a solver counterexample; returns (confirmed, texts, real outcome, note)"""
    texts = concretize(job, viol['model'])
    if viol['kind'] == 'stack' and '_repeat' in job:  # the stack of the real program is larger than the engine's limit
        piece, times = job['_repeat']
        texts = [re.sub(rb'(?:%s){100,}' % re.escape(piece), lambda m: piece * times, t) for t in texts]
    if job.get('mode') == 'cli':
        outs = cli_run(job, viol['model'], texts)
    else:
        outs = rp.run(texts, job)
    holds = smt_holds(job, viol['model'], outs)
    if holds is False:
        return True, texts, outs, 'the real program violates the property'
    if viol['kind'] in ('ok', 'exit') or job.get('mode') == 'cli':
        return False, texts, outs, 'the real program satisfies the property'
    # memory errors and undefined behaviour need not be visible in the plain build
    outs2 = rp.run(texts, job, san=True)
    last = outs2[-1]
    err = bytes.fromhex(last['stderr'])
    if last['kind'] in ('signal', 'hang') or (last['kind'] == 'exit' and (last['code'] in (77, 78) or b'runtime error:' in err or b'Sanitizer' in err)):
        m = re.search(rb'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error:[^\n]*)', err)
        return True, texts, outs2, 'sanitized build: ' + (m.group(1).decode(errors='replace') if m else last['kind'])
    if viol['kind'] == 'uninit':
        p = subprocess.run(['valgrind', '-q', '--error-exitcode=99', '--trace-children=yes', build.native('replay')], input='f ' + ' '.join(t.hex() or '-' for t in texts) + '\n', capture_output=True, text=True)
        if 'uninitialised' in p.stderr:
            return True, texts, outs, 'valgrind: use of uninitialised memory'
    return False, texts, outs, 'not reproduced (engine: %s %s)' % (viol['kind'], viol.get('detail', ''))


# ------------------------------------------------------------------ known findings
def known_findings(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'finding: property=(\S+) input=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            out.append((bytes.fromhex(m.group(2)), m.group(3)))
    return out


# ------------------------------------------------------------------ one check
def run_check(pid, tier, groups, info, limit):
    """groups: [(module options, [jobs])]; info: text for the evidence"""
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    st = collections.Counter()
    kinds = collections.Counter()
    undecided, violations, samples, slow = [], [], [], []
    known = known_findings(pid)
    seen_known = set()
    rp = Replayer()
    rlock = threading.RLock()
    state = {'validated': 0, 'mismatch': 0, 'bad': False, 'solver_s': 0.0, 'reach': 0}
    functions = set()
    pool = None
    njobs = sum(len(j) for _, j in groups)
    rdir = os.path.join(VERIF, 'build', 'replay', pid)
    shutil.rmtree(rdir, ignore_errors=True)
    import cli as climod
    cli_run = climod.native_run

    def on_result(job, d):
        with rlock:
            if state['bad']:
                return
            s = d['status']
            st[s] += 1
            for k in ('paths', 'checks', 'steps', 'queries', 'merges', 'ok_paths'):
                st['#' + k] += d.get(k, 0)
            state['solver_s'] += d.get('solver_s', 0)
            for k, v in d.get('kinds', {}).items():
                kinds[k] += v
            if d.get('samples') or d.get('ok_paths'):
                state['reach'] += 1
            slow.append((round(d.get('t', 0), 1), d['id']))
            if s not in ('done', 'violated'):
                undecided.append('%s: %s %s' % (d['id'], s, '; '.join(d.get('unsupported', [])[:2])))
            for smp in d.get('samples', [])[:job.get('_nsamples', 1)]:
                texts = concretize(job, smp['model'])
                if job.get('mode') == 'cli':
                    real = cli_run(job, smp['model'], texts)
                    same = all(real[0][k] == smp['outs'][0][k] for k in ('kind', 'code', 'outstate', 'out')) if texts[0][:1] in b'01234' else (real[0]['code'] != 0) == (smp['outs'][0]['code'] != 0)
                else:
                    real = rp.run(texts, job)
                    same = (bool(job.get('anyfloat')) or [o['words'] for o in real] == [o['words'] for o in smp['outs']]) and [o['kind'] for o in real] == [o['kind'] for o in smp['outs']]
                    if job.get('maxe'):
                        same = same and [o['stderr'] for o in real] == [o['stderr'] for o in smp['outs']]
                state['validated'] += 1
                if not same:
                    state['mismatch'] += 1
                    undecided.append('%s: the encoding and the real program disagree on %r' % (d['id'], texts))
                if len(samples) < 12 and (state['validated'] % 7 == 1):
                    samples.append({'job': d['id'], 'texts': [t.decode('latin1') for t in texts], 'words': [o['words'] for o in real], 'exit': [o['code'] for o in real]})
            for v in d.get('violations', []):
                ok, texts, outs, note = confirm(job, v, rp, cli_run)
                if not ok:
                    undecided.append('%s: counterexample not reproduced on %r: %s' % (d['id'], texts, note))
                    continue
                kf = [k for k in known if k[0] in texts]
                if kf:
                    if kf[0] not in seen_known:
                        seen_known.add(kf[0])
                        print('KNOWN-FINDING: property=%s %s' % (pid, kf[0][1]), flush=True)
                    continue
                os.makedirs(rdir, exist_ok=True)
                base = os.path.join(rdir, '%d' % len(violations))
                for i, t in enumerate(texts):
                    open('%s.%d.s' % (base, i), 'wb').write(t)
                rec = {'property': pid, 'job': d['id'], 'kind': v['kind'], 'detail': v.get('detail', ''), 'note': note, 'model': v['model'],
                       'texts': [t.decode('latin1') for t in texts], 'real': outs, 'expected': job.get('_expect', 'see the property of the job'), 'smt_property': job['prop'][:4000]}
                json.dump(rec, open(base + '.json', 'w'), indent=1)
                violations.append(rec)
                print('VIOLATION property=%s replay=%s.json' % (pid, base), flush=True)
                print('  input %r' % [t.decode('latin1')[:500] for t in texts])
                print('  %s; real outcome: %s' % (note, [(o['kind'], o['code'], o['words'][:8]) for o in outs]), flush=True)
                state['bad'] = True
                if pool:
                    pool.halt()
                return

    err = None
    try:
        eng = build.engine()
        build.native('replay')
        for opts, jobs in groups:
            if state['bad'] or not jobs:
                continue
            pool = Pool(build.bitcode(**opts), t0 + limit, on_result, eng)
            pool.run(jobs)
            functions |= pool.functions
    except build.BuildError as e:
        err = str(e)
    rp.close()
    wall = time.time() - t0
    decided = st['done'] + st['violated']
    cov = {
        'states': st['#paths'], 'transitions': st['#steps'], 'traces_validated_against_impl': state['validated'],
        'samples': samples,
        'jobs': njobs, 'jobs_decided': decided, 'jobs_by_status': {k: v for k, v in st.items() if not k.startswith('#')},
        'jobs_with_reachable_success': state['reach'],
        'solver_queries': st['#queries'], 'property_queries': st['#checks'], 'solver_s': round(state['solver_s'], 2), 'merged_states': st['#merges'],
        'path_outcomes': dict(kinds), 'engine_vs_real_disagreements': state['mismatch'],
        'undecided': undecided[:60], 'slowest_jobs': sorted(slow, reverse=True)[:8],
        'functions_encoded': len(functions),
        'functions': demangle(sorted(functions))[:400],
        'bounds': info['bounds'], 'outside_the_bounds': info['outside'],
        'meaning': 'states = symbolic paths completed, transitions = IR instructions executed symbolically; each job is one text template whose holes are symbolic',
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': info['assumptions'], 'wall_s': round(wall, 2), 'violations': len(violations)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    print('%s %s: %d/%d jobs decided, %d paths, %d queries, solver %.1f s, %d traces replayed, wall %.1f s' % (pid, tier, decided, njobs, st['#paths'], st['#queries'], state['solver_s'], state['validated'], wall))
    if violations:
        return 1
    if err:
        print('INCONCLUSIVE: build failed\n' + err)
        return 2
    for u in undecided[:20]:
        print('INCONCLUSIVE: ' + u[:300])
    if decided == 0 or state['reach'] == 0:
        print('INCONCLUSIVE: nothing was decided')
        return 2
    return 0


def demangle(names):
    try:
        return subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')
    except OSError:
        return names
