#!/usr/bin/env python3
"""Runs the check of one property: encode /repo's current code, let the solver decide, replay on the real code.

usage: check.py ID [quick|thorough] [--keep] [--only ENTRY]
"""
import sys, os, json, subprocess, hashlib, time, glob, shutil, re, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SYMX_REPO', '/repo')
LIB = REPO + '/lib'
BUILD = os.environ.get('SYMX_BUILD', VERIF + '/.build')
ENGINE = BUILD + '/engine/symx'
JOBS = max(2, (os.cpu_count() or 8))

INC = ['-I' + VERIF + '/stubs', '-I' + VERIF + '/rt', '-I' + VERIF + '/harness', '-I' + LIB + '/include', '-I' + LIB + '/src']
STD = ['-std=gnu++17', '-w']
BCF = ['clang++', '-O1', '-g1', '-D_GLIBCXX_EXTERN_TEMPLATE=0', '-fno-vectorize', '-fno-slp-vectorize', '-emit-llvm', '-c', '-I' + VERIF + '/shadow'] + STD + INC
UBT = ['-fsanitize=signed-integer-overflow,shift,integer-divide-by-zero,bounds,return,unreachable,enum,bool', '-fsanitize-trap=all']
WRAP = ['lock', 'trylock', 'unlock', 'clocklock', 'timedlock', 'destroy']
WRAPF = ['-Wl,--wrap=pthread_mutex_' + w for w in WRAP] + ['-Wl,--wrap=pthread_rwlock_' + w for w in ('wrlock', 'rdlock', 'trywrlock', 'unlock', 'destroy')]
NATF = {
    'asan': ['g++', '-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined', '-fno-sanitize=vptr', '-fno-sanitize-recover=all'],
    'tsan': ['g++', '-O1', '-g', '-fsanitize=thread'],
    'vg': ['g++', '-O0', '-g'],
    'plain': ['g++', '-O2', '-g'],
}


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 124, (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')


class Fail(Exception):
    pass


_treehash = None


def treehash():
    """hash of everything any compilation can see"""
    global _treehash
    if _treehash is None:
        h = hashlib.sha256()
        for top in (LIB + '/include', LIB + '/src', VERIF + '/stubs', VERIF + '/shadow', VERIF + '/rt', VERIF + '/harness'):
            for d, dn, fn in sorted(os.walk(top)):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith('.cpp'):
                        continue
                    p = os.path.join(d, f)
                    h.update(p.encode()); h.update(open(p, 'rb').read())
        _treehash = h.hexdigest()
    return _treehash


def compile_one(cmd, src, ext):
    os.makedirs(BUILD + '/cache', exist_ok=True)
    key = hashlib.sha256((treehash() + '\0' + '\0'.join(cmd) + '\0' + src + '\0').encode() + open(src, 'rb').read()).hexdigest()[:32]
    out = BUILD + '/cache/' + key + ext
    if not os.path.exists(out):
        tmp = out + '.tmp%d' % os.getpid()
        rc, o, e = sh(cmd + [src, '-o', tmp], timeout=600)
        if rc:
            raise Fail('compiling %s failed:\n%s%s' % (src, o, e[-4000:]))
        os.replace(tmp, out)
    return out


def ensure_engine():
    rc, o, e = sh(['make', '-s', '-j%d' % JOBS, '-C', VERIF + '/engine', 'B=' + BUILD + '/engine'], timeout=900)
    if rc or not os.path.exists(ENGINE):
        raise Fail('engine build failed: ' + o + e)


def resolve_sources(pats):
    r = []
    for p in pats:
        neg = p.startswith('!')
        p = p.lstrip('!')
        g = sorted(glob.glob(LIB + '/src/' + p, recursive=True))
        if neg:
            r = [x for x in r if x not in g]
        else:
            r += [x for x in g if x not in r]
    return r


class Check:
    def __init__(self, pid, tier, only=None):
        import config
        self.pid, self.tier, self.only = pid, tier, only
        self.c = config.CHECKS[pid]
        self.dir = BUILD + '/' + pid
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.known = [k for k in json.load(open(VERIF + '/known_findings.json')).get('findings', []) if k['property'] == pid]
        self.srcs = resolve_sources(self.c['srcs'])
        self.harness = [VERIF + '/harness/' + h for h in self.c['harness']]
        self.defs = list(self.c.get('defs', []))
        self.pool = cf.ThreadPoolExecutor(JOBS)
        self.nat = {}

    def entries(self):
        es = []
        for e in self.c['entries']:
            if isinstance(e, str):
                e = {'name': e}
            e = dict(e)
            if e.get('tier') == 'thorough' and self.tier != 'thorough':
                continue
            if self.only and e['name'] != self.only:
                continue
            if self.tier == 'thorough':
                e.update(e.get('thorough', {}))
            e['tag'] = e['name']
            for k in sorted(e.get('params', {})):
                e['tag'] += '-%s%d' % (k, e['params'][k])
            es.append(e)
        return es

    # ------------------------------------------------------------------ building
    def bitcode(self):
        ub = UBT if self.c.get('ub') else []
        asio = ['-I' + VERIF + '/stubs/asio_stub'] if self.c.get('asio') else []
        jobs = [self.pool.submit(compile_one, BCF + asio + ['-fno-builtin'], VERIF + '/rt/rt.cpp', '.bc')]
        jobs += [self.pool.submit(compile_one, BCF + asio + self.defs, h, '.bc') for h in self.harness]
        jobs += [self.pool.submit(compile_one, BCF + asio + ub + self.defs, s, '.bc') for s in self.srcs]
        return jobs

    def complete(self, jobs):
        """adds the sources that define what the listed ones use (code may have moved to another file)"""
        def symbols(bc):
            rc, o, e = sh(['llvm-nm-18', bc], timeout=60)
            u, d = set(), set()
            for l in o.splitlines():
                f = l.split()
                if len(f) >= 2 and '6modbus' in f[-1]:
                    (u if f[-2] in 'Uu' else d).add(f[-1])
            return u, d
        need, have = set(), set()
        for j in jobs:
            u, d = symbols(j.result())
            need |= u
            have |= d
        if not need - have:
            return jobs
        ub = UBT if self.c.get('ub') else []
        asio = ['-I' + VERIF + '/stubs/asio_stub'] if self.c.get('asio') else []
        rest = []
        for s in sorted(glob.glob(LIB + '/src/**/*.cpp', recursive=True)):
            if s not in self.srcs:
                j = self.pool.submit(compile_one, BCF + asio + ub + self.defs, s, '.bc')
                try:
                    rest.append((s, j, symbols(j.result())))
                except Fail:
                    pass
        more = True
        while more:
            more = False
            for s, j, (u, d) in list(rest):
                if d & (need - have):
                    jobs.append(j)
                    self.srcs.append(s)
                    need |= u
                    have |= d
                    rest = [x for x in rest if x[0] != s]
                    more = True
        return jobs

    def link_bc(self, jobs):
        bcs = [j.result() for j in jobs]
        out = self.dir + '/all.bc'
        rc, o, e = sh(['llvm-link-18'] + bcs + ['-o', out], timeout=300)
        if rc:
            raise Fail('llvm-link: ' + o + e)
        return out

    def native_jobs(self, kind):
        asio = ['-I' + VERIF + '/stubs/asio_stub'] if self.c.get('asio') else []
        base = NATF[kind] + STD + INC + asio + self.defs + ['-c']
        jobs = [self.pool.submit(compile_one, base, VERIF + '/rt/replay.cpp', '.%s.o' % kind)]
        return jobs + [self.pool.submit(compile_one, base + ['-include', VERIF + '/rt/atomics.h'], s, '.%s.o' % kind) for s in self.harness + self.srcs]

    def native_link(self, kind, jobs):
        objs = [j.result() for j in jobs]
        out = self.dir + '/replay.' + kind
        flags = [f for f in NATF[kind] if f.startswith('-fsan')]
        rc, o, e = sh(['g++'] + flags + objs + ['-rdynamic', '-o', out, '-lpthread', '-ldl'] + WRAPF, timeout=300)
        if rc:
            raise Fail('native link: ' + o + e[-3000:])
        return out

    def native(self, kind):
        if kind not in self.nat:
            self.nat[kind] = self.native_link(kind, self.native_jobs(kind))
        return self.nat[kind]

    # ------------------------------------------------------------------ symbolic execution
    def run_entry(self, bc, e, budget):
        od = self.dir + '/' + e['tag']
        os.makedirs(od, exist_ok=True)
        cmd = [ENGINE, bc, '--entry', e['name'], '--out', od, '--max-time', str(min(e.get('time', 600), budget)), '--seed', str(self.seed), '--repo', REPO + '/', '--samples', str(e.get('samples', 6))]
        for k, v in sorted(e.get('params', {}).items()):
            cmd += ['--param', '%s=%d' % (k, v)]
        for k, f in (('merge', '--merge'), ('preempt', '--preempt'), ('steps', '--max-steps'), ('solver_timeout', '--solver-timeout')):
            if k in e:
                cmd += [f, str(e[k])]
        if e.get('no_uninit'):
            cmd += ['--no-uninit']
        t = time.time()
        js = od + '/' + e['name'] + '.json'
        for seed in (self.seed, self.seed + 1):
            if os.path.exists(js):
                os.remove(js)
            cmd[cmd.index('--seed') + 1] = str(seed)
            rc, o, err = sh(cmd, timeout=budget + 60)
            if rc >= 0 or time.time() - t > budget / 2:
                break  # (the solver's timer threads have been seen to crash it: once more, then)
        open(od + '/log', 'w').write(o + err)
        try:
            r = json.load(open(js))
        except Exception:
            r = {'status': 'error', 'error': 'engine died rc=%d: %s' % (rc, err[-1500:]), 'violations': [], 'samples': [], 'missing_covers': [], 'paths': 0, 'steps': 0, 'functions': [], 'lines': {}, 'covers': {}, 'solver': {'queries': 0, 'seconds': 0.0}, 'asserts': 0, 'assert_queries': 0}
        r['cfg'] = e
        r['secs'] = time.time() - t
        return r

    # ------------------------------------------------------------------ replay
    def run_native(self, kind, entry, inp, timeout=30, env=None):
        exe = self.native(kind)
        cmd = [exe, entry, inp]
        if kind == 'vg':
            cmd = ['valgrind', '-q', '--error-exitcode=53', '--exit-on-first-error=yes', '--undef-value-errors=yes'] + cmd
            timeout *= 4
        if kind == 'tsan':
            cmd = ['setarch', '-R'] + cmd if shutil.which('setarch') else cmd
        return sh(cmd, timeout=timeout, env=env)

    def confirm(self, v, entry, inp):
        """does the violation happen on the real code? returns description or None"""
        kind = v['kind']
        if kind == 'race':
            # ThreadSanitizer remembers four accesses per word only: what it forgets varies with its options
            for o in ('', 'force_seq_cst_atomics=1', 'history_size=2', 'force_seq_cst_atomics=1:history_size=4'):
                rc, o, e = self.run_native('tsan', entry, inp, env=dict(os.environ, TSAN_OPTIONS=o))
                if rc == 52:
                    return 'ThreadSanitizer: ' + e[:3000]
            return None
        rc, o, e = self.run_native('asan', entry, inp)
        if rc == 124:
            return 'does not terminate (30 s limit)' if kind in ('hang', 'deadlock', 'stack') else None
        if rc in (44, 45, 0):
            if kind in ('uninitialised', 'memory') or rc == 0:
                rc2, o2, e2 = self.run_native('vg', entry, inp)
                if rc2 == 53:
                    return 'valgrind: ' + e2[:3000]
                if rc2 == 42 or rc2 == 43:
                    return e2[-1500:]
            return None
        return 'exit %d: %s' % (rc, e[-3000:])

    def known_match(self, e, v):
        for k in self.known:
            if k.get('entry') and k['entry'] != e['name']:
                continue
            if k.get('msg') and not re.search(k['msg'], v['msg']):
                continue
            if k.get('where') and not re.search(k['where'], v['where']):
                continue
            return k
        return None

    # ------------------------------------------------------------------
    def run(self):
        t0 = time.time()
        budget = float(self.c.get('budget', 600 if self.tier == 'quick' else 7200))
        if self.tier == 'quick':
            budget = min(budget, 700)
        ensure_engine()
        bj = self.bitcode()
        bj = self.complete(bj)
        nj = self.native_jobs('asan')
        bc = self.link_bc(bj)
        es = self.entries()
        es.sort(key=lambda e: -e.get('weight', 1))
        tb = time.time() - t0
        futs = [self.pool.submit(self.run_entry, bc, e, max(30, budget - tb)) for e in es]
        res = [f.result() for f in futs]
        self.nat['asan'] = self.native_link('asan', nj)
        errors, found, known = [], [], []
        validated = 0
        samples = []
        rdir = self.dir + '/violations'
        os.makedirs(rdir, exist_ok=True)
        nviol = 0
        for r in res:
            e = r['cfg']
            for v in r['violations']:
                nviol += 1
                try:
                    how = self.confirm(v, e['name'], v['replay'])
                except Fail as x:
                    errors.append(str(x)); continue
                if how is None:
                    errors.append('%s: counterexample not reproduced natively: %s: %s at %s' % (e['tag'], v['kind'], v['msg'], v['where']))
                    continue
                k = self.known_match(e, v)
                if k:
                    known.append((k, v)); continue
                rp = '%s/%s.%d.txt' % (rdir, e['tag'], nviol)
                with open(rp, 'w') as f:
                    f.write('# property %s, harness entry %s, %s: %s\n# at %s\n' % (self.pid, e['name'], v['kind'], v['msg'], v['where']))
                    f.write('# replay: %s %s %s   (built by tools/check.py)\n' % (self.nat['asan'], e['name'], rp))
                    f.write(''.join('# ' + l + '\n' for l in (v['stack'] + '\nnative run: ' + how).splitlines()))
                    f.write(open(v['replay']).read())
                found.append((v, rp, e))
            if r['status'] == 'error':
                errors.append('%s: engine: %s' % (e['tag'], r['error']))
            elif r['missing_covers'] and not r['violations'] and r['status'] != 'stopped':
                errors.append('%s: never reached (vacuous): %s' % (e['tag'], ', '.join(r['missing_covers'])))
            elif r['status'] == 'ok' and not r['violations'] and not r['paths']:
                errors.append('%s: no path completed' % e['tag'])
        # paths the engine explored, pushed through the natively compiled code
        def val(r, sp):
            return r, sp, self.run_native('asan', r['cfg']['name'], sp)
        vf = [self.pool.submit(val, r, sp) for r in res for sp in r['samples']]
        for f in vf:
            r, sp, (rc, o, err) = f.result()
            e = r['cfg']
            txt = open(sp).read()
            want = [l for l in txt.splitlines() if l.startswith('#obs')]
            got = [l for l in o.splitlines() if l.startswith('#obs')]
            if rc == 0 and want == got:
                validated += 1
                if len(samples) < 12:
                    samples.append({'entry': e['tag'], 'inputs': ' ; '.join(l for l in txt.splitlines() if not l.startswith('#'))[:400], 'observed': [l[5:] for l in got][:12]})
            elif rc in (42, 43, 46, 47, 48, 50, 51):
                v = {'kind': 'native', 'msg': 'the real code fails on a solver-generated input: ' + err[-600:], 'where': e['tag'], 'stack': ''}
                if r['violations']:
                    continue
                k = self.known_match(e, v)
                if k:
                    known.append((k, v)); continue
                rp = '%s/%s' % (rdir, os.path.basename(sp))
                shutil.copy(sp, rp)
                found.append((v, rp, e))
            else:
                errors.append('%s: native run disagrees with the encoding on %s: rc=%d %s\n  engine %s\n  native %s' % (e['tag'], sp, rc, err[-500:], want[:20], got[:20]))
        wall = time.time() - t0
        self.evidence(res, wall, validated, samples, found, known, errors)
        for r in sorted(res, key=lambda r: -r['secs']):
            print('  %-44s %-8s paths=%-7d steps=%-10d queries=%-6d solver=%6.1fs wall=%6.1fs' % (r['cfg']['tag'], r['status'], r['paths'], r['steps'], r['solver']['queries'], r['solver']['seconds'], r['secs']))
        for k, v in known:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
        for e in errors[:5]:
            print('ERROR: ' + e)
        if len(errors) > 5:
            print('ERROR: ... and %d more' % (len(errors) - 5))
        seen = set()
        for v, rp, e in found:
            print('%s: %s: %s' % (e['tag'], v['kind'], v['msg']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        print('%s %s: %s in %.1f s (%d paths, %d queries, %d native validations)' % (self.pid, self.tier, 'VIOLATED' if found else 'ERROR' if errors else 'held', wall, sum(r['paths'] for r in res), sum(r['solver']['queries'] for r in res), validated))
        return 1 if found else 2 if errors else 0

    def evidence(self, res, wall, validated, samples, found, known, errors):
        fn = sorted({f for r in res for f in r['functions']})
        lines = {}
        for r in res:
            for f, (a, b) in r['lines'].items():
                x = lines.setdefault(f, [0, 0]); x[0] = max(x[0], a); x[1] = max(x[1], b)
        cov = {
            'states': sum(r['paths'] for r in res), 'transitions': sum(r['steps'] for r in res),
            'traces_validated_against_impl': validated, 'samples': samples,
            'meaning': 'states = symbolic paths explored (after merging); transitions = LLVM instructions executed symbolically',
            'functions_encoded': fn, 'functions_encoded_count': len(fn),
            'source_lines_reached': {f: '%d of %d' % (a, b) for f, (a, b) in sorted(lines.items()) if a},
            'bounds': self.c['bounds'], 'queries': sum(r['solver']['queries'] for r in res),
            'solver': 'z3 (bit-vectors)', 'solver_seconds': round(sum(r['solver']['seconds'] for r in res), 2),
            'assertions_checked': sum(r['asserts'] for r in res), 'assertion_queries': sum(r['assert_queries'] for r in res),
            'entries': [{'entry': r['cfg']['tag'], 'status': r['status'], 'paths': r['paths'], 'steps': r['steps'], 'queries': r['solver']['queries'], 'solver_s': round(r['solver']['seconds'], 2), 'wall_s': round(r['secs'], 2), 'reached': r['covers'], 'not_reached': r['missing_covers']} for r in res],
            'exhaustive': not errors,
            'errors': errors, 'known_findings': [k['what'] for k, v in known],
        }
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking', 'coverage': cov, 'assumptions': self.c.get('assumptions', []) + ASSUME, 'wall_s': round(wall, 2), 'violations': len(found)}
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        json.dump(ev, open(VERIF + '/evidence/%s.json' % self.pid, 'w'), indent=1)


ASSUME = [
    'code is encoded from clang -O1 LLVM IR of the current /repo sources; the natively built code (g++, ASan+UBSan) is compared on the listed solver-generated paths',
    'ser4cpp, exe4cpp and spdlog are absent offline and replaced by the stand-ins in /verif/stubs (logging is empty); operator new does not fail',
    'sequentially consistent memory; nothing is claimed beyond the stated bounds',
]


def main():
    a = [x for x in sys.argv[1:] if not x.startswith('--')]
    only = None
    if '--only' in sys.argv:
        only = sys.argv[sys.argv.index('--only') + 1]
        a.remove(only)
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick')
    try:
        rc = Check(pid, tier, only).run()
    except Fail as x:
        print('ERROR: %s' % x)
        rc = 2
    sys.stdout.flush()
    os._exit(rc)


if __name__ == '__main__':
    main()
