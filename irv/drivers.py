"""Concrete search and replay: the drivers of /verif/drivers, compiled with the current sources of /repo."""
import os, sys, re, subprocess, json, time, shutil, glob
from concurrent.futures import ThreadPoolExecutor
from .spec import REPO, CXX, FLAGS
from .probe import statuses

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DDIR = os.path.join(VERIF, 'drivers')
CRYPTO = '/usr/lib/x86_64-linux-gnu/android/libcrypto.so'
SAN = ['-fsanitize=address,undefined,float-cast-overflow', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS', '-DMEM']
OF = {'C01': ['verify'], 'C02': ['verify'], 'C03': ['verify'], 'C04': ['verify'], 'C07': ['verify'], 'C05': ['jwt'], 'C08': ['jwt'], 'C09': ['jwt'], 'C10': ['jwt'],
      'C06': ['aud'], 'C11': ['struct'], 'C12': ['struct'], 'C13': ['jwks'], 'C14': ['jwks'], 'C15': ['jwks'], 'C16': ['jwks'], 'C18': ['status'],
      'C17': ['jwks', 'verify', 'jwt', 'struct', 'aud', 'status'],
      'C19': ['lru'], 'C20': ['lru'], 'C21': ['lru'], 'C22': ['lru'], 'C23': ['lru']}
# the sources each driver needs (None: all)
SRCS = {'lru': []}

def pkg():
    r = subprocess.run(['pkg-config', '--libs', 'absl_strings', 'absl_time', 'absl_flat_hash_set', 'absl_flat_hash_map', 'protobuf'], capture_output=True, text=True)
    return r.stdout.split()

class Drivers:
    def __init__(self, prop, workdir):
        self.prop, self.wd = prop, workdir
        self.mem = prop == 'C17' or OF.get(prop) == ['lru']
        self.names = OF.get(prop, [])
        self.bin = {}
        self.errors = []
        self.proc = None

    def start(self):
        """compile in the background (a process of its own: the proof stage forks)"""
        self.proc = subprocess.Popen([sys.executable, '-B', '-m', 'irv.drivers', self.prop, self.wd], cwd=VERIF)

    def wait(self):
        if self.proc is None: return
        try: self.proc.wait(300)
        except subprocess.TimeoutExpired: self.proc.kill(); self.errors.append('building the drivers took too long')
        self.proc = None
        try: r = json.load(open(os.path.join(self.wd, 'build.json')))
        except Exception as e: self.errors.append('drivers not built: %s' % e); return
        self.bin = r['bin']; self.errors += r['errors']

    def _cc(self, src, out, extra=()):
        r = subprocess.run([CXX] + FLAGS + ['-O1', '-g1', '-w', '-I' + self.wd, '-DKEYFILE="%s"' % os.path.join(DDIR, 'keys.pem')] + (SAN if self.mem else []) + list(extra) +
                           ['-c', src, '-o', out], capture_output=True, text=True)
        return r.stderr[-1500:] if r.returncode else None

    def _build(self):
        if not self.names: return
        try: st = statuses()
        except Exception: st = []
        with open(os.path.join(self.wd, 'statuses.inc'), 'w') as f:
            f.write('static const std::vector<std::pair<const char*, Status>> STATUSES = {' + ''.join('{"%s", Status::%s},' % (s, s) for s in st) + '};\n')
        jobs = []
        srcs = sorted(glob.glob(os.path.join(REPO, 'src', '*.cc'))) if any(n not in SRCS for n in self.names) else []
        for s in srcs: jobs.append((s, os.path.join(self.wd, 'd_' + os.path.basename(s) + '.o'), ()))
        for n in self.names: jobs.append((os.path.join(DDIR, n + '.cc'), os.path.join(self.wd, 'd_' + n + '.drv.o'), ('-fno-access-control',)))
        errs = list(ThreadPoolExecutor(8).map(lambda j: self._cc(*j), jobs))
        bad = {j[1]: e for j, e in zip(jobs, errs) if e}
        objs = [j[1] for j in jobs if not j[1].endswith('.drv.o')]
        if any(o in bad for o in objs):
            self.errors.append('sources do not compile: ' + next(bad[o] for o in objs if o in bad))
            return
        libs = [CRYPTO, '-Wl,-rpath,' + os.path.dirname(CRYPTO)] + pkg() + ['-ldl', '-lpthread']
        for n in self.names:
            o = os.path.join(self.wd, 'd_' + n + '.drv.o')
            if o in bad: self.errors.append('driver %s does not compile: %s' % (n, bad[o])); continue
            b = os.path.join(self.wd, 'drv_' + n)
            r = subprocess.run([CXX] + (SAN[:2] + ['-rdynamic'] if self.mem else []) + [o] + ([] if n in SRCS else objs) + libs + ['-o', b], capture_output=True, text=True)
            if r.returncode: self.errors.append('driver %s does not link: %s' % (n, r.stderr[-800:]))
            else: self.bin[n] = b

    def dictionary(self, texts=()):
        """string and integer literals of the current sources, and of the failed obligations"""
        strs, nums = set(), set()
        for f in sorted(glob.glob(os.path.join(REPO, 'src', '*.cc')) + glob.glob(os.path.join(REPO, 'jwt_verify_lib', '*.h')) + glob.glob(os.path.join(REPO, 'simple_lru_cache', '*.h'))):
            t = open(f, errors='replace').read()
            t = re.sub(r'//[^\n]*', '', re.sub(r'/\*.*?\*/', '', t, flags=re.S))
            if f.endswith('status.cc'): t = ''
            texts = tuple(texts) + (re.sub(r'#include[^\n]*', '', t),)
        for t in texts:
            for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', t):
                try: s = m.group(1).encode('latin1', 'replace').decode('unicode_escape').encode('latin1', 'replace')
                except Exception: continue
                if len(s) <= 400: strs.add(s)
            for m in re.finditer(r"'(\\?.)'", t): 
                if len(m.group(1)) == 1: strs.add(m.group(1).encode('latin1', 'replace'))
            for m in re.finditer(r'\b(0[xX][0-9a-fA-F]+|\d+)(?:[uUlL]*)\b', t):
                v = int(m.group(1), 0) if not re.match(r'0\d', m.group(1)) else int(m.group(1), 8 if re.match(r'^[0-7]+$', m.group(1)) else 10)
                if v < 1 << 64: nums.add(v)
        p = os.path.join(self.wd, 'dict')
        with open(p, 'w') as f:
            for s in sorted(strs): f.write('s' + s.hex() + '\n')
            for v in sorted(nums): f.write('n%d\n' % v)
        return p

    def run(self, seconds, seed, texts=(), procs=8):
        """-> (stats, violation or None)"""
        self.wait()
        if not self.bin: return dict(evaluations=0, distinct_nontrivial=0, per_driver={}), None
        d = self.dictionary(texts)
        t0 = time.time()
        jobs = []
        names = sorted(self.bin)
        k = 0
        per = max(1, procs // len(names))
        # spread the processes over the drivers; with more drivers than processes, run in rounds
        for i in range(per):
            for n in names: jobs.append((n, seed * 1000 + i + 1))
        while len(jobs) < procs: jobs.append((names[k % len(names)], seed * 1000 + 500 + k)); k += 1
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:allocator_may_return_null=1', UBSAN_OPTIONS='print_stacktrace=1')
        live, done = [], []
        for i, (n, s) in enumerate(jobs):
            out = os.path.join(self.wd, 'run%d' % i)
            live.append((n, s, out, subprocess.Popen([self.bin[n], self.prop, str(s), str(seconds), out, d], stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT, env=env, cwd=self.wd)))
        viol = None
        limit = t0 + seconds + 60
        while live and viol is None:
            time.sleep(0.1)
            for j in list(live):
                n, s, out, p = j
                rc = p.poll()
                if rc is None:
                    if time.time() > limit:
                        p.kill(); p.wait()
                        it = self._iter(out)
                        viol = dict(driver=n, seed=s, iter=it, what='the case does not end (non-termination)', input=self._describe(n, s, it, d, env))
                        live.remove(j)
                    continue
                live.remove(j); done.append(j)
                st = self._stats(out)
                if rc == 1 and st and st.get('violation'):
                    viol = dict(driver=n, seed=s, iter=st['iter'], what=st['what'], input=st['input'])
                elif rc != 0 and rc != 2:
                    log = open(out + '.log', errors='replace').read()
                    it = self._iter(out)
                    viol = dict(driver=n, seed=s, iter=it, what='the code crashed (exit %d): %s' % (rc, log[:3000]), input='case %d of seed %d' % (it, s))
                elif rc == 2: self.errors.append('driver %s: %s' % (n, open(out + '.log', errors='replace').read()[:300]))
                if viol: break
        for n, s, out, p in live:
            p.kill(); p.wait()
        agg = dict(evaluations=0, distinct_nontrivial=0, per_driver={}, samples=[])
        for n, s, out, p in done:
            st = self._stats(out)
            if not st: continue
            agg['evaluations'] += st['evaluations']; agg['distinct_nontrivial'] += st['distinct']
            b = agg['per_driver'].setdefault(n, dict(evaluations=0, outcomes={}))
            b['evaluations'] += st['evaluations']
            for q, c in st['buckets'].items(): b['outcomes'][q] = b['outcomes'].get(q, 0) + c
            if len(agg['samples']) < 4: agg['samples'] += st['samples'][:1]
        agg['seconds'] = round(time.time() - t0, 1)
        agg['processes'] = len(jobs)
        if viol:
            viol['command'] = 'the driver %s (drivers/%s.cc, built with the sources of /repo): %s %s %d <out> <dict> %d' % (viol['driver'], viol['driver'], self.prop, viol['seed'], 1, viol['iter'])
        return agg, viol

    def _iter(self, out):
        try: return int.from_bytes(open(out + '.iter', 'rb').read(8), 'little')
        except Exception: return -1

    def _describe(self, n, s, it, d, env): return 'case %d of seed %d' % (it, s)

    def _stats(self, out):
        try: return json.load(open(out))
        except Exception: return None

if __name__ == '__main__':
    x = Drivers(sys.argv[1], sys.argv[2])
    x._build()
    json.dump(dict(bin=x.bin, errors=x.errors), open(os.path.join(x.wd, 'build.json'), 'w'))
