"""Compiling and running the bounded harnesses against /repo's current sources.

A harness prints lines:  CASES <n> <distinct>   BOUND <text>   FAIL <description of the failing input>
It is run in a scratch directory that is removed afterwards."""
import os, subprocess, tempfile, shutil, threading, time, signal

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HEFFTE_REPO', '/repo')
FLAGS = ['-std=gnu++17', '-O1', '-g0', '-fPIC', '-mfma', '-mavx', '-fopenmp', '-I' + REPO + '/include', '-I' + REPO, '-I' + REPO + '/_build/include', '-isystem', '/usr/include/mkl',
         '-I' + os.path.join(HERE, 'harness')]


def env():
    e = dict(os.environ)
    e.update(LC_ALL='C.UTF-8', OMP_NUM_THREADS='1', MKL_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', OMPI_ALLOW_RUN_AS_ROOT='1',
             OMPI_ALLOW_RUN_AS_ROOT_CONFIRM='1', OMPI_MCA_rmaps_base_oversubscribe='1', OMPI_MCA_hwloc_base_binding_policy='none',
             OMPI_MCA_mpi_yield_when_idle='1', OMPI_MCA_btl='self,vader', OMPI_MCA_pml='ob1', OMPI_MCA_btl_vader_single_copy_mechanism='none',
             OMPI_MCA_btl_base_warn_component_unused='0', OMPI_MCA_plm='isolated', OMPI_MCA_oob_tcp_if_include='lo')
    return e


def sh(cmd, timeout, cwd=None):
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', env=env(), cwd=cwd, start_new_session=True)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        out, _ = p.communicate()
        return None, out


class Harness:
    """specs: list of dicts name (harness/<name>.cpp), np (list of rank counts; [] = no mpirun), sources (extra
    /repo sources), libs, args, optional"""

    def __init__(self, specs, pid, tier, seed):
        self.specs, self.pid, self.tier, self.seed = specs, pid, tier, seed
        self.out = []
        self.th = None
        self.dir = tempfile.mkdtemp(prefix='dvh_')
        self.deadline = time.time() + (2400 if tier == 'thorough' else 560)

    def start(self):
        self.th = threading.Thread(target=self.work, daemon=True)
        self.th.start()

    def left(self):
        return max(5, self.deadline - time.time())

    def one(self, sp):
        res = {'name': sp['name'], 'status': 'clean', 'cases': 0, 'distinct': 0, 'bound': '', 'cmd': '', 'note': '', 'failures': []}
        exe = os.path.join(self.dir, sp['name'])
        src = [os.path.join(HERE, 'harness', sp['name'] + '.cpp')] + [os.path.join(REPO, s) for s in sp.get('sources', [])]
        cmd = ['mpicxx'] + FLAGS + sp.get('flags', []) + src + ['-o', exe, '-fopenmp'] + sp.get('libs', [])
        if not os.path.exists(exe):
            rc, out = sh(cmd, min(400, self.left()))
            if rc != 0:
                res.update(status='error', note='does not compile against the current tree: ' + (out or '')[-800:])
                return res
        for np in sp.get('np', [0]):
            args = [exe] + [a.format(pid=self.pid) for a in sp.get('args', ['{pid}'])] + [self.tier, str(self.seed)]
            run = (['mpirun', '-np', str(np)] if np else []) + args
            res['cmd'] = (res['cmd'] + ' ; ' if res['cmd'] else '') + ' '.join(run).replace(self.dir + '/', '')
            lim = min(sp.get('timeout', 240) * (5 if self.tier == 'thorough' else 1), self.left())
            rc, out = sh(run, lim, cwd=self.dir)
            bad = False
            for ln in (out or '').splitlines():
                w = ln.split()
                if ln.startswith('CASES '):
                    res['cases'] += int(w[1])
                    res['distinct'] += int(w[2])
                elif ln.startswith('BOUND '):
                    res['bound'] = ln[6:]
                elif ln.startswith('FAIL '):
                    bad = True
                    if len(res['failures']) < 40:
                        res['failures'].append((('np=%d ' % np) if np else '') + ln[5:])
            if rc is None:
                # a hang is a failing run only where the harness says so (progress marker in the last line)
                if sp.get('hang_is_failure'):
                    last = [l for l in (out or '').splitlines() if l.startswith('AT ')]
                    # confirm once with a fresh, longer run
                    rc2, out2 = sh(run, min(lim * 2, self.left()), cwd=self.dir)
                    if rc2 is None:
                        res['failures'].append('np=%d no progress within %d s at: %s' % (np, lim, last[-1][3:] if last else '?'))
                        bad = True
                    elif rc2 != 0 and 'FAIL ' in out2:
                        res['failures'] += [l[5:] for l in out2.splitlines() if l.startswith('FAIL ')][:10]
                        bad = True
                else:
                    res.update(status='error' if res['status'] == 'clean' else res['status'], note='time limit %ds' % lim)
            elif rc != 0 and not bad:
                last = [l for l in (out or '').splitlines() if l.startswith('AT ')]
                # abnormal end (crash) without a FAIL line: confirm it is reproducible
                rc2, out2 = sh(run, lim, cwd=self.dir)
                if rc2 is not None and rc2 != 0:
                    res['failures'].append('np=%d the program ended with status %s at: %s | %s' % (np, rc, last[-1][3:] if last else '?', (out or '')[-300:].replace('\n', ' ')))
                    bad = True
            if bad:
                res['status'] = 'failed'
        return res

    def work(self):
        for sp in self.specs:
            try:
                r = self.one(sp)
            except Exception as e:
                r = {'name': sp['name'], 'status': 'error', 'cases': 0, 'distinct': 0, 'bound': '', 'cmd': '', 'note': 'harness error %s' % e, 'failures': []}
            self.out.append(r)

    def finish(self, timeout):
        if self.th:
            self.th.join(timeout)
        done = {r['name'] for r in self.out}
        res = list(self.out)
        for sp in self.specs:
            if sp['name'] not in done:
                res.append({'name': sp['name'], 'status': 'error', 'cases': 0, 'distinct': 0, 'bound': '', 'cmd': '', 'note': 'ran out of time', 'failures': []})
        shutil.rmtree(self.dir, ignore_errors=True)
        return res
