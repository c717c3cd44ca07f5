#!/usr/bin/env python3
"""check.py <property>            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py --replay <file>        run again the run that produced a replay file

Builds the monitors against /repo's working tree, runs them, judges what they recorded and writes
evidence/<property>.json. Exit 0: held on everything observed. Exit 1: VIOLATION line printed.
Exit 2: no verdict (build or harness error, timeout, nothing observed)."""
import concurrent.futures as cf, glob, hashlib, hmac, json, os, re, shutil, signal, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
STABLE = 'stable-x86_64-unknown-linux-gnu'
HOST = 'x86_64-unknown-linux-gnu'
T0 = time.time()
TIER = os.environ.get('VERIF_TIER', 'quick')
THOROUGH = TIER == 'thorough'
SEED = int(os.environ.get('VERIF_SEED', '1') or '1')
SIMD = '-Ctarget-feature=+sse2,+ssse3,+sse4.1,+sha'


class Inconclusive(Exception):
    pass


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- processes

def base_env(**kw):
    env = {k: v for k, v in os.environ.items() if not k.startswith(('RUST', 'CARGO', 'MIRI', 'ASAN', 'TSAN'))}
    env.update(CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='0', CARGO_TERM_COLOR='never', RUST_BACKTRACE='0',
               HOME=os.environ.get('HOME', '/root'), LC_ALL='C')
    for k in ('CARGO_HOME', 'RUSTUP_HOME'):
        if k in os.environ:
            env[k] = os.environ[k]
    env.update(kw)
    return env


class Ended:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out


def call(cmd, env=None, cwd=None, timeout=600):
    """Runs a command in its own process group; never raises for what the command does."""
    p = subprocess.Popen(cmd, env=env or base_env(), cwd=cwd, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors='replace', start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return Ended(p.returncode, out, err, False)
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        return Ended(None, out, err, True)


def source_stamp():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + '/src/**/*', recursive=True)) + [REPO + '/Cargo.toml', REPO + '/build.rs']
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b'\0' + open(f, 'rb').read() + b'\0')
    return h.hexdigest()


# ---------------------------------------------------------------- builds

class BuildFailed(Exception):
    def __init__(self, what, text):
        super().__init__(what)
        self.what, self.text = what, text


def cargo(args, target_dir, toolchain=STABLE, rustflags='', cwd=None, timeout=850, **env):
    """cargo with its own target directory; a source change always invalidates the crate under test."""
    os.makedirs(target_dir, exist_ok=True)
    stamp, f = source_stamp(), os.path.join(target_dir, '.repo-stamp')
    if not os.path.exists(f) or open(f).read() != stamp:
        for d in glob.glob(target_dir + '/**/.fingerprint/chf*', recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        with open(f, 'w') as o:
            o.write(stamp)
    e = base_env(RUSTUP_TOOLCHAIN=toolchain, **env)
    if rustflags:
        e['RUSTFLAGS'] = rustflags
    return call(['cargo'] + args + ['--offline', '--target-dir', target_dir], e, cwd or os.path.join(VERIF, 'mon'), timeout)


def first_error(text):
    i = text.find('\nerror')
    return (text[i + 1:] if i >= 0 else text)[:3000]


class Config:
    """A build of the monitors."""

    def __init__(self, name, profile, features, toolchain=STABLE, rustflags='', target=None, bin='mon', extra=(), env=None, crate='mon'):
        self.name, self.profile, self.features, self.toolchain, self.rustflags = name, profile, features, toolchain, rustflags
        self.target, self.bin, self.extra, self.env, self.crate = target, bin, list(extra), env or {}, crate
        self.path = None

    def dir(self, prop):
        return os.path.join(BUILD, prop.lower(), self.name)

    def build(self, prop):
        a = ['build', '-q', '--profile', self.profile, '--bin', self.bin, '--features', self.features] + self.extra
        if self.target:
            a += ['--target', self.target]
        t = time.time()
        r = cargo(a, self.dir(prop), self.toolchain, self.rustflags, os.path.join(VERIF, self.crate), **self.env)
        if r.timed_out:
            raise Inconclusive('build of %s timed out' % self.name)
        if r.rc != 0:
            raise BuildFailed(self.name, r.err)
        sub = {'dev': 'debug'}.get(self.profile, self.profile)
        self.path = os.path.join(self.dir(prop), *([self.target] if self.target else []), sub, self.bin)
        log('built', self.name, '%.1fs' % (time.time() - t))
        return self


def build_all(prop, configs, jobs=4):
    with cf.ThreadPoolExecutor(jobs) as ex:
        fs = [ex.submit(c.build, prop) for c in configs]
        for f in fs:
            f.result()
    return configs


# ---------------------------------------------------------------- results

class Check:
    def __init__(self, prop):
        self.prop = prop
        self.viols = []          # dicts: config, kind, detail, cmd, env
        self.runs = []
        self.evals = self.distinct = 0
        self.counters, self.samples = {}, []
        self.notes = {}
        self.problems = []       # reasons for having no verdict
        self.lock = threading.Lock()
        self.work = os.path.join(BUILD, prop.lower(), 'work')
        os.makedirs(self.work, exist_ok=True)

    def add(self, name, evals, distinct, counters=None, samples=(), **info):
        if evals == 0 or distinct == 0:
            self.problem('%s: %s observed nothing' % (name, info.get('args', '')))
        with self.lock:
            self.evals += evals
            self.distinct += distinct
            for k, v in (counters or {}).items():
                self.counters[k] = self.counters.get(k, 0) + v
            if len(self.samples) < 40:
                self.samples += [{'config': name, 'case': s} for s in list(samples)[:3]]
            last = self.runs[-1] if self.runs else {}
            if info.pop('fold', False) and last.get('config') == name and last.get('args') == info.get('args'):
                for k, v in (('evaluations', evals), ('distinct', distinct), ('times', 1)):
                    last[k] = last.get(k, 1 if k == 'times' else 0) + v
                last['wall_s'] = round(last['wall_s'] + info['wall_s'], 2)
                return
            self.runs.append(dict(config=name, evaluations=evals, distinct=distinct, **info))

    def viol(self, config, kind, detail, cmd=None, env=None):
        with self.lock:
            self.viols.append(dict(config=config, kind=kind, detail=str(detail)[:4000], cmd=cmd, env=env or {}))

    def problem(self, what):
        with self.lock:
            self.problems.append(what)

    # -- running a monitor binary

    def mon(self, config, path, args, seed=None, timeout=600, env=None, tag='', events=False, wrap=(), quiet=False, hang=False):
        """Runs a monitor; merges its record; an abnormal end that repeats is a violation."""
        seed = SEED if seed is None else seed
        out = os.path.join(self.work, '%s-%s-%d.json' % (config, tag or args[0], seed))
        ev = out + '.events'
        cmd = list(wrap) + [path] + args + ['--seed', str(seed), '--tier', TIER, '--config', config, '--out', out]
        if events:
            cmd += ['--events', ev]
        e = base_env(**(env or {}))
        for attempt in (1, 2):
            if os.path.exists(out):
                os.remove(out)
            t = time.time()
            r = call(cmd, e, self.work, timeout)
            if r.timed_out and hang and attempt == 1:
                continue
            if r.timed_out and hang:
                return self.viol(config, 'does not end', 'a run that takes a fraction of a second was still going after %d s, twice' % timeout, cmd, env)
            if r.timed_out:
                return self.problem('%s: %s timed out after %ds' % (config, ' '.join(args), timeout))
            if r.rc == 3:
                return self.problem('%s: %s' % (config, r.err.strip()[-500:]))
            if r.rc == 0:
                break
            san = sanitizer_report(r.err)
            if san:
                return self.viol(config, 'sanitizer report', san, cmd, env)
            if r.rc == -9:
                return self.problem('%s: killed (memory?)' % config)
            log(config, args, 'ended with', r.rc, r.err.strip()[-300:])
        else:
            if r.rc < 0 or r.rc in (133, 134, 136, 138, 139):
                return self.viol(config, 'crash', 'ended twice with %s: %s' % (r.rc, r.err.strip()[-1500:]), cmd, env)
            return self.problem('%s: %s ended with %s: %s' % (config, args, r.rc, r.err.strip()[-800:]))
        try:
            d = json.load(open(out))
        except Exception as x:
            return self.problem('%s: unreadable result: %s' % (config, x))
        if not quiet or d['violations']:
            log(config, ' '.join(args), d['evaluations'], 'cases', d['distinct'], 'distinct', len(d['violations']), 'objections', '%.1fs' % (time.time() - t))
        self.add(config, d['evaluations'], d['distinct'], d['counters'], d['samples'], args=' '.join(args), seed=seed, wall_s=round(time.time() - t, 2), fold=quiet)
        for v in d['violations']:
            self.viol(config, v['kind'], v['detail'], cmd + ['--only', str(v['task'])], env)
        if d['harness_errors']:
            self.problem('%s: harness: %s' % (config, d['harness_errors'][:3]))
        if events:
            self.recheck(config, ev, cmd)
        return d

    def recheck(self, config, path, cmd):
        """The offline checker: judges the recorded events again with Python's own implementations."""
        n = bad = 0
        algs = {'sha512_256': 'sha512_256', 'sha512/256': 'sha512_256'}
        seen = set()
        for line in open(path):
            line = line.strip()
            if not line:
                continue
            e = json.loads(line)
            a = algs.get(e['alg'], e['alg'])
            m, got = bytes.fromhex(e['msg']), e['out']
            if e['op'] == 'hash':
                want = hashlib.new(a, m).hexdigest()
            elif e['op'] == 'hmac':
                want = hmac.new(bytes.fromhex(e['key']), m, lambda d=b'', a=a: hashlib.new(a, d)).hexdigest()
            elif e['op'] == 'tagged':
                t = hashlib.sha256(bytes.fromhex(e['tag'])).digest()
                want = hashlib.sha256(t + t + m).hexdigest()
            else:
                continue
            n += 1
            seen.add(line)
            if want != got:
                bad += 1
                if bad < 4:
                    self.viol(config, 'offline ' + e['op'], '%s: recorded %s, hashlib says %s' % (line[:600], got, want), cmd)
        with self.lock:
            self.counters['events judged again offline by hashlib/hmac'] = self.counters.get('events judged again offline by hashlib/hmac', 0) + n
        os.remove(path)
        if n == 0:
            self.problem('%s: no events recorded' % config)

    # -- the end

    def finish(self, rule, assumptions):
        ev = {'property': self.prop, 'tier': TIER, 'seed': SEED, 'level': 'exploration', 'wall_s': round(time.time() - T0, 2),
              'violations': len(self.viols), 'assumptions': assumptions,
              'coverage': dict(evaluations=self.evals, distinct_nontrivial=self.distinct, rule=rule, samples=self.samples[:16],
                               observed=self.counters, runs=self.runs, **self.notes)}
        if self.problems:
            ev['coverage']['no_verdict_because'] = self.problems
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as o:
            json.dump(ev, o, indent=1)
        if self.viols:
            os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
            path = os.path.join(VERIF, 'replays', '%s-%s-%d.json' % (self.prop, TIER, SEED))
            with open(path, 'w') as o:
                json.dump({'property': self.prop, 'tier': TIER, 'seed': SEED, 'violations': self.viols[:40]}, o, indent=1)
            for v in self.viols[:6]:
                print('%s [%s] %s: %s' % (self.prop, v['config'], v['kind'], v['detail'][:700]))
            print('VIOLATION property=%s replay=%s' % (self.prop, path))
            return 1
        if self.problems:
            for p in self.problems:
                print('no verdict on %s: %s' % (self.prop, p))
            return 2
        print('%s held on %d cases (%d distinct and non-trivial) in %d runs, %.0f s' % (self.prop, self.evals, self.distinct, len(self.runs), time.time() - T0))
        return 0


def sanitizer_report(err):
    m = re.search(r'(==\d+==ERROR: \w+Sanitizer.*|WARNING: ThreadSanitizer.*|SUMMARY: \w+Sanitizer.*)', err, re.S)
    return m.group(1)[:3000] if m else None


# ---------------------------------------------------------------- the checks

def std(mods, profile='release', **k): return Config('std', profile, 'std ' + mods, **k)
def soft(mods, profile='checked', **k): return Config('soft', profile, mods, **k)
def small(mods, profile='checked', **k): return Config('small', profile, 'small-hash ' + mods, **k)


def const_failure(x):
    return ('E0080' in x.text or 'evaluation panicked' in x.text or 'constant evaluation' in x.text) and REPO + '/' in x.text


def simple(c, configs, args, scale, tscale, events=False, seeds=3, const=False, timeout=800, tconfigs=()):
    """Build each configuration, run the monitor in each; thorough: larger, more seeds, more configurations."""
    configs = configs + (list(tconfigs) if THOROUGH else [])
    try:
        build_all(c.prop, configs)
    except BuildFailed as x:
        if const and const_failure(x):
            c.viol(x.what, 'compile-time evaluation fails', first_error(x.text))
            return
        raise
    for s in range(seeds if THOROUGH else 1):
        for cfg in configs:
            c.mon(cfg.name, cfg.path, args + ['--scale', str(tscale if THOROUGH else scale)], SEED + 1000 * s, timeout=timeout, events=events)


def hashing(prop, scale, tscale, events=False, feats='m-hash', const=False, std_feats=''):
    def f(c):
        nat = Config('native', 'release', 'std ' + feats, rustflags='-Ctarget-cpu=native')
        dbg = Config('debug', 'dev', 'std ' + feats)
        simple(c, [std(feats + std_feats), soft(feats), small(feats)], [prop.lower()], scale, tscale, events, const=const, tconfigs=[nat, dbg])
    return f


def c07(c):
    cs = build_all(c.prop, [std('m-long'), soft('m-long'), small('m-long')])
    for s in range(4 if THOROUGH else 1):
        for cfg in cs:
            c.mon(cfg.name, cfg.path, ['c07', 'resume', '--scale', '20000' if THOROUGH else '5000'], SEED + 1000 * s, tag='resume')
    for cfg in cs if THOROUGH else cs[:1]:
        for what in ('zero', 'stream'):
            c.mon(cfg.name, cfg.path, ['c07', what], tag=what, timeout=3000)


def c09(c):
    a = [Config('serde-std', 'light', 'm-vals std'), Config('none', 'light', 'm-vals'), Config('std-release', 'release', 'm-vals std')]
    simple(c, a, ['c09'], 1500, 8000)


def c10(c):
    a = [Config('serde-std', 'light', 'm-serde std'), Config('serde', 'light', 'm-serde'), Config('serde-small', 'light', 'm-serde alloc small-hash')]
    simple(c, a, ['c10'], 1200, 8000)


def c11(c):
    a = [Config('std', 'light', 'm-vals std'), Config('none', 'light', 'm-vals'), Config('std-release', 'release', 'm-vals std')]
    simple(c, a, ['c11'], 6000, 40000)


def c12(c):
    a = [Config('std', 'light', 'm-vals std'), Config('std-release', 'release', 'm-vals std'), Config('none', 'release', 'm-vals')]
    # Every optimised way the comparison might be compiled; unoptimised code is not judged.
    cts = [Config('ct-o3', 'release', 'std', bin='ct'), Config('ct-o1', 'release', 'std', bin='ct', env={'CARGO_PROFILE_RELEASE_OPT_LEVEL': '1'}),
           Config('ct-os', 'release', '', bin='ct', env={'CARGO_PROFILE_RELEASE_OPT_LEVEL': 's'}),
           Config('ct-o2-native', 'release', 'small-hash', bin='ct', env={'CARGO_PROFILE_RELEASE_OPT_LEVEL': '2'}, rustflags='-Ctarget-cpu=x86-64-v2')]
    build_all(c.prop, cts, 8)
    simple(c, a, ['c12'], 1000, 4000)
    c.mon(a[1].name, a[1].path, ['c12', 'huge'], tag='huge')

    def ct(cfg, seed, mode):
        cmd = ['valgrind', '-q', '--error-limit=no', '--num-callers=12', cfg.path, str(seed), '1' if THOROUGH else '0'] + ([mode] if mode else [])
        r = call(cmd, base_env(), c.work, 700)
        try:
            d = json.loads(r.out.strip().splitlines()[-1])
        except Exception:
            return c.problem('%s: no result under valgrind (%s): %s' % (cfg.name, r.rc, r.err[-500:]))
        if mode:   # the monitor's own test: a comparison that does leak has to be reported
            with c.lock:
                c.counters['leaky stand-ins reported'] = c.counters.get('leaky stand-ins reported', 0) + (1 if d['reports'] else 0)
            if not d['reports']:
                c.problem('%s: the taint monitor did not report the leaky stand-in %s' % (cfg.name, mode))
            return
        c.add(cfg.name, d['pairs'], d['pairs'], {'comparisons run on tainted bytes under valgrind': d['pairs'], 'tainted bytes': d['secret_bytes']}, [], args='valgrind taint', seed=seed)
        if d['reports']:
            c.viol(cfg.name, 'control flow or addresses depend on contents', r.err[:3000], cmd)
        if d['wrong']:
            c.viol(cfg.name, 'wrong answer under valgrind', d, cmd)
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(ct, cfg, SEED + s, None) for cfg in cts for s in range(4 if THOROUGH else 1)]
        fs += [ex.submit(ct, cts[0], SEED, m) for m in ('leaky-branch', 'leaky-index')]
        for f in fs:
            f.result()


def c16(c):
    a = [Config('std', 'checked', 'm-io std'), Config('io', 'checked', 'm-io io'), Config('std-small', 'release', 'm-io std small-hash')]
    simple(c, a, ['c16'], 1000, 6000)
    c.mon(a[0].name, a[0].path, ['c16', 'huge'], tag='huge')


def c17(c):
    a = [Config('schema-std', 'light', 'm-serde std schemars'), Config('schema-alloc', 'light', 'm-serde schemars')]
    simple(c, a, ['c17'], 4000, 30000)


# -- coverage-guided workloads

def guided_configs(feats):
    k = dict(toolchain='nightly', bin='guided', crate='guided')
    return [Config('guided-' + n, 'guided', (x + ' ' + feats).strip(), **k) for n, x in (('std', 'std'), ('soft', ''), ('small', 'small-hash'))]


def guided_run(c, cfg, j, secs):
    out = os.path.join(c.work, '%s-%d.json' % (cfg.name, j))
    for f in glob.glob(out + '*'):
        os.remove(f)
    prop, seed = c.prop.lower(), SEED * 100 + j
    t = time.time()
    r = call([cfg.path, prop, out, 'run', str(seed), str(secs)], cwd=c.work, timeout=secs + 150)
    if r.rc == 3:
        return c.problem('%s: %s' % (cfg.name, r.err[-500:]))

    def keep(f):
        name = os.path.join(VERIF, 'replays', '%s-%s-%d.case' % (c.prop, cfg.name, j))
        os.makedirs(os.path.dirname(name), exist_ok=True)
        shutil.copy(f, name)
        return [cfg.path, prop, out + '.again', 'one', name]
    if r.timed_out or r.rc != 0:   # a crash or a case that does not end; believed if it repeats
        f = out + '.current'
        if not os.path.exists(f):
            return c.problem('%s: guided run %d ended with %s: %s' % (cfg.name, j, 'a timeout' if r.timed_out else r.rc, r.err[-600:]))
        cmd = keep(f)
        a = call(cmd, cwd=c.work, timeout=120)
        if a.timed_out and r.timed_out:
            return c.viol(cfg.name, 'does not end', 'a case of a few kilobytes ran for more than two minutes, twice', cmd)
        if a.rc is not None and (a.rc < 0 and a.rc != -9 or a.rc == 70):
            return c.viol(cfg.name, 'crash', 'a case ends the process, twice: %s %s' % (a.rc, a.err[-800:]), cmd)
        return c.problem('%s: guided run ended with %s, not repeated' % (cfg.name, r.rc))
    try:
        d = json.load(open(out))
    except Exception as x:
        return c.problem('%s: unreadable result: %s %s' % (cfg.name, x, r.err[-300:]))
    n = d['counters']
    n['guided executions'] = d['executions']
    n['guided: comparisons the engine tried to make equal'] = d['pairs']
    n['guided: changes towards a comparison that showed new behaviour'] = d['met']
    c.add(cfg.name, d['evaluations'], d['distinct'], n, d['samples'], args='guided', seed=seed, wall_s=round(time.time() - t, 2), executions=d['executions'], edges=d['edges'], features=d['features'], corpus=d['corpus'])
    for v in d['violations'][:5]:
        c.viol(cfg.name, v['kind'], v['detail'], keep(out + '.case'))
    if d['harness_errors']:
        c.problem('%s: harness: %s' % (cfg.name, d['harness_errors'][:3]))


def guided(f, feats='g-hash', configs=(0, 1, 2), secs=10, tsecs=600):
    """The check f, then workloads guided by coverage and comparisons, on eight processes."""
    def g(c):
        cs = [guided_configs(feats)[i] for i in configs]
        with cf.ThreadPoolExecutor(len(cs)) as ex:
            bs = [ex.submit(x.build, c.prop) for x in cs]
            f(c)
            for b in bs:
                b.result()
        if c.viols:
            return
        with cf.ThreadPoolExecutor(8) as ex:
            for x in [ex.submit(guided_run, c, cs[j % len(cs)], j, tsecs if THOROUGH else secs) for j in range(8)]:
                x.result()
        n = c.counters.get('guided executions', 0)
        log('guided', n, 'executions', 'edges', max([x.get('edges', 0) for x in c.runs]))
    return g


# -- undefined behaviour

MIRI = 'nightly'


def miri_sysroot(target):
    d = os.path.join(BUILD, 'miri-sysroot', target)
    if not os.path.exists(os.path.join(d, '.done')):
        t = time.time()
        r = call(['cargo', 'miri', 'setup', '--target', target], base_env(RUSTUP_TOOLCHAIN=MIRI, XDG_CACHE_HOME=d), os.path.join(VERIF, 'mon'), 800)
        if r.rc != 0:
            raise Inconclusive('miri setup: ' + r.err[-600:])
        open(os.path.join(d, '.done'), 'w').close()
        log('miri sysroot', target, '%.1fs' % (time.time() - t))
    return os.path.join(d, 'miri')


class Miri:
    def __init__(self, name, target, features, rustflags='', flags=''):
        self.name, self.target, self.features, self.rustflags, self.flags = name, target, features, rustflags, flags

    def prepare(self, prop):
        self.dir = os.path.join(BUILD, prop.lower(), 'miri-' + self.name)
        self.sys = miri_sysroot(self.target)
        t = time.time()
        r = self.run(['tour', '--scale', '1', 'nothing'], 600)
        if r.rc != 0:
            raise Inconclusive('miri build %s: %s' % (self.name, r.err[-1500:]))
        log('miri', self.name, 'built', '%.1fs' % (time.time() - t))

    def run(self, args, timeout):
        a = ['miri', 'run', '-q', '--profile', 'light', '--target', self.target, '--features', self.features, '--bin', 'mon']
        os.makedirs(self.dir, exist_ok=True)
        e = base_env(RUSTUP_TOOLCHAIN=MIRI, MIRI_SYSROOT=self.sys, MIRIFLAGS='-Zmiri-disable-isolation -Zmiri-ignore-leaks ' + self.flags)
        if self.rustflags:
            e['RUSTFLAGS'] = self.rustflags
        cmd = ['cargo'] + a + ['--offline', '--target-dir', self.dir, '--'] + args
        self.cmd = cmd
        r = call(cmd, e, os.path.join(VERIF, 'mon'), timeout)
        r.cmd, r.env = cmd, {k: e[k] for k in ('MIRIFLAGS', 'RUSTFLAGS', 'MIRI_SYSROOT', 'RUSTUP_TOOLCHAIN') if k in e}
        return r


SECTIONS = [['engines', 'shard=%d/6' % i] for i in range(6)] + [['values', 'shard=%d/5' % i] for i in range(5)] + \
    [['hashes', 'shard=%d/2' % i] for i in range(2)] + [['sip', 'consts', 'misc']]


def miri_tour(c, m, seed, sections, timeout=840, judge=True):
    """Runs sections of the tour under Miri; returns its transcript lines (key -> value)."""
    lines = {}

    def one(sec):
        out = os.path.join(c.work, 'miri-%s-%d-%s.txt' % (m.name, seed, '-'.join(sec).replace('/', '_').replace('=', '')))
        if os.path.exists(out):
            os.remove(out)
        t = time.time()
        r = m.run(['tour', '--scale', '1', '--seed', str(seed), '--out', out] + sec, timeout)
        if r.timed_out:
            return c.problem('miri %s %s timed out' % (m.name, sec))
        if 'Undefined Behavior' in r.err:
            # The monitors are safe code: wherever Miri notices it, the crate caused it.
            return c.viol('miri-' + m.name, 'undefined behaviour', first_error('\n' + r.err), r.cmd, r.env)
        if r.rc != 0 and not judge and crate_panic(r.err):
            return c.viol('miri-' + m.name, 'panics where the native builds do not', crate_panic(r.err), r.cmd, r.env)
        if r.rc != 0:
            return c.problem('miri %s %s ended with %s: %s' % (m.name, sec, r.rc, r.err[-1000:]))
        got = parse(out)
        log('miri', m.name, sec, len(got), 'observations', '%.1fs' % (time.time() - t))
        with c.lock:
            lines.update(got)
        c.add('miri-' + m.name, len(got), len(got), {'API observations under Miri': len(got)}, list('%s=%s' % (k, v[:80]) for k, v in list(got.items())[:1]),
              args=' '.join(sec), seed=seed, wall_s=round(time.time() - t, 1))
    with cf.ThreadPoolExecutor(8) as ex:
        for f in [ex.submit(one, s) for s in sections]:
            f.result()
    return lines


def crate_panic(err):
    m = re.search(r"panicked at /repo/src/.*\n.*", err)
    return m.group(0)[:600] if m else None


def parse(path):
    d = {}
    for l in open(path, errors='replace'):
        k, eq, v = l.rstrip('\n').partition('=')
        if eq:
            d[k] = v
    return d


def tour(c, name, path, seed, big, wrap=(), env=None, timeout=600, extra=()):
    out = os.path.join(c.work, 'tour-%s-%d-%d.txt' % (name, seed, big))
    if os.path.exists(out):
        os.remove(out)
    cmd = list(wrap) + [path, 'tour', '--seed', str(seed), '--scale', '1000' if big else '1', '--out', out] + list(extra)
    t = time.time()
    r = call(cmd, base_env(**(env or {})), c.work, timeout)
    if r.timed_out:
        c.problem('%s: tour timed out' % name)
        return None
    san = sanitizer_report(r.err)
    if san:
        c.viol(name, 'sanitizer report', san, cmd, env)
        return None
    if wrap and r.rc == 99:
        if REPO + '/' in r.err or 'chf' in r.err:
            c.viol(name, 'valgrind report', r.err[:3000], cmd, env)
        else:
            c.problem('%s: valgrind reports outside the crate: %s' % (name, r.err[:800]))
        return None
    if r.rc != 0:
        again = call(cmd, base_env(**(env or {})), c.work, timeout)
        if r.rc == again.rc and r.rc is not None and (r.rc < 0 and r.rc != -9 or r.rc in (134, 139)):
            c.viol(name, 'crash', 'tour ended twice with %s: %s' % (r.rc, r.err[-1500:]), cmd, env)
        elif c.prop == 'C14' and again.rc == r.rc and crate_panic(r.err):
            c.viol(name, 'panics', crate_panic(r.err), cmd, env)
        else:
            c.problem('%s: tour ended with %s: %s' % (name, r.rc, r.err[-800:]))
        return None
    d = parse(out)
    c.add(name, len(d), len(d), {'API observations in tours': len(d)}, ['%s=%s' % (k, v[:80]) for k, v in list(d.items())[:1]], args='tour', seed=seed, wall_s=round(time.time() - t, 2))
    if not d:
        c.problem('%s: empty tour' % name)
    return d


VALGRIND = ['valgrind', '-q', '--error-exitcode=99', '--leak-check=no', '--track-origins=no']


def c13(c):
    mods = 'm-tour m-io m-long'
    asan = Config('asan', 'light', 'std serde m-serde ' + mods, MIRI, '-Zsanitizer=address -Cforce-frame-pointers=yes', HOST)
    asan2 = Config('asan-small', 'light', 'small-hash io ' + mods, MIRI, '-Zsanitizer=address -Cforce-frame-pointers=yes', HOST)
    nat = [std('m-tour'), Config('soft-debug', 'dev', 'm-tour')]
    ms = [Miri('simd-stacked', HOST, 'std m-tour', SIMD), Miri('portable-tree', HOST, 'm-tour', '', '-Zmiri-tree-borrows')]
    sd = Miri('serde', HOST, 'm-tour serde m-serde schemars', '', '-Zmiri-symbolic-alignment-check')
    if THOROUGH:
        ms += [Miri('simd-tree', HOST, 'std m-tour', SIMD, '-Zmiri-tree-borrows'), Miri('small-stacked', HOST, 'small-hash m-tour'),
               Miri('i686-stacked', 'i686-unknown-linux-gnu', 'std m-tour')]
    with cf.ThreadPoolExecutor(3) as ex:
        f1 = ex.submit(build_all, c.prop, [asan, asan2] + nat, 2)
        for m in ms:
            miri_sysroot(m.target)
        fm = [ex.submit(m.prepare, c.prop) for m in ms + [sd]]
        for f in [f1] + fm:
            f.result()
    for s in range(6 if THOROUGH else 1):
        for m in ms:
            miri_tour(c, m, SEED + 100 * s, SECTIONS + [['threads']], 3000 if THOROUGH else 800)
        miri_tour(c, sd, SEED + 100 * s, [['serde', 'shard=%d/8' % i] for i in range(8)], 3000 if THOROUGH else 800)
    opts = {'ASAN_OPTIONS': 'halt_on_error=1:abort_on_error=0:detect_leaks=0:detect_stack_use_after_return=1:exitcode=77'}
    for cfg in (asan, asan2):
        for s in range(20 if THOROUGH else 6):
            tour(c, cfg.name, cfg.path, SEED + s, True, env=opts)
            tour(c, cfg.name, cfg.path, SEED + s, False, env=opts)
        for prop in ('c01', 'c02', 'c03', 'c04', 'c05', 'c06', 'c08', 'c09', 'c11', 'c12', 'c16', 'c15', 'c18') + (('c10',) if cfg is asan else ()):
            c13_mon(c, cfg, prop, opts)
    for cfg in nat:
        for s in range(8 if THOROUGH else 2):
            tour(c, cfg.name + '-valgrind', cfg.path, SEED + s, THOROUGH and cfg.name == 'std', VALGRIND, timeout=2000 if THOROUGH else 600)


def c13_mon(c, cfg, prop, opts):
    """Another property's workload under a sanitizer: only the sanitizer's word counts here."""
    out = os.path.join(c.work, 'san-%s-%s.json' % (cfg.name, prop))
    cmd = [cfg.path, prop, '--seed', str(SEED), '--tier', TIER, '--config', cfg.name, '--out', out, '--scale', '1000' if THOROUGH else '100']
    r = call(cmd, base_env(**opts), c.work, 1500)
    if r.timed_out:
        return c.problem('%s %s timed out' % (cfg.name, prop))
    san = sanitizer_report(r.err)
    if san:
        return c.viol(cfg.name, 'sanitizer report', san, cmd, opts)
    if r.rc != 0:
        return c.problem('%s %s ended with %s: %s' % (cfg.name, prop, r.rc, r.err[-600:]))
    d = json.load(open(out))
    log(cfg.name, prop, d['evaluations'])
    c.add(cfg.name, d['evaluations'], d['distinct'], {'cases of other workloads under AddressSanitizer': d['evaluations']}, [], args=prop)


# -- configurations

FEATURES = ['std', 'alloc', 'io', 'small-hash', 'serde', 'schemars']


BARE = ['x86_64-unknown-none', 'thumbv7m-none-eabi']


def c14(c):
    combos = [[f for i, f in enumerate(FEATURES) if n >> i & 1] for n in range(64)]
    jobs = [(x, '') for x in combos] + [([], '--cfg hashes_fuzz'), (['std'], '--cfg hashes_fuzz'), (['std', 'io', 'serde', 'schemars', 'small-hash'], '--cfg hashes_fuzz')]
    # Where there is no std to fall back on (schemars itself needs it).
    jobs += [(x, t) for t in BARE for x in combos if 'std' not in x and 'schemars' not in x]
    # Jobs with the same dependencies share a directory.
    lanes = {}
    for j in jobs:
        lanes.setdefault(('schemars' in j[0], 'std' in j[0], BARE.index(j[1]) + 2 if j[1] in BARE else bool(j[1])), []).append(j)
    compiled, lacking = [], []

    def lane(key, js):
        d = os.path.join(BUILD, 'c14', 'feat-%d%d%d' % key)
        for feats, fl in js:
            if fl in BARE:
                r = cargo(['check', '-q', '-Zbuild-std=core,alloc', '--target', fl, '--features', ','.join(feats)], d, MIRI, '', os.path.join(VERIF, 'feat'))
            else:
                r = cargo(['check', '-q', '--features', ','.join(feats)], d, STABLE, fl, os.path.join(VERIF, 'feat'))
            name = '+'.join(feats) or 'none'
            if r.timed_out:
                c.problem('cargo check %s timed out' % name)
            elif r.rc != 0:
                if 'could not compile `chf`' in r.err:
                    c.viol(name + fl, 'does not compile', 'features [%s] %s: %s' % (','.join(feats), fl, first_error('\n' + r.err)))
                elif 'could not compile `chf-feat`' in r.err:
                    with c.lock:
                        lacking.append((name + fl, first_error('\n' + r.err)))
                else:
                    c.problem('cargo check %s: %s' % (name, r.err[-800:]))
            else:
                with c.lock:
                    compiled.append(name + fl)

    T = 'm-tour'
    natives = [Config('std-release', 'release', T + ' std'), Config('none-checked', 'checked', T), Config('small-checked', 'checked', T + ' small-hash'),
               Config('std-small', 'light', T + ' std small-hash'), Config('none-debug', 'dev', T), Config('std-debug', 'dev', T + ' std'),
               Config('alloc', 'light', T + ' alloc'),
               Config('io-native-cpu', 'light', T + ' io std', rustflags='-Ctarget-cpu=native'),
               Config('io', 'light', T + ' io'), Config('all-light', 'light', T + ' std serde schemars m-serde'), Config('serde-light', 'light', T + ' serde m-serde'),
               Config('schemars-light', 'light', T + ' schemars m-serde small-hash io')]
    miris = [Miri('s390x', 's390x-unknown-linux-gnu', T), Miri('i686', 'i686-unknown-linux-gnu', T + ' std')]
    if THOROUGH:
        miris += [Miri('powerpc', 'powerpc-unknown-linux-gnu', T + ' small-hash'), Miri('x86_64-simd', HOST, T + ' std', SIMD),
                  Miri('aarch64', 'aarch64-unknown-linux-gnu', T + ' std')]

    with cf.ThreadPoolExecutor(8) as ex:
        fl = [ex.submit(lane, k, v) for k, v in lanes.items()]
        for f in fl:
            f.result()
    # Code using the API compiles with some feature sets and not with others; with none at all, the API is not the one we know.
    for n, e in lacking[:5]:
        if compiled:
            c.viol(n, 'part of the API is missing', e)
        else:
            c.problem('code using the API does not compile: %s' % e)
    c.add('features', len(jobs), len(compiled), {'feature sets compiled': len(compiled)}, compiled[:3], args='cargo check')
    if c.viols:
        return   # what does not compile cannot be compared
    with cf.ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(n.build, c.prop) for n in natives]
        fm = [ex.submit(m.prepare, c.prop) for m in miris]
        for f in fs + fm:
            f.result()
    compared = [0]

    def compare(ref, refname, got, name, cmd=None):
        diff = [k for k in got if k in ref and ref[k] != got[k]]
        compared[0] += sum(1 for k in got if k in ref)
        for k in diff[:3]:
            c.viol(name, 'differs from ' + refname, '%s: %s here, %s there' % (k, got[k][:300], ref[k][:300]), cmd)
        if len(diff) > 3:
            c.viol(name, 'differs from ' + refname, '%d observations differ, e.g. %s' % (len(diff), ', '.join(diff[:12])))
        common = sum(1 for k in got if k in ref)
        if common < len(got) // 3 or not common:
            c.problem('%s: only %d of %d observations comparable' % (name, common, len(got)))

    def merge(ref, got):
        for k, v in got.items():
            ref.setdefault(k, v)

    for s in range(12 if THOROUGH else 4):
        seed = SEED + 10 * s
        for big in (True, False):
            ref = {}
            for cfg in natives:
                got = tour(c, cfg.name, cfg.path, seed, big)
                if got is not None:
                    if ref:
                        compare(ref, 'the configurations before it', got, cfg.name, [cfg.path, 'tour', '--seed', str(seed), '--scale', '1000' if big else '1'])
                    merge(ref, got)
            # The same binaries on a CPU without SHA extensions (valgrind's): the software path with std.
            if (big and (s == 0 or THOROUGH)) or (not big and s < 2):
                for cfg in (natives[0], natives[3]):
                    got = tour(c, cfg.name + '-nosha', cfg.path, seed, big, ['valgrind', '-q', '--tool=none'], timeout=1500)
                    if got is not None:
                        compare(ref, 'native', got, cfg.name + '-nosha')
            if not big and (s == 0 or THOROUGH and s < 3):
                for m in miris:
                    got = miri_tour(c, m, seed, SECTIONS, 3000 if THOROUGH else 840, judge=False)
                    if got:
                        compare(ref, 'native', got, 'miri-' + m.name)
    c.counters['observations compared between configurations'] = compared[0]
    c.notes['configurations'] = [n.name for n in natives] + ['miri-' + m.name for m in miris] + ['%d feature sets' % len(compiled)]


# -- isolation

def c15(c):
    tsan = Config('tsan', 'checked', 'std m-iso', MIRI, '-Zsanitizer=thread', HOST, extra=['-Zbuild-std'])
    mi = Miri('threads', HOST, 'std m-tour', SIMD)
    cs = [std('m-iso'), soft('m-iso'), small('m-iso')]
    with cf.ThreadPoolExecutor(3) as ex:
        fs = [ex.submit(build_all, c.prop, cs, 2), ex.submit(build_all, c.prop, [tsan]), ex.submit(mi.prepare, c.prop)]
        for f in fs:
            f.result()
    for s in range(4 if THOROUGH else 1):
        for cfg in cs:
            c.mon(cfg.name, cfg.path, ['c15', '--scale', '20000' if THOROUGH else '4000'], SEED + 1000 * s)
    opts = {'TSAN_OPTIONS': 'halt_on_error=1:exitcode=66'}
    for s in range(10 if THOROUGH else 3):
        c.mon('tsan', tsan.path, ['c15', 'threads', '--scale', '3000' if THOROUGH else '1000'], SEED + s, env=opts, tag='tsan')
    # Many short processes, each watched from its very first call.
    for cfg in cs + [tsan]:
        for s in range((6000 if THOROUGH else 500) // (5 if cfg is tsan else 1)):
            if c.mon(cfg.name, cfg.path, ['c15', 'first'], SEED * 100000 + s, env=opts if cfg is tsan else None, tag='first', quiet=True, hang=True, timeout=100) is None:
                break
    # The same histories in separate processes and in different orders: every one must come out the same.
    total = 0
    for cfg in cs:
        for s in range(10 if THOROUGH else 2):
            ref = None
            for how in ('forward', 'reverse', 'shuffle', 'forward'):
                out = os.path.join(c.work, 'iso-%s-%s.txt' % (cfg.name, how))
                cmd = [cfg.path, 'iso', '--seed', str(SEED + s), '--scale', '3000', '--out', out, how]
                r = call(cmd, base_env(), c.work, 600)
                if r.rc != 0:
                    c.problem('%s: iso %s ended with %s: %s' % (cfg.name, how, r.rc, r.err[-500:]))
                    continue
                d = parse(out)
                total += len(d)
                if ref is None:
                    ref = d
                    c.add(cfg.name, len(d), len(d), {}, ['%s=%s' % (k, v[:80]) for k, v in list(d.items())[:1]], args='iso', seed=SEED + s)
                else:
                    bad = [k for k in ref if d.get(k) != ref[k]]
                    for k in bad[:3]:
                        c.viol(cfg.name, 'depends on what ran before', '%s: %s when run %s, %s when run forward' % (k, d.get(k, '(nothing)')[:300], how, ref[k][:300]), cmd)
    c.counters['histories compared across processes and orders'] = total

    def one(k):
        out = os.path.join(c.work, 'miri-threads-%d.txt' % k)
        r = mi_run(mi, k, out)
        if r.timed_out:
            return c.problem('miri threads timed out')
        if 'Undefined Behavior' in r.err:
            return c.viol('miri-threads', 'data race or other undefined behaviour', first_error('\n' + r.err), r.cmd, r.env)
        if r.rc != 0:
            return c.problem('miri threads ended with %s: %s' % (r.rc, r.err[-800:]))
        return parse(out)
    with cf.ThreadPoolExecutor(8) as ex:
        got = [f.result() for f in [ex.submit(one, k) for k in range(60 if THOROUGH else 12)]]
    for g in got:
        if not g:
            continue
        alone = {k.split('/')[2]: v for k, v in g.items() if k.startswith('alone/')}
        ran = {k: v for k, v in g.items() if k.startswith('thread/')}
        c.add('miri-threads', len(ran), len(ran), {'thread histories under Miri schedules': len(ran)}, [], args='threads')
        for k, v in ran.items():
            if alone.get(k.split('/')[2]) != v:
                c.viol('miri-threads', 'depends on the schedule', '%s: %s, alone %s' % (k, v[:200], alone.get(k.split('/')[2], '(nothing)')[:200]))
                break


def mi_run(mi, k, out):
    a = mi.flags
    m = Miri(mi.name, mi.target, mi.features, mi.rustflags, a + ' -Zmiri-seed=%d -Zmiri-preemption-rate=0.1' % (SEED * 1000 + k))
    m.dir, m.sys = mi.dir, mi.sys
    if os.path.exists(out):
        os.remove(out)
    return m.run(['tour', '--scale', '1', '--seed', str(SEED), '--out', out, 'threads', 'window=%d' % k], 3000 if THOROUGH else 800)


# ---------------------------------------------------------------- table

COMMON = ['the reference model (mon/src/refimpl.rs) is right; it is tested against published vectors at every start and its verdicts are repeated by hashlib on a sample',
          'rustc, LLVM and the CPU execute the built code faithfully']
CHECKS = {
    'C01': (guided(hashing('C01', 2000, 10000, True)), 'Messages of every length around every padding boundary plus random lengths, contents and alignments, hashed by every one-shot path of every type in three builds. Non-trivial: the digest was compared with the reference model; distinct by algorithm, length, contents.', COMMON),
    'C02': (guided(hashing('C02', 1000, 6000)), 'Messages cut into random and boundary-seeking partitions with empty pieces, clones, queries in between and piece iterators. Non-trivial: at least one piece fed to an engine and judged; distinct by algorithm, message and cut list.', COMMON),
    'C03': (guided(hashing('C03', 4000, 20000, True)), 'HMAC over every engine type, keys of every length around the block size, random messages and partitions. Distinct by engine, key length, message length and content.', COMMON),
    'C04': (guided(hashing('C04', 6000, 30000)), 'SipHash-2-4 with random and special keys, every short length, alignments and partitions, all entry points. Distinct by keys, message, cuts.', COMMON),
    'C05': (guided(hashing('C05', 4000, 15000, True, const=True)), 'Tag strings of every short length, random long tags, several tag types used together, messages and partitions. Distinct by tag, message, cuts.', COMMON),
    'C06': (guided(hashing('C06', 5000, 20000)), 'Histories of input, save, resume and clone steps over every engine type, compared step by step with the uninterrupted engine and the model; off-boundary lengths must be refused. Distinct by engine, history.', COMMON),
    'C07': (guided(c07), 'Engines resumed at lengths around every power of two up to the limits, finished with random tails, judged by the model; really streamed messages beyond 2^32 bytes (std build; all builds in thorough). Distinct by engine, length, tail.', COMMON),
    'C08': (guided(hashing('C08', 1000, 5000, True, const=True, std_feats=' const-tables')), 'const_hash and hash_tag at run time for every length to several blocks and random longer ones, and evaluated by the compiler over a table of seeds, against the engine, the model and hashlib. Distinct by input.', COMMON),
    'C09': (guided(c09, 'g-vals'), 'Values of every type formatted with every format kind, width, precision, fill, and parsed back in mixed case; mutated, truncated, extended and non-hex strings parsed. Distinct by type and value or string.', COMMON[1:]),
    'C10': (guided(c10, 'g-vals serde'), 'Values of every type through JSON, bincode, CBOR and hand-written serializers/deserializers that deliver data in every form; corrupted payloads of every kind; types outside the crate that use the exported macro. Distinct by type, format and payload.', COMMON[1:] + ['serde_json, bincode and ciborium are right']),
    'C11': (guided(c11, 'g-vals'), 'Values of every type through every constructor, accessor, view, index and comparison, judged against the same operations on byte arrays. Distinct by type, values and operation.', COMMON[1:]),
    'C12': (guided(c12), 'Pairs of byte strings differing in no, one or many positions at every length and alignment; and the compiled comparison run with tainted contents under valgrind in four optimised builds, where a branch or address computed from the contents is reported (checked with two leaky stand-ins). Distinct by pair.', COMMON[1:] + ['memcheck reports every conditional jump and address that depends on tainted bytes; variable-time arithmetic instructions are not seen; unoptimised builds are not judged']),
    'C13': (c13, 'A tour over the whole public API with slices ending at the end of their allocations, under Miri (accelerated path with stacked borrows, portable path with tree borrows), AddressSanitizer (also the other monitors\' workloads) and valgrind. Counted: API observations made under a tool that would have reported undefined behaviour, distinct by key within a run.', ['Miri, AddressSanitizer and memcheck report what they claim to; nothing is said about paths not taken']),
    'C14': (c14, 'A user of the whole API compiled against all 64 feature sets and the fuzzing cfg; a deterministic tour over the API run in 12 native builds, on a CPU without SHA extensions and on interpreted big-endian and 32-bit targets, transcripts compared key by key. Counted: observations, distinct by key within a run.', ['Miri interprets foreign targets faithfully']),
    'C15': (c15, 'Histories of many engines interleaved in one thread, migrated between threads, run in parallel and repeated, each compared with the same history run alone, in other processes and orders; also under ThreadSanitizer and under Miri with random schedules. Distinct by history and interleaving.', COMMON[1:]),
    'C16': (guided(c16, configs=(0,)), 'Random sequences of writer operations on every engine with a writer impl through both traits; return values, counts and digests judged. Distinct by engine and operation list.', COMMON),
    'C17': (c17, 'Schemas of every type alone and of structs combining several, interpreted by an independent validator over serialised values and wrong-length strings. Distinct by type combination and instance.', COMMON[1:] + ['the validator covers the keywords the schemas use']),
    'C18': (guided(hashing('C18', 2000, 10000)), 'Counters read after every step of random histories of input, clone and resume for every engine type. Distinct by engine and history.', COMMON),
    'C19': (guided(hashing('C19', 500, 3000, feats='m-foreign'), 'g-foreign'), 'The generic code (HMAC, functions the engine trait provides, writers over HMAC) run over engines defined in the harness with 17 combinations of block, digest and starting size, which record what they are fed; keys of every length around the block; blocks too large for HMAC. Distinct by engine, key, message, cuts.', COMMON),
}


def main():
    if sys.argv[1] == '--replay':
        d = json.load(open(sys.argv[2]))
        for v in d['violations']:
            if v.get('cmd'):
                print(v['detail'])
                print('running', ' '.join(v['cmd']))
                return subprocess.call(v['cmd'], env=base_env(**v.get('env', {})))
        print('nothing to run; violations:', json.dumps(d['violations'], indent=1))
        return 0
    if sys.argv[1] == '--setup':   # the tools are there and the monitors build; checks build what they need themselves
        for t in ('cargo', 'valgrind'):
            if not shutil.which(t):
                print('missing', t)
                return 2
        std('m-hash').build('setup')
        return 0
    prop = sys.argv[1].upper()
    f, rule, assumptions = CHECKS[prop]
    c = Check(prop)
    try:
        f(c)
    except BuildFailed as x:
        c.problem('build of %s failed: %s' % (x.what, first_error('\n' + x.text)))
    except Inconclusive as x:
        c.problem(str(x))
    return c.finish(rule, assumptions)


if __name__ == '__main__':
    sys.exit(main())
