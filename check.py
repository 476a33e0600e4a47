#!/usr/bin/env python3
"""Decide one property of pbnjay/grate by generated-input search.

  check.py C01 [--tier quick|thorough]     run the check, write evidence/C01.json
  check.py C01 --replay replays/C01/XYZ    run a failure again
  check.py --setup                         fill the Go build cache

Exit 0: the property held on everything explored. Exit 1: a violation, with a line
"VIOLATION property=<id> replay=<path>". Exit 2: no answer (the code does not build,
or the machine got in the way).
"""
import argparse, json, os, re, shutil, subprocess, sys, tempfile, threading, time, zlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS

REPO = '/repo'


def goenv():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('RAPID', 'HARNESS_')) or k in ('GOMAXPROCS', 'GOGC', 'GODEBUG', 'GORACE', 'GOTRACEBACK'):
            del env[k]
    env.setdefault('HOME', '/root')
    env.update(GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', GONOSUMDB='*', GOSUMDB='off')
    go = '/opt/veriftools/go1.27.3/bin'
    if os.path.isdir(go):
        env['PATH'] = go + ':' + env.get('PATH', '')
    return env


class NoAnswer(Exception):
    pass


def build(out, env, race=False, tools=False):
    cmd = ['go', 'test', '-c', '-vet=off', '-o', os.path.join(out, 'props.test')]
    if race:
        cmd.append('-race')
    r = subprocess.run(cmd + ['./props'], cwd=os.path.join(HERE, 'harness'), env=env, capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer('building the harness against /repo failed:\n' + r.stdout + r.stderr)
    if tools:
        e2 = dict(env, GOFLAGS='-mod=readonly -buildvcs=false')
        for tool in ('grater', 'grate2tsv'):
            for suffix, opt in (('', []), ('-race', ['-race'])):
                r = subprocess.run(['go', 'build'] + opt + ['-o', os.path.join(out, tool + suffix), './cmd/' + tool], cwd=REPO, env=e2, capture_output=True, text=True)
                if r.returncode:
                    raise NoAnswer('building %s failed:\n%s' % (tool, r.stdout + r.stderr))


DEFINITE = re.compile(r'^(panic:|fatal error:|WARNING: DATA RACE|runtime: goroutine stack exceeds|unexpected fault address|SIGSEGV|SIGBUS)', re.M)


class Shard:
    def __init__(self, tmp, no, seed, checks, prop, tier, env, args=()):
        self.dir = os.path.join(tmp, 'shard%d' % no)
        os.makedirs(os.path.join(self.dir, 'scratch'))
        self.stats = os.path.join(self.dir, 'stats.json')
        self.log = os.path.join(self.dir, 'log.txt')
        self.seed, self.checks, self.no = seed, checks, no
        p = PROPS[prop]
        self.limit = 240 if tier == 'quick' else 700
        e = dict(env, HARNESS_DIR=os.path.join(self.dir, 'scratch'), HARNESS_STATS=self.stats, HARNESS_BIN=tmp,
                 HARNESS_DEADLINE=str(self.limit - 60), HARNESS_SHARD=str(no), HARNESS_SHARDS=str(p.get('shards', 8)),
                 VERIF_TIER=tier, GOTRACEBACK='all', TMPDIR=os.path.join(self.dir, 'scratch'),
                 GORACE='halt_on_error=1', GOMAXPROCS=str(p.get('procs', 2)))
        if p.get('cpu'):
            e['HARNESS_CPU'] = str(p['cpu'])
        self.cmd = [os.path.join(tmp, 'props.test'), '-test.run', '^Test%s$' % prop, '-test.timeout=0', '-rapid.checks=%d' % checks,
                    '-rapid.seed=%d' % seed, '-rapid.shrinktime=%s' % p.get('shrink', '10s')] + list(args)
        self.env = e

    def run(self):
        self.hung = False
        with open(self.log, 'w') as f:
            pr = subprocess.Popen(self.cmd, cwd=self.dir, env=self.env, stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
            try:
                self.rc = pr.wait(self.limit + 30)
            except subprocess.TimeoutExpired:
                self.hung = True
                os.killpg(pr.pid, 9)
                self.rc = pr.wait()
            try:  # commands the case has started
                os.killpg(pr.pid, 9)
            except OSError:
                pass
        with open(self.log, errors='replace') as f:
            self.out = f.read()
        return self

    def failfile(self):
        for d, _, fs in os.walk(os.path.join(self.dir, 'testdata')):
            for fn in fs:
                if fn.endswith('.fail'):
                    return os.path.join(d, fn)

    def verdict(self):
        """ok, violation, maybe (to be confirmed) or none"""
        if self.hung:
            return 'none'
        if self.rc == 0:
            return 'ok'
        if self.rc == 79 or 'HARNESS-ENV' in self.out:
            return 'none'
        if self.rc in (77, 78):
            return 'maybe'
        if self.rc < 0:
            # NB killed, by whatever ends the biggest process when memory runs out, say
            return 'violation' if self.rc in (-11, -7, -6) else 'maybe'
        if 'out of memory' in self.out or 'cannot allocate memory' in self.out:
            return 'maybe'
        if re.search(r'no space left on device|too many open files|pthread_create failed|\[rapid\] only generated', self.out):
            return 'none'
        if '--- FAIL' in self.out or DEFINITE.search(self.out):
            return 'violation'
        return 'none'


def keep(prop, s, note):
    dst = os.path.join(HERE, 'replays', prop, '%s-%d' % (time.strftime('%Y%m%d-%H%M%S'), s.no))
    shutil.rmtree(dst, ignore_errors=True)
    os.makedirs(dst)
    if s.failfile():
        shutil.copy(s.failfile(), os.path.join(dst, 'rapid.fail'))
    with open(os.path.join(dst, 'log.txt'), 'w') as f:
        f.write(s.out[:2000000])
    n = 0
    for d, _, fs in os.walk(os.path.join(s.dir, 'scratch')):
        for fn in fs:
            src = os.path.join(d, fn)
            n += os.path.getsize(src) if os.path.isfile(src) else 0
            if os.path.isfile(src) and n < 50 << 20:
                to = os.path.join(dst, 'files', os.path.relpath(src, os.path.join(s.dir, 'scratch')))
                os.makedirs(os.path.dirname(to), exist_ok=True)
                shutil.copy(src, to)
    with open(os.path.join(dst, 'replay.json'), 'w') as f:
        json.dump(dict(property=prop, seed=s.seed, checks=s.checks, shard=s.no, tier=s.env['VERIF_TIER'], note=note), f, indent=1)
    return dst


def fuzz_env(env, d):
    os.makedirs(d, exist_ok=True)
    e = dict(env, TMPDIR=d, HARNESS_DEADLINE='100000', GOTRACEBACK='all', HARNESS_CPU='40')
    e.pop('HARNESS_DIR', None)
    return e


def build_fuzz(tmp, env, target):
    exe = os.path.join(tmp, 'fuzz.test')
    if not os.path.exists(exe):
        r = subprocess.run(['go', 'test', '-c', '-vet=off', '-fuzz=' + target, '-o', exe, './props'], cwd=os.path.join(HERE, 'harness'), env=env, capture_output=True, text=True)
        if r.returncode:
            raise NoAnswer('building the fuzz targets failed:\n' + r.stdout + r.stderr)
    return exe


def rerun_fuzz(tmp, env, target, crasher):
    """runs a single input of a fuzz target again; returns if it failed, and the output"""
    exe = build_fuzz(tmp, env, target)
    d = tempfile.mkdtemp(prefix='again-', dir=tmp)
    to = os.path.join(d, 'testdata', 'fuzz', target)
    os.makedirs(to)
    shutil.copy(crasher, os.path.join(to, 'input'))
    try:
        r = subprocess.run([exe, '-test.run', '^%s$/^input$' % target], cwd=d, env=fuzz_env(env, os.path.join(d, 'tmp')), capture_output=True, text=True, errors='replace', timeout=300)
    except subprocess.TimeoutExpired:
        return False, 'no answer in time'
    return r.returncode not in (0, 79, -9), r.stdout + r.stderr


def fuzz(prop, tmp, env, target, seconds):
    """coverage-guided search; returns executions, new inputs, and the failing input's replay"""
    exe = build_fuzz(tmp, env, target)
    d = os.path.join(tmp, target)
    e = fuzz_env(env, os.path.join(d, 'tmp'))
    r = subprocess.run([exe, '-test.run', '^$', '-test.fuzz', '^%s$' % target, '-test.fuzztime', '%ds' % seconds, '-test.parallel', '8',
                        '-test.fuzzminimizetime', '5x', '-test.fuzzcachedir', os.path.join(d, 'cache')], cwd=d, env=e, capture_output=True, text=True, errors='replace')
    out = r.stdout + r.stderr
    n = re.findall(r'execs: (\d+).*?new interesting: (\d+)', out)
    execs, new = map(int, n[-1]) if n else (0, 0)
    for dd, _, fs in os.walk(os.path.join(d, 'testdata', 'fuzz')):
        for fn in fs:
            crasher = os.path.join(dd, fn)
            failed, log = rerun_fuzz(tmp, env, target, crasher)
            if failed:
                dst = os.path.join(HERE, 'replays', prop, time.strftime('%Y%m%d-%H%M%S-') + target)
                os.makedirs(dst, exist_ok=True)
                shutil.copy(crasher, os.path.join(dst, 'input'))
                with open(os.path.join(dst, 'log.txt'), 'w') as f:
                    f.write(log[:2000000])
                with open(os.path.join(dst, 'replay.json'), 'w') as f:
                    json.dump(dict(property=prop, fuzz=target), f)
                return execs, new, dst, log
    return execs, new, None, ''


def excerpt(out):
    lines = [l for l in out.splitlines() if l.strip()]
    for i, l in enumerate(lines):
        if DEFINITE.search(l) or 'HARNESS-' in l or '[rapid] failed' in l or '[rapid] panic' in l:
            return '\n'.join(x[:1000] for x in lines[i:i + 4])
    return '\n'.join(x[:1000] for x in lines[:12])


def known(prop):
    """findings that are recorded, not repaired"""
    res = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for l in open(fn):
            m = re.match(r'known: property=(\w+) (.*)', l.strip())
            if m and m.group(1) == prop:
                res.append(m.group(2))
    return res


def run_check(prop, tier, seed, replay=None):
    p = PROPS[prop]
    start = time.time()
    env = goenv()
    tmp = tempfile.mkdtemp(prefix='grate-%s-' % prop)
    try:
        build(tmp, env, p.get('race', False), p.get('tools', False))
        built = time.time()
        if replay:
            with open(os.path.join(replay, 'replay.json')) as f:
                r = json.load(f)
            if 'fuzz' in r:
                failed, out = rerun_fuzz(tmp, env, r['fuzz'], os.path.join(replay, 'input'))
                print(excerpt(out))
                if failed:
                    print('VIOLATION property=%s replay=%s' % (prop, replay))
                return int(failed)
            args = []
            if os.path.exists(os.path.join(replay, 'rapid.fail')):
                args = ['-rapid.failfile=' + os.path.abspath(os.path.join(replay, 'rapid.fail'))]
            s = Shard(tmp, r['shard'], r['seed'], r['checks'], prop, r['tier'], env, args).run()
            print(excerpt(s.out))
            if s.verdict() == 'ok':
                return 0
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        shards = p.get('shards', 8)
        checks = p['quick'] if tier == 'quick' else p['thorough']
        base = (seed * 1000003 + zlib.crc32(prop.encode())) & 0xffffffffffff
        todo = [Shard(tmp, i, (base * 64 + i + 1) & 0x7fffffffffffffff, -(-checks // shards), prop, tier, env) for i in range(shards)]
        ts = [threading.Thread(target=s.run) for s in todo]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        violations, unclear = [], []
        for s in todo:
            v = s.verdict()
            if v == 'maybe' and (violations or time.time() - start > 500):
                v = 'none'
            if v == 'maybe':
                # once more, alone
                again = Shard(tmp, s.no + 100, s.seed, s.checks, prop, tier, env)
                again.env['HARNESS_SHARD'] = str(s.no)
                again.run()
                v2 = again.verdict()
                if v2 in ('violation', 'maybe') and again.rc >= -11 and again.rc != -9:
                    again.no = s.no
                    s, v = again, 'violation'
                elif v2 == 'ok':
                    s, v = again, 'ok'
                    s.no -= 100
                else:
                    v = 'none'
            if v == 'violation':
                violations.append((s, keep(prop, s, excerpt(s.out))))
            elif v == 'none':
                unclear.append(s)
        fuzzed, fuzz_failures = {}, []
        if tier == 'thorough' and not violations:
            for t in p.get('fuzz', []):
                execs, new, dst, out = fuzz(prop, tmp, env, t, 100)
                fuzzed[t] = dict(executions=execs, new_inputs=new)
                if dst:
                    fuzz_failures.append((dst, out))
        total = dict(evaluations=0, nontrivial=0, skipped=0)
        distinct, labels, samples = set(), {}, []
        for s in todo:
            if not os.path.exists(s.stats):
                continue
            with open(s.stats) as f:
                st = json.load(f)
            for k in total:
                total[k] += st[k]
            distinct.update(st['distinct'] or [])
            for k, n in (st['labels'] or {}).items():
                labels[k] = labels.get(k, 0) + n
            samples += (st['samples'] or [])[-6:]
        step = max(1, len(samples) // 12)
        if len(labels) > 80:
            labels = dict(sorted(labels.items(), key=lambda x: -x[1])[:80])
        ev = dict(property=prop, tier=tier, seed=seed, level='exploration', wall_s=round(time.time() - start, 2),
                  violations=len(violations),
                  coverage=dict(evaluations=total['evaluations'], distinct_nontrivial=len(distinct), nontrivial=total['nontrivial'],
                                rule=p['rule'], samples=samples[::step][:12], labels=labels, shards=shards,
                                build_s=round(built - start, 2), planned=checks, not_started=total['skipped']))
        ev['violations'] += len(fuzz_failures)
        if fuzzed:
            ev['coverage']['coverage_guided'] = fuzzed
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        for k in known(prop):
            print('KNOWN-FINDING: property=%s %s' % (prop, k))
        for s, dst in violations[:1]:
            print(excerpt(s.out))
        for s, dst in violations:
            print('VIOLATION property=%s replay=%s' % (prop, dst))
        for dst, out in fuzz_failures:
            print(excerpt(out))
            print('VIOLATION property=%s replay=%s' % (prop, dst))
        if violations or fuzz_failures:
            return 1
        if unclear or total['evaluations'] == 0:
            for s in unclear[:2]:
                print('no answer from shard %d (rc %s):\n%s' % (s.no, s.rc, excerpt(s.out)))
            return 2
        print('%s: %d cases, %d distinct non-trivial, %.1f s' % (prop, total['evaluations'], len(distinct), time.time() - start))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default='quick', choices=['quick', 'thorough'])
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args()
    try:
        if a.setup:
            env = goenv()
            tmp = tempfile.mkdtemp(prefix='grate-setup-')
            try:
                build(tmp, env, True, True)
                build(tmp, env)
            finally:
                shutil.rmtree(tmp, ignore_errors=True)
            return 0
        seed = a.seed if a.seed is not None else int(os.environ.get('VERIF_SEED') or 1)
        return run_check(a.prop, a.tier, seed, a.replay)
    except NoAnswer as e:
        print(e)
        return 2


if __name__ == '__main__':
    sys.exit(main())
