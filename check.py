#!/usr/bin/env python3
"""Driver of the checks: check.py ID [quick|thorough], check.py replay FILE, check.py setup.

Builds btrfscue and the harness from /repo's current tree, replays the committed
regression cases of the property, runs its generated sub-checks on 8 shards and
writes evidence/<ID>.json. See DESIGN.md.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')  # anything but /repo is for development only
SHARDS = 8
ENV = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=readonly -buildvcs=false',
           HOME=os.environ.get('HOME', '/root'), TZ='UTC', LC_ALL='C')
ENV.setdefault('GOPATH', '/root/go')
ENV.setdefault('GOCACHE', '/root/.cache/go-build')
ENV.pop('GODEBUG', None)
ENV['PATH'] = ENV.get('PATH', '') + ':/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:/usr/local/go/bin'

CHILDREN = []


def fail(msg):
    print('ERROR:', msg, flush=True)
    sys.exit(3)


class Work:
    def __init__(self):
        base = '/dev/shm'
        try:
            st = os.statvfs(base)
            if st.f_bavail * st.f_frsize < 3 << 30:
                base = '/tmp'
        except OSError:
            base = '/tmp'
        self.dir = tempfile.mkdtemp(prefix='btrfscue-verif.', dir=base)
        os.chmod(self.dir, 0o755)
        for d in ('out', 'scratch', 'bin'):
            os.mkdir(self.p(d))
            os.chmod(self.p(d), 0o755)

    def p(self, *a):
        return os.path.join(self.dir, *a)

    def close(self):
        for p in CHILDREN:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
        assert '/btrfscue-verif.' in self.dir
        shutil.rmtree(self.dir, ignore_errors=True)


def build(w, race):
    """Build the harness and the btrfscue binaries from the working tree."""
    modargs = []
    if REPO != '/repo':
        for f in ('go.mod', 'go.sum'):
            s = open(os.path.join(VERIF, 'harness', f)).read()
            open(w.p('bin', f), 'w').write(s.replace('=> /repo', '=> ' + REPO))
        modargs = ['-modfile=' + w.p('bin', 'go.mod')]
    cmds = [(['go', 'build'] + modargs + ['-o', w.p('bin', 'harness'), '.'], os.path.join(VERIF, 'harness')),
            (['go', 'build', '-o', w.p('bin', 'btrfscue'), './cmd/btrfscue'], REPO)]
    if race:
        cmds.append((['go', 'build', '-race', '-o', w.p('bin', 'btrfscue-race'), './cmd/btrfscue'], REPO))
    ps = []
    for c, d in cmds:
        p = subprocess.Popen(c, cwd=d, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             start_new_session=True)
        CHILDREN.append(p)
        ps.append((c, p))
    for c, p in ps:
        out = p.communicate()[0]
        if p.returncode:
            fail('%s failed:\n%s' % (' '.join(c), out[-4000:]))
    for f in os.listdir(w.p('bin')):
        os.chmod(w.p('bin', f), 0o755)


def binargs(w):
    return ['-scratch', w.p('scratch'), '-bin', w.p('bin', 'btrfscue'), '-racebin', w.p('bin', 'btrfscue-race')]


def replay(w, files, times=1):
    """Replays cases; returns (failing file, message), None if all pass, or exits on harness errors."""
    for attempt in (1, 2):
        try:
            p = subprocess.run([w.p('bin', 'harness'), 'replay', '-times', str(times)] + binargs(w) + files, env=ENV,
                               stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', timeout=700)
        except subprocess.TimeoutExpired:
            fail('replay of %s timed out' % files)
        if p.returncode == 0:
            return None
        m = re.search(r'^FAIL (\S+)\n', p.stdout, re.M)
        if p.returncode == 1 and m:
            return m.group(1), p.stdout[m.end():]
        if p.returncode != 3:
            break
    passed = set(re.findall(r'^PASS (\S+)$', p.stdout, re.M))
    todo = [f for f in files if f not in passed]
    if p.returncode != 3 and todo and p.returncode != -9:
        # The case kills or hangs the process.
        return todo[0], 'process died with status %d: %s' % (p.returncode, p.stderr[-3000:])
    fail('replay of %s: status %d\n%s' % (files, p.returncode, p.stderr[-4000:]))


def keep_replay(pid, path, msg):
    d = os.path.join(VERIF, 'replays')
    os.makedirs(d, exist_ok=True)
    c = json.load(open(path))
    c['message'] = msg[:4000]
    b = json.dumps(c, indent=1)
    n = os.path.join(d, '%s-%08x.json' % (pid, hash_str(json.dumps(c['case']))))
    open(n, 'w').write(b)
    return n


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def known(pid):
    out = []
    for l in open(os.path.join(VERIF, 'known_findings.txt')):
        m = re.match(r'KNOWN-FINDING: property=(\S+) case=(\S+) (.*)', l)
        if m and m.group(1) == pid:
            out.append((os.path.join(VERIF, m.group(2)), m.group(3).strip()))
    return out


def run(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    level = 'exploration'
    man = json.load(open(os.path.join(VERIF, 'MANIFEST.json')))
    for c in man['checks']:
        if c['property'] == pid:
            level = c['level']
    w = Work()
    try:
        return run1(w, pid, tier, seed, level, t0)
    finally:
        w.close()


def run1(w, pid, tier, seed, level, t0):
    build(w, race=pid == 'C22')
    subs = [s for s in json.loads(subprocess.check_output([w.p('bin', 'harness'), 'list'], text=True))
            if s['Name'].startswith(pid + '/')]
    if not subs:
        fail('no checks for ' + pid)
    t_build = time.time() - t0
    violation = None  # (file, message)

    for f, what in known(pid):
        if replay(w, [f]):
            print('KNOWN-FINDING: property=%s %s' % (pid, what), flush=True)
        else:
            print('note: listed finding does not fail any more: %s' % what, flush=True)

    regress = sorted(glob.glob(os.path.join(VERIF, 'regress', pid, '*.json')))
    if regress:
        r = replay(w, regress)
        if r:
            violation = r

    merged = []
    budget = float(os.environ.get('VERIF_BUDGET', 300 if tier == 'quick' else 3000))
    weight = sum(max(1, s['Quick' if tier == 'quick' else 'Thorough']) for s in subs)
    for s in subs:
        if violation:
            break
        n = s['Quick' if tier == 'quick' else 'Thorough']
        scale = float(os.environ.get('VERIF_SCALE', '1'))
        n = max(1, int(n * scale))
        procs = []
        for i in range(SHARDS):
            logf = open(w.p('out', '%s.%d.log' % (s['Name'].replace('/', '-'), i)), 'wb')
            p = subprocess.Popen([w.p('bin', 'harness'), 'run', '-sub', s['Name'], '-shard', str(i),
                                  '-shards', str(SHARDS), '-seed', str(seed), '-checks', str(n),
                                  '-deadline', '%ds' % int(budget / len(subs)),
                                  '-out', w.p('out')] + binargs(w),
                                 env=ENV, stdout=logf, stderr=subprocess.STDOUT, start_new_session=True)
            CHILDREN.append(p)
            procs.append(p)
        hard = time.time() + budget / len(subs) + 240
        codes = []
        for p in procs:
            try:
                codes.append(p.wait(max(1, hard - time.time())))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                codes.append('timeout')
        m = dict(name=s['Name'], rule=s['Rule'], evaluations=0, labels={}, samples=[], hashes=set(), wall_s=0, skipped=0)
        errors = []
        for i, code in enumerate(codes):
            tag = '%s.%d' % (s['Name'].replace('/', '-'), i)
            st = w.p('out', tag + '.stats.json')
            case = w.p('out', tag + '.case.json')
            d = {}
            if os.path.exists(st):
                d = json.load(open(st))
                m['evaluations'] += d['Evaluations']
                m['skipped'] += d.get('Skipped', 0)
                m['hashes'].update(d['Hashes'] or [])
                m['wall_s'] = max(m['wall_s'], d['WallS'])
                for k, v in d['Labels'].items():
                    m['labels'][k] = m['labels'].get(k, 0) + v
                if len(m['samples']) < 3:
                    m['samples'] += (d['Samples'] or [])[:1]
            if violation:
                continue
            if os.path.exists(case):
                # A generated case failed; confirm its shrunk form in a fresh process.
                c = json.load(open(case))
                r = replay(w, [case], times=20)
                if r:
                    violation = r
                elif pid == 'C22':
                    violation = (case, c.get('message', ''))
                else:
                    errors.append('failure of %s did not come back in 20 replays: %s' % (tag, c.get('message', '')))
            elif code == 0:
                pass
            elif code in (3, 'timeout'):
                errors.append('%s: %s %s' % (tag, code, d.get('Infra', '')))
            else:
                # The case killed or hung the shard: again in a fresh process.
                j = w.p('out', tag + '.journal.json')
                log = open(w.p('out', tag + '.log'), errors='replace').read()[-3000:]
                if code != -9 and os.path.exists(j):
                    r = replay(w, [j], times=3)
                    if r:
                        violation = r
                        continue
                errors.append('%s died with status %s: %s' % (tag, code, log))
        merged.append(m)
        if errors and not violation:
            fail('\n'.join(errors)[:6000])

    evidence(pid, tier, seed, level, merged, len(regress), violation, t0, t_build)
    for m in merged:
        print('%s: %d cases, %d distinct non-trivial, %.1f s%s' % (m['name'], m['evaluations'], len(m['hashes']),
              m['wall_s'], ', %d not run (time)' % m['skipped'] if m['skipped'] else ''))
    if violation:
        f, msg = violation
        if os.path.dirname(f) == w.p('out'):
            f = keep_replay(pid, f, msg)
        print(msg[:6000])
        print('VIOLATION property=%s replay=%s' % (pid, f), flush=True)
        return 1
    print('%s: held on everything explored (%.1f s)' % (pid, time.time() - t0))
    return 0


def evidence(pid, tier, seed, level, merged, nregress, violation, t0, t_build):
    cov = dict(evaluations=sum(m['evaluations'] for m in merged) + nregress,
               distinct_nontrivial=sum(len(m['hashes']) for m in merged),
               rule=' || '.join('%s: %s' % (m['name'], m['rule']) for m in merged) or 'regression cases only',
               samples=[dict(sub=m['name'], case=c) for m in merged for c in m['samples'][:2]],
               regression_cases_replayed=nregress,
               subchecks=[dict(name=m['name'], evaluations=m['evaluations'], distinct_nontrivial=len(m['hashes']),
                               cases_by_label=dict(sorted(m['labels'].items())), wall_s=round(m['wall_s'], 2))
                          for m in merged],
               build_s=round(t_build, 2))
    if not cov['samples']:
        cov['samples'] = ['no generated case ran']
    e = dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
             wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    p = os.path.join(VERIF, 'evidence', pid + '.json')
    open(p + '.tmp', 'w').write(json.dumps(e, indent=1))
    os.rename(p + '.tmp', p)


def main():
    if sys.argv[1] == 'setup':
        w = Work()
        try:
            build(w, race=True)
        finally:
            w.close()
        print('ok')
        return 0
    if sys.argv[1] == 'replay':
        w = Work()
        try:
            build(w, race=True)
            r = replay(w, sys.argv[2:], times=int(os.environ.get('TIMES', '1')))
        finally:
            w.close()
        print(r[1] if r else 'PASS')
        return 1 if r else 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    return run(sys.argv[1], tier)


def on_term(*a):
    sys.exit(3)


if __name__ == '__main__':
    signal.signal(signal.SIGTERM, on_term)
    sys.exit(main())
