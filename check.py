#!/usr/bin/env python3
"""Run one property's check: build the harness from /repo's working tree, explore
in parallel shards, confirm and record any violation, write the evidence.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N] [--scale X]
       check.py --replay FILE
       check.py --setup
Exit: 0 held, 1 violation, 2 trouble of the check itself."""
import argparse, json, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time, zlib
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')  # other values: development only
GOS = ['1.25.14', '1.26.10', '1.27.3']
SHARDS = 8

# harness: (module directory, package, build flags)
HARNESS = {
    'bb': ('bb', '.', []),
    # instrumented: searches guided by what the code does
    'bb-cov': ('bb', '.', ['-tags=cov', '-gcflags=github.com/apparentlymart/go-textseg/v17/...=-d=libfuzzer']),
    'bb-race': ('bb', '.', ['-race']),
    'bb-386': ('bb', '.', []),  # on a machine of 32 bits, as this one can be
    'up': ('in', './up', []),
    'up-race': ('in', './up', ['-race']),
    'up-386': ('in', './up', []),
    'gt': ('in', './gt', []),
    'e2e': ('e2e', '.', []),
    'version': ('auto', './version', []),
    'tokens': ('auto', './tokens', []),
    'tokens-race': ('auto', './tokens', ['-race']),
}
# A failure found in the one harness is a failure in the other.
REPLAY = {'bb-cov': 'bb'}
BB = ['C%02d' % i for i in range(1, 16)] + ["C23", "C24"]


def plan(prop):
    """What to run: (label, harness, go version or None, shards, optional)."""
    if prop == 'C06':
        return [('', 'bb-race', None, SHARDS, False), ('guided', 'bb-cov', None, SHARDS, True)]
    if prop == 'C08':  # every character is tried anyway
        return [('', 'bb', None, SHARDS, False), ('32-bit go' + GOS[0], 'bb-386', GOS[0], SHARDS, True)]
    if prop in BB:
        return [('', 'bb', None, SHARDS, False), ('guided', 'bb-cov', None, SHARDS, True)] + [('32-bit go' + GOS[0], 'bb-386', GOS[0], SHARDS, True)] * (prop != 'C23')
    if prop in ('C16', 'C17'):
        return [('', 'up', None, SHARDS, False), ('32-bit go' + GOS[0], 'up-386', GOS[0], SHARDS, True)]
    if prop == 'C18':
        return [('end-to-end', 'e2e', None, SHARDS, False), ('in-process', 'gt', None, SHARDS, True)]
    if prop == 'C19':
        return [('', 'e2e', None, 1, False)]
    if prop == 'C25':
        return [('', 'e2e', None, SHARDS, False)]
    if prop == 'C20':
        return [('go' + v, 'version', v, 4, False) for v in GOS]
    if prop in ('C21', 'C22'):
        return [('go' + GOS[-1], 'tokens', None, SHARDS, False), ('go' + GOS[0], 'tokens', GOS[0], 2, False)]
    if prop == 'C26':
        return [('autoversion', 'tokens-race', None, 4, False), ('parsers', 'up-race', None, 4, False)]
    sys.exit('no such property: ' + prop)


class Trouble(Exception):
    pass


def go(version):
    p = '/opt/veriftools/go%s/bin/go' % (version or GOS[-1])
    if os.path.exists(p):
        return p
    if version is None or version == GOS[-1]:
        p = shutil.which('go')
        if p:
            return p
    return None


def environment(work):
    env = {k: v for k, v in os.environ.items() if not k.startswith('GO')}
    env.update(GOWORK='off', GOFLAGS='-mod=readonly', GOPROXY='off', GOSUMDB='off', GOTOOLCHAIN='local', GOENV='off',
               TMPDIR=work, GOTMPDIR=work, REPO=REPO, PBT=os.path.join(HERE, 'pbt'), GO=go(None),
               GORACE='halt_on_error=1 exitcode=66', GOTRACEBACK='single')
    env.setdefault('HOME', '/root')
    env['GOPATH'] = os.environ.get('GOPATH') or os.path.join(env['HOME'], 'go')
    env['GOCACHE'] = os.environ.get('GOCACHE') or os.path.join(env['HOME'], '.cache', 'go-build')
    try:
        os.makedirs(env['GOCACHE'], exist_ok=True)
        probe = os.path.join(env['GOCACHE'], 'verif-%d' % os.getpid())
        open(probe, 'w').close()
        os.unlink(probe)
    except OSError:
        env['GOCACHE'] = os.path.join(work, 'gocache')
    return env


BUILT = {}
BUILDING = threading.Lock()


def build(env, work, harness, version, pkg=None):
    """Once for each work directory; what was built stays as it is."""
    with BUILDING:
        k = work, harness, version, pkg
        if k not in BUILT:
            BUILT[k] = compiled(env, work, harness, version, pkg)
        return BUILT[k]


def compiled(env, work, harness, version, pkg):
    """Returns (executable or None, compiler output)."""
    d, p, flags = HARNESS[harness]
    g = go(version)
    if g is None:
        raise Trouble('go %s is not installed' % version)
    exe = os.path.join(work, 'bin', '%s-%s%s' % (harness, version, '-' + pkg.strip('./') if pkg else ''))
    os.makedirs(os.path.dirname(exe), exist_ok=True)
    env = dict(env, CGO_ENABLED='1' if '-race' in flags else '0')
    if harness.endswith('-386'):
        env['GOARCH'] = '386'
    cwd = os.path.join(HERE, 'h', d)
    if REPO != '/repo':  # development: the module files name /repo
        mf = os.path.join(work, 'mod-' + d)
        os.makedirs(mf, exist_ok=True)
        s = open(os.path.join(cwd, 'go.mod')).read().replace('=> /repo', '=> ' + REPO).replace('=> ../../pbt', '=> ' + os.path.join(HERE, 'pbt'))
        open(os.path.join(mf, 'go.mod'), 'w').write(s)
        shutil.copy(os.path.join(cwd, 'go.sum'), mf)
        flags = flags + ['-modfile=' + os.path.join(mf, 'go.mod')]
    r = subprocess.run([g, 'build', '-o', exe] + flags + [pkg or p], cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return (exe if r.returncode == 0 else None), r.stdout


RUNNING = set()
GRACE = 150  # once a shard has found a failure, the others have so many seconds


def run_shard(env, exe, prop, tier, seed, shard, shards, out, journal=None, scale=1.0, log=None):
    cmd = [exe, '-prop', prop, '-tier', tier, '-vseed', str(seed), '-shard', str(shard), '-shards', str(shards), '-out', out, '-scale', str(scale)]
    if journal:
        cmd += ['-journal', journal]
    with open(log, 'wb') as f:
        p = subprocess.Popen(cmd, env=env, stdout=f, stderr=subprocess.STDOUT, cwd=env['TMPDIR'], stdin=subprocess.DEVNULL, start_new_session=True)
        RUNNING.add(p)
        try:
            return p.wait()
        finally:
            RUNNING.discard(p)
            try:
                os.killpg(p.pid, signal.SIGKILL)  # what it may have started
            except OSError:
                pass


def tail(path, n=3000):
    try:
        with open(path, 'rb') as f:
            s = f.read().decode('utf8', 'replace')
    except OSError:
        return ''
    return s if len(s) <= n else s[:n // 2] + '\n...\n' + s[-n // 2:]


def is_race(log):
    s = tail(log, 20000)
    return 'WARNING: DATA RACE' in s and 'go-textseg' in s


def replay(env, work, rep, times=1):
    """True if the recorded case fails now; None if it cannot be decided."""
    b = rep.get('build')
    if b:
        return not autoversion_compiles(env, work, b['go'])
    exe, out = build(env, work, rep['harness'], rep.get('go'))
    if exe is None:
        print(out)
        return None
    d = tempfile.mkdtemp(prefix='replay-', dir=work)
    f = os.path.join(d, 'case.json')
    with open(f, 'w') as fh:
        json.dump(rep, fh)
    for _ in range(times):
        log = os.path.join(d, 'log')
        with open(log, 'wb') as lf:
            rc = subprocess.run([exe, '-replay', f], env=env, stdout=lf, stderr=subprocess.STDOUT, cwd=work, stdin=subprocess.DEVNULL).returncode
        rep['replay_output'] = tail(log)
        if rc == 1 or (rc == 66 and is_race(log)):
            return True
        if rc == 3 or rc == -signal.SIGKILL:
            return None
        if rc != 0:
            return True  # the process died: a fatal error of the runtime
    return False


def autoversion_compiles(env, work, version):
    """Whether the autoversion package provides its functions under this Go
    release. Raises Trouble if that cannot be told."""
    exe, _ = build(env, work, 'version', version)
    if exe:
        return True
    base, out = build(env, work, 'version', version, './base')
    if base is None:
        raise Trouble('what the autoversion package builds on does not compile with go %s:\n%s' % (version, out))
    return False


def known_findings(prop):
    """The lines "finding: property=ID key=KEY what": violations recorded, not
    repaired; KEY is the failing case as in a replay file, canonical JSON."""
    out = []
    try:
        for l in open(os.path.join(HERE, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('finding: property=%s ' % prop):
                rest = l.split(' ', 2)[2]
                if rest.startswith('key='):
                    key, _, what = rest[4:].partition(' ')
                    out.append((key, what))
    except OSError:
        pass
    return out


def explore(prop, tier, seed, scale, env, work):
    failures, results, notes = [], [], []
    jobs = []
    hashes = set()
    for label, harness, version, shards, optional in plan(prop):
        if prop == 'C20':
            if go(version) is None:
                raise Trouble('go %s is not installed' % version)
            if not autoversion_compiles(env, work, version):
                _, out = build(env, work, harness, version)
                failures.append(dict(property=prop, kind='compilation', build=dict(go=version), case=dict(go=version),
                                     message='the autoversion package does not compile, or lacks its functions, with go %s while the packages it selects from do:\n%s' % (version, out[:2000])))
                results.append(dict(evaluations=1, enum_nontrivial=1, classes={'go%s: does not compile' % version: 1}, kinds={'compilation': 1}, samples=[], notes=[], rule=''))
                continue
        exe, out = build(env, work, harness, version)
        if exe is None:
            if optional:
                notes.append('%s cases skipped: the harness does not compile against the current code' % label)
                continue
            raise Trouble('build of %s failed:\n%s' % (harness, out))
        for s in range(shards):
            jobs.append((label, harness, version, exe, s, shards, optional))

    stopped = []

    def stop():
        stopped.append(True)
        for p in list(RUNNING):
            p.kill()

    def guarded(i):
        if stopped:
            return i, -1, None
        try:
            i, rc, res = one(i)
        except Trouble:
            if stopped:
                return i, -1, None
            raise
        if res.get('failure') and not timers:
            timers.append(threading.Timer(GRACE, stop))
            timers[0].daemon = True
            timers[0].start()
        return i, rc, res

    timers = []

    def one(i):
        label, harness, version, exe, s, shards, optional = jobs[i]
        out = os.path.join(work, 'out-%d.json' % i)
        log = os.path.join(work, 'log-%d' % i)
        # A shard's temporary files stay apart.
        tmp = os.path.join(work, 'tmp-%d' % i)
        os.makedirs(tmp, exist_ok=True)
        e = dict(env, TMPDIR=tmp, GOTMPDIR=tmp, GOMAXPROCS='2' if shards > 1 else '8')
        unusable = dict(evaluations=0, enum_nontrivial=0, classes={}, kinds={}, samples=[], notes=['%s shard %d died, left out' % (harness, s)], rule='')
        sc = scale * 0.1 if harness.endswith('-386') else scale
        try:
            rc = run_shard(e, exe, prop, tier, seed, s, shards, out, scale=sc, log=log)
        except OSError:
            if harness.endswith('-386'):  # not on this machine
                return i, 0, unusable
            raise
        if rc != 0 and harness.endswith('-386'):
            return i, 0, unusable  # out of its little memory, say
        if rc == 0:
            res = json.load(open(out))
            f = res.get('failure')
            if f and harness in REPLAY:
                # The code as it is has to fail, too.
                f.update(harness=REPLAY[harness], go=version)
                if replay(e, work, f) is False:
                    del res['failure']
                    res['notes'] = (res.get('notes') or []) + ['%s: a failure that the ordinary build does not have, left out' % harness]
            return i, rc, res
        if rc in (3, -signal.SIGKILL, -signal.SIGTERM):
            if optional and not stopped:
                return i, 0, unusable
            raise Trouble('%s shard %d: exit %d: %s' % (harness, s, rc, tail(log)))
        # The process died under the code being tested (a data race report, a
        # fatal runtime error, memory): find the case by running again with a
        # journal, and confirm it on its own.
        race = rc == 66 and is_race(log)
        first = tail(log)
        journal = os.path.join(work, 'journal-%d.json' % i)
        rc2 = run_shard(e, exe, prop, tier, seed, s, shards, out, journal=journal, scale=sc, log=log)
        if rc2 == 0 and not race and harness in REPLAY:
            return i, 0, json.load(open(out))
        if rc2 == 0 and not race:
            raise Trouble('%s shard %d died once (exit %d) and not again:\n%s' % (harness, s, rc, first))
        if optional and not os.path.exists(journal):
            return i, 0, unusable  # not by one of the cases
        f = json.load(open(journal)) if os.path.exists(journal) else dict(property=prop, kind='', case=None)
        f.update(message='the process died:\n' + (tail(log) if rc2 != 0 else first), harness=REPLAY.get(harness, harness), go=version)
        if not race:
            if replay(e, work, f, times=3) is not True:
                if harness in REPLAY:
                    return i, 0, unusable
                raise Trouble('%s shard %d died (exit %d) but the case does not reproduce it:\n%s' % (harness, s, rc2, f['message']))
        return i, 0, dict(evaluations=1, enum_nontrivial=1, classes={}, kinds={f['kind']: 1}, samples=[], notes=['a shard stopped early'], rule='', failure=f)

    with ThreadPoolExecutor(max_workers=max(SHARDS, os.cpu_count() or 1)) as ex:
        for i, rc, res in ex.map(guarded, range(len(jobs))):
            label, harness, version, exe, s, shards, optional = jobs[i]
            if res is None:
                notes.append('%s: shard %d stopped, as another one had found a failure' % (label, s))
                continue
            f = res.get('failure')
            if f:
                f.setdefault('harness', REPLAY.get(harness, harness))
                f.setdefault('go', version)
                failures.append(f)
            res['label'] = label
            if harness.endswith('-386'):
                res['rule'] = 'the same, a tenth of the random cases, compiled for a 32-bit processor, with the oldest supported Go release'
            results.append(res)
            h = os.path.join(work, 'out-%d.json.hashes' % i)
            if os.path.exists(h):
                raw = open(h, 'rb').read()
                salt = zlib.crc32(label.encode()) << 32
                hashes.update(x ^ salt for x in struct.unpack('<%dQ' % (len(raw) // 8), raw))
    for t in timers:
        t.cancel()
    return failures, results, notes, hashes


def evidence(prop, tier, seed, results, notes, hashes, nviol, wall):
    classes, kinds, samples, rules = {}, {}, [], []
    enum = evals = 0
    for r in results:
        pre = r.get('label', '')
        pre = pre + ': ' if pre else ''
        evals += r.get('evaluations') or 0
        enum += r.get('enum_nontrivial') or 0
        for k, v in (r.get('classes') or {}).items():
            classes[pre + k] = classes.get(pre + k, 0) + v
        for k, v in (r.get('kinds') or {}).items():
            kinds[pre + k] = kinds.get(pre + k, 0) + v
        for s in r.get('samples') or []:
            if sum(1 for x in samples if x['kind'] == pre + s['kind']) < 3:
                samples.append(dict(s, kind=pre + s['kind']))
        for n in r.get('notes') or []:
            if pre + n not in notes:
                notes.append(pre + n)
        if r.get('rule') and pre + r['rule'] not in rules:
            rules.append(pre + r['rule'])
    ev = dict(property=prop, tier=tier, seed=seed, level='exploration',
              coverage=dict(evaluations=evals, distinct_nontrivial=enum + len(hashes), rule=' | '.join(rules) or 'none', samples=samples or ['none'],
                            classes=dict(sorted(classes.items())), cases_by_kind=dict(sorted(kinds.items())), notes=notes),
              wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(HERE, 'evidence')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
        f.write('\n')
    os.replace(p + '.tmp', p)
    return ev


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--replay')
    ap.add_argument('--setup', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='verif-%s-' % (a.property or 'x'))
    def ended(*_):
        for p in list(RUNNING):
            p.kill()
        sys.exit(2)
    signal.signal(signal.SIGTERM, ended)
    try:
        env = environment(work)
        if a.setup:
            for h, v in [('bb', None), ('bb-cov', None), ('bb-race', None), ('up', None), ('e2e', None), ('tokens', None), ('tokens-race', None), ('up-race', None)] + [('version', v) for v in GOS]:
                exe, out = build(env, work, h, v)
                if exe is None and h not in REPLAY:
                    raise Trouble('build of %s failed:\n%s' % (h, out))
            return 0
        if a.replay:
            rep = json.load(open(a.replay))
            r = replay(env, work, rep, times=3)
            print(rep.get('replay_output', '').strip())
            if r:
                print('VIOLATION property=%s replay=%s' % (rep['property'], a.replay))
                return 1
            return 2 if r is None else 0
        seed = a.seed & (2**63 - 1)
        failures, results, notes, hashes = explore(a.property, a.tier, seed, a.scale, env, work)
        known = known_findings(a.property)
        listed, new = [], []
        for f in failures:
            key = json.dumps(f.get('case'), sort_keys=True, separators=(',', ':')).replace(' ', '\\u0020')
            (listed if any(k == key for k, _ in known) else new).append(f)
        for _, what in known:
            print('KNOWN-FINDING: property=%s %s' % (a.property, what))
        ev = evidence(a.property, a.tier, a.seed, results, notes, hashes, len(new), time.time() - t0)
        for n in notes:
            print('note:', n)
        if new:
            d = os.path.join(HERE, 'replays')
            os.makedirs(d, exist_ok=True)
            # The smallest is the most telling.
            new.sort(key=lambda f: len(json.dumps(f.get('case'))))
            f = new[0]
            p = os.path.join(d, '%s-%s-%d.json' % (a.property, a.tier, a.seed))
            with open(p, 'w') as fh:
                json.dump(f, fh, indent=1, ensure_ascii=False)
                fh.write('\n')
            print('%s: %s' % (f.get('kind'), f.get('shown') or json.dumps(f.get('case'))[:2000]))
            print((f.get('message') or '')[:3000])
            print('VIOLATION property=%s replay=%s' % (a.property, p))
            return 1
        c = ev['coverage']
        print('%s %s seed %d: held on %d evaluations, %d distinct non-trivial, %.1f s' % (a.property, a.tier, a.seed, c['evaluations'], c['distinct_nontrivial'], ev['wall_s']))
        return 0
    except Trouble as e:
        print('ERROR:', e)
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
