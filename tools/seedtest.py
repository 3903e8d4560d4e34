#!/usr/bin/env python3
"""Validate planted bugs and run checks against them, in a scratch copy.
usage: seedtest.py [--checks all|own|none] [--seed N] ID...   (development only)"""
import json, os, shutil, subprocess, sys, tempfile, argparse
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('--checks', default='own')
ap.add_argument('--seed', default='1')
ap.add_argument('ids', nargs='*')
a = ap.parse_args()
GO, OLD = '/opt/veriftools/go1.27.3/bin/go', '/opt/veriftools/go1.26.10/bin/go'
ids = a.ids or sorted(os.listdir(os.path.join(HERE, 'seeded')))
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]

def sh(cmd, cwd, env=None):
    r = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
    return r.returncode, r.stdout

for i in ids:
    d = os.path.join(HERE, 'seeded', i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='seed-')
    try:
        repo = os.path.join(w, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('.git'))
        sh(['git', 'init', '-q', repo], w)
        open(os.path.join(w, 'go.work'), 'w').write('go 1.25\nuse (\n\t./repo\n\t./repo/autoversion\n)\n')
        env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='', GOENV='off', CGO_ENABLED='0', GOWORK=os.path.join(w, 'go.work'))
        denv = dict(os.environ, PATH='/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin')
        demo = os.path.join(w, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        rc, out = sh(['bash', os.path.join(demo, 'demo.sh')], repo, denv)
        bad = []
        if rc != 0:
            bad.append('demo fails on the unchanged tree (%d): %s' % (rc, out[-800:]))
        rc, out = sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
        if rc:
            print(i, 'PATCH DOES NOT APPLY', out); continue
        for g, wd in [(GO, repo), (GO, repo + '/autoversion'), (OLD, repo + '/autoversion')]:
            rc, out = sh([g, 'build', './...'], wd, env)
            if rc: bad.append('build: ' + out[:500])
            rc, out = sh([g, 'test', '-vet=off', '-count=1', './...'], wd, env)
            if rc: bad.append('tests: ' + out[:600])
        rc, out = sh([GO, 'build', '-o', '/dev/null', './generate.go'], repo + '/textseg/internal/charprops', env)
        if rc: bad.append('generator: ' + out[:500])
        rc, dout = sh(['bash', os.path.join(demo, 'demo.sh')], repo, denv)
        if rc == 0:
            bad.append('demo passes with the patch')
        caught, errors = [], []
        which = {'all': props, 'own': [meta['property']], 'none': []}.get(a.checks) or a.checks.split(',')
        if a.checks == 'none': which = []
        for p in which:
            rc, out = sh([sys.executable, os.path.join(HERE, 'check.py'), p, '--seed', a.seed], HERE, dict(os.environ, VERIF_REPO=repo))
            if rc == 1 and 'VIOLATION property=%s ' % p in out: caught.append(p)
            elif rc != 0: errors.append((p, rc, out[-600:]))
        print(i, meta['property'], 'INVALID ' + ' | '.join(bad) if bad else 'valid', 'caught by', ' '.join(caught) or 'NOTHING', errors or '', flush=True)
        if '-v' in os.environ.get('V', ''): print(dout[-500:])
    finally:
        shutil.rmtree(w, ignore_errors=True)
