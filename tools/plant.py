"""plant.py ID...: makes /verif/seeded/ID/patch.diff from the edits in /tmp/plant/edits/ID.json ([[file, old, new]...]) against
/repo's HEAD and tries the demonstration on a clean and on a changed copy."""
import json, os, shutil, subprocess, sys, tempfile
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def build(d):
    s = open('/opt/vp/build.sh').read().replace('cd /repo', 'cd ' + d)
    return subprocess.run(['bash', '-c', s], capture_output=True, text=True)

def demo(d, i):
    try:
        r = subprocess.run(['bash', os.path.join(V, 'seeded', i, 'demo.sh')], cwd=d, capture_output=True, text=True, timeout=300)
        return r.returncode, (r.stdout + r.stderr)[-400:]
    except subprocess.TimeoutExpired:
        return 'timeout', ''

for i in sys.argv[1:]:
    p = os.path.join(V, 'seeded', i)
    t = tempfile.mkdtemp(prefix='plant')
    d = t + '/repo'
    subprocess.run(['git', 'clone', '-q', '/repo', d], check=True)
    if build(d).returncode: sys.exit('clean build failed')
    clean = demo(d, i)
    for f, old, new in json.load(open('/tmp/plant/edits/%s.json' % i)):
        x = open(d + '/' + f).read()
        if x.count(old) != 1: sys.exit('%s: %s: %d matches of %r' % (i, f, x.count(old), old[:60]))
        open(d + '/' + f, 'w').write(x.replace(old, new))
    diff = subprocess.run(['git', '-C', d, 'diff'], capture_output=True, text=True).stdout
    open(p + '/patch.diff', 'w').write(diff)
    bad = []
    for f, old, new in json.load(open('/tmp/plant/edits/%s.json' % i)):
        bl = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.split('\n')
        src = open('/repo/' + f).read()
        for l in diff.split('\n'):
            if l.startswith('-') and not l.startswith('---') and l[1:].strip():
                hits = [b for b in bl if b.split(') ', 1)[-1] == l[1:]]
                if hits and not any('7982990' in b for b in hits): bad.append(l)
    r = build(d)
    if r.returncode: sys.exit(i + ': build failed\n' + r.stdout[-800:])
    print(i, 'clean:', clean[0], 'changed:', demo(d, i), 'OK' if clean[0] == 0 else clean, 'NOT ORIGINAL: %s' % bad if bad else '')
    shutil.rmtree(t)
