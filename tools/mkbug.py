#!/usr/bin/env python3
"""Development aid: make /verif/seeded/<id> from an edit. usage: mkbug.py ID FILE OLD NEW [FILE OLD NEW ...] (OLD must occur exactly once)
The edit is made in a scratch copy of /repo's HEAD; demo.cpp/demo.sh and meta.json are written separately."""
import os, shutil, subprocess, sys, tempfile
bid, rest = sys.argv[1], sys.argv[2:]
d = os.path.join('/verif/seeded', bid)
os.makedirs(d, exist_ok=True)
t = tempfile.mkdtemp()
try:
    subprocess.check_call(['git', 'clone', '-q', '--no-hardlinks', os.environ.get('VERIF_REPO', '/repo'), t + '/r'])
    for i in range(0, len(rest), 3):
        f, old, new = rest[i:i + 3]
        p = os.path.join(t, 'r', f)
        s = open(p, newline='').read()
        if '\r\n' in s:
            old, new = old.replace('\n', '\r\n'), new.replace('\n', '\r\n')
        if s.count(old) != 1:
            sys.exit('%s: %d occurrences of %r' % (f, s.count(old), old))
        open(p, 'w', newline='').write(s.replace(old, new))
    out = subprocess.check_output(['git', '-C', t + '/r', 'diff'])
    open(os.path.join(d, 'patch.diff'), 'wb').write(out)
    print(out.decode())
finally:
    shutil.rmtree(t)
