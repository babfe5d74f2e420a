"""tools/plant.py SPEC.py : SPEC defines BUGS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=python text)].
Writes seeded/<id>/ (patch.diff against /repo's HEAD, demo.sh, demo.py, meta.json)."""
import json, os, subprocess, sys
HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
SH = '''#!/bin/bash
# run with cwd /repo after the build; exit 0 when the behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/py3/common.sh
export LD_LIBRARY_PATH=$SUPPORT/lib:/opt/venv/lib
exec "$PY" -W ignore "$here/demo.py"
'''
ns = {}
exec(open(sys.argv[1]).read(), ns)
for b in ns['BUGS']:
    assert not subprocess.run(['git', '-C', '/repo', 'status', '--short', '-uno'], stdout=subprocess.PIPE).stdout.strip()
    try:
        for f, old, new in b['edits']:
            p = os.path.join('/repo', f)
            s = open(p, encoding='utf8', newline='').read()
            assert s.count(old) == 1, (b['id'], f, s.count(old))
            open(p, 'w', encoding='utf8', newline='').write(s.replace(old, new))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], stdout=subprocess.PIPE).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    d = os.path.join(HERE, 'seeded', b['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.sh', 'w').write(SH)
    open(d + '/demo.py', 'w').write(b['demo'])
    json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
    print(b['id'])
