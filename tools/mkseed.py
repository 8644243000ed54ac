"""mkseed.py ID PROP FILE 'needs' 'breaks' < python edits on stdin as JSON [[old,new],...]; writes seeded/ID/{patch.diff,meta.json}"""
import sys, json, os, subprocess, shutil
ID, prop, file, needs, breaks = sys.argv[1:6]
ed = json.load(sys.stdin); files = file.split(',')
d = '/verif/seeded/' + ID; os.makedirs(d, exist_ok=True)
w = '/tmp/mkseed-' + ID; shutil.rmtree(w, ignore_errors=True); subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
for e in ed:
    f = e[2] if len(e) > 2 else files[0]; t = open(w + '/' + f, newline='').read()
    if '\r\n' in t: e = [e[0].replace('\n', '\r\n'), e[1].replace('\n', '\r\n')] + e[2:]
    assert t.count(e[0]) == 1, (f, e[0], t.count(e[0]))
    open(w + '/' + f, 'w', newline='').write(t.replace(e[0], e[1]))
p = subprocess.run(['git', '-C', w, 'diff'], capture_output=True, check=True).stdout
open(d + '/patch.diff', 'wb').write(p); json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
shutil.rmtree(w)
