"""Replays a recorded violation on the real code: python3-vt tools/replay.py <replay file>"""
import sys, os, re
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from gv import driver, check
p = sys.argv[1]; t = open(p).read(); print(t)
prop = re.search(r'property (\S+)', t).group(1); c = re.search(r'contract (\S+)', t).group(1)
for tu in check.PROPS[prop]['tus']:
    exe = driver.compile_native(os.path.join(driver.ROOT, 'contracts', tu), '/tmp/gv_replay.exe', flags=check.PROPS[prop].get('native_flags', []), sched=tu in check.PROPS[prop].get('sched', ()))
    rc, out = check.native(exe, [c, 'replay', p], 60)
    print(out); print({10: 'VIOLATED', 0: 'holds', 11: 'precondition not met'}.get(rc, rc))
    if rc == 10: sys.exit(1)
