"""C29: every pair of accesses recorded by the contracts of one object that may happen at the same time has a mutex in common; the mutexes are always taken
in one order. (A contract records which bytes of the object its operation accesses, under which mutexes, see Engine.note.)"""
import os, subprocess, shutil
USER, CONTROL, BODIES, BODY, DESTROY = 1, 2, 3, 4, 5
OP = {USER: 'an operation', CONTROL: 'start, stop or another operation of the controlling thread', BODIES: "a worker thread", BODY: "the object's thread", DESTROY: 'destruction'}
LOCKS = ("no mutex is locked twice by one thread", "only a mutex that is held is unlocked", "waiting needs the mutex to be held", "every mutex is released", "no other mutex is held while a thread sleeps on a condition variable")
def concurrent(a, b):
    "may accesses of operations a and b = (op, solo) happen at the same time? solo: while no thread of the object exists"
    (x, sx), (y, sy) = sorted((a, b))
    if x == USER: return y != DESTROY and not (y in (BODIES, BODY) and sx)
    if y in (BODIES, BODY) and x == CONTROL: return not sx
    if y == DESTROY: return x in (BODIES, BODY) and not sy
    return x == BODIES and y == BODIES
def keep(r):
    "C29 is about mutexes and accesses only: what else the operations promise is decided by the other properties"
    r['obligations'] = [o for o in r['obligations'] if o['label'] in LOCKS or o['status'] == 'discharged']
    if r['status'] == 'failed' and all(o['status'] == 'discharged' for o in r['obligations']): r['status'] = 'proved'
def tsan(s, obj):
    "the report of ThreadSanitizer on the real code when the operations of the object run in several threads, or None"
    from gv import driver
    exe = os.path.join(s.dir, 'race_stress')
    if not os.path.exists(exe):
        try: c = subprocess.run(['g++', '-std=c++20', '-fsanitize=thread', '-g', '-O1', '-w', *driver.incs(driver.REPO), os.path.join(driver.ROOT, 'contracts/race_stress.cpp'), '-o', exe], capture_output=True, text=True, timeout=200)
        except subprocess.TimeoutExpired: return None
        if c.returncode: return None
    try: r = subprocess.run([exe, obj, '8'], capture_output=True, text=True, timeout=40, env=dict(os.environ, TSAN_OPTIONS='halt_on_error=0 exitcode=66'))
    except subprocess.TimeoutExpired as e: return None
    i = r.stderr.find('WARNING: ThreadSanitizer: data race')
    return None if i < 0 else r.stderr[i:i + 6000]
def races(s):
    objs = {}
    for r, tu in s.res: objs.setdefault(r['contract'].split('_')[2], []).append(r)
    pairs = bad = 0; cov = {}
    for obj, rs in sorted(objs.items()):
        acc = [(a, r['contract']) for r in rs for a in r.get('accesses', [])]
        missing = [r['contract'] for r in rs if r['status'] != 'proved']
        if not acc: s.notes.append(f"{obj}: no access was recorded, nothing is decided"); continue
        seen = set(); n = 0
        for i, (a, ca) in enumerate(acc):
            for b, cb in acc[i:]:
                if 'w' not in (a[3], b[3]) or a[1] + a[2] <= b[1] or b[1] + b[2] <= a[1] or not concurrent((a[0], a[5]), (b[0], b[5])): continue
                n += 1
                if set(a[4]) & set(b[4]): continue
                k = tuple(sorted((str(a[6]), str(b[6]))))
                if k in seen: continue
                seen.add(k); bad += 1
                if len(seen) > 5: continue
                loc = lambda x: f"{os.path.basename(x[6][0])}:{x[6][1]} ({x[7][:90]})"
                lab = f"{obj}: {OP[a[0]]} {'writes' if a[3] == 'w' else 'reads'} at {loc(a)} what {OP[b[0]]} {'writes' if b[3] == 'w' else 'reads'} at {loc(b)}, with no mutex in common"
                s.say('  ' + lab)
                if len(seen) == 1: report = tsan(s, obj)
                s.violation(ca, lab, s.replay_file(ca, lab, None, f"accesses: {a}\n          {b} (contract {cb})\nbytes of the object, mutexes by their offset in the object" + (f"\n\nThreadSanitizer on the real code (contracts/race_stress.cpp, {obj}):\n{report}" if report else '')), not report)
        edges = {tuple(map(tuple, e)) for r in rs for e in r.get('edges', [])}; order = {}
        for x, y in edges: order.setdefault(x, set()).add(y)
        def reach(x, y, done):
            for z in order.get(x, ()):
                if z == y or (z not in done and (done.add(z) or reach(z, y, done))): return True
            return False
        cyc = [x for x in order if reach(x, x, set())]
        if cyc: s.violation(rs[0]['contract'], f"{obj}: mutexes are taken in conflicting order", s.replay_file(rs[0]['contract'], 'lock order', None, f"{obj}: {sorted(edges)}"), True)
        pairs += n; cov[obj] = dict(accesses=len(acc), conflicting_pairs_examined=n, lock_order=[list(map(str, e)) for e in sorted(edges)], operations_without_verdict=missing)
        s.say(f"  {obj}: {len(acc)} kinds of access, {n} pairs that conflict and may be concurrent, {len(edges)} lock orders")
    s.cov_extra = dict(lockset=cov, access_pairs=pairs, access_pairs_without_common_mutex=bad)
