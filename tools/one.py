import sys; sys.path.insert(0, '/verif')
from gv import driver, llvmc
tu = sys.argv[1]; bc = driver.compile_ir(tu, '/tmp/gv_one.bc', flags=[f for f in sys.argv[3:] if f.startswith('-') and f not in ('-v', '-a')])
m = llvmc.Module(bc)
cfg = dict(kv.split('=') for kv in sys.argv[3:] if '=' in kv and not kv.startswith('-'))
if 'models' in cfg: cfg['models'] = cfg['models'].split(',')
for k in ('budget', 'loop_limit'):
    if k in cfg: cfg[k] = int(cfg[k])
for f in m.fns:
    if f.startswith('gvc_') and (len(sys.argv) < 3 or sys.argv[2] in f):
        r = driver.run_contract(bc, f, cfg)
        print(f, r['status'], r.get('reason') or '', f"{r['wall']:.1f}s q={r.get('nq')} tq={r.get('tq', 0):.1f} instr={r.get('ninstr')}")
        if '-a' in sys.argv:
            for a in r.get('accesses', []): print('   ', a)
            print('    edges', r.get('edges'))
        for o in r['obligations']:
            if o['status'] != 'discharged' or '-v' in sys.argv: print('   ', o['status'], o['kind'], o['label'], o['n'], o['backends'], o['loc'], o['inputs'], o['reason'] or '')
