"""Checks that the tools the checks need are there; nothing has to be built ahead of time."""
import subprocess, sys, os
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import z3, cvc5
from gv import driver, llvmc
out = os.path.join(driver.BUILD, 'setup'); os.makedirs(out, exist_ok=True)
open(out + '/t.cpp', 'w').write('extern "C" int f(int x) { return x + 1; }\n')
bc = driver.compile_ir(out + '/t.cpp', out + '/t.bc'); assert 'f' in llvmc.Module(bc).fns
print('ok: z3', z3.get_version_string(), 'cvc5', cvc5.__version__)
