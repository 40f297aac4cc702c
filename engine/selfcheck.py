"""setup: the tools the checks need are present"""
import os, subprocess, sys
sys.path[:0] = [os.path.dirname(os.path.abspath(__file__))]
import z3, ir, vc, runner
for t in (runner.CLANGXX, runner.OPT, runner.LINK, 'g++', '/usr/bin/cvc5'):
    p = subprocess.run([t, '--version'], capture_output=True, text=True)
    assert p.returncode == 0, t
x = z3.Int('x')
assert vc.prove([x > 1], x > 0)[0] == 'proved'
assert vc.prove([x > 1], x > 2)[0] == 'refuted'
print('ok', z3.get_version_string())
