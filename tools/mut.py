"""try a textual change: mut.py mod.fn file 'old' 'new' [filter]"""
import sys, shutil, subprocess, os, tempfile
mod, f, old, new = sys.argv[1:5]
filt = sys.argv[5] if len(sys.argv) > 5 else ''
d = tempfile.mkdtemp(prefix='mut')
shutil.copytree('/repo/lie_nn', d + '/lie_nn')
p = f'{d}/lie_nn/_src/{f}'
s = open(p).read()
assert s.count(old) >= 1, 'not found'
open(p, 'w').write(s.replace(old, new, 1))
r = subprocess.run(['python3-vt', '/verif/tools/run.py', mod, filt, d], capture_output=True, text=True)
if '-v' in sys.argv: print(r.stdout[:3000])
L = [l for l in r.stdout.splitlines() if '0)] [] []' not in l]
print('\n'.join(x[:420] for x in L[:6]) or 'QUIET', r.stderr[-800:])
shutil.rmtree(d)
