#!/usr/bin/env python3
"""calls.py TU.cc REGEX [DEPTH]: what the functions matching REGEX call, in the extracted IR (development tool)."""
import sys, os, re, subprocess, shutil
sys.path.insert(0, '/verif')
from vf import runner
W = '/tmp/vcalls'
os.makedirs(W, exist_ok=True)
G = W + '/gen'
if not os.path.exists(G):
    b = runner.Build(W, ['x']) if False else None
    os.makedirs(G)
    src = '/repo/src'
    ps = sorted(f for f in os.listdir(src + '/sofa/pbrpc') if f.endswith('.proto'))
    subprocess.check_call([runner.PREFIX + '/bin/protoc', '-I' + src, '-I' + runner.PREFIX + '/include', '--cpp_out=' + G] + ['sofa/pbrpc/' + p for p in ps], cwd=src)
cc = sys.argv[1]
out = W + '/x.ll'
inc = ['-I' + G, '-I/verif/native', '-I/repo/src', '-I' + runner.PREFIX + '/include']
subprocess.check_call([runner.CLANGXX] + runner.BASE_FLAGS + inc + ['-O0', '-Xclang', '-disable-O0-optnone', '-S', '-emit-llvm', cc, '-o', out])
subprocess.check_call([runner.OPT, '-S', '-passes=lowerinvoke,sroa', out, '-o', out])
t = open(out).read()
fns = {}
for m in re.finditer(r'^define [^\n]*?@("[^"]+"|[\w.$]+)\(.*?^}', t, re.M | re.S):
    fns[m.group(1)] = m.group(0)
calls = {f: re.findall(r'call [^\n]*?@("[^"]+"|[\w.$]+)\(', b) for f, b in fns.items()}
names = sorted(set(fns) | {c for v in calls.values() for c in v})
dem = dict(zip(names, subprocess.run(['c++filt'], input='\n'.join(names), capture_output=True, text=True).stdout.split('\n')))
depth = int(sys.argv[3]) if len(sys.argv) > 3 else 1
stop = re.compile(r'^std::|^llvm\.|^google::|^sofa::pbrpc::(LogHandler|LogMessage)')
def show(f, d, seen):
    for c in dict.fromkeys(calls.get(f, [])):
        x = dem[c]
        print('  ' * (depth - d + 1) + x[:230] + ('' if c in fns else '   [extern]'))
        if d > 1 and c in fns and not stop.match(x) and c not in seen:
            show(c, d - 1, seen | {c})
for f in fns:
    if re.search(sys.argv[2], dem[f]):
        print(dem[f][:200])
        show(f, depth, {f})
