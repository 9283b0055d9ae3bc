"""Helper to write /verif/seeded/<id>/ : make(id, prop, [(file, old, new)], demo_cc, srcs, needs, breaks)."""
import os, json, subprocess, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# cwd: the sofa-pbrpc tree.  Exit 0 when the demonstrated behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 99
trap '/bin/rm -rf "$out"' EXIT
P=/opt/vp/prefix
%(proto)sg++ -std=gnu++17 -O1 -g0 -DSOFA_PBRPC_ENABLE_DETAILED_LOGGING -include /opt/vp/compat.h -w %(flags)s-Isrc -I$P/include \\
  "$here/demo.cc" %(srcs)s -o "$out/demo" -L$P/lib %(libs)s -lpthread || exit 98
cd "$out" && timeout 120 ./demo
'''


def make(id, prop, edits, demo, srcs=(), needs='', breaks='', libs='-lprotobuf', flags='', proto=''):
    d = '%s/seeded/%s' % (V, id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir='/tmp')
    try:
        subprocess.check_call('git -C /repo archive HEAD src | tar -x -C %s && git -C %s init -q && git -C %s add -A && git -C %s -c user.email=a@b -c user.name=x commit -qm b' % (t, t, t, t), shell=True)
        for f, old, new in edits:
            p = t + '/src/sofa/pbrpc/' + f
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        df = subprocess.check_output(['git', '-C', t, 'diff'], text=True)
    finally:
        shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(df)
    open(d + '/demo.cc', 'w').write(demo)
    open(d + '/demo.sh', 'w').write(DEMO % dict(srcs=' '.join('src/sofa/pbrpc/' + s for s in srcs), libs=libs, flags=flags + ' ' if flags else '', proto=proto))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)


FULL = '''#!/bin/bash
# cwd: the built sofa-pbrpc tree.  Exit 0 when the demonstrated behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
out=$(mktemp -d) || exit 99
trap '/bin/rm -rf "$out"' EXIT
P=/opt/vp/prefix
LD_LIBRARY_PATH=$P/lib $P/bin/protoc -I"$here" -Isrc -I$P/include --cpp_out="$out" "$here/vfe.proto" || exit 98
g++ -std=gnu++17 -O1 -g0 -DSOFA_PBRPC_ENABLE_DETAILED_LOGGING -include /opt/vp/compat.h -w -I"$here" -I"$out" -Isrc -I$P/include \\
  "$here/demo.cc" "$out/vfe.pb.cc" libsofa-pbrpc.a -o "$out/demo" -L$P/lib -lprotobuf -lsnappy -lz -lpthread || exit 98
cd "$out" && LD_LIBRARY_PATH=$P/lib timeout 120 ./demo
'''


def full(id, prop, edits, demo, needs, breaks):
    """a demonstration against the library build.sh made, with the helpers of seeds/lib beside it"""
    make(id, prop, edits, '#include "demo.h"\n' + demo, (), needs, breaks)
    d = '%s/seeded/%s' % (V, id)
    open(d + '/demo.sh', 'w').write(FULL)
    for f in ('net.h', 'vh.h', 'vfe.proto', 'demo.h'):
        shutil.copy('%s/tools/seeds/lib/%s' % (V, f), d + '/' + f)
