"""mkseed.py SEEDFILE: (development tool, used by no check) confirms a planted change on /repo and stores it under seeded/.

A seed file defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (C++ source), SRCS (repo sources), LIBS."""
import sys, os, subprocess, json, runpy
R, V = '/repo', '/verif'
COMMON = '''#!/bin/bash
# builds the demonstration from the sources in the current directory and runs it
set -e
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
mkdir -p $T/gen $T/inc $T/ska $T/scratch
cat > $T/ska/flat_hash_map.hpp <<'EOF'
#pragma once
#include <unordered_map>
namespace ska {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>>
using flat_hash_map = std::unordered_map<K, V, H, E>;
}
EOF
for g in perc_bucket_tags:percentile_bucket_tags perc_bucket_values:percentile_bucket_values valid_chars:valid_chars; do
  g++ -std=c++17 -O0 -o $T/gen/x $R/tools/gen_${g%%:*}.cc && $T/gen/x $T/gen/${g##*:}.inc
done
OBJ=
for s in SRCS $D/demo.cc; do
  o=$T/$(echo $s | tr '/.' '__').o
  g++ -std=c++17 -O0 -g -w FLAGS -I$T/inc -I$T/gen -I$R -c -o $o $s &
  OBJ="$OBJ $o"
done
wait
g++ FLAGS -o $T/demo $OBJ LIBS
cd $T/scratch
set +e
timeout 200 $T/demo
rc=$?
[ $rc -eq 0 ] && echo demo: holds || echo "demo: broken ($rc)"
exit $rc
'''


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def tests():
    sh('bash /opt/vp/test.sh /tmp/w/seed_t.json')
    d = json.load(open('/tmp/w/seed_t.json'))
    return set(d['passed']), d['failed']


def main(f, runcheck=True):
    s = runpy.run_path(f)
    d = '%s/seeded/%s' % (V, s['ID'])
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo not clean'
    os.makedirs(d, exist_ok=True)
    libs = ' '.join(s.get('LIBS', []))
    sc = COMMON.replace('SRCS', ' '.join('$R/' + x for x in s['SRCS'])).replace('LIBS', libs).replace('FLAGS', s.get('FLAGS', ''))
    open(d + '/demo.sh', 'w').write(sc)
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cc', 'w').write(s['DEMO'])
    json.dump(dict(property=s['PROPERTY'], needs=s['NEEDS'], what_it_breaks=s['BREAKS']), open(d + '/meta.json', 'w'), indent=1)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['tests']) if False else None
    ok = sh('bash %s/demo.sh' % d, cwd=R)
    print('unchanged: demo', ok.returncode, (ok.stdout + ok.stderr)[-1500:] if ok.returncode else '')
    if ok.returncode:
        return 1
    try:
        for fn, old, new in s['EDITS']:
            t = open(R + '/' + fn).read()
            assert t.count(old) == 1, (fn, t.count(old), old)
            open(R + '/' + fn, 'w').write(t.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh')
        print('build', b.returncode, b.stderr[-1500:] if b.returncode else '')
        p, fl = tests()
        print('tests', len(p), 'passed', fl)
        bad = sh('bash %s/demo.sh' % d, cwd=R)
        print('patched: demo', bad.returncode, (bad.stdout + bad.stderr)[-400:])
        if runcheck:
            for c in [s['PROPERTY']] + s.get('ALSO', []):
                r = sh('python3-vt vc/check.py %s quick' % c, cwd=V)
                print('check', c, r.returncode, r.stdout[-900:], r.stderr[-300:])
        return 0 if (b.returncode == 0 and not fl and len(p) >= 66 and bad.returncode != 0) else 1
    finally:
        sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')


if __name__ == '__main__':
    rc = main(sys.argv[1])
    print('SEED', 'ok' if rc == 0 else 'REJECTED')
    sys.exit(rc)
