"""runh.py PROPERTY [quick|thorough] [seed]: builds and runs the native harness of one property only (development tool)."""
import sys, os, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vc import build, check
p = sys.argv[1]
s = importlib.import_module('vc.specs.' + p.lower())
hn = s.HARNESS
B = build.Build()
try:
    exe = B.exe(p, hn['srcs'], hn.get('flags', ()), hn.get('libs', ()), hn.get('sanitize', 'address,undefined'), hn.get('opt', '-O1'))
    r = check.run_harness(exe, B, hn, sys.argv[2] if len(sys.argv) > 2 else 'quick', int(sys.argv[3]) if len(sys.argv) > 3 else 1, [])
    print(r['out'][-3000:] if r['fails'] else '')
    for f in r['fails'][:5]:
        print('FAIL', f[:600])
    print('cases', r['cases'], 'secs %.1f' % r['secs'])
except build.BuildError as e:
    print(str(e)[:5000])
finally:
    B.close()
