import sys,re; sys.path.insert(0,'/verif')
from vc import engine, check
def short(n):
    while True:
        m = re.sub(r'<[^<>]*>', '', n)
        if m == n:
            return n
        n = m
o=engine.Engine.call
def call(self, st, name, args, *a, **k):
    print('  '*len(self.stack), 'CALL' if self.S.sat(st.pc) else 'CALL(DEAD)', short(self.m.demangle(name))[:110], [str(x)[:40] for x in args], file=sys.stderr)
    r=o(self, st, name, args, *a, **k)
    print('  '*len(self.stack), '->', len(r), 'states' , [str(x[1])[:60] for x in r][:3], file=sys.stderr)
    return r
engine.Engine.call=call
b=engine.Engine.oblige
def ob(self, st, cond, name, *a, **k):
    r=b(self, st, cond, name, *a, **k)
    print('   OBL', name, str(cond)[:100].replace('\n',' '), 'quiet' if self.quiet else '', 'DEAD' if not self.S.sat(st.pc) else '', file=sys.stderr)
    return r
engine.Engine.oblige=ob
sys.argv=['check.py']+sys.argv[1:]
check.main()
