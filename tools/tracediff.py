"""
debugging aid: the line trace of one run, cold and after other runs
usage: tracediff.py CXX I [J ...]   (trace of I; cold vs after running J...)
"""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sim import boot
boot.boot() if hasattr(boot, 'boot') else None
import glob, importlib
from sim import runner, sched

cid = sys.argv[1]
m = importlib.import_module('checks.' + os.path.splitext(os.path.basename(
    glob.glob(os.path.join(boot.VERIF, 'checks', cid.lower() + '_*.py'))[0]))[0])
check = m.CHECK
check.setup()
out = []

def line(code, n):
    s = sched.ACTIVE
    if s is not None:
        me = s.by_ident.get(sched._thread.get_ident())
        if me is not None:
            out.append('%s %d %s:%s:%d' % (
                me.tid, s.step, os.path.basename(code.co_filename),
                code.co_name, n))
    return sched._on_line(code, n)


sys.monitoring.register_callback(
    sched.TOOL, sys.monitoring.events.LINE, line)
oy = sched.Scheduler.yield_point
def yp(self, kind='op'):
    if kind != 'line':
        f = sys._getframe(1)
        out.append('yield %s %s %s' % (kind, f.f_code.co_name, f.f_back.f_code.co_name))
    return oy(self, kind)
sched.Scheduler.yield_point = yp
seed = int(os.environ.get('SEED', 1))
for j in sys.argv[3:]:
    runner.run_case(check, runner.make_case(check, seed, int(j), 'quick'))
del out[:]
r = runner.run_case(check, runner.make_case(check, seed, int(sys.argv[2]), 'quick'))
for l in out:
    print(l)
print('LOG', '\n'.join(r.log))
print(r.violation, r.error)
