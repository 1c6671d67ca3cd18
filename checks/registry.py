CHECKS = {}
def check(pid, **kw): CHECKS[pid] = kw
import importlib, os, glob
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'c_*.py'))):
    m = importlib.import_module(os.path.basename(f)[:-3]); m.register(check)
