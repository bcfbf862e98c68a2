import os, sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-B', '-m', 'nbcsa'] + sys.argv[1:])
sys.setrecursionlimit(30000)
if hasattr(sys, "set_int_max_str_digits"): sys.set_int_max_str_digits(0)
import threading, importlib
pid = sys.argv[1]
def go():
    m = importlib.import_module('nbcsa.checks.' + pid)
    rc[0] = m.build().main()
rc = [2]
import resource
try: resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
except (ValueError, OSError): pass
go()
sys.stdout.flush()
sys.exit(rc[0])
