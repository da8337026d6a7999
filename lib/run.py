import os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import core
try:
    core.main()
except SystemExit:
    raise
except BaseException:
    traceback.print_exc()
    sys.stdout.flush(); sys.stderr.flush()
    os._exit(2)
