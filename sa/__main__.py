import os
import sys
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable, '-m', 'sa'] + sys.argv[1:])
from .check import main
import threading
threading.stack_size(512 * 1024 * 1024)
rc = []
t = threading.Thread(target=lambda: rc.append(main(sys.argv[1:])))
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0] if rc else 1)
