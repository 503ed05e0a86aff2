"""cover.py OUT ID...: lines of the package executed by the checks (sys.monitoring; appended by all the workers)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
OUT = sys.argv[1]
REPO = os.environ.get('VERIF_REPO', '/repo')
M = sys.monitoring
M.use_tool_id(2, 'cover')
fd = os.open(OUT, os.O_WRONLY | os.O_CREAT | os.O_APPEND)


def line(code, n):
    if '/atooms/postprocessing/' in code.co_filename or '/bin/pp.py' in code.co_filename or '/bin/acf.py' in code.co_filename:
        os.write(fd, ('%s:%d\n' % (code.co_filename.replace(REPO + '/', ''), n)).encode())
    return M.DISABLE


M.register_callback(2, M.events.LINE, line)
M.set_events(2, M.events.LINE)
from mon import harness
for pid in sys.argv[2:]:
    M.restart_events()
    harness.main(pid, [])
