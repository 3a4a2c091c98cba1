"""Which functions of the code under test were executed symbolically."""
import sys

_hit = set()


def start(repo):
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.PROFILER_ID, 'sx')
    except ValueError:
        return
    root = repo.rstrip('/') + '/gerber/'

    def cb(code, off):
        fn = code.co_filename
        if fn.startswith(root) and not code.co_name.startswith('<'):
            _hit.add((fn[len(repo.rstrip('/')) + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.PROFILER_ID, mon.events.PY_START, cb)
    mon.set_events(mon.PROFILER_ID, mon.events.PY_START)


def reset():
    _hit.clear()
    sys.monitoring.restart_events()


def take():
    return set(_hit)
