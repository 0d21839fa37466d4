"""which functions of the code under test were executed symbolically"""
import sys

_seen = set()
_on = False
TOOL = 4


def start():
    global _on
    if _on:
        return
    mon = sys.monitoring
    try:
        mon.use_tool_id(TOOL, "symx")
    except ValueError:
        return
    def cb(code, off):
        f = code.co_filename
        i = f.rfind("/prodsys/")
        if i >= 0 and "/repo/" in f:
            _seen.add(f[i + 1:] + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(TOOL, mon.events.PY_START, cb)
    mon.set_events(TOOL, mon.events.PY_START)
    _on = True


def functions():
    return _seen
