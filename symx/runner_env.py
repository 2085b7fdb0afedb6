"""Process environment of the harnesses: real code import, global state reset,
recording of the functions of /repo that were executed."""

import importlib
import os
import signal
import sys

sys.dont_write_bytecode = True

REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
VENV_SITE = '/opt/venv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HARNESSES = {}      # name -> function
META = {}           # name -> dict(prop, tier, bounds, ...)

PATH_ALARM_S = int(os.environ.get('VERIF_PATH_ALARM', '40'))

_seen = {}
_snap = None
TOOL = 4


def setup_sys_path():
    if sys.path[:1] != [SRC]:
        sys.path.insert(0, SRC)
    if VERIF not in sys.path:
        sys.path.insert(1, VERIF)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    os.environ.pop('FOOTPRINT_DOCSTRINGS', None)
    os.environ.pop('FOOTPRINT_SHORTNAMES', None)


def harness(prop, name=None, tier='quick', bounds='', covers=(), slow=False, cost=1):
    """Register a harness for property ``prop``.

    ``covers``: labels which must be reached by at least one path (otherwise
    the check is vacuous, and reports an error)."""
    def deco(f):
        n = '{}.{}'.format(prop, name or f.__name__)
        HARNESSES[n] = f
        META[n] = dict(prop=prop, tier=tier, bounds=bounds or (f.__doc__ or '').strip(),
                       covers=tuple(covers))
        return f
    return deco


def import_real(instrument=False):
    """Import footprints from /repo's working tree (never from a copy)."""
    setup_sys_path()
    if instrument:
        from . import loader
        loader.install(SRC)
    import logging
    logging.disable(logging.CRITICAL)
    fp = importlib.import_module('footprints')
    for m in ('util', 'collectors', 'config', 'access', 'priorities', 'proxies',
              'reporting', 'stdtypes', 'doc'):
        importlib.import_module('footprints.' + m)
    real = os.path.realpath(fp.__file__)
    if not real.startswith(os.path.realpath(SRC) + os.sep):
        raise RuntimeError('footprints imported from {} instead of {}'.format(real, SRC))
    return fp


# -- functions executed -------------------------------------------------------

def _on_start(code, offset):
    f = code.co_filename
    if f.startswith(SRC):
        _seen[(os.path.relpath(f, SRC), code.co_qualname, code.co_firstlineno)] = True
    return sys.monitoring.DISABLE


def begin_slice():
    if sys.monitoring.get_tool(TOOL) is None:
        sys.monitoring.use_tool_id(TOOL, 'symx')
        sys.monitoring.register_callback(TOOL, sys.monitoring.events.PY_START, _on_start)
        sys.monitoring.set_events(TOOL, sys.monitoring.events.PY_START)
    signal.signal(signal.SIGALRM, _alarm)
    if _snap is None:
        take_snapshot()


def functions_seen():
    return ['{}:{}'.format(f, q) for f, q, l in sorted(_seen) if q != '<module>']


def _alarm(sig, frame):
    from .core import StepLimit
    raise StepLimit('path exceeded {} s'.format(PATH_ALARM_S))


# -- global state ----------------------------------------------------------------

def take_snapshot():
    global _snap
    from .snapshot import Snapshot
    _snap = Snapshot()


def begin_path():
    reset_state()
    signal.setitimer(signal.ITIMER_REAL, PATH_ALARM_S)


def end_path():
    signal.setitimer(signal.ITIMER_REAL, 0)


def reset_state():
    """Back to the state of the snapshot (see symx/snapshot.py)."""
    _snap.restore()
