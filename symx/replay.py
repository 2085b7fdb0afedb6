"""Replay a counterexample on the unmodified code (project interpreter, no solver).

usage: replay.py FILE.json
exit 0: the assertion holds on this input; 1: it fails (reproduced);
anything else: the replay itself did not work.
"""
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from symx import core, runner_env  # noqa: E402


def main(path):
    with open(path) as fh:
        recs = json.load(fh)
    single = isinstance(recs, dict)
    if single:
        recs = [recs]
    runner_env.import_real(instrument=False)
    out = []
    import importlib
    for rec in recs:
        importlib.import_module('harness.' + rec['module'])
        runner_env._snap or runner_env.take_snapshot()
        runner_env.reset_state()
        c = core.ConcreteCtx(rec)
        core.set_ctx(c)
        res = dict(status='holds', what='')
        stdout = sys.stdout
        sys.stdout = open(os.devnull, 'w')
        try:
            runner_env.HARNESSES[rec['harness']](c)
        except core.Infeasible:
            res['status'] = 'infeasible'
        except core.CheckFailed as ex:
            res = dict(status='fails', what=ex.label, detail=str(ex.detail)[:3000])
        except core.EngineControl as ex:
            res = dict(status='error', what=repr(ex))
        except Exception as ex:
            tb = traceback.format_exc()
            # (the exploration of the unchanged code raises nothing: what an assertion cannot even be
            # evaluated on is a failure as well)
            res = dict(status='fails', what='unexpected-exception:' + type(ex).__name__, detail=tb[-3000:])
        finally:
            sys.stdout.close()
            sys.stdout = stdout
        out.append(res)
    print('REPLAY-RESULT ' + json.dumps(out))
    if single:
        return {'holds': 0, 'fails': 1, 'infeasible': 0}.get(out[0]['status'], 3)
    return 0


if __name__ == '__main__':
    sys.exit(main(sys.argv[1]))
