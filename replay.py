"""replay.py FILE: run a counterexample concretely against the code in /repo.
exit 1: the violation reproduces; exit 0: it does not; else: error."""
import os
import sys

if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from symx import env  # noqa

env.setup()
import importlib  # noqa
import json  # noqa

from symx import core, reg as H  # noqa


def main():
    r = json.load(open(sys.argv[1]))
    here = os.path.dirname(os.path.abspath(__file__))
    idx = json.load(open(os.path.join(here, 'checks', 'index.json')))
    importlib.import_module('checks.' + idx[r['property']]['module'])
    h = [h for h in H.HARNESSES[r['property']] if h.name == r['harness']][0]
    ctx = core.Concrete(r['params'], r['model'])
    print('replaying', r['harness'], r['params'], r['model'])
    try:
        core.guarded(h.fn, ctx)
    except core.Violation as v:
        print('REPRODUCED:', v.msg)
        sys.stdout.flush()
        os._exit(1)
    except core.PathEnd as e:
        print('path ended:', e)
        os._exit(0)
    except (Exception, core.Runaway, SystemExit) as e:
        import traceback

        traceback.print_exc()
        what = core.escaped(e, env.REPO + '/')
        if what:
            print('REPRODUCED:', what)
            sys.stdout.flush()
            os._exit(1)
        sys.stderr.flush()
        os._exit(4)
    print('not reproduced')
    sys.stdout.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
