"""Import environment: /repo's working tree first, its dependencies last."""
import os
import sys

REPO = os.environ.get('SYMX_REPO', '/repo')
DEPS = '/opt/venv/lib/python3.12/site-packages'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    sys.dont_write_bytecode = True
    for p in (VERIF, REPO):
        if p in sys.path:
            sys.path.remove(p)
    sys.path.insert(0, VERIF)
    sys.path.insert(0, REPO)
    if DEPS not in sys.path:
        sys.path.append(DEPS)
    import warnings

    warnings.simplefilter('ignore')
    import logging

    logging.disable(logging.CRITICAL)
    os.environ.setdefault('PYDEVD_DISABLE_FILE_VALIDATION', '1')
    os.environ.setdefault('IPYTHONDIR', '/nonexistent-ipythondir')
