"""Process environment shared by every check: import path of the code under test, no byte code in /repo, quiet libraries."""
import logging
import os
import sys
import traceback

REPO = os.environ.get('SV_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def setup():
    os.environ.setdefault('MPLBACKEND', 'Agg')
    for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
        os.environ.setdefault(k, '1')
    sys.dont_write_bytecode = True
    logging.disable(logging.CRITICAL)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    sys.setrecursionlimit(10000)


def z3path():
    """z3 lives in the tools' venv; it is appended (never shadowing SAMPO's own dependencies)."""
    p = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
    if p not in sys.path:
        sys.path.append(p)


def classify(ex):
    """'repo' if the exception comes out of the code under test, 'harness' if /verif itself failed (e.g. a private name it
    uses is gone)."""
    frames = traceback.extract_tb(ex.__traceback__)
    if not frames:
        return 'harness', ''
    last = frames[-1]
    repo_frames = [f for f in frames if f.filename.startswith(REPO + '/') or f.filename.startswith('<vc:')]
    where = ''
    if repo_frames:
        f = repo_frames[-1]
        where = f'{f.filename}:{f.lineno}'
    if last.filename.startswith(VERIF + '/'):
        return 'harness', where
    if not repo_frames and not isinstance(ex, (IndexError, KeyError, ValueError, AssertionError, RecursionError)):
        return 'harness', where            # e.g. a private name that is gone; a container subclass of SAMPO fails with these
    return 'repo', where



setup()
