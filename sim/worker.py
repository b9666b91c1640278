"""A worker ("zygote"): has hyvr imported and executes jobs read from stdin.

Started by vc.py with the shim preloaded.  Every simulated process is a fork
of this one; the worker itself never runs code under test.
"""
import base64
import hashlib
import importlib
import json
import os
import pickle
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
REPO = os.environ.get('HYVR_SIM_REPO', '/repo')
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


def preload():
    import warnings
    warnings.simplefilter('ignore')
    import numpy, numpy.random, numpy.lib.format           # noqa
    import scipy.io, scipy.linalg, scipy.fft               # noqa
    import h5py, pyevtk.hl                                 # noqa
    import flopy, flopy.mf6                                # noqa
    import pkg_resources, configparser, tempfile, shutil, argparse, runpy, zipfile   # noqa
    import encodings.utf_8_sig, encodings.ascii, encodings.latin_1, encodings.idna   # noqa
    import hyvr
    if not os.path.abspath(hyvr.__file__).startswith(os.path.abspath(REPO) + os.sep):
        raise SystemExit('hyvr comes from %s' % hyvr.__file__)
    import hyvr.sim                                        # noqa
    # the filters of a fresh interpreter
    warnings.resetwarnings()
    warnings.filterwarnings('default', category=DeprecationWarning, module='__main__', append=True)
    for c in (DeprecationWarning, PendingDeprecationWarning, ImportWarning, ResourceWarning):
        warnings.simplefilter('ignore', c, append=True)


class Imp:
    pass


def main():
    out = os.fdopen(os.dup(1), 'w', buffering=1)
    os.dup2(2, 1)
    err = None
    try:
        preload()
    except SystemExit:
        raise
    except BaseException:
        err = traceback.format_exc()
    if err:
        out.write(json.dumps(dict(import_error=err[-3000:])) + '\n')
        return
    import core
    core.lib()
    import props
    out.write(json.dumps(dict(ready=True)) + '\n')
    root = os.environ['HYVR_SIM_ROOT']
    for line in sys.stdin:
        job = json.loads(line)
        core.STATS.clear()
        try:
            res = props.job(job, root)
        except core.HarnessError as e:
            res = dict(harness=str(e)[-3000:])
        except MemoryError:
            res = dict(harness='MemoryError')
        except BaseException:
            res = dict(harness=traceback.format_exc()[-4000:])
        res['stats'] = dict(core.STATS)
        res['job'] = job.get('id')
        out.write(json.dumps(res) + '\n')
        try:
            core.wipe(root)
        except OSError:
            pass


if __name__ == '__main__':
    main()
