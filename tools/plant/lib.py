"""Helpers of the demonstrations: small parameter files and runs in a scratch directory."""
import contextlib
import io
import os
import shutil
import subprocess
import sys
import tempfile
import warnings

sys.path.insert(0, os.getcwd())
sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np
import hyvr

BASE = {
    'run': dict(numsim='1', outputs='[npz]'),
    'model': dict(dx='1.0', dy='1.0', dz='0.5', lx='4.0', ly='3.0', lz='3.0', heterogeneity_level='facies'),
    'strata': dict(strata='[low, up]', strata_contact_models='[[flat, 1.5]]', ae='[sh, tr]',
                   ae_in_strata='[[sh], [tr]]', ae_prob='[[1.0], [1.0]]', ae_z_mean='[[0.8], [0.9]]',
                   avul_prob='[[0.0], [0.0]]', avul='[[0.0, 0.0], [0.0, 0.0]]',
                   bg_facies='[clay, sand]', bg_azim='[0.0, 10.0]', bg_dip='[0.0, 5.0]'),
    'sh': dict(geometry='sheet', structure='massive', contact_model='[flat]', lens_thickness='-1',
               facies='[clay, gravel]', dip='[0.0, 10.0]', azimuth='[0.0, 40.0]'),
    'tr': dict(geometry='trough', structure='massive', contact_model='[flat]', length='3.0', width='2.0', depth='0.8',
               trough_density='0.3', facies='[sand, gravel]', agg='0.4', paleoflow='[-10.0, 10.0]', dip='[0.0, 10.0]', azimuth='[0.0, 40.0]'),
    'hydraulics': dict(hydrofacies='[clay, sand, gravel]', k_h='[1e-8, 1e-4, 1e-3]', sig_y='[0.0, 0.0, 0.0]',
                       ycorlengths='[[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [1.0, 1.0, 1.0]]', k_ratio='[1.0, 2.0, 4.0]',
                       n='[0.3, 0.25, 0.2]', sig_n='[0.0, 0.0, 0.0]',
                       ncorlengths='[[1.0, 1.0, 1.0], [1.0, 1.0, 1.0], [1.0, 1.0, 1.0]]'),
    'flowtrans': dict(hin='[1.0, 0.0, 0.0]', hout='[0.5, 0.0, 0.0]'),
}


def config(**changes):
    """config(run={'numsim': '2'}, tr=None): BASE with changes"""
    c = {s: dict(d) for s, d in BASE.items()}
    for s, d in changes.items():
        if d is None:
            c.pop(s, None)
        else:
            c.setdefault(s, {}).update(d)
    return c


def text(c):
    return '\n'.join('[%s]\n%s\n' % (s, '\n'.join('%s = %s' % kv for kv in d.items() if kv[1] is not None)) for s, d in c.items())


def write(path, c):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w', encoding='utf-8') as f:
        f.write(c if isinstance(c, str) else text(c))
    return path


@contextlib.contextmanager
def scratch():
    d = os.path.realpath(tempfile.mkdtemp(prefix='hyvrdemo-'))
    old = os.getcwd()
    try:
        yield d
    finally:
        os.chdir(old)
        shutil.rmtree(d, ignore_errors=True)


def run(ini, flag=None, seed=0):
    """(ok, exception, printed text)"""
    np.random.seed(seed)
    out = io.StringIO()
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        try:
            hyvr.run(ini, flag)
        except (Exception, KeyboardInterrupt) as e:
            return False, e, out.getvalue()
    return True, None, out.getvalue()


def cli(args, cwd, env=None, code=None):
    """the command line program: completed process"""
    e = dict(os.environ, PYTHONPATH=os.getcwd(), PYTHONDONTWRITEBYTECODE='1', **(env or {}))
    cmd = [sys.executable, '-m', 'hyvr'] if code is None else [sys.executable, '-c', code]
    return subprocess.run(cmd + args, cwd=cwd, env=e, capture_output=True, text=True)


def tree(d):
    """everything below d"""
    out = {}
    for p, ds, fs in os.walk(d):
        for n in ds + fs:
            q = os.path.join(p, n)
            r = os.path.relpath(q, d)
            if os.path.islink(q):
                out[r] = ('link', os.readlink(q))
            elif os.path.isdir(q):
                out[r] = 'dir'
            else:
                out[r] = open(q, 'rb').read()
    return out


def arrays(path):
    with np.load(path) as f:
        return {k: f[k] for k in f.files}


def same(a, b):
    return set(a) == set(b) and all(np.array_equal(a[k], b[k], equal_nan=a[k].dtype.kind == 'f') for k in a)


def check(cond, what):
    if not cond:
        print('BROKEN:', what)
        sys.exit(1)
