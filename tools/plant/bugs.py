"""The planted bugs: edits, what they need and break, and a demonstration each."""
BUGS = {}


def bug(bid, edits, needs, breaks, demo):
    BUGS[bid] = dict(property=bid.split('-')[0], edits=edits, needs=needs, breaks=breaks, demo=demo)


PAR = 'hyvr/input/parameters.py'
OUT = 'hyvr/postprocess/output.py'
MOD = 'hyvr/geo/model.py'
STR = 'hyvr/geo/stratum.py'
ASS = 'hyvr/assign_points.py'
CON = 'hyvr/geo/contact_surface.py'

bug('C01-explicit-no', [(PAR,
    "    if overwrite_old_output is None:\n",
    "    if not overwrite_old_output:\n")],
    'overwrite argument False together with overwrite_old_output = true in the parameter file',
    'an explicit "do not overwrite" is ignored and old results are deleted',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'overwrite_old_output': 'true'}))
    os.makedirs(d + '/m')
    open(d + '/m/precious', 'w').write('old')
    before = tree(d)
    ok, e, out = run(ini, False)
    check(not ok and tree(d) == before, 'flag_ow=False: directory was changed')
""")

bug('C02-hidden', [(PAR,
    "            for f in os.listdir(run['rundir']):\n",
    "            for f in [f for f in os.listdir(run['rundir']) if not f.startswith('.')]:\n")],
    'a hidden file in the overwritten directory',
    'hidden old content survives an overwriting run',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config())
    os.makedirs(d + '/m')
    open(d + '/m/.nfs0001', 'w').write('old')
    ok, e, out = run(ini, True)
    check(ok and set(os.listdir(d + '/m')) == {'m.npz', 'm_autogenerated_backup.ini'}, 'old content left: %s' % os.listdir(d + '/m'))
""")

bug('C03-tempfile', [(OUT,
    "    np.savez_compressed(fname+'.npz', **model.data)\n",
    "    # never leave a half written file in the realization directory\n"
    "    import shutil\n"
    "    import tempfile\n"
    "    handle, tmpname = tempfile.mkstemp(suffix='.npz')\n"
    "    with open(handle, 'wb') as tmpfile:\n"
    "        np.savez_compressed(tmpfile, **model.data)\n"
    "    shutil.move(tmpname, fname+'.npz')\n")],
    'an I/O error (or interrupt or kill) while the npz output is written',
    'a temporary file is left outside of the run directory',
    """
import resource
with scratch() as d:
    os.makedirs(d + '/tmp')
    ini = write(d + '/w/m.ini', config())
    tempfile.tempdir = d + '/tmp'
    resource.setrlimit(resource.RLIMIT_FSIZE, (3000, resource.RLIM_INFINITY))
    ok, e, out = run(ini)
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    tempfile.tempdir = None
    check(not ok, 'full disk not reported')
    check(os.listdir(d + '/tmp') == [], 'left outside of the run directory: %s' % os.listdir(d + '/tmp'))
""")

bug('C03-resolve', [(PAR,
    "                path = run['rundir'] / f\n",
    "                path = (run['rundir'] / f).resolve()\n")],
    'a symbolic link in the overwritten directory',
    'the target of the link is deleted',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config())
    os.makedirs(d + '/m')
    os.makedirs(d + '/data/sub')
    open(d + '/data/sub/precious', 'w').write('x')
    os.symlink(d + '/data', d + '/m/link')
    before = tree(d + '/data')
    run(ini, True)
    check(os.path.isdir(d + '/data') and tree(d + '/data') == before, 'the target of a link was deleted')
""")

bug('C04-order', [(PAR,
    "    # Assign architectural element identifiers\n",
    "    # set up directories\n"
    "    set_up_directories(run, inifile, flag_ow)\n"
    "\n"
    "    # Assign architectural element identifiers\n"), (PAR,
    "    model = Model(model_dict, strata_dict, elements, flowtrans)\n"
    "\n"
    "    # set up directories\n"
    "    set_up_directories(run, inifile, flag_ow)\n",
    "    model = Model(model_dict, strata_dict, elements, flowtrans)\n")],
    'an architectural element section that is not listed in the strata section, and permission to overwrite',
    'old results are deleted before the parameter file is rejected',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(strata={'ae': '[tr]'}))
    os.makedirs(d + '/m')
    open(d + '/m/precious', 'w').write('old')
    before = tree(d)
    ok, e, out = run(ini, True)
    check(not ok and tree(d) == before, 'old results lost by an invalid parameter file')
""")

bug('C05-rmtree', [(PAR,
    "                    shutil.rmtree(path)\n",
    "                    shutil.rmtree(path, ignore_errors=True)\n")],
    'an I/O error while an old subdirectory is removed',
    'the run reports success although old content is left',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config())
    os.makedirs(d + '/m/old')
    open(d + '/m/old/x', 'w').write('old')
    rmdir = os.rmdir
    def failing(path, *a, **kw):
        if os.path.basename(path) == 'old':
            raise OSError(5, 'Input/output error', path)
        return rmdir(path, *a, **kw)
    os.rmdir = failing
    ok, e, out = run(ini, True)
    os.rmdir = rmdir
    check(not ok, 'success reported, but left in the directory: %s' % os.listdir(d + '/m'))
""")

bug('C05-oserror', [(OUT,
    "            output_desc[fmt](model, str(fname.resolve()))\n"
    "        except ImportError as e:\n",
    "            output_desc[fmt](model, str(fname.resolve()))\n"
    "        except (ImportError, OSError) as e:\n")],
    'an I/O error while an output is written',
    'the run reports success although a requested output is missing',
    """
import resource
with scratch() as d:
    ini = write(d + '/m.ini', config())
    resource.setrlimit(resource.RLIMIT_FSIZE, (3000, resource.RLIM_INFINITY))
    ok, e, out = run(ini)
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    check(not ok, 'full disk not reported')
""")

bug('C05-unbuffered', [(OUT,
    "    with open(fname+'.pickle', 'wb') as outfile:\n",
    "    # pickle writes large blocks anyway\n"
    "    with open(fname+'.pickle', 'wb', buffering=0) as outfile:\n")],
    'a partial write (for example a disk that becomes full in the last block) in the pickle output',
    'the run reports success although the pickle file is cut off',
    """
import pickle, resource
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'outputs': '[py]'}))
    ok, e, out = run(ini)
    check(ok, repr(e))
    size = os.path.getsize(d + '/m/m.pickle')
    resource.setrlimit(resource.RLIMIT_FSIZE, (size - 10, resource.RLIM_INFINITY))
    ok, e, out = run(ini, True)
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    check(not ok or os.path.getsize(d + '/m/m.pickle') == size, 'success reported, but the file is cut off')
""")

bug('C06-empty', [(OUT,
    "        pickle.dump(model.data, outfile, protocol=pickle.HIGHEST_PROTOCOL)\n",
    "        data = {key: array for key, array in model.data.items() if np.any(array)}\n"
    "        pickle.dump(data, outfile, protocol=pickle.HIGHEST_PROTOCOL)\n")],
    'an array that is zero everywhere (only one stratum, or no dip)',
    'the pickle output lacks arrays that the other formats have',
    """
import pickle
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'outputs': '[npz, py]'}, strata={'bg_dip': '[0.0, 0.0]'},
                                     sh=dict(dip='[0.0, 0.0]'), tr=dict(dip='[0.0, 0.0]')))
    ok, e, out = run(ini)
    check(ok, repr(e))
    check(same(arrays(d + '/m/m.npz'), pickle.load(open(d + '/m/m.pickle', 'rb'))), 'pickle differs from npz')
""")

bug('C06-order', [(OUT,
    "                                      model.data['poros'].flatten()))}\n",
    "                                      model.data['poros'].flatten('F')))}\n")],
    'porosities that differ between cells',
    'the porosities of the HydroGeoSphere output are numbered differently from the tensors',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'outputs': '[npz, hgs]'}))
    ok, e, out = run(ini)
    check(ok, repr(e))
    a = arrays(d + '/m/m.npz')['poros'].flatten()
    b = np.loadtxt(d + '/m/HGS/porosity.txt')[:, 1]
    check(np.allclose(a, b, atol=6e-4), 'porosities differ')
""")

bug('C07-ten', [('hyvr/sim.py',
    "            realdir = run_settings['rundir'] / 'real_{:03d}'.format(sim)\n",
    "            realdir = run_settings['rundir'] / 'real_00{}'.format(sim)\n")],
    'ten or more realisations',
    'the directories of the realisations are named wrongly',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'numsim': '11'}, model=dict(dx='2.0', dy='1.5', dz='1.5')))
    ok, e, out = run(ini)
    check(ok, repr(e))
    names = sorted(n for n in os.listdir(d + '/m') if n.startswith('real'))
    check(names == ['real_%03d' % i for i in range(1, 12)], names)
""")

bug('C08-moved', [(PAR,
    "        run['rundir'] = ini_path\n",
    "        run['rundir'] = run['modeldir'] / run['runname']\n")],
    'a run directory that was renamed before the run is repeated from the backup in it',
    'the repeated run does not store its results in the directory of the backup',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config())
    ok, e, out = run(ini)
    check(ok, repr(e))
    a = arrays(d + '/m/m.npz')
    os.rename(d + '/m', d + '/renamed')
    os.unlink(d + '/renamed/m.npz')
    ok, e, out = run(d + '/renamed/m_autogenerated_backup.ini', True)
    check(ok, repr(e))
    check(os.path.exists(d + '/renamed/m.npz') and same(a, arrays(d + '/renamed/m.npz')), 'results are elsewhere: %s' % sorted(tree(d)))
""")

bug('C09-unlink', [(PAR,
    "    backup_file = run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')\n",
    "    backup_file = run['rundir'] / '{}_autogenerated_backup.ini'.format(run['runname'])\n"
    "    if backup_file.exists():\n"
    "        backup_file.unlink()\n")],
    'a run from its own backup that is killed (or hits a full disk) while it writes the new backup',
    'the only parameter file is lost',
    """
import builtins
with scratch() as d:
    ini = write(d + '/w/m.ini', config())
    ok, e, out = run(ini)
    check(ok, repr(e))
    os.unlink(ini)
    backup = d + '/w/m/m_autogenerated_backup.ini'
    before = open(backup).read()
    real = builtins.open
    def failing(path, mode='r', *a, **kw):
        if 'w' in mode and 'backup' in str(path):
            raise OSError(28, 'No space left on device', str(path))
        return real(path, mode, *a, **kw)
    builtins.open = failing
    ok, e, out = run(backup, True)
    builtins.open = real
    check(not ok, 'full disk not reported')
    check(any(open(d + '/w/m/' + f).read() == before for f in os.listdir(d + '/w/m') if f.endswith('.ini')), 'the parameter file is lost')
""")

bug('C10-broken-library', [(OUT,
    "            output_desc[fmt](model, str(fname.resolve()))\n"
    "        except ImportError as e:\n",
    "            output_desc[fmt](model, str(fname.resolve()))\n"
    "        except ModuleNotFoundError as e:\n")],
    'a library that is installed but can not be imported (for example because of a missing shared library)',
    'the run fails instead of skipping the output with a warning',
    """
with scratch() as d:
    os.makedirs(d + '/lib/h5py')
    open(d + '/lib/h5py/__init__.py', 'w').write("raise ImportError('libhdf5.so.200: cannot open shared object file')\\n")
    sys.path.insert(0, d + '/lib')
    sys.modules.pop('h5py', None)
    ini = write(d + '/m.ini', config(run={'outputs': '[h5, npz]'}))
    ok, e, out = run(ini)
    check(ok and os.path.exists(d + '/m/m.npz'), 'the run failed: %r' % e)
""")

bug('C10-silent', [(OUT,
    "            warnings.warn(str(e))\n",
    "            warnings.warn(str(e), ImportWarning)\n")],
    'a missing library and the default warning filters',
    'an output is skipped without a visible warning',
    """
with scratch() as d:
    os.makedirs(d + '/lib')
    open(d + '/lib/h5py.py', 'w').write("raise ModuleNotFoundError('No module named h5py')\\n")
    ini = write(d + '/m.ini', config(run={'outputs': '[h5, npz]'}))
    e = dict(os.environ, PYTHONPATH=d + '/lib:' + os.getcwd(), PYTHONDONTWRITEBYTECODE='1')
    r = subprocess.run([sys.executable, '-m', 'hyvr', ini], cwd=d, env=e, capture_output=True, text=True)
    check(r.returncode == 0, r.stderr)
    check('h5' in r.stderr, 'no warning about the skipped output')
""")

bug('C11-modeldir', [(PAR,
    "    run['modeldir'].mkdir(parents=True, exist_ok=True)\n",
    "    if not run['modeldir'].exists():\n"
    "        run['modeldir'].mkdir(parents=True)\n")],
    'two simultaneous runs with the same missing model directory',
    'one of two independent runs fails',
    """
import pathlib
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'modeldir': d + '/models'}))
    real = pathlib.Path.mkdir
    def slow(self, *a, **kw):
        if self.name == 'models' and not os.path.exists(str(self)):
            os.mkdir(str(self))     # the other run is faster
        return real(self, *a, **kw)
    pathlib.Path.mkdir = slow
    ok, e, out = run(ini)
    pathlib.Path.mkdir = real
    check(ok, 'the run failed because another one created the model directory: %r' % e)
""")

bug('C12-shift', [('hyvr/geo/sheet.py',
    "            self.shift += np.random.rand() * self.layer_dist\n",
    "            self.shift += random.random() * self.layer_dist\n"), ('hyvr/geo/sheet.py',
    "import numpy as np\nimport numpy.typing as npt\nfrom hyvr.geo.grid import Grid\n",
    "import random\nimport numpy as np\nimport numpy.typing as npt\nfrom hyvr.geo.grid import Grid\n")],
    'a sheet with dipping sets',
    'the same seed gives different results',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(sh=dict(structure='dip', dipset_dist='0.37', dip='[20.0, 30.0]', altfacies='[[gravel], [clay]]')))
    a = []
    for i in range(4):
        ok, e, out = run(ini, True, seed=3)
        check(ok, repr(e))
        a.append(arrays(d + '/m/m.npz'))
    check(all(same(a[0], b) for b in a), 'results differ between equally seeded runs')
""")

bug('C13-background', [('hyvr/geo/ae_realization.py',
    "        if self.type_params['bg_facies'] != -1:\n",
    "        if self.type_params['bg_facies'] > 0:\n")],
    'an element whose own background facies is the first of the hydrofacies',
    'cells get a facies which the parameter file does not allow for their element',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(tr=dict(bg_facies='clay'), strata=dict(bg_facies='[clay, sand]')))
    ok, e, out = run(ini)
    check(ok, repr(e))
    a = arrays(d + '/m/m.npz')
    check(set(a['facies'][(a['hat'] == 1) & (a['ha'] == -1)]) <= {0}, 'wrong background facies')
""")

COLUMN = """
def coarse_fine(d, factor, **changes):
    # the geometry does not depend on the vertical resolution if all contacts are flat
    res = []
    for n, dz in (('coarse', 0.5), ('fine', 0.5 / factor)):
        ini = write(d + '/%s.ini' % n, config(model={'dz': repr(dz)}, **changes))
        ok, e, out = run(ini, True, seed=SEED)
        check(ok, repr(e))
        res.append(arrays(d + '/%s/%s.npz' % (n, n)))
    a, b = res
    for k in ('facies', 'azim', 'dip', 'strata', 'ae', 'ha', 'hat'):
        check(np.array_equal(a[k], b[k][:, :, factor // 2::factor]), 'seed %d: %s depends on the other cells of the column' % (SEED, k))
"""

bug('C14-stale', [(ASS,
    "            # if we're below the current AE, we can go search in the next one\n"
    "            oi = 0\n"
    "            aei += 1\n",
    "            # if we're below the current AE, we can go search in the next one\n"
    "            aei += 1\n")],
    'several elements with objects in a stratum, the upper of which ends between two cells of a column',
    'objects of the lower element are not found',
    COLUMN + """
with scratch() as d:
    for SEED in range(6):
        coarse_fine(d, 5, strata=dict(strata_contact_models='[[flat, 0.5]]', ae_z_mean='[[0.8], [0.6]]'),
                    tr=dict(trough_density='1.5', agg='0.2'))
""")

bug('C14-tie', [(ASS,
    "        if z > object_zmaxs[oi]:\n            # we won't find any object below\n",
    "        if z >= object_zmaxs[oi]:\n            # we won't find any object below\n")],
    'the center of a cell exactly at the top of an object',
    'the cell is not assigned to the object that contains it',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(strata=dict(ae_z_mean='[[9.0], [9.0]]'),
        tr=dict(te_xyz='[[2.0, 1.5, 2.75]]', length='40.0', width='40.0', depth='1.0')))
    ok, e, out = run(ini)
    check(ok, repr(e))
    a = arrays(d + '/m/m.npz')
    check((a['ha'][:, :, 5] == 0).all() and (a['ha'][:, :, 4] == 0).all(), 'cells at the top of a trough are not assigned to it')
""")

bug('C15-gap', [(STR,
    "            if znow <= self.bottom_surface.zmean:\n",
    "            if znow <= self.bottom_surface.zmin:\n")],
    'a stratum with a random bottom and an element that ends between the lowest point and the mean of it',
    'the elements do not reach down to the bottom of their stratum',
    """
with scratch() as d:
    for seed in range(12):
        ini = write(d + '/m.ini', config(model=dict(dz='0.1', lx='8.0', ly='8.0'),
            strata=dict(strata_contact_models='[[random, 1.5, 0.15, 2.0, 2.0]]', ae='[sh]', ae_in_strata='[[sh], [sh]]',
                        ae_z_mean='[[5.0], [0.35]]'), tr=None))
        from hyvr.geo import contact_surface
        made = []
        init = contact_surface.ContactSurface.__init__
        def record(self, grid, **kw):
            init(self, grid, **kw)
            made.append((kw, np.array(self.surface)))
        contact_surface.ContactSurface.__init__ = record
        ok, e, out = run(ini, True, seed=seed)
        contact_surface.ContactSurface.__init__ = init
        check(ok, repr(e))
        a = arrays(d + '/m/m.npz')
        rand = [s for kw, s in made if kw['mode'] == 'random'][0]
        z = 0.05 + 0.1 * np.arange(a['strata'].shape[2])
        above = z[None, None, :] > rand[:, :, None] + 1e-9
        check((a['strata'][above] == 0).all() and (a['ae'] >= 0).all(), 'seed %d: cells above the contact are in no element' % seed)
""")

bug('C15-higher', [(STR,
    "            ae_bottom_surface.use_higher_surface_value(self.bottom_surface)\n",
    "            if ae_bottom_surface.zmin < self.bottom_surface.zmin:\n"
    "                ae_bottom_surface.use_higher_surface_value(self.bottom_surface)\n")],
    'a stratum with a random bottom surface that rises above the flat bottom of an element',
    'elements reach below the bottom of their stratum',
    """
with scratch() as d:
    for seed in range(12):
        ini = write(d + '/m.ini', config(model=dict(dz='0.1', lx='8.0', ly='8.0'),
            strata=dict(strata_contact_models='[[random, 1.5, 0.15, 2.0, 2.0]]', ae='[sh]', ae_in_strata='[[sh], [sh]]',
                        ae_z_mean='[[5.0], [0.35]]'), tr=None))
        from hyvr.geo import contact_surface
        made = []
        init = contact_surface.ContactSurface.__init__
        def record(self, grid, **kw):
            init(self, grid, **kw)
            made.append((kw, np.array(self.surface)))
        contact_surface.ContactSurface.__init__ = record
        ok, e, out = run(ini, True, seed=seed)
        contact_surface.ContactSurface.__init__ = init
        check(ok, repr(e))
        a = arrays(d + '/m/m.npz')
        rand = [s for kw, s in made if kw['mode'] == 'random'][0]
        z = 0.05 + 0.1 * np.arange(a['strata'].shape[2])
        below = z[None, None, :] < rand[:, :, None] - 1e-9
        check((a['strata'][below] == 1).all(), 'seed %d: cells below the contact are not in the lower stratum' % seed)
""")

bug('C16-tensor', [('hyvr/optimized.py',
    "                a01 = kiso*(1-a)*sink*cosk*sinp**2\n",
    "                a01 = kiso*(1-a)*sin(2*kappa)*sinp**2\n")],
    'cells with azimuth, dip and anisotropy',
    'the conductivity tensor does not have the conductivities of the cell',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(sh=dict(dip='[20.0, 30.0]', azimuth='[20.0, 60.0]')))
    ok, e, out = run(ini)
    check(ok, repr(e))
    a = arrays(d + '/m/m.npz')
    w = np.linalg.eigvalsh(a['ktensors'])
    k, r = a['k_iso'], a['anirat']
    check(np.allclose(w[..., 0], k / r, rtol=1e-6, atol=0) and np.allclose(w[..., 2], k, rtol=1e-6, atol=0), 'wrong principal conductivities')
""")

bug('C16-trend', [(MOD,
    "                    zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz)  # Z factor at each elevation\n"
    "                    poros *= zf_vec\n",
    "                    zf_vec = np.linspace(*hydraulics['n_ztrend'], self.grid.nz + 1)[:-1]  # Z factor at each elevation\n"
    "                    poros *= zf_vec\n")],
    'internal heterogeneity with a vertical trend of the porosity',
    'the trend does not reach its upper value',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(model=dict(heterogeneity_level='internal'), hydraulics=dict(n_ztrend='[1.0, 0.5]', n='[0.3, 0.3, 0.3]')))
    ok, e, out = run(ini)
    check(ok, repr(e))
    a = arrays(d + '/m/m.npz')
    n = 0.3 * np.linspace(1.0, 0.5, a['facies'].shape[2])
    check(np.allclose(a['poros'], n), 'wrong porosities')
""")

bug('C17-contacts', [(MOD,
    "                bottom_surface = ContactSurface(self.grid, **strata_dict['contact_models'][-1-si])\n",
    "                contact_model = strata_dict['contact_models'][-1-si]\n"
    "                if 'surface' not in contact_model:\n"
    "                    contact_model['surface'] = ContactSurface(self.grid, **contact_model)\n"
    "                bottom_surface = contact_model['surface']\n")],
    'several realisations with a random contact',
    'later realisations use the contacts of the first one',
    """
import copy
from hyvr.input.parameters import parameters
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'numsim': '2'}, strata=dict(strata_contact_models='[[random, 1.5, 0.3, 2.0, 2.0]]', ae='[sh]',
        ae_in_strata='[[sh], [sh]]', ae_z_mean='[[5.0], [5.0]]'), tr=None, model=dict(dz='0.1')))
    ok, e, out = run(ini)
    check(ok, repr(e))
    a, b = arrays(d + '/m/real_001/m.npz'), arrays(d + '/m/real_002/m.npz')
    check(not np.array_equal(a['strata'], b['strata']), 'both realisations have the same contact')
""")

bug('C17-angles', [(OUT,
    "        azim = np.transpose(model.data['azim'], transpose_order)\n",
    "        azim = np.transpose(model.data['azim'], transpose_order)\n"
    "        azim %= 360     # MODFLOW 6 wants positive angles\n"),
    (OUT,
    "        dip = np.transpose(model.data['dip'], transpose_order)\n        azim",
    "        dip = np.transpose(model.data['dip'], transpose_order).copy()\n        azim")],
    'mf6 output before another format and negative azimuths',
    'writing mf6 output changes the results that other formats store',
    """
with scratch() as d:
    c = dict(sh=dict(azimuth='[-60.0, -20.0]', dip='[10.0, 20.0]'))
    res = []
    for n, o in (('a', '[npz, mf6]'), ('b', '[mf6, npz]')):
        ini = write(d + '/%s.ini' % n, config(run={'outputs': o}, **c))
        ok, e, out = run(ini)
        check(ok, repr(e))
        res.append(arrays(d + '/%s/%s.npz' % (n, n)))
    check(same(*res), 'npz output depends on the order of the formats')
""")

bug('C18-errno', [('hyvr/__main__.py',
    "        sys.exit(1)\n",
    "        sys.exit(getattr(e, 'errno', 1))\n")],
    'an error without error number, such as a missing parameter file or an existing run directory',
    'the command line program exits with status 0 although the run failed',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config())
    os.makedirs(d + '/m')
    r = cli([ini], d)
    check(r.returncode != 0, 'exit status 0 although the run directory exists')
""")

bug('C18-saved', [(OUT,
    "        try:\n"
    "            output_desc[fmt](model, str(fname.resolve()))\n",
    "        print_to_stdout('Saved', fmt, 'output to', realization_dir)\n"
    "        try:\n"
    "            output_desc[fmt](model, str(fname.resolve()))\n"), (OUT,
    "            continue\n"
    "        print_to_stdout('Saved', fmt, 'output to', realization_dir)\n",
    "            continue\n")],
    'an I/O error while an output is written',
    'an output is reported as saved that does not exist',
    """
import resource
with scratch() as d:
    ini = write(d + '/m.ini', config())
    resource.setrlimit(resource.RLIMIT_FSIZE, (3000, resource.RLIM_INFINITY))
    ok, e, out = run(ini)
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    check(not ok, 'full disk not reported')
    check('Saved' not in out, 'reported as saved: ' + out)
""")

bug('C19-nobackup', [(PAR,
    "    if run['rundir'].exists():\n",
    "    if (run['rundir'] / (run['runname'] + '_autogenerated_backup.ini')).exists():\n")],
    'a crash between the creation of the run directory and its backup parameter file',
    'the run can not be repeated, not even with permission to overwrite',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config())
    os.makedirs(d + '/m')        # what is left after a crash in that moment
    ok, e, out = run(ini, True)
    check(ok and os.path.exists(d + '/m/m.npz'), 'the run can not be repeated: %r' % e)
""")

SHIFTED = """
def arrays(z0, extra):
    with scratch() as d:
        c = config(model={'z0': repr(z0), 'lz': '4.0', 'dz': '0.25'}, **extra(z0))
        ini = write(d + '/m.ini', c)
        np.random.seed(7)
        ok, e, out = run(ini)
        check(ok, 'run fails: %r' % e)
        return dict(np.load(d + '/m/m.npz'))
"""

bug('C24-trend', [('hyvr/geo/trough_utils.py',
    "            (z - grid.z0)*(delta_ztrend)/grid.lz\n",
    "            z*(delta_ztrend)/grid.lz\n")],
    'size_ztrend of a trough element and a domain that does not start at z = 0',
    'troughs have other sizes than asked for',
    SHIFTED + """
ex = lambda z0: dict(strata={'strata_contact_models': '[[flat, %r]]' % (z0 + 0.6)}, tr={'size_ztrend': '[0.5, 1.5]', 'te_xyz': '[[2.0, 1.5, %r]]' % (z0 + 3.3)})
check(same(arrays(0.0, ex), arrays(20.0, ex)), 'sizes depend on the origin of the domain')
""")

bug('C24-migrate', [('hyvr/geo/trough_utils.py',
    "                above_idx = k + (i-1)*n_troughs\n",
    "                above_idx = k\n")],
    'migrating troughs on more than two elevations',
    'troughs do not migrate on from the ones above them',
    """
from types import SimpleNamespace as N
from hyvr.geo.trough_utils import generate_trough_positions
np.random.seed(3)
g = N(x0=0.0, y0=0.0, z0=0.0, lx=10.0, ly=10.0, lz=10.0, xmax=10.0, ymax=10.0, zmax=10.0)
p = dict(depth=1.0, buffer=0.0, agg=1.0, migrate=[2.0, 0.0, 1.0, 0.0], trough_density=0.05)
pos = generate_trough_positions(N(zmax=0.0, zmean=0.0, zmin=0.0), N(zmax=5.0, zmean=5.0, zmin=5.0), p, g)
zs = sorted({q[2] for q in pos}, reverse=True)
lev = [[q for q in pos if q[2] == z] for z in zs]
check(len(lev) > 2, 'nothing generated')
for a, b in zip(lev, lev[1:]):
    check(len(a) == len(b), 'number of troughs changes')
    for p, q in zip(a, b):
        check(abs(q[0] - p[0] - 2) < 1e-9 and abs(q[1] - p[1] - 1) < 1e-9, 'trough moves from %s to %s' % (p, q))
""")

bug('C24-alternate', [('hyvr/utils.py',
    "            fac_idx = type_params['facies'].index(facies[i-1])\n",
    "            fac_idx = type_params['facies'].index(facies[i-1]) if facies[i-1] != facies[0] else 0\n")],
    'layers whose first facies is not the first one of the element, and that come back to it',
    'a layer follows another one which it may not follow',
    """
import hyvr.utils as hu
for seed in range(20):
    np.random.seed(seed)
    f = list(hu.get_alternating_facies(40, dict(facies=[1, 2, 3], altfacies=[[2], [3], [1]])))
    check(all(b == {1: 2, 2: 3, 3: 1}[a] for a, b in zip(f, f[1:])), 'layers %s' % f)
""")

bug('C24-lens', [('hyvr/geo/sheet_ae.py',
    "                                [grid.z0, grid.zmax],\n",
    "                                [0.0, grid.lz],\n")],
    'sheets with lens_thickness and size_ztrend in a domain that does not start at z = 0',
    'sheets are not as thick as asked for',
    SHIFTED + """
ex = lambda z0: dict(strata={'strata_contact_models': '[[flat, %r]]' % (z0 + 2.1)}, sh={'size_ztrend': '[0.5, 1.5]', 'lens_thickness': '0.37', 'structure': 'massive'})
check(same(arrays(0.0, ex), arrays(-20.0, ex)), 'thickness depends on the origin of the domain')
""")

bug('C24-height', [(STR,
    "        while znow > self.bottom_surface.zmean or (is_thin and not self.aes):\n"
    "\n"
    "            num_type = self.ae_type_names.index(curr_ae_type.name)\n",
    "        num_type = self.ae_type_names.index(curr_ae_type.name)\n"
    "        while znow > self.bottom_surface.zmean or (is_thin and not self.aes):\n"
    "\n")],
    'several element types of different heights in one stratum',
    'elements have the mean height of another type',
    """
from hyvr.geo.stratum import Stratum
with scratch() as d:
    c = config(model={'lz': '60.0', 'lx': '1.0', 'ly': '1.0'},
               strata={'ae_in_strata': '[[sh], [sh, tr]]', 'ae_prob': '[[1.0], [0.5, 0.5]]', 'ae_z_mean': '[[0.8], [1.0, 5.0]]', 'strata_contact_models': '[[flat, 1.0]]'})
    ini = write(d + '/m.ini', c)
    np.random.seed(2)
    ok, e, out = run(ini)
    check(ok, 'run fails: %r' % e)
    a = dict(np.load(d + '/m/m.npz'))
    hat, ae, st = a['hat'][0, 0], a['ae'][0, 0], a['strata'][0, 0]
    last = {ae[st == i].max() for i in set(st)}     # cut off by the bottom of the stratum
    n = {0: [], 1: []}
    for k in sorted(set(ae)):
        if k not in last:
            n[int(hat[ae == k][0])].append(0.5 * (ae == k).sum())
    check(n[0] and n[1], 'both types expected')
    check(max(n[0]) <= 2.0 and min(n[1]) >= 2.5, 'heights of sheets (mean 1): %s, of trough elements (mean 5): %s' % (n[0], n[1]))
""")

FIELD = """
from types import SimpleNamespace as N
import hyvr.utils as hu
def grid(nx, ny, nz, d=(1.0, 1.0, 1.0)):
    from hyvr.geo.grid import Grid
    return Grid(0.0, 0.0, 0.0, d[0], d[1], d[2], nx * d[0], ny * d[1], nz * d[2], False)
def corr(f, ax, lag):
    f = np.moveaxis(f, ax, 0)
    return float(np.corrcoef(f[lag:].ravel(), f[:-lag].ravel())[0, 1])
"""

bug('C22-corl', [('hyvr/utils.py',
    "                     + (selected_Z_centered/corl[2])**2\n",
    "                     + (selected_Z_centered/corl[1])**2\n")],
    'heterogeneous parameters whose vertical correlation length differs from the one in y',
    'fields have the horizontal correlation length in vertical direction',
    FIELD + """
np.random.seed(4)
g = grid(20, 30, 60)
m = np.ones((20, 30, 60), dtype=bool)
c = np.mean([corr(hu.specsim(g, 1.0, [1.0, 1.0, 5.0], selection_mask=m, covmod='exp').reshape(m.shape), 2, 5) for _ in range(20)])
check(0.2 < c < 0.5, 'correlation after one correlation length: %.3f' % c)
""")

bug('C22-var', [('hyvr/utils.py',
    "        ryy = np.exp(-h_square) * var\n",
    "        ryy = np.exp(-h_square) * np.sqrt(var)\n")],
    'a random contact surface with a variance other than 1',
    'contact surfaces scatter more (or less) than asked for',
    FIELD + """
np.random.seed(4)
g = grid(60, 60, 2)
v = np.mean([np.var(hu.specsim(g, 0.04, [3.0, 3.0], two_dim=True)) for _ in range(20)])
check(0.03 < v < 0.05, 'variance %.4f instead of 0.04' % v)
""")

bug('C22-cache', [('hyvr/utils.py',
    "    syy = np.fft.fftn(np.fft.fftshift(ryy)) / ntot\n"
    "    syy = np.abs(syy)       # Remove imaginary artifacts\n",
    "    # fields of the same kind share their spectrum\n"
    "    key = (ryy.shape, float(var), covmod, float(corl[0]))\n"
    "    if key not in _spectra:\n"
    "        _spectra.clear()\n"
    "        _spectra[key] = np.abs(np.fft.fftn(np.fft.fftshift(ryy)) / ntot)     # Remove imaginary artifacts\n"
    "    syy = _spectra[key].copy()\n"),
    ('hyvr/utils.py',
    "def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussian'):\n",
    "_spectra = {}\n\n"
    "def specsim(grid, var, corl, selection_mask=None, two_dim=False, covmod='gaussian'):\n")],
    'two fields in a row of equal variance and equal correlation length in x but not in y or z',
    'the second field has the correlation lengths of the first',
    FIELD + """
np.random.seed(4)
g = grid(60, 60, 2)
hu.specsim(g, 1.0, [2.0, 2.0], two_dim=True)
c = np.mean([corr(hu.specsim(g, 1.0, [2.0, 6.0], two_dim=True), 1, 6) for _ in range(20)])
check(0.2 < c < 0.5, 'correlation after one correlation length: %.3f' % c)
""")

bug('C25-next', [(STR,
    "            next_ae_type = prob_choose(self.ae_types, self.params['ae_prob'])\n",
    "            next_ae_type = prob_choose(self.ae_types, np.asarray(self.params['ae_prob']) > 0)\n")],
    'a stratum with element types of different probability and more than one element',
    'all but the topmost element of a stratum ignore the probabilities asked for',
    """
from hyvr.geo.stratum import Stratum
with scratch() as d:
    c = config(model={'lz': '200.0', 'lx': '1.0', 'ly': '1.0', 'dz': '20.0'},
               strata={'ae_in_strata': '[[sh], [sh, tr]]', 'ae_prob': '[[1.0], [0.9, 0.1]]', 'ae_z_mean': '[[0.8], [1.0, 1.0]]', 'strata_contact_models': '[[flat, 1.0]]'})
    ini = write(d + '/m.ini', c)
    kinds = []
    orig = Stratum.__init__
    def init(self, *a, **k):
        orig(self, *a, **k)
        kinds.extend(x.type_name for x in self.aes)
    Stratum.__init__ = init
    np.random.seed(5)
    ok, e, out = run(ini, True)
    Stratum.__init__ = orig
    check(ok, 'run failed: %r' % (e,))
    share = np.mean([k == 'tr' for k in kinds])
    check(share < 0.25, 'share of troughs is %.2f instead of 0.1' % share)
""")

bug('C25-avul', [(STR,
    "                dz = -np.random.uniform(*self.params['avul'])\n",
    "                dz = np.random.uniform(*self.params['avul'])\n")],
    'avulsion with a probability above 0',
    'avulsions make elements thicker instead of thinner',
    """
from hyvr.geo.stratum import Stratum
with scratch() as d:
    c = config(model={'lz': '200.0', 'lx': '1.0', 'ly': '1.0', 'dz': '20.0'},
               strata={'ae_z_mean': '[[0.8], [2.0]]', 'strata_contact_models': '[[flat, 1.0]]', 'avul_prob': '[[0.0], [1.0]]', 'avul': '[[0.0, 0.0], [0.5, 0.7]]'})
    ini = write(d + '/m.ini', c)
    n = []
    orig = Stratum.__init__
    def init(self, *a, **k):
        orig(self, *a, **k)
        n.append(len(self.aes))
    Stratum.__init__ = init
    np.random.seed(5)
    ok, e, out = run(ini, True)
    Stratum.__init__ = orig
    check(ok, 'run failed: %r' % (e,))
    check(120 < max(n) < 165, '%d elements on 199 m, expected about 142' % max(n))
""")

bug('C25-start', [('hyvr/geo/trough_utils.py',
    "                yc = np.random.uniform(grid.y0, grid.ymax)\n",
    "                yc = np.random.uniform(grid.y0, grid.y0 + grid.lx)\n")],
    'a trough element in a domain that is not square',
    'troughs fill only part of the domain, or start outside of it',
    """
from types import SimpleNamespace as N
from hyvr.geo.trough_utils import generate_trough_positions
np.random.seed(3)
g = N(x0=0.0, y0=0.0, z0=0.0, lx=10.0, ly=30.0, lz=10.0, xmax=10.0, ymax=30.0, zmax=10.0)
p = dict(depth=1.0, buffer=0.0, agg=1.0, migrate=None, trough_density=0.2)
pos = generate_trough_positions(N(zmax=0.0, zmean=0.0, zmin=0.0), N(zmax=5.0, zmean=5.0, zmin=5.0), p, g)
y = [q[1] for q in pos]
check(len(y) > 50 and max(y) > 20 and max(y) <= 30, 'positions from %r to %r' % (min(y), max(y)))
""")

bug('C03-chdir', [(OUT,
    "        val_filepath = hgsdir / (val + '.txt')       # File name of HGS output file\n"
    "        np.savetxt(val_filepath, vals_to_write[val], fmt=val_fmts[val])",
    "        with pushd(hgsdir):\n"
    "            np.savetxt(val + '.txt', vals_to_write[val], fmt=val_fmts[val])"),
    (OUT,
    "def create_outputs(model, realization_dir, runname, formats):\n",
    "@contextlib.contextmanager\n"
    "def pushd(directory):\n"
    "    old = os.getcwd()\n"
    "    os.chdir(directory)\n"
    "    yield\n"
    "    os.chdir(old)\n\n\n"
    "def create_outputs(model, realization_dir, runname, formats):\n"),
    (OUT, "import pathlib\nimport pickle\n", "import contextlib\nimport os\nimport pathlib\nimport pickle\n")],
    'an I/O error while the HydroGeoSphere tables are written, in a process that goes on',
    'the process is left in another working directory, where later relative paths lead to',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'outputs': '[hgs]'}))
    os.makedirs(d + '/cwd')
    os.chdir(d + '/cwd')
    orig = np.savetxt
    def savetxt(*a, **k):
        raise OSError(28, 'No space left on device')
    np.savetxt = savetxt
    ok, e, out = run(ini, True)
    np.savetxt = orig
    check(not ok, 'the run did not fail')
    check(os.getcwd() == os.path.realpath(d + '/cwd'), 'now in %s' % os.getcwd())
    os.chdir('/')
""")

bug('C05-close', [(OUT,
    "    with open(fname+'.pickle', 'wb') as outfile:\n"
    "        pickle.dump(model.data, outfile, protocol=pickle.HIGHEST_PROTOCOL)\n",
    "    pickle.dump(model.data, open(fname+'.pickle', 'wb'), protocol=pickle.HIGHEST_PROTOCOL)\n")],
    'a disk that gets full at the last, buffered part of a pickle output',
    'the error at closing the file is lost, and a truncated output is reported as success',
    """
import resource
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'outputs': '[py]'}))
    ok, e, out = run(ini)
    size = os.path.getsize(d + '/m/m.pickle')
    sys.unraisablehook = lambda *a: None
    for limit in (size - 1, size - 100, size - 1000):
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
        ok, e, out = run(ini, True)
        resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
        check(not ok, 'success reported, %d of %d bytes written' % (os.path.getsize(d + '/m/m.pickle'), size))
""")

bug('C10-folder', [(OUT,
    "    try:\n"
    "        import flopy\n"
    "    except ImportError as e:\n"
    "        raise type(e)(str(e) + \", modflow output not possible!\")\n"
    "    # For modflow we want to create a new folder instead of only a file. The folder name is the base\n"
    "    # name of the passed filename\n"
    "    realization_dir = pathlib.Path(fname).parent\n"
    "    runname = pathlib.Path(fname).name\n"
    "    mfdir = realization_dir / 'MODFLOW'\n"
    "    mfdir.mkdir(parents=True, exist_ok=True)\n",
    "    # For modflow we want to create a new folder instead of only a file. The folder name is the base\n"
    "    # name of the passed filename\n"
    "    realization_dir = pathlib.Path(fname).parent\n"
    "    runname = pathlib.Path(fname).name\n"
    "    mfdir = realization_dir / 'MODFLOW'\n"
    "    mfdir.mkdir(parents=True, exist_ok=True)\n"
    "    try:\n"
    "        import flopy\n"
    "    except ImportError as e:\n"
    "        raise type(e)(str(e) + \", modflow output not possible!\")\n")],
    'MODFLOW output without flopy',
    'an empty output directory is left for a skipped format',
    """
with scratch() as d:
    sys.modules['flopy'] = None
    ini = write(d + '/m.ini', config(run={'outputs': '[npz, mf]'}))
    ok, e, out = run(ini)
    check(ok, 'run fails: %r' % e)
    check(set(os.listdir(d + '/m')) == {'m.npz', 'm_autogenerated_backup.ini'}, 'left: %s' % os.listdir(d + '/m'))
""")

bug('C04-late', [(PAR,
    "    # Assign architectural element identifiers\n"
    "    for element in elements.keys():\n"
    "        elements[element]['ae_id'] = strata_dict['ae'].index(element)\n"
    "\n", ""), (PAR,
    "    set_up_directories(run, inifile, flag_ow)\n"
    "\n"
    "    return run, model, hydraulics\n",
    "    set_up_directories(run, inifile, flag_ow)\n"
    "\n"
    "    # Assign architectural element identifiers\n"
    "    for element in elements.keys():\n"
    "        elements[element]['ae_id'] = strata_dict['ae'].index(element)\n"
    "\n"
    "    return run, model, hydraulics\n")],
    'an element section whose name is not in the list of elements (ae)',
    'the error comes after the old results were deleted',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(strata={'ae': '[sh, tt]'}))
    os.makedirs(d + '/m')
    open(d + '/m/old', 'w').write('old')
    before = tree(d)
    ok, e, out = run(ini, True)
    check(not ok, 'unknown element accepted')
    check(tree(d) == before, 'rejected, but the run directory was changed')
""")

bug('C24-planes', [('hyvr/geo/sheet.py',
    "            self.normvec_x = sin_dip*cos_azim\n",
    "            self.normvec_x = sin_azim*cos_dip\n")],
    'dipping sets in a sheet with an azimuth that is not 0',
    'layers of the sheet do not have the dip and azimuth of the sheet',
    """
from hyvr.geo.sheet import Sheet
from hyvr.geo.grid import Grid
from hyvr.geo.contact_surface import ContactSurface
np.random.seed(1)
g = Grid(0.0, 0.0, 0.0, 1.0, 1.0, 1.0, 4.0, 4.0, 4.0, False)
s = Sheet(dict(structure='dip', dipset_dist=0.5, azimuth=[30.0, 30.0], dip=[20.0, 20.0], facies=[0, 1], altfacies=None),
          ContactSurface(g, mode='flat', z=1.0), ContactSurface(g, mode='flat', z=3.0), g)
n = np.array([s.normvec_x, s.normvec_y, s.normvec_z], dtype=float)
check(abs(n @ n - 1) < 1e-9 and abs(n[2] - np.cos(np.radians(20))) < 1e-9, 'normal of the layers is %s' % n)
""")

bug('C06-origin', [(OUT,
    "        zv = model.grid.z0 + model.grid.dz*np.arange(model.grid.nz+1)\n",
    "        zv = model.grid.z[0] + model.grid.dz*np.arange(model.grid.nz+1)\n")],
    'VTK output',
    'the VTK grid is half a cell too high',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'outputs': '[vtr]'}, model={'z0': '2.0'}, strata={'strata_contact_models': '[[flat, 3.5]]'}))
    ok, e, out = run(ini)
    check(ok, 'run fails: %r' % e)
    raw = open(d + '/m/m.vtr', 'rb').read()
    want = (2.0 + 0.5 * np.arange(7)).astype('<f8').tobytes()
    check(want in raw, 'elevations of the VTK grid are not those of the model')
""")

bug('C18-flag', [('hyvr/__main__.py',
    "if args.overwrite == False:\n    args.overwrite = None\n", "")],
    'the command line program without --overwrite, overwriting permitted by the parameter file',
    'the permission of the parameter file is ignored',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config(run={'overwrite_old_output': 'true'}))
    r = cli([ini], d)
    check(r.returncode == 0, 'first run fails')
    r = cli([ini], d)
    check(r.returncode == 0, 'permitted overwriting is refused: %s' % r.stderr[-200:])
""")

bug('C13-many', [(ASS,
    "    ae_array = -1*np.ones((nx, ny, nz), dtype=np.int32)\n",
    "    # (there are never many of them)\n"
    "    ae_array = -1*np.ones((nx, ny, nz), dtype=np.int8)\n"), (ASS,
    "                        ae_array[x_idx, y_idx, z_idx] = geo_ids[1]\n",
    "                        ae_array[x_idx, y_idx, z_idx] = geo_ids[1].astype(np.int8)\n")],
    'more than 127 elements',
    'element numbers overflow',
    """
with scratch() as d:
    c = config(model={'lz': '150.0', 'lx': '1.0', 'ly': '1.0'}, tr=None,
               strata={'ae_in_strata': '[[sh], [sh]]', 'ae': '[sh]', 'ae_z_mean': '[[0.8], [0.8]]', 'strata_contact_models': '[[flat, 1.0]]'})
    ini = write(d + '/m.ini', c)
    ok, e, out = run(ini)
    check(ok, 'run fails: %r' % e)
    a = dict(np.load(d + '/m/m.npz'))['ae'].astype(int)
    check(a.min() >= 0 and (np.diff(a[0, 0, ::-1]) >= 0).all(), 'element numbers from the top: %s' % a[0, 0, ::-1])
""")

bug('C17-lens', [('hyvr/geo/sheet_ae.py',
    "            thickness = self.zmax - self.zmin\n",
    "            self.type_params['lens_thickness'] = self.zmax - self.zmin\n"
    "            thickness = self.type_params['lens_thickness']\n")],
    'massive sheets, a second element of the same type that is higher than the first one, or a second realisation',
    'the thickness of the first element is kept for all later ones',
    """
with scratch() as d:
    c = config(run={'numsim': '2'}, model={'lz': '12.0'}, strata={'ae_in_strata': '[[sh], [sh]]', 'ae': '[sh]', 'ae_z_mean': '[[20.0], [20.0]]', 'strata_contact_models': '[[flat, 9.0]]'}, tr=None)
    ini = write(d + '/m.ini', c)
    ok, e, out = run(ini)
    check(ok, 'run fails: %r' % e)
    for k in (1, 2):
        a = arrays(d + '/m/real_00%d/m.npz' % k)
        for s in (0, 1):
            n = len(set(a['azim'][a['strata'] == s]))
            check(n == 1, 'stratum %d of realisation %d has %d sheets instead of one' % (s, k, n))
""")

bug('C12-set', [(PAR,
    "    for element in elements.keys():\n"
    "        elements[element]['ae_id'] = strata_dict['ae'].index(element)\n",
    "    ae_names = list(set(strata_dict['ae']))\n"
    "    for element in elements.keys():\n"
    "        elements[element]['ae_id'] = ae_names.index(element)\n")],
    'two processes with different hash seeds',
    'the numbers of the element types depend on the hash seed',
    """
with scratch() as d:
    ini = write(d + '/m.ini', config())
    code = 'import sys, numpy, hyvr; sys.dont_write_bytecode = True; numpy.random.seed(0); hyvr.run(sys.argv[1], True)'
    found = []
    for h in range(6):
        r = cli([ini], d, env={'PYTHONHASHSEED': str(h)}, code=code)
        check(r.returncode == 0, 'run fails: %s' % r.stderr[-300:])
        found.append(arrays(d + '/m/m.npz'))
    check(all(same(found[0], a) for a in found[1:]), 'results depend on the hash seed')
""")

bug('C22-shared', [(MOD,
    "                        # Generate internal heterogeneity - porosity\n"
    "                        n_flat = hu.specsim(self.grid, \n"
    "                                            hydraulics['sig_n'][fi],\n"
    "                                            hydraulics['ncorlengths'][fi],\n"
    "                                            covmod='exp',\n"
    "                                            selection_mask=mifi) + hydraulics['n'][fi]\n",
    "                        # Generate internal heterogeneity - porosity\n"
    "                        if hydraulics['ncorlengths'][fi] == hydraulics['ycorlengths'][fi] and hydraulics['sig_y'][fi] > 0:\n"
    "                            # same structure: only scale the field\n"
    "                            n_flat = (np.log(k_flat/hydraulics['k_h'][fi])\n"
    "                                      * np.sqrt(hydraulics['sig_n'][fi]/hydraulics['sig_y'][fi]) + hydraulics['n'][fi])\n"
    "                        else:\n"
    "                            n_flat = hu.specsim(self.grid,\n"
    "                                                hydraulics['sig_n'][fi],\n"
    "                                                hydraulics['ncorlengths'][fi],\n"
    "                                                covmod='exp',\n"
    "                                                selection_mask=mifi) + hydraulics['n'][fi]\n")],
    'a facies whose conductivity and porosity have the same correlation lengths',
    'porosity is a function of conductivity instead of independent of it',
    """
with scratch() as d:
    c = config(model={'heterogeneity_level': 'internal', 'lx': '12.0', 'ly': '12.0'},
               strata={'ae_in_strata': '[[tr], [tr]]', 'ae': '[tr]', 'ae_z_mean': '[[9.0], [9.0]]', 'bg_facies': '[sand, sand]'}, sh=None,
               hydraulics={'sig_y': '[1.0, 1.0, 1.0]', 'sig_n': '[0.001, 0.001, 0.001]'})
    c['tr']['te_xyz'] = '[[0.0, 0.0, 0.5]]'
    ini = write(d + '/m.ini', c)
    cs = []
    for s in range(8):
        ok, e, out = run(ini, True, seed=s)
        check(ok, 'run fails: %r' % e)
        a = arrays(d + '/m/m.npz')
        m = (a['ha'] < 0) & (a['facies'] == 1)
        check(m.sum() > 500, 'background of sand expected')
        cs.append(np.corrcoef(np.log(a['k_iso'][m]), a['poros'][m])[0, 1])
    check(abs(np.mean(cs)) < 0.5, 'correlation of conductivity and porosity: %s' % cs)
""")

bug('C14-reach', [(MOD,
    "        self.strata_zmins = np.array([stratum.zmin for stratum in self.strata])\n",
    "        self.strata_zmins = np.array([stratum.bottom_surface.zmin for stratum in self.strata])\n")],
    'a trough that reaches below the bottom of its stratum',
    'the part of the trough below its stratum is lost',
    """
with scratch() as d:
    c = config(model={'lx': '8.0', 'ly': '8.0', 'lz': '6.0', 'dz': '0.25'}, strata={'strata_contact_models': '[[flat, 3.0]]'})
    c['tr'].update(length='9.0', width='8.0', depth='2.0', te_xyz='[[4.0, 4.0, 3.5]]', dip='[0.0, 0.0]')
    ini = write(d + '/m.ini', c)
    ok, e, out = run(ini)
    check(ok, 'run fails: %r' % e)
    a = arrays(d + '/m/m.npz')
    z = 0.125 + 0.25 * np.arange(24)
    i = np.flatnonzero((z > 2.0) & (z < 2.8))       # in the middle of the trough, below the contact at 3.0
    check((a['strata'][4, 4, i] == 0).all(), 'strata at the centre of the trough: %s' % a['strata'][4, 4])
""")

bug('C25-last', [('hyvr/geo/sheet.py',
    "            self.facies = np.random.choice(type_params['facies'])\n",
    "            n = len(type_params['facies'])\n"
    "            self.facies = type_params['facies'][np.random.randint(max(n - 1, 1))]\n")],
    'massive sheets with several facies',
    'the last facies of the list never occurs',
    """
with scratch() as d:
    c = config(model={'lz': '60.0', 'lx': '1.0', 'ly': '1.0'}, tr=None,
               strata={'ae_in_strata': '[[sh], [sh]]', 'ae': '[sh]', 'strata_contact_models': '[[flat, 1.0]]'})
    c['sh']['facies'] = '[clay, sand, gravel]'
    ini = write(d + '/m.ini', c)
    ok, e, out = run(ini)
    check(ok, 'run fails: %r' % e)
    check(set(arrays(d + '/m/m.npz')['facies'].ravel()) == {0, 1, 2}, 'facies of 60 sheets: %s' % set(arrays(d + '/m/m.npz')['facies'].ravel()))
""")
