"""How much each check explores, and the fixed texts of the evidence files."""

REAL = ['all of hyvr from /repo (parser, directory set-up, model generation, cell assignment, random fields, all output writers, command line entry)',
        'numpy, scipy, h5py/HDF5, pyevtk and flopy as installed', 'CPython 3.12 and glibc', 'the Linux file system (a scratch directory)']
STUB = ['system calls of the process on files below its scratch root pass through an interposed libc layer that orders them and injects faults',
        'wall clock and sleep (simulated clock)', 'directory listing order (seeded)', 'operating system entropy (seeded)',
        'process start (fork of a process that has already imported hyvr)']
ASSUMPTIONS = ['faults are those of the interposed calls; power failure of the device (loss of completed, unsynced writes) is not simulated, a crash is the death of the process',
               'the Python code of the working tree is what runs (at this commit the Cython modules do not build; their pure Python counterparts are used)',
               'one file system operation is atomic; processes interleave between operations']

RNG = ['numpy.random draws (seeded; a share of them replaced by legal extreme values of the same distribution)']


def P(jobs, rule, cap_s=420, thorough_s=700, shrink_s=40, **kw):
    d = dict(jobs=jobs, rule=rule, cap_s=cap_s, thorough_s=thorough_s, shrink_s=shrink_s)
    d.update(kw)
    return d


PROPS = {
    'C01': P(96, 'a case counts if a run directory exists when the run starts (all do); faults are placed at the operations of the fault-free trace'),
    'C02': P(96, 'a case counts if the old run directory had content (generated, or left by an earlier complete or killed run)'),
    'C03': P(96, 'a case counts if a fault or kill fired or an existing directory was overwritten'),
    'C04': P(96, 'a case counts if the parameter file was invalid, or a read of it failed'),
    'C05': P(96, 'a case counts if at least one I/O error was really delivered to the run'),
    'C06': P(96, 'a case counts if at least two formats were compared, or a benign event fired'),
    'C07': P(96, 'a case counts if the run has several realisations, or was stopped by a fault'),
    'C08': P(96, 'a case counts if a kill or error fired, or the backup was run again'),
    'C09': P(96, 'a case counts if a kill or error fired during the overwriting run'),
    'C10': P(96, 'a case counts if a library was blocked, or an I/O error fired'),
    'C11': P(64, 'a case counts if at least two processes were active and the schedule switched between them'),
    'C12': P(64, 'a case counts if the two environments differ and both runs gave arrays'),
    'C13': P(240, 'a case counts if a model with at least two cells was generated'),
    'C14': P(240, 'a case counts if a model was generated whose structures could be read, with at least one object'),
    'C15': P(240, 'a case counts if a model with at least two layers of cells was generated'),
    'C16': P(240, 'a case counts if a model was generated and its hydraulic arrays were compared'),
    'C17': P(64, 'a case counts if at least two realisations or runs shared a process'),
    'C18': P(96, 'a case counts if the command line program was started with a fault, an invalid argument or progress messages to verify'),
    'C22': P(64, 'a case counts if a model was generated and the statistics of its random fields were compared'),
    'C24': P(240, 'a case counts if a model with at least one object was generated whose structures could be read'),
    'C25': P(64, 'a case counts if models were generated and the distributions of their structures were compared'),
    'C19': P(96, 'a case counts if the first run was stopped by a kill, interrupt or I/O error'),
}
for p in ('C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C22', 'C24', 'C25'):
    PROPS[p]['stub'] = STUB + RNG
PROPS['C12']['unstable'] = True     # a run that depends on the process id or address need not reproduce exactly
