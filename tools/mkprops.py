#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the texts live here, one place to edit)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=(), state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=list(over), text=text), why_tests_cant=why,
                  anchors=dict(files=list(files),
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

SETUP = 'hyvr/input/parameters.py'
SIM = 'hyvr/sim.py'
OUT = 'hyvr/postprocess/output.py'
NOTEST = 'No test looks at the file system around a run: the tests parse option strings or compare one fixed model with a stored result. '

prop('C01', 'An existing run directory is never touched without permission to overwrite',
 'If the run directory already exists and overwriting is not permitted, a run fails with an error and leaves the directory, whatever is in it, and everything else exactly as it was. '
 'Overwriting is permitted by an explicit overwrite argument or the command line option --overwrite; if neither decides, by the option in the parameter file, which defaults to "no", and an explicit "do not overwrite" beats the parameter file. '
 'This holds however the run is started (API, command line, from the backup parameter file) and whatever I/O errors occur on the way.',
 ['histories', 'configurations', 'fault_sequences'],
 'every content of the old directory (including an empty one), every combination of argument, command line option and parameter file option, every run name / model directory, every single I/O error on the way',
 NOTEST + 'The combination space times the fault positions is not sampled at all.',
 [SETUP, SIM, 'hyvr/__main__.py'],
 [('existence check and FileExistsError', SETUP + ': set_up_directories'), ('resolution of the overwrite flag', SETUP + ': set_up_directories'), ('--overwrite', 'hyvr/__main__.py')],
 ['exception / exit status', 'snapshot of the tree before and after'])

prop('C02', 'A successful overwriting run leaves the same directory as a fresh run',
 'After a run that is permitted to overwrite an existing run directory has succeeded, that directory holds exactly the entries and results which the same run produces in a new directory; nothing of the old content is left, be it files, hidden files, nested or read-only directories, links or special files. '
 'Only the parameter file the run was started from survives if it lay directly there. '
 'This holds for every order in which the operating system lists the old content.',
 ['histories', 'schedules'], 'every content of the old run directory (also what an earlier run with more formats or realisations left, or one that was killed), every directory listing order',
 NOTEST + 'Leftovers of an older run (another realisation, another format) are only visible for particular histories.',
 [SETUP, SIM], [('removal loop', SETUP + ': set_up_directories')], ['tree of the run directory'])

prop('C03', 'A run changes nothing outside its run directory',
 'Whether it succeeds, fails, is interrupted or is killed, a run creates, changes and removes nothing outside its run directory, except that it creates missing parent directories: the parameter file, neighbouring files and runs, the targets of links found in an overwritten directory and the working directory stay as they were, and the process keeps its working directory. '
 'A run of the built-in test case leaves nothing behind at all, whether it succeeds, fails or is interrupted while it generates or stores results (unless it is killed or the removal itself fails).',
 ['histories', 'fault_sequences', 'crash_points'], 'every content of an overwritten directory including links to outside, every working directory, every fault or kill at any file system operation',
 NOTEST + 'An escape needs a special entry (a link) or a special moment (a failure between creation and removal).',
 [SETUP, SIM, OUT], [('links are unlinked, not followed', SETUP + ': set_up_directories'), ('temporary directory removed in finally', SIM + ': run'), ('all outputs below the realisation directory', OUT + ': create_outputs')],
 ['every modifying system call and its path', 'snapshot of the tree'])

prop('C04', 'A rejected parameter file leaves the file system untouched',
 'If the parameter file does not exist, can not be read completely or is invalid (broken syntax; a missing section or required option; a value of the wrong type or shape or outside the documented set; an unknown facies or architectural element), the run fails with an error and has not created, changed or removed anything. '
 'This also holds when overwriting is permitted and old results exist: a broken parameter file never costs old results.',
 ['inputs', 'fault_sequences'], 'every defect of the parameter file that the parser or the model setup rejects, in every section, and every read error at any read of the file, with and without old results and permission to overwrite',
 'Four unit tests check that four malformed option strings raise; none runs the program on them or looks at the directory.',
 [SETUP, 'hyvr/input/option_parsing.py', 'hyvr/geo/model.py'], [('directories are set up last', SETUP + ': setup_from_inifile'), ('read errors are not ignored', SETUP + ': read_inifile')],
 ['exception', 'modifying system calls', 'snapshot of the tree'])

prop('C05', 'A run that reports success has written every requested output completely',
 'If a run returns normally (or the command line program exits with status 0), every requested output of every realisation exists, can be read and holds the complete results, the same as those of an undisturbed run. '
 'A disk-full condition, failed or lost write, failed creation, failed removal of old content or any other I/O error that prevents this makes the run fail with an error.',
 ['fault_sequences'], 'every I/O error (ENOSPC, EIO, EDQUOT, EMFILE, EACCES, ...), once or persistent, at every file system operation of a run, for every subset of the formats and number of realisations',
 'Tests run on a healthy disk only; a swallowed error needs the fault at a particular call.',
 [OUT, SIM, SETUP], [('only ImportError is tolerated', OUT + ': create_outputs'), ('errors propagate', SIM + ': run')],
 ['return / exit status', 'parsed output files'])

prop('C06', 'All output formats of a realisation hold the same results',
 'For every realisation the numpy, Matlab, pickle, HDF5 and VTK outputs hold the same arrays cell by cell, with the same names, shapes and values (HDF5, numpy, Matlab and pickle all of them; VTK all but the conductivity tensors, on the grid of the parameter file), the HydroGeoSphere tables hold the tensors and porosities in the numbering of the flattened grid to their printed precision, and both MODFLOW models hold the same conductivities and anisotropies, in one fixed arrangement of layers, rows and columns. '
 'This does not depend on which other formats are requested, on their order, or on benign events during writing such as partial writes, interrupted system calls and clock changes.',
 ['configurations', 'fault_sequences'], 'every grid (unequal nx, ny, nz, non-zero origin), every subset and order of formats, every benign I/O event at every write',
 'The reference test looks at the npz file of one model only; no test reads any of the other seven formats.',
 [OUT], [('one writer per format from one dictionary of arrays', OUT + ': to_*')], ['output files read back with independent readers'])

prop('C07', 'Realisations are stored separately and finished ones are never damaged',
 'A run with one realisation stores its outputs directly in the run directory; a run with N > 1 realisations stores them in N subdirectories real_001, real_002, ... in the order of generation, and each holds every requested output of its own realisation and nothing else. '
 'Once a realisation is complete, nothing that happens later in the run - further realisations, an I/O error, an interrupt or a kill - changes it.',
 ['histories', 'crash_points', 'fault_sequences'], 'every number of realisations, every format subset, every kill or I/O error point after the realisation',
 'No test uses more than one realisation, and none stops a run half-way.',
 [SIM, OUT], [('one directory per realisation', SIM + ': simulate')], ['tree of the run directory after a kill or failure'])

prop('C08', 'The backup parameter file exists before any result and reproduces the run',
 'Whenever the run directory holds any result of the run (also after a kill or failure at any point), it holds a complete copy of the parameter file, <runname>_autogenerated_backup.ini, with the same sections, options and values as the one the run was started from. '
 'Running that copy with the same random seed produces the same results in that directory, also after the directory was renamed or moved.',
 ['crash_points', 'configurations', 'fault_sequences'], 'every kill or fault point, every valid parameter file (also with non-ASCII text, byte order mark, comments, defaulted run name)',
 NOTEST + 'The ordering between backup and results is only visible at a crash point between them.',
 [SETUP], [('backup written to a temporary file and moved in place before the first realisation', SETUP + ': set_up_directories'), ('run name and run directory from the backup file name', SETUP + ': parameters')],
 ['parsed backup file', 'arrays of the second run'])

prop('C09', 'Overwriting a run from a parameter file inside it never loses that file',
 'If a run is started from a parameter file that lies directly in its own run directory (for example the backup) and is permitted to overwrite, then at every moment of the run, and after a kill or I/O error at any point, a complete parameter file with the same settings is in that directory. '
 'Starting the run again from there with permission to overwrite succeeds.',
 ['crash_points', 'fault_sequences', 'histories'], 'every kill or I/O error point, every directory listing order, every other content of the directory, repeated crashes',
 'Needs a kill between removing the old and completing the new file; no test overwrites anything.',
 [SETUP], [('the ini-file is spared by the removal loop', SETUP + ': set_up_directories'), ('atomic replacement of the backup', SETUP + ': set_up_directories')],
 ['parameter files in the directory after the kill', 'outcome of the next run'])

prop('C10', 'A missing optional library only costs its own output formats',
 'If a library that some output formats need can not be imported, a run still succeeds, writes all other requested outputs unchanged in every realisation, warns about each skipped output, does not announce it as saved and leaves no file for it. '
 'Any other failure of an output is still an error.',
 ['configurations', 'fault_sequences'], 'every subset of missing libraries, every subset and order of formats, any number of realisations, import failing at any moment of the run',
 'The tests run in one environment where either everything or nothing is installed, and request npz only.',
 [OUT], [('ImportError is turned into a warning', OUT + ': create_outputs')], ['warnings', 'progress messages', 'tree of the run directory'])

prop('C11', 'Simultaneous runs never mix their results',
 'If several runs for the same run directory are active at the same time without permission to overwrite, at most one of them stores anything there and the others fail with an error; the results, backup included, are those of that one run alone. '
 'Simultaneous runs with different run directories (also below the same, initially missing model directory) all succeed with the results they would have had alone.',
 ['schedules', 'crash_points'], 'every interleaving of the file system operations of two to four processes, with any of them killed at any point',
 'Tests run one process; a race needs a switch between the existence check and the creation.',
 [SETUP], [('exclusive creation of the run directory', SETUP + ': set_up_directories')], ['outcome of every process', 'tree after all ended'])

prop('C12', 'The same seed and parameter file always give the same results',
 'With the random generator of numpy seeded equally, two runs of the same parameter file produce identical arrays in all realisations, whatever the wall clock, hash randomisation, directory listing order, working directory, location of the parameter file, process id, operating system entropy, requested formats or earlier runs.',
 ['schedules', 'configurations', 'histories'], 'every environment as listed, every valid parameter file',
 'One seeded test exists, its reference is missing, and it would only run in one environment.',
 ['hyvr/geo/', 'hyvr/utils.py', SIM, 'hyvr/assign_points.py'], [('all random numbers come from numpy.random in a fixed order', 'hyvr/geo, hyvr/utils.py')], ['arrays of the runs'])

prop('C13', 'Every cell gets a valid stratum, element, element type and facies',
 'In every realisation every grid cell is assigned: its stratum index is one of the strata counted from the top, its element number and element type exist and that type is allowed in that stratum, and its facies is one of those the parameter file allows for that element type in that stratum (facies, alternating facies, lag facies, or the background facies of the element or else the stratum). '
 'Azimuth and dip are finite numbers wherever the parameter file gives finite ones. The run ends normally for every stream of random numbers.',
 ['inputs', 'configurations', 'fault_sequences'], 'every valid model description (geometries, internal structures, contacts, trends, origins, cell sizes) and every stream of random draws, including extreme ones',
 'One model with a mocked generator is compared with a stored array; objects touching the border, the domain top or each other only arise for particular draws.',
 ['hyvr/assign_points.py', 'hyvr/geo/'], [('column-wise assignment', 'hyvr/assign_points.py'), ('facies arrays long enough for all sets', 'hyvr/geo/sheet.py, trough.py, channel.py')],
 ['output arrays', 'parameter file'], hook='none: the random generator is replaced at numpy.random')

prop('C14', 'Every cell belongs to the uppermost structure that contains it',
 'Going down a column of cells, each cell belongs to the uppermost stratum and element - not above that of the cell over it - that contains its centre; inside the element it belongs to the uppermost object (in the order of generation) whose geometry contains it, with the facies and angles of that object, or else to the background of the element. '
 'The result is that of testing every structure for every cell: it depends neither on the order in which cells are visited nor on what was found for other columns. Every object has a number (array ha) of its own.',
 ['inputs', 'configurations', 'fault_sequences'], 'every valid model description and every stream of random draws',
 'The search cursor and the skip lists are only wrong for particular overlaps of objects, which one fixed model does not have.',
 ['hyvr/assign_points.py', 'hyvr/geo/trough_ae.py', 'hyvr/geo/channel_ae.py', 'hyvr/geo/sheet_ae.py'],
 [('cursors (stratum, element, object)', 'hyvr/assign_points.py'), ('dont_check', 'hyvr/geo/channel_ae.py'), ('objects sorted from top to bottom', 'hyvr/geo/ae_realization.py')],
 ['output arrays', 'generated strata, elements and objects'])

prop('C15', 'Strata and elements are stacked in order and fill the domain',
 'In every realisation the contact surfaces of strata and elements never cross: each bottom is nowhere above its top, elements stay between bottom and top of their stratum, and together they reach without gaps from the top to the bottom of the domain, as do the sheets of a sheet element in that element. '
 'Going down any column, the stratum index and the element number never decrease; a cell is never assigned to a stratum below the one that its depth and the contacts put it in, and exactly to that one if the strata above hold sheets only.',
 ['inputs', 'configurations', 'fault_sequences'], 'every set of flat and random contacts (also crossing, outside the domain, non-zero origin), element thicknesses and avulsion, every stream of random draws',
 'Random contacts cross only for some draws; the tests use flat contacts only.',
 ['hyvr/geo/model.py', 'hyvr/geo/stratum.py', 'hyvr/geo/contact_surface.py'], [('clamping of surfaces', 'hyvr/geo/contact_surface.py'), ('stacking loop', 'hyvr/geo/stratum.py')],
 ['surfaces of the model', 'stratum and element arrays'])

prop('C16', 'Hydraulic parameters follow from facies, angles and the parameter file',
 'In every realisation conductivity, porosity and anisotropy ratio are finite, conductivity is positive, and without internal heterogeneity each cell has exactly the values of its facies; with it, a facies without variance has exactly its mean values times the trends of the hydraulics section. '
 'The conductivity tensor of each cell is symmetric with the conductivity across and conductivity / anisotropy ratio normal to the bedding plane given by azimuth and dip, so that it agrees with the other arrays.',
 ['inputs', 'configurations', 'fault_sequences'], 'every valid hydraulics section and heterogeneity level, every stream of random draws',
 'One stored array for one model; no test looks at the tensors.',
 ['hyvr/geo/model.py', 'hyvr/optimized.py', 'hyvr/utils.py'], [('masks per assemblage and facies', 'hyvr/geo/model.py: generate_hydraulic_parameters'), ('tensor', 'hyvr/optimized.py: set_anisotropic_ktensor')],
 ['output arrays', 'parameter file'])

prop('C17', 'A realisation does not depend on what was generated before',
 'Each realisation of a run equals the one a fresh process generates from the same state of the random generator: nothing but that state is carried over from earlier realisations of the run, from earlier runs in the same process, or from a failed run. '
 'Writing outputs neither changes the results nor uses random numbers.',
 ['histories', 'configurations'], 'every sequence of runs and realisations in one process, with failing ones among them, every model description',
 'No test generates more than one realisation or runs twice in one process.',
 [SIM, 'hyvr/geo/model.py', 'hyvr/geo/stratum.py', 'hyvr/assign_points.py', OUT], [('everything is rebuilt per realisation', 'hyvr/geo/model.py: generate_model')], ['arrays', 'state of the random generator'])

prop('C18', 'Exit status and messages of the command line program are truthful',
 'The command line program exits with status 0 if and only if the run succeeded; in every other case (missing or invalid parameter file, existing run directory, any I/O error) it exits with a non-zero status and says on standard error that something went wrong. '
 'A format is reported as saved only after its output is complete on disk, and --overwrite has the same effect as the overwrite argument.',
 ['fault_sequences', 'configurations', 'crash_points'], 'every failure cause at every point, every kill point (for the progress messages), every combination of arguments',
 'No test starts the program from the command line.',
 ['hyvr/__main__.py', OUT, SIM], [('exception handler and sys.exit', 'hyvr/__main__.py'), ('message after the writer', OUT + ': create_outputs')], ['exit status', 'stdout, stderr', 'tree at the time of the message'])

prop('C19', 'After a crash the run can simply be repeated',
 'After a run was killed, was interrupted or failed with an I/O error at any point, starting it again with permission to overwrite succeeds and leaves exactly the results of an undisturbed run; without permission it either succeeds with exactly those results (if nothing had been created yet) or refuses and changes nothing. '
 'Repeated crashes do not change this.',
 ['crash_points', 'fault_sequences', 'histories'], 'every kill or I/O error point of the first (and second) run, every format subset, with and without an older result',
 'Needs a kill at a point that leaves an unusual intermediate state; no test stops a run.',
 [SETUP, SIM, OUT], [('everything is removed before overwriting', SETUP + ': set_up_directories'), ('exclusive creation', SETUP + ': set_up_directories')], ['tree after the second run'])

prop('C24', 'Generated objects have the sizes, positions and structure asked for',
 'Whatever random numbers are drawn, in every realisation each trough is half an ellipsoid with the length, width and depth given for its element, times the linear size trend at its elevation; its centres are exactly the given ones (te_xyz), or lie on elevations agg apart, from the mean of the top of the element down to buffer * depth above the highest point of its bottom, inside the domain (or moved on from there if they migrate), with trough_density troughs per area and elevation on average; its rotation lies in the paleoflow range. '
 'Each channel element has channel_no channels on every elevation, agg apart below its mean top and down to buffer * depth above its mean bottom, with the given width and depth times the size trend; without fluctuations they are straight lines in the direction of flow_angle that start within the width of the domain and move between elevations by at most mig. Sheets are as thick as asked for. '
 'All of this is relative to the origin of the domain. Azimuth and dip of objects lie in the given ranges, lags have the given height and facies, layers of dipping sets have the given thickness and are normal to the direction given by azimuth and dip (as in the documented rotation matrix), velocities of channels point along their centre lines, the first layer has one of the facies of the element and each further one is an alternative of the one before; element types of probability 0 do not occur, flat contacts are flat, and heights of elements scatter about their mean.',
 ['inputs', 'configurations', 'fault_sequences'], 'every valid parameter file and every stream of random draws, extreme draws included',
 'Tests compare one model at the origin without trends, migration or given positions with stored arrays.',
 ['hyvr/geo/trough_utils.py', 'hyvr/geo/trough.py', 'hyvr/geo/trough_ae.py', 'hyvr/geo/channel_ae.py', 'hyvr/geo/channel.py', 'hyvr/geo/channel_utils.py', 'hyvr/geo/sheet_ae.py', 'hyvr/geo/sheet.py', 'hyvr/geo/stratum.py', 'hyvr/utils.py'],
 [('positions and sizes of troughs', 'hyvr/geo/trough_utils.py'), ('channels per elevation', 'hyvr/geo/channel_ae.py: generate_objects'), ('alternating facies', 'hyvr/utils.py: get_alternating_facies')],
 ['generated objects', 'parameter file'])

prop('C22', 'Random fields have the prescribed mean, variance and correlation lengths',
 'Random contact surfaces and heterogeneous hydraulic parameters (over a stratum, over an architectural element) have, in domains that are large compared with the correlation lengths, on average over realisations and cells the prescribed mean and variance, in the original or logarithmic scale as documented (heterogeneous conductivity is log-normal, porosity is normal), and a correlation that along each axis decays with the correlation length given for that axis (to 1/e at one correlation length). '
 'This holds for every number of cells per direction, even or odd or one. Fields of different realisations, contact surfaces, strata, elements and parameters are independent of each other.',
 ['inputs', 'configurations', 'histories'], 'every variance, correlation length and grid, every sequence of realisations in one process and every state of the random generator',
 'One test compares a stored implementation for one input and does not look at moments.',
 ['hyvr/utils.py', 'hyvr/geo/grid.py', 'hyvr/geo/grid.pyx', 'hyvr/geo/contact_surface.py', 'hyvr/geo/model.py'], [('spectral simulation', 'hyvr/utils.py: specsim'), ('random contact surfaces', 'hyvr/geo/contact_surface.py'), ('heterogeneity', 'hyvr/geo/model.py: generate_hydraulic_parameters')],
 ['sample moments and correlations of the output arrays and surfaces'])

prop('C25', 'Random choices follow the distributions asked for',
 'Over a stream of realisations, random choices have the documented distribution: architectural element types follow ae_prob, the thickness of elements has the mean given for them (with avulsion: avul_prob of the elements are cut by an amount uniform in avul), dip, azimuth and paleoflow are uniform over their whole range, troughs and channels start anywhere in the domain (channels with the given migration between elevations, and bends if eps_factor is not 0), trough and channel numbers correspond to the densities asked for, and every facies and every alternative facies of the list occurs.',
 ['inputs', 'configurations', 'histories'], 'every valid parameter file and every state of the random generator',
 'Tests seed the generator once and compare one model.',
 ['hyvr/geo/stratum.py', 'hyvr/geo/trough_utils.py', 'hyvr/geo/trough_ae.py', 'hyvr/geo/channel_ae.py', 'hyvr/geo/sheet_ae.py', 'hyvr/utils.py'], [('choice of element types and heights', 'hyvr/geo/stratum.py'), ('alternating facies', 'hyvr/utils.py: get_alternating_facies')],
 ['frequencies and means over the generated structures'])

# not claimed
prop('C20', 'Option values are parsed, expanded to their shape and validated as documented',
 'Every documented spelling of an option value (numbers, booleans, nested lists, single values to be expanded) yields the documented value, and everything else is rejected with an error.',
 ['inputs'], 'every option string', 'The unit tests sample about ten strings.',
 ['hyvr/input/option_parsing.py', 'hyvr/input/options.py'], [('recursive list parser and shape expansion', 'hyvr/input/option_parsing.py')], ['parsed values'])
prop('C21', 'Parameter files of the old format give the same model as their translation',
 'A parameter file in the deprecated format produces the same model as its documented translation to the new format.',
 ['inputs'], 'every deprecated parameter file', 'No test runs a deprecated file.',
 [SETUP, 'hyvr/input/options_deprecated.py'], [('conversion of dictionaries', SETUP + ': get_new_parameters_from_deprecated')], ['parsed values'])
prop('C23', 'Flow models orient layers, rows and columns like the grid',
 'In the MODFLOW models, layer, row and column indices, cell sizes and boundary conditions correspond to the position of the cells in the grid.',
 ['inputs'], 'every grid', 'No test reads a flow model.',
 [OUT], [('transpositions', OUT + ': to_modflow, to_mf6')], ['written model files'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
