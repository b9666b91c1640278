#!/usr/bin/env python3
"""Writes known_findings.json: genuine defects recorded (findings) or repaired (fixed)."""
import json, os, subprocess
F = [dict(property='C16', id='internal-heterogeneity-of-objects',
          what='with heterogeneity_level = internal, cells of geometrical objects (ha = 0) get the hydraulic parameters of the background facies '
               'of their element instead of those of their own facies (hyvr/geo/model.py: generate_hydraulic_parameters, "Assign background heterogeneity")',
          identified_by='heterogeneity_level is internal, the cell has ha == 0, and k_iso, poros and anirat all are those of the background facies '
                        'of the element of the cell; any other deviation is a violation',
          why_not_repaired='the stored reference of the existing test test_made_no_random (it passes since hyvr can be imported again) contains the wrong values, and test files may not be changed'),
     dict(property='C14', id='number-of-objects',
          what='all geometrical objects have the number 0 in the array ha: hyvr/geo/model.py numbers the objects (generate_model, "enumerate all objects and AEs") after AERealization._create_common_object_arrays has copied their numbers',
          identified_by='cells of at least two objects exist and all cells of objects have ha == 0; any other number shared by objects, or objects with several numbers, are a violation',
          why_not_repaired='the stored reference of the existing test test_made_no_random contains these numbers, and test files may not be changed; the number also decides which cells get the hydraulic parameters of the finding of C16')]
FIX = [
 ('4fdb939', ['C13'], 'import hyvr failed (annotations of ContactSurface)'),
 ('a3ad0cf', ['C13'], 'every run failed (np.float)'),
 ('9583709', ['C13', 'C16'], 'missing math functions and numpy booleans in hyvr.optimized'),
 ('0e58242', ['C13'], 'models with massive or dipping sheets failed (attributes not set)'),
 ('deac5c3', ['C13'], 'models with troughs and channels failed without the Cython modules'),
 ('ba50909', ['C05', 'C06'], 'mf6 output failed (names of IMS options)'),
 ('53c6333', ['C01', 'C18'], 'overwrite argument and --overwrite were ignored'),
 ('5bf1595', ['C02'], 'content of an old run directory was left behind (every second entry, directories, links)'),
 ('47a4f6b', ['C11'], 'two simultaneous runs could both use the same new run directory'),
 ('f139caa', ['C08'], 'backup of a parameter file with non-ASCII text was wrong or failed'),
 ('38befdf', ['C09'], 'overwriting a run from its own backup deleted the parameter file; a crash lost it'),
 ('2389cbe', ['C03', 'C08'], 'a given model directory made every run fail'),
 ('074f7e5', ['C04', 'C18'], 'a missing parameter file given as Path was reported as TypeError'),
 ('3a19dc0', ['C10', 'C18'], 'skipped outputs were announced as saved'),
 ('0299f02', ['C04', 'C08'], 'errors when reading the parameter file were ignored'),
 ('e350b87', ['C03'], 'a failing test case left its temporary directory'),
 ('48bcf39', ['C13', 'C15'], 'top of the uppermost stratum was not at the top of the domain (non-zero origin)'),
 ('a9df77e', ['C14', 'C15'], 'sheets extended below their element'),
 ('4df4177', ['C13'], 'dipping sets of sheets ran out of the facies list'),
 ('118b2f1', ['C16'], 'models without heterogeneity failed'),
 ('5a538d5', ['C16'], 'trends in x-direction were applied to the wrong axis or failed'),
 ('45d1260', ['C13'], 'cells whose centre lies exactly on a contact were not assigned'),
 ('2526c29', ['C14'], 'given trough positions were not sorted from top to bottom'),
 ('8185abe', ['C13', 'C15'], 'strata whose contact surfaces cross were not filled'),
 ('8f02078', ['C06'], 'vtr files had one coordinate too many or too few'),
 ('3c68935', ['C05', 'C06'], 'mf6 output failed or had a wrong number of layer bottoms'),
 ('64ddaee', ['C04'], 'a missing bulbset_dist was only noticed after the run directory had been overwritten'),
 ('791d20d', ['C04'], 'an unknown architectural element in a stratum was only noticed after the run directory had been overwritten'),
 ('29c980e', ['C02'], 'links to the parameter file were left in an overwritten run directory'),
 ('cf85e2f', ['C05', 'C10'], 'write errors while closing an HDF5 dataset were lost: the run reported success with a broken h5 file'),
 ('b4c55f6', ['C24'], 'channels were placed outside of domains that do not start at the origin'),
 ('1d5431b', ['C22'], 'random fields of an even number of cells had too small a variance and correlation'),
 ('03f4b17', ['C22'], 'random fields had too small a variance, and none at all with a single cell along x'),
 ('3ed4c22', ['C24'], 'dipping layers of sheets were tilted against their dip and azimuth'),
 ('f44ca5f', ['C13'], 'contact models in capitals, which the parser accepts, made every run fail'),
    ('6477a1d', ['C13'], 'a single number given for a list of lists, documented as its short form, made every run fail'),
]
out = dict(findings=F, fixed=['fixed: property=%s %s %s' % (p, c, w) for c, ps, w in FIX for p in ps])
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
json.dump(out, open(p, 'w'), indent=1)
open(p, 'a').write('\n')
print(len(out['fixed']), 'fixed entries')
