#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def P(pid, title, statement, over, text, why, files, mech, state=(), observe=()):
    return {'id': pid, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
            'why_tests_cant': why,
            'anchors': {'files': ['parsevasp/' + f for f in files],
                        'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
                        'mechanism': [dict(zip(('name', 'where'), m)) for m in mech],
                        'observe_at': list(observe), 'hook_needed': None}}


ONE = 'The tests parse one or a few fixed files; '
PROPS = [
    P('P01', 'INCAR text means what it says',
      'Reading an INCAR yields exactly the tags it contains (case-insensitively, the last entry of a repeated tag winning), each '
      'with the value and type its text denotes: integer, float, logical, word, or list of one of these. Comments after #, blank '
      'lines, surrounding blanks, several entries separated by ; and a trailing ; do not change the result, and a comment stays '
      'with its entries. Two = signs, a missing =, values of mixed types and unknown tags (unless validation is off) end in the '
      'documented exit code.',
      ['inputs'], 'every INCAR text made of such lines, every spelling of the values, every source',
      ONE + 'the classification of tokens and the treatment of comments and separators must hold for every text.',
      ['incar.py', 'utils.py', 'constants.py'],
      [('Incar._from_list', 'incar.py'), ('IncarItem._clean_entry', 'incar.py'), ('test_string_content', 'utils.py')],
      observe=['Incar.get_dict', 'Incar.get', 'exit codes']),
    P('P02', 'INCAR write and re-read round trip',
      'Writing an INCAR object as a string, to a path or to a handler and reading the result back gives the same tags with the '
      'same values and types, for every kind of value a dictionary or text may hold, with one line per tag in alphabetical order. '
      'Comments are written only when asked for, and then survive.',
      ['inputs'], 'every content, every output route',
      ONE + 'the tests round-trip the one INCAR of the test folder.',
      ['incar.py', 'base.py'],
      [('Incar._write', 'incar.py'), ('Incar._convert_value_to_string', 'incar.py'), ('Incar._from_dict', 'incar.py')],
      observe=['Incar.get_string', 'Incar.write', 'Incar.get_dict']),
    P('P03', 'INCAR edit histories',
      'After any sequence of modify and delete operations, get, get_dict and the written text reflect exactly the edits made: the '
      'last value and comment given to each tag, nothing for deleted tags, other tags untouched, whatever the letter case used.',
      ['histories', 'inputs'], 'every sequence of edits on present and absent tags',
      'No test edits an INCAR; the guarantee is about every history.',
      ['incar.py'], [('Incar.modify', 'incar.py'), ('Incar.delete', 'incar.py'), ('Incar.get', 'incar.py')],
      observe=['Incar.get_dict', 'Incar.get', 'Incar.get_string']),
    P('P04', 'KPOINTS parsing in every mode',
      'Reading a KPOINTS gives the mode, comment, number, centering, divisions, shifts, generating vectors, points with weights '
      '(unset when absent), line-mode points and tetrahedra that the file states, unchanged and in file order; trailing or '
      'separating blank lines and the letter case of keywords make no difference. Cartesian, fully automatic and expert files and '
      'malformed tetrahedron lines end in the documented exit code.',
      ['inputs'], 'every KPOINTS in explicit (with and without tetrahedra), automatic, generating-vector or line mode',
      ONE + 'each mode is sampled once.',
      ['kpoints.py', 'utils.py'], [('Kpoints._from_list', 'kpoints.py')], observe=['Kpoints.get_dict', 'Kpoints.get']),
    P('P05', 'KPOINTS round trip and edits',
      'Writing a KPOINTS object, however it was built and whatever was edited before, and reading it back gives the same content '
      'up to the printed precision (absent weights written as 1, absent shifts of an automatic mesh as 0), and the announced number '
      'of explicit points is the number written. An edit changes what it names and nothing else; unknown tags and point numbers '
      'beyond the list are refused with the documented exit code.',
      ['inputs', 'histories'], 'every content and mode, every short edit history, every output route and precision',
      'The tests round-trip one file per mode and perform no edits.',
      ['kpoints.py', 'base.py', 'utils.py'],
      [('Kpoints._write', 'kpoints.py'), ('Kpoints.modify', 'kpoints.py'), ('Kpoints.delete_point', 'kpoints.py'),
       ('remove_newline', 'utils.py')],
      observe=['Kpoints.get_string', 'Kpoints.write', 'Kpoints.get_dict']),
    P('P06', 'POSCAR parsing',
      'Reading a POSCAR gives the comment, the unit cell multiplied by the scaling factor (a negative factor, which asks for a given '
      'volume, ends in the documented exit code), and for every site its species by the species line, its position in direct coordinates (cartesian ones converted '
      'with the scaled cell), its selective-dynamics flags and its velocities and predictors, all in file order. The letter case of '
      'keywords, the presence of the optional blocks and trailing blank lines do not disturb anything else.',
      ['inputs'], 'every cell, every grouping of sites into species, every combination of optional blocks',
      ONE + 'three POSCAR files are sampled.',
      ['poscar.py', 'utils.py'], [('Poscar._from_list', 'poscar.py'), ('Poscar._to_direct', 'poscar.py')],
      observe=['Poscar.get_dict']),
    P('P07', 'POSCAR write and re-read round trip',
      'Writing a POSCAR object as a string, to a path or to a handler and reading it back preserves the cell, the sites with their '
      'species, positions, selective-dynamics flags and velocities up to the printed precision, either in file order (conserve_order) '
      'or grouped by species, the least frequent first; a second round trip changes nothing. The comment line names the '
     'composition that is written and keeps the comment the object had.',
      ['inputs'], 'every content with any grouping of species, flags and velocities; every output route and precision',
      'The tests round-trip the test files only.',
      ['poscar.py', 'base.py'], [('Poscar._write', 'poscar.py'), ('Poscar._from_list', 'poscar.py')],
      observe=['Poscar.get_string', 'Poscar.write', 'Poscar.get_dict']),
    P('P08', 'POSCAR edits and construction from a dictionary',
      'A POSCAR built from a dictionary of comment, cell and sites reports exactly those; modify and delete_site change exactly the '
      'named entry or site and keep the order of the others; what is written '
      'afterwards is the edited content. Site numbers beyond the list and unknown tags are refused with the documented exit code.',
      ['histories', 'inputs'], 'every short edit history on every grouping of species',
      'The tests cover single edits on one file.',
      ['poscar.py'], [('Poscar.modify', 'poscar.py'), ('Poscar.delete_site', 'poscar.py'),
                      ('Poscar._from_dict', 'poscar.py')],
      observe=['Poscar.get_dict', 'Poscar.get_string', 'exit codes']),
    P('P09', 'CHGCAR grid order, data sets and normalisation',
      'The charge density read from a CHGCAR has shape (NZ, NY, NX) and its element [z][y][x] is the stored value of grid point '
      '(x, y, z) divided by the volume of the scaled cell. With two data sets the second is the magnetization density, with four '
      'the x, y, z densities, laid out and normalised in the same way, and augmentation occupancies never enter the grids.',
      ['inputs'], 'every cell of positive volume, every grid shape, one, two or four data sets',
      ONE + 'cubic grids and cells hide swapped axes and wrong normalisation.',
      ['chgcar.py', 'utils.py'], [('Chgcar._from_file', 'chgcar.py')],
      observe=['Chgcar.charge_density', 'Chgcar.magnetization_density']),
    P('P10', 'EIGENVAL eigenvalues, k-points and header',
      'Reading an EIGENVAL gives eigenvalue [spin][k-point][band] exactly where the file lists it, the k-point coordinates and '
      'weights in order, and every header count, number and the system name, with or without occupation columns and trailing '
      'blank lines.',
      ['inputs'], 'every number of k-points, bands and spin channels, every value',
      ONE + 'index mix-ups between spins, bands and k-points need shapes the samples do not have.',
      ['eigenval.py', 'utils.py'], [('Eigenval._from_list / _from_file', 'eigenval.py')],
      observe=['Eigenval.get_eigenvalues', 'Eigenval.get_kpoints', 'Eigenval.get_metadata']),
    P('P11', 'DOSCAR densities per energy, ion, orbital and spin',
      'Reading a DOSCAR gives the total and integrated densities of each energy and spin, the partial densities of each ion, energy, '
      'orbital and spin component under the orbital of its column, and the header data, for every column layout VASP writes; '
      'without partial blocks no partial densities are reported.',
      ['inputs'], 'every number of energies and ions, all 12 partial layouts, every value',
      ONE + 'spin-polarised content is only compared for a few columns.',
      ['doscar.py', 'utils.py'], [('Doscar._from_list', 'doscar.py'), ('DTYPES_PDOS_*', 'doscar.py')],
      observe=['Doscar.get_dos', 'Doscar.get_pdos', 'Doscar.get_metadata']),
    P('P12', 'OUTCAR run status and statistics',
      'Whether a run finished, converged ionically and electronically, hit NELM or NSW, and its final iteration numbers follow '
      'exactly the markers in the OUTCAR, independently of everything else in the file; the run statistics carry the numbers '
      'printed at the end.',
      ['inputs'], 'every order and presence of markers, every NELM, NSW and iteration count',
      ONE + 'six OUTCAR files are sampled.',
      ['outcar.py'], [('Outcar._parse_line / _from_list', 'outcar.py')],
      observe=['Outcar.get_run_status', 'Outcar.get_run_stats']),
    P('P13', 'OUTCAR tables',
      'The symmetry data of every analysis in the OUTCAR are reported in order, and the elastic moduli and the per-site and full-cell '
      'magnetization are the values of the last corresponding table, each under its site, direction and component.',
      ['inputs'], 'every number of sites, orbitals and directions, every value',
      ONE + 'a single table of each kind is sampled.',
      ['outcar.py'], [('Outcar._from_list', 'outcar.py')],
      observe=['Outcar.get_symmetry', 'Outcar.get_elastic_moduli', 'Outcar.get_magnetization']),
    P('P14', 'POTCAR metadata',
      'The element, symbol, title, functional, and every numeric parameter, flag and text field of the POTCAR header (of the first data '
      'set) are reported with the value the header prints, whatever the other lines are.',
      ['inputs'], 'every header built of VASP parameter lines, every value',
      ONE + 'one POTCAR is sampled.',
      ['potcar.py', 'utils.py'], [('Potcar._from_file', 'potcar.py')], observe=['Potcar attributes', 'get_dict']),
    P('P15', 'Stream: notifications from the standard output',
      'A line of the standard stream that matches the recognition string of a configured entry yields a notification with the kind, '
      'shortname, message and severity configured, in the order of the stream (by default only the first such line of an entry, with '
      'history every one), and a line matching none yields none; overrides change exactly the entries they name and new ones are '
      'added. Entries marked inverse are reported exactly once when their text never occurs, and never otherwise. A configured entry '
      'whose kind, message, suggestion, location, severity or inverse flag is of the wrong type or unsupported is refused with a '
      'ValueError.',
      ['inputs', 'configurations'], 'every stream, every override of the configuration',
      ONE + 'three streams are sampled.',
      ['stream.py', 'stream.yml'], [('Stream._parse', 'stream.py'), ('VaspStream', 'stream.py')],
      observe=['Stream.entries', 'has_entries', 'len']),
    P('P16', 'vasprun.xml: structures, forces, stress along the run',
      'For every ionic step, the unit cell, positions, species, forces and stress reported from a vasprun.xml are the '
      'ones written for that step, in step order, under the step number; the initial, last and all selections pick the '
      'corresponding steps (the regular parser lists a single step twice), and any other selection is refused. With extract_all off '
      'the regular parser reports the initial and final structures and the first and last forces and stress.',
      ['inputs'], 'every number of ionic steps and atoms, every value, both parsing methods',
      ONE + 'the XML samples have a handful of steps.',
      ['vasprun.py'], [('Xml._fetch_upfsw*', 'vasprun.py'), ('Xml getters', 'vasprun.py')],
      observe=['get_positions', 'get_unitcell', 'get_forces', 'get_stress', 'get_species']),
    P('P17', 'vasprun.xml: eigenvalues, occupancies, DOS, projectors',
      'Eigenvalues, occupancies, k-points and weights, total and partial densities of states and projectors reported from a '
      'vasprun.xml carry, for each spin, k-point, band, ion, orbital and energy, the number written there (in the last ionic step '
      'that has them). A section whose ISPIN, NBANDS, k-points or species are missing, or whose row count contradicts them, ends in the '
      'documented exit code.',
      ['inputs'], 'every shape (spins, k-points, bands, ions, orbitals), every value, both parsing methods',
      ONE + 'index mix-ups need shapes the samples do not have.',
      ['vasprun.py'], [('Xml._fetch_eigenvalues*', 'vasprun.py'), ('Xml._fetch_dos*', 'vasprun.py'),
                       ('Xml._fetch_projectors*', 'vasprun.py')],
      observe=['get_eigenvalues', 'get_occupancies', 'get_dos', 'get_projectors', 'get_kpoints']),
    P('P18', 'vasprun.xml: energies per ionic and electronic step',
      'The energies reported for each ionic step, by type and with or without the electronic steps, are the ones written for that '
      'step; the number of electronic steps per ionic step and the initial and final selections agree with the file.',
      ['inputs'], 'every number of ionic and electronic steps, every value, both parsing methods',
      ONE + 'step bookkeeping is only visible with uneven numbers of steps.',
      ['vasprun.py'], [('Xml._fetch_totens*', 'vasprun.py'), ('Xml.get_energies', 'vasprun.py')], observe=['get_energies']),
    P('P19', 'vasprun.xml: same answer from both parsers and any chunking',
      'Every quantity the getters report is the same whether the file is parsed as a whole or by events, also when sections (other '
      'than the list of atoms) are missing from the file, and the event parser gives the same answer however the input is cut into chunks. (Two differences are allowed: for '
      'a single ionic step the regular parser repeats it under key 2 of the all-steps answers, and dielectrics that are all missing may '
      'be None or a dictionary of None.)',
      ['inputs', 'schedules'], 'every document, every chunk boundary',
      'The tests compare fixed files with the chunking of one file size.',
      ['vasprun.py'], [('Xml._parsew / _parsee', 'vasprun.py')], observe=['all getters of Xml']),
    P('P20', 'Overflowed numbers are never passed on',
      'A numeric field that VASP filled with asterisks is never reported as a number: for a vasprun.xml parsing ends with the documented '
      'overflow exit code, whichever quantity it belongs to and whichever parser reads it, and is not disturbed when the field belongs to '
      'a quantity that is not reported; a CHGCAR, DOSCAR or EIGENVAL with such a field among the data is refused.',
      ['inputs'], 'every position of an overflowed field',
      'One overflow.xml is sampled.',
      ['vasprun.py', 'chgcar.py', 'doscar.py', 'eigenval.py', 'utils.py'], [('Xml._convert_*', 'vasprun.py')], observe=['exit codes', 'getters']),
    P('P21', 'The source does not matter',
      'Every parser gives the same result for the same content, whether it comes by path, by file handler or, where accepted, as a '
      'string, and with Unix or DOS line ends.',
      ['inputs', 'configurations'], 'every content, every source',
      'The tests open the same file two ways for some parsers.',
      ['base.py', 'utils.py', 'incar.py', 'kpoints.py', 'poscar.py', 'chgcar.py', 'doscar.py', 'eigenval.py', 'outcar.py',
       'potcar.py', 'stream.py'],
      [('read_from_file', 'utils.py'), ('open_close_file_handler', 'base.py')], observe=['all getters']),
    P('P22', 'Argument contract and error reporting',
      'A parser given no source (ValueError for POTCAR), or a string or dictionary together with another source, or a path that cannot '
      'be opened, ends with the documented exit code and never returns an object; write takes exactly one of path and handler, writes '
      'the complete content to it, and changes no file when the arguments are refused.',
      ['inputs', 'configurations', 'fault_sequences'], 'every combination of arguments of every parser',
      'The tests check a few of the combinations.',
      ['base.py', 'incar.py', 'kpoints.py', 'poscar.py', 'chgcar.py', 'doscar.py', 'eigenval.py', 'outcar.py', 'potcar.py',
       'stream.py', 'vasprun.py'],
      [('BaseParser.write', 'base.py'), ('constructors', '*.py')], observe=['exit codes', 'files written']),
    P('P23', 'Coordinate and lattice transforms are exact inverses',
      'Converting direct to cartesian coordinates combines the lattice vectors with the coordinates, converting back undoes it for '
      'every non-degenerate cell, and the reciprocal lattice is dual to the lattice with the factor 2 pi.',
      ['inputs'], 'every non-degenerate cell and vector',
      'No test exercises them with a general cell; symmetric cells hide a missing transpose.',
      ['utils.py'], [('dir_to_cart', 'utils.py'), ('cart_to_dir', 'utils.py'), ('lat_to_reclat', 'utils.py')],
      observe=['return values']),
    P('P24', 'Truncated vasprun.xml is noticed',
      'A vasprun.xml that does not end with its closing tag is reported as truncated, and one that does is not, wherever it was cut. '
      'The regular parser reports every section that is complete before the cut unchanged and under its own ionic step, the energies '
      'of the steps completed included; a section the cut goes through is reported as missing (the first ionic step may stand in for '
      'a missing second one), never with wrong numbers.',
      ['inputs', 'crash_points'], 'every point at which the file is cut',
      'One truncated file is sampled.',
      ['vasprun.py'], [('Xml._set_xml_truncated', 'vasprun.py'), ('Xml._parsew', 'vasprun.py'), ('Xml._remove_incomplete', 'vasprun.py')],
      observe=['truncated', 'getters']),
    P('P25', 'vasprun.xml: response tensors, dynamics and parameters',
      'The Hessian, dynamical matrix, dielectric tensors and functions, Born charges, and the run parameters reported from a '
      'vasprun.xml are the numbers written there (in the last ionic step that has them), under their own indices.',
      ['inputs'], 'every number of atoms, every value, both parsing methods',
      ONE + 'one file of each kind is sampled.',
      ['vasprun.py'], [('Xml._fetch_hessian*', 'vasprun.py'), ('Xml._fetch_dielectrics*', 'vasprun.py')],
      observe=['get_hessian', 'get_dynmat', 'get_dielectrics', 'get_born', 'get_parameters']),
    P('P27', 'Asking and writing change nothing',
      'After any sequence of getter calls and writes (as a string, to a path or to a handler), every getter and every write gives '
      'exactly what it gives on a freshly parsed object.',
      ['histories', 'inputs'], 'every sequence of questions to an object of any parser, every content',
      'The tests ask each object a few questions once; that answers do not depend on earlier questions is about every history.',
      ['incar.py', 'kpoints.py', 'poscar.py', 'chgcar.py', 'doscar.py', 'eigenval.py', 'outcar.py', 'potcar.py', 'stream.py', 'vasprun.py'],
      [('get_* and _write', '*.py')], observe=['all getters', 'written text']),
    P('P28', 'Objects are independent',
      'Editing, writing or asking one object, and parsing any other file (with whatever configuration), changes neither another object, '
      'nor the result of parsing the same content again, nor the dictionaries, lists, sites and points that were supplied.',
      ['histories', 'inputs', 'configurations'], 'every pair of contents, every edit',
      'The tests build one object at a time.',
      ['incar.py', 'kpoints.py', 'poscar.py', 'chgcar.py', 'doscar.py', 'eigenval.py', 'outcar.py', 'potcar.py', 'stream.py', 'vasprun.py'],
      [('constructors', '*.py'), ('Kpoints.modify', 'kpoints.py'), ('Poscar._from_dict', 'poscar.py')],
      observe=['all getters', 'supplied dictionaries']),
    P('P29', 'Contents of the wrong type are refused',
      'A dictionary for an INCAR, KPOINTS or POSCAR object that misses an entry (KPOINTS, POSCAR) or holds a value of the wrong type, length '
      'or name, and an edit with such a value, end with the documented exit code; no object results, and an edited object stays as it '
      'was. Lists of points and sites hold Kpoint and Site objects only, a point number needs a list of points, and cartesian points of '
      'KPOINTS are refused rather than written as direct ones.',
      ['inputs', 'histories'], 'every entry, every wrong value at every place of it, in a dictionary or an edit',
      'The tests try one wrong value for a few entries.',
      ['incar.py', 'kpoints.py', 'poscar.py'],
      [('Kpoints._check_*', 'kpoints.py'), ('Poscar._check_*', 'poscar.py'), ('IncarItem._clean_entry', 'incar.py')],
      observe=['exit codes', 'get_dict']),
    P('P26', 'Memory of the event parser does not grow with the file',
      'Parsing a vasprun.xml by events keeps the memory used for the tree bounded, whatever the number of ionic steps.',
      ['inputs'], 'every file length', 'No test measures memory.',
      ['vasprun.py'], [('Xml._parsee', 'vasprun.py')], observe=['process memory']),
]

NA = {
    'P26': 'Memory use is a property of lxml/libxml2 (C code) and the allocator, which cannot be encoded for the solver here.',
}

TECH = 'symbolic execution of the real Python source, assertions discharged by Z3, counterexamples replayed'
NOTE = ('Bounded: every path of the real functions within the stated sizes is enumerated by the solver and every assertion holds '
        'for all values of the symbolic numbers, letters and choices on that path. Trusts the engine models of str, re, numpy and '
        'files, which are cross-checked by running the unmodified package on solver-chosen inputs for every path. Floats are exact '
        'rationals. Bounds: ')


def bounds(pid):
    import ast
    tree = ast.parse(open(os.path.join(V, 'checks', pid + '.py')).read())
    for n in tree.body:
        if isinstance(n, ast.Assign) and n.targets[0].id == 'BOUNDS':
            return ast.literal_eval(n.value)
    return ''


def main():
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in PROPS:
        pid = p['id']
        if os.path.exists(os.path.join(V, 'checks', pid + '.py')):
            checks.append({'property': pid, 'quick_cmd': f'{PY} run.py {pid} --tier quick',
                           'thorough_cmd': f'{PY} run.py {pid} --tier thorough', 'technique': TECH, 'level': 'model_checking',
                           'level_note': NOTE + bounds(pid) + '.'})
        else:
            na.append({'property': pid, 'reason': NA.get(pid, 'No check built yet.')})
    m = {'version': 1, 'setup_cmd': f'{PY} run.py --selftest', 'checks': checks, 'not_applicable': na,
         'notes': 'No hooks in /repo. Run one check with: ' + PY + ' run.py Pxx; replay a counterexample with --replay FILE.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
