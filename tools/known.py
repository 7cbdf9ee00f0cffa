"""Writes known_findings.json (run by hand when a fix is committed)."""
import json
import os

FIXED = """
P10 2814647 EIGENVAL with trailing blank lines was refused
P11 ff133b2 DOSCAR: columns of the two spins mixed up in the total and partial DOS
P11 0339b27 DOSCAR: dx2-y2 misnamed for non-collinear calculations
P04 da68aa3 KPOINTS: blank lines between or after the points
P05 9a67bb7 KPOINTS: the number of points written was not the number of points
P05 cc89e84 Kpoints.modify accepted entries that only contain an allowed name
P04 d67d60c Kpoints.get and Poscar.get failed or returned another entry
P22 ba5c8b4 file together with a string or dictionary was accepted
P02 6c24001 INCAR: lists of logicals were not written as logicals
P03 a1a978b Incar.get lost the comment
P03 ddf9d99 Incar.get and Incar.delete depended on the case of the tag
P01 6280cb7 INCAR: line ending in a semicolon
P01 b370820 INCAR: words like inf and nan became numbers
P08 a129b7b POSCAR from a dictionary: sites never turned into Site objects
P06 86e1880 POSCAR with trailing blank lines
P06 942983a direct velocities after cartesian positions
P08 f70c470 missing key raised KeyError
P08 fd7cc1c get_dict converted sites that were cartesian already
P06 f18c9a4 VASP 4 POSCAR not recognised with several blanks between the numbers
P06 d10c731 species after an empty group
P08 8d0fb4c Poscar.modify accepted tags that only contain an allowed name
P13 f00fdcf OUTCAR: number of primitive cells
P13 c28150a OUTCAR: key of the non-symmetrized elastic moduli
P16 a83db3b vasprun.xml: positions and forces of the last of two steps with fewer than four ions
P17 bef02d9 event parser: DOS of specific k-points replaced by the regular one
P17 35ea241 regular DOS joined with the one of specific k-points
P17 ec8ad10 partial DOS and projectors zero unless there are nine orbitals
P25 7848bb3 several dielectric functions joined, or the last taken
P25 8464e27 event parser left out the dielectric tensors
P19 f96e074 event parser read the text of elements at their start events
P20 89c00cb overflowed fields reported as zeros, shifted or cut
P24 bf30639 short or newline-padded complete vasprun.xml reported as truncated
P24 d0a5809 energies of all ionic steps lost when the last is incomplete
P24 affff02 sections cut off by the end of a truncated file reported with wrong numbers
P24 d3117bc quantities missing from the last ionic step reported as empty arrays
P24 ba44b6c DOS of specific k-points lost without the regular one, or joined over ionic steps
P22 8c2e4cf a vasprun.xml that does not exist ended in an AttributeError
P21 34855c5 POSCAR velocities and predictors after a blank line with a carriage return or tab dropped
P21 0a63af9 EIGENVAL text with carriage returns split at every line
P21 1f95cc9 CHGCAR text with carriage returns refused
P22 d9efe98 a directory given as vasprun.xml ended in an IsADirectoryError
P22 8d40f89 a write that fails destroyed the file already present
P28 fb76ef4 edits of a Kpoints object changed the dictionary and list it was given
P28 582db29 a Poscar object changed the sites and lists it was given
P21 a5eadb6 INCAR, KPOINTS or POSCAR string divided at form feeds and other separators that do not end a line
P19 821e6c6 vasprun.xml: sections of several ionic steps joined, refused or taken from the first step by the regular parser
P02 a36153d comments of SYSTEM, MAGMOM and M_CONSTR dropped
P25 e684945 Born charges without species reported as a tuple of None
P19 447b38b absent dielectric tensors and Fermi levels raised a TypeError
P19 2660eee an absent version raised an AttributeError
P17 3ed9ea5 eigenvalues without k-points raised a TypeError, projectors without species reported missing NBANDS
P15 91fc6a2 stream entries of an unsupported kind silently dropped instead of refused
P29 715e291 KPOINTS dictionaries without divisions or points raised a KeyError
P29 3feba66 a comment of any type was accepted by KPOINTS and POSCAR objects without one
P29 4a302bb KPOINTS lists with other objects or cartesian points were accepted and written as direct
P29 8eac928 KPOINTS divisions, shifts and vectors of the wrong length were accepted
P29 fbe6949 a point number without a list of KPOINTS raised a TypeError
P29 77de052 POSCAR site lists with other objects were accepted
P25 ffa5db6 event parser: dielectric function of the first ionic step instead of the last
P25 338f177 regular parser: dielectric function of the first ionic step instead of the last
P22 6805c84 Potcar.write emptied the file it was given
"""

if __name__ == '__main__':
    out = []
    for line in FIXED.strip().splitlines():
        p, c, what = line.split(' ', 2)
        out.append(f'fixed: property={p} {c} {what}')
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known_findings.json')
    with open(path, 'w') as f:
        json.dump({'findings': [], 'fixed': out}, f, indent=1)
        f.write('\n')
