"""Writes known_findings.txt: the genuine defects recorded, and those repaired by a "fix:" commit of /repo."""
import os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

FINDINGS = """
finding: property=C08 key=thick-exit the aperture stop may be reported at the exit plane of an element with a length and a finite diameter, where tracing never clips (it clips at entrance only): a ray just inside the reported stop is blocked elsewhere, or one outside passes. Both behaviours are pinned by existing tests (testsMatrixGroup.testTrace, testEntrancePupilAIs0), so it is recorded, not repaired
finding: property=C19 key=stated-ACT508_400_B the data of the catalog lens ACT508_400_B give it a focal length of 326.22 mm, it is stated to be 400 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
finding: property=C19 key=stated-ACT508_500_B the data of the catalog lens ACT508_500_B give it a focal length of 395.3 mm, it is stated to be 500 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
finding: property=C19 key=stated-ACT508_1000_B the data of the catalog lens ACT508_1000_B give it a focal length of 781.59 mm, it is stated to be 1000 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
finding: property=C19 key=stated-AC127_050_AB_ML the data of the catalog lens AC127_050_AB_ML give it a focal length of 44.34 mm, it is stated to be 50 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
finding: property=C19 key=stated-AC127_075_AB_ML the data of the catalog lens AC127_075_AB_ML give it a focal length of 98.47 mm, it is stated to be 75 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
finding: property=C19 key=stated-ACT508_400_B_ML the data of the catalog lens ACT508_400_B_ML give it a focal length of 326.22 mm, it is stated to be 400 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
finding: property=C19 key=stated-ACT508_500_B_ML the data of the catalog lens ACT508_500_B_ML give it a focal length of 395.3 mm, it is stated to be 500 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
finding: property=C19 key=stated-ACT508_1000_B_ML the data of the catalog lens ACT508_1000_B_ML give it a focal length of 781.59 mm, it is stated to be 1000 mm: radii or glasses that cannot be those of the vendor, whose data sheet is not available here to correct them
""".strip()

PROPERTY = [        # (start of the message of the fix commit, property)
    ("MatrixGroup.trace returned the trace", "C04"), ("edits of a MatrixGroup at negative", "C03"),
    ("an element used more than once", "C03"), ("LaserCavity.appendElementsInReverse", "C12"), ("LaserCavity modes were always", "C12"),
    ("a flipped ThickLens had", "C07"), ("backwardConjugate failed", "C06"), ("transferMatrix(upTo=0)", "C10"),
    ("tracing through an element with a length", "C02"), ("an Axicon deviated", "C02"), ("apertureStop overlooked", "C08"),
    ("an aperture at an image of the object", "C09"), ("ImagingPath.NA() failed", "C08"), ("Rays built from an iterator", "C13"),
    ("traceManyThroughInParallel lost", "C15"), ("heights, angles and histograms of Rays", "C13"), ("a histogram request that had been", "C13"),
    ("nested loops over", "C13"), ("equality of two MatrixGroups", "C04"), ("the waist of a gaussian beam", "C11"),
    ("the largest diameter of a Lens", "C04"), ("the gaps to the foci", "C05"), ("rays starting inside a path", "C06"),
    ("flipped mirrors, interfaces", "C22"), ("ImagingPath.display() lost", "C22"), ("LaserPath.display() also", "C22"),
    ("beginner hints", "C24"), ("preferences were lost", "C17"), ("the check for a newer version", "C18"),
    ("the package could not be imported", "C18"), ("modifying the heights, angles", "C13"), ("UniformRays with a single", "C14"),
    ("a Zemax file designed at 550", "C20"), ("a system could not be cut", "C01"), ("ImagingPath.displayWithObject()", "C04"),
    ("elements without vertices", "C22"), ("an ImagingPath without length", "C22"), ("the f-number of a system", "C08"),
    ("the optical invariant of an element", "C10"),
]
EXTRA = os.path.join(HERE, "tools", "fixes.txt")
if os.path.exists(EXTRA):
    for line in open(EXTRA):
        if line.strip():
            start, pid = line.rstrip("\n").rsplit("|", 1)
            PROPERTY.append((start.strip(), pid.strip()))

log = subprocess.check_output(["git", "-C", os.environ.get("VERIF_REPO", "/repo"), "log", "--reverse", "--format=%h %s", "88f82a3.."], text=True)
lines = [FINDINGS]
for line in log.splitlines():
    commit, subject = line.split(" ", 1)
    assert subject.startswith("fix: "), line
    subject = subject[5:]
    pids = [p for s, p in PROPERTY if subject.startswith(s)]
    assert len(pids) == 1, (line, pids)
    lines.append("fixed: property=%s %s %s" % (pids[0], commit, subject))
open(os.path.join(HERE, "known_findings.txt"), "w").write("\n".join(lines) + "\n")
print(len(lines))
