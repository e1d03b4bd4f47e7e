#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the one place the property texts are edited)."""
import json, os
R = "raytracing/"
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), obs=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R+f for f in files],
            mechanism=[dict(name=a, where=R+b) for a, b in mech],
            state=[dict(name=a, meaning=b, where=R+c) for a, b, c in state],
            observe_at=list(obs), hook_needed=hook)))

add("C01", "A system's matrix is the ordered product of its elements, cut at any depth",
 "For any sequence of optical elements (nested groups included), the ABCD coefficients, length, front and back refractive indices and outer vertices of the whole are those of the ordered product of the elements' own matrices, and the determinant is the front-to-back index ratio. Asking for the transfer matrix up to any depth z gives the product of everything before z, with the element that contains z cut at z, and the flattened list of element matrices multiplies back to the whole. Each element kind has the matrix, length, vertices and indices that paraxial optics gives for its parameters.",
 ["programs", "inputs"], "every sequence of elements from the alphabet up to a depth, every nesting, every cut position including the element boundaries, zero, beyond the end, and inside thick elements and spaces",
 "tests compare a handful of two- and three-element products at one or two cuts; the property is over all sequences, nestings and cut depths",
 ["matrix.py", "matrixgroup.py"], [("mul_matrix", "matrix.py"), ("transferMatrix/transferMatrices", "matrixgroup.py"), ("append", "matrixgroup.py")],
 obs=["MatrixGroup.A/B/C/D/L", "transferMatrix(upTo)", "transferMatrices()", "determinant"])

add("C02", "Tracing equals element-by-element propagation, aperture clipping included",
 "For any system and any incoming ray, the traced path is the stepwise propagation through each element: heights, angles and positions after every element follow its law (deviation towards the axis for an axicon), the last ray equals the system matrix applied to the input when the system is linear, and the ray is marked blocked from the first element whose clear diameter (or accepted angle) it exceeds at entrance, and never otherwise. Tracing many rays, tracing only to the output, and taking the profile of the beam at a plane agree with tracing each ray alone, with blocked rays left out of the output. The input rays are never altered, and a blocked ray stays where it was blocked.",
 ["programs", "inputs"], "every sequence of elements up to a depth with every aperture pattern, crossed with rays on a grid that includes exactly-at-the-edge heights and already blocked rays",
 "tests trace a few rays through a few systems; the clip decisions depend on every combination of element, diameter and ray",
 ["matrix.py", "matrixgroup.py", "ray.py", "axicon.py"], [("trace, mul_ray", "matrix.py"), ("trace", "matrixgroup.py"), ("along, at", "ray.py"), ("mul_ray", "axicon.py")],
 obs=["trace", "traceThrough", "traceMany", "traceManyThrough", "profileFromRayTraces"])

add("C03", "Editing a system is list editing, and a refused edit changes nothing",
 "After any history of appending, inserting, replacing, removing and turning around elements, the system holds exactly the elements a plain list would hold under the same edits (negative positions and ranges included) and behaves in every respect like a system built from scratch from those elements. An edit that is refused, for a wrong type, a bad position or a refractive-index mismatch, leaves the elements and the optical properties exactly as they were. A plain gap takes the index of the medium in front of it.",
 ["histories"], "every history of edit operations up to a depth over an alphabet of elements, positions and ranges, valid and refused",
 "tests try single edits on fixed systems; stale properties and half-applied edits need particular sequences",
 ["matrixgroup.py"], [("append/insert/pop/__setitem__/__getitem__/flipOrientation", "matrixgroup.py")],
 state=[("elements", "ordered element list", "matrixgroup.py"), ("A,B,C,D,L", "cached product", "matrixgroup.py")],
 obs=["len", "indexing", "ABCD", "trace"])

add("C04", "Answers depend only on the current system, never on earlier questions",
 "Whatever questions were asked before (traces of other rays or beams, stops, pupils, conjugates, displays, comparisons, iteration, including nested iteration), any question about a system gets the answer that a freshly built identical system gives. Asking a question never changes the system, its elements, or the objects passed in, and changing a list, ray or beam that was returned never changes later answers. An element or sub-group used at several places gives at each place the answer for that place.",
 ["histories"], "every sequence of queries up to a depth from an alphabet of queries, interleaved with edits, on several systems including ones that share sub-groups",
 "a test asks one question of a fresh object; memory of an earlier question only shows in a particular order of questions",
 ["matrixgroup.py", "matrix.py", "imagingpath.py", "ray.py"], [("trace", "matrixgroup.py"), ("__iter__/__next__", "matrixgroup.py"), ("__eq__", "matrix.py"), ("largestDiameter/displayHalfHeight", "matrix.py")],
 state=[("_lastRayToBeTraced/_lastRayTrace", "last trace kept by a group", "matrixgroup.py"), ("iteration", "iteration cursor", "matrixgroup.py")],
 obs=["all public queries"])

add("C05", "Focal lengths, principal planes and focal points say where rays really go",
 "For any system with power, between any two media, a ray entering parallel to the axis crosses the axis at the reported back focal point, a ray from the reported front focal point leaves parallel, and rays between the two principal planes keep their height. The effective focal lengths, and the front and back focal lengths measured from the outer vertices, agree with those positions wherever the system starts along the axis. A system without power reports infinite focal lengths and no focal points, and the gap to the focus or the focus-to-focus path built from a lens really ends at its focus. Rays parallel to the axis at any height cross it at the end of the focal line that an axicon reports for that height.",
 ["programs", "inputs"], "every sequence of elements up to a depth over lenses, mirrors, interfaces and thick lenses between media of several indices, at several starting positions; every axicon and height of a grid",
 "tests check textbook lenses in air; asymmetric systems between different media are a different case of the formulae",
 ["matrix.py", "components.py"], [("effectiveFocalLengths, principalPlanePositions, focusPositions, back/frontFocalLength", "matrix.py"), ("ToFocus, fromFocusToFocus", "matrix.py")],
 obs=["the listed queries", "trace"])

add("C06", "Conjugate planes are where all rays from one point meet again",
 "For any system and medium, the plane reported as the forward (backward) conjugate is the one where rays from one point of the front (to one point of the back) plane come together regardless of angle, with height ratio and angle ratio equal to the reported magnifications, whose product is the index ratio; when no finite plane exists infinity is reported. The list of intermediate conjugates contains every such plane formed after each element, once, with its magnification. The sub-path that starts at a plane inside one of the gaps of a path, forwards or backwards, propagates rays exactly as the rest of the full path does.",
 ["programs", "inputs"], "every sequence of elements up to a depth over several media, every start plane inside every gap, both directions",
 "tests use a few symmetric imaging systems in air",
 ["matrix.py", "matrixgroup.py", "imagingpath.py"], [("forwardConjugate/backwardConjugate/magnification", "matrix.py"), ("intermediateConjugates", "matrixgroup.py"), ("subPath", "imagingpath.py"), ("ToConjugate", "matrix.py")],
 obs=["the listed queries", "trace"])

add("C07", "Turning an element or system around gives the physically reversed system",
 "Turning any element or group around gives the optics of the same glass seen from the other side: a ray sent back along its output path retraces its input path, the front and back media, outer vertices and focal distances swap, and the length and apertures stay with their surfaces. Turning around twice restores the original in every respect. This holds for single interfaces, thick lenses, nested groups, catalog lenses and objectives; a mirror turned around shows its other face, of the opposite curvature.",
 ["programs", "histories"], "every element kind and every group of them up to a depth, between several media, under every sequence of flips",
 "tests flip symmetric or single elements; the reversed system only differs visibly for asymmetric ones",
 ["matrix.py", "matrixgroup.py", "specialtylenses.py"], [("flipOrientation", "matrix.py"), ("flipOrientation", "matrixgroup.py"), ("flipOrientation", "specialtylenses.py"), ("surfaces", "matrix.py")],
 obs=["ABCD", "vertices", "indices", "focal distances", "trace"])

add("C08", "The aperture stop, marginal ray, entrance pupil and f-number agree",
 "The reported aperture stop is the aperture that really limits the cone of rays from the axial object point: the marginal rays just pass, touch the edge of that stop, and any steeper ray from the same point is blocked there while any shallower one passes. The entrance pupil is the image of the stop seen from the object (position and diameter), the f-number is focal length over pupil diameter, and the object-side numerical aperture is the index times the sine of the marginal angle. With no limiting aperture these report none or infinity instead of failing.",
 ["programs", "inputs"], "every sequence of elements up to a depth with every pattern of finite diameters, in several media, checked by tracing rays just inside and just outside",
 "which aperture limits depends on the whole arrangement; tests use two or three arrangements",
 ["imagingpath.py", "matrix.py"], [("apertureStop/marginalRays/axialRay/entrancePupil/NA/fNumber", "imagingpath.py"), ("backwardConjugate", "matrix.py")],
 obs=["the listed queries", "trace"])

add("C09", "The field stop, field of view, chief ray and image size agree with tracing",
 "The chief ray from any object height crosses the axis at the aperture stop; the reported half field of view is the largest object height whose chief ray passes, higher ones being blocked first at the reported field stop, and it is infinite with no field stop when no aperture ever blocks a chief ray. The principal ray is the chief ray from that height, and the image size is the magnification times the field of view (or the object). These queries always finish and never fail, whatever the arrangement of apertures.",
 ["programs", "inputs"], "every sequence of elements up to a depth with every pattern of finite diameters, including apertures at image planes and stops conjugate to the object",
 "the search for the field stop is a numerical loop whose termination and result depend on the whole arrangement",
 ["imagingpath.py"], [("fieldStop/halfFieldOfView/chiefRay/principalRay/imageSize", "imagingpath.py")],
 obs=["the listed queries", "trace"])

add("C10", "The optical invariant of any two rays is the same at every depth",
 "For any system and any two rays, the optical invariant evaluated at any depth, the input plane included, equals index times the difference of the crossed height-angle products of the two rays there, and has one and the same value all along the system, whatever media it crosses. The Lagrange invariant of a path is that of its axial and principal rays (infinite when one of them does not exist).",
 ["programs", "inputs"], "every sequence of elements up to a depth over several media, every evaluation depth on a grid including boundaries and interiors, every pair of rays of a grid",
 "tests evaluate it at the ends of one or two systems in air",
 ["matrix.py", "matrixgroup.py", "imagingpath.py"], [("opticalInvariant", "matrix.py"), ("transferMatrix", "matrixgroup.py"), ("lagrangeInvariant", "imagingpath.py")],
 obs=["opticalInvariant(z)", "lagrangeInvariant()"])

add("C11", "Gaussian beams propagate by the ABCD law and report consistent sizes",
 "A Gaussian beam sent through any system comes out with the complex radius the ABCD law gives, in the medium of the output side and at the right position, and is flagged as clipped from the first element whose diameter its spot exceeds. Spot size, wavefront radius, waist, waist position and Rayleigh range are mutually consistent in every medium: propagating to the reported waist position gives the reported waist with a flat wavefront. Building a beam from size and wavefront radius or from its complex radius gives the same beam, and contradictory or missing parameters, or a beam in the wrong medium, are refused.",
 ["programs", "inputs"], "every sequence of elements up to a depth over several media, crossed with a grid of beams (including exactly at the waist), wavelengths and indices",
 "tests use a few beams in air",
 ["gaussianbeam.py", "matrix.py", "matrixgroup.py", "laserpath.py"], [("mul_beam", "matrix.py"), ("R/w/wo/zo/waistPosition", "gaussianbeam.py"), ("trace", "matrixgroup.py")],
 obs=["trace of a beam", "the beam's properties"])

add("C12", "A cavity is stable exactly when its round trip is, with self-reproducing modes",
 "For any round trip, the cavity is reported stable exactly when half the absolute trace of its matrix is below one, and then its mode is a finite beam that comes back unchanged after one round trip, in whatever medium it starts. Both eigenmodes are fixed points of the round trip, and an unstable cavity has no mode. Completing a round trip by adding the elements in reverse order gives the matrix and the modes of the completed list.",
 ["programs", "histories"], "every round trip of up to a depth of spaces, mirrors and lenses, every use of the reverse-completion options, before and after edits",
 "tests use three or four cavities, none near the stability limits",
 ["lasercavity.py", "laserpath.py"], [("eigenModes/laserModes/isStable/appendElementsInReverse", "lasercavity.py")],
 obs=["isStable", "laserModes", "trace of the modes"])

add("C13", "A ray collection answers from the rays it holds now",
 "Under any history of appending, loading, indexing, iterating (nested too) and asking for values or histograms, a collection of rays is a list of exactly those rays: its length, order, height and angle lists, and both histograms always describe its present content and the parameters of the present request. Any iterable of rays is accepted in full, anything that is not a ray is refused without change. Histogram counts add up to the number of rays in the range, and bin centres match the requested range.",
 ["histories"], "every history of operations up to a depth with several histogram parameters and inputs (list, tuple, generator, another collection)",
 "cached values go stale only in particular orders of operations",
 ["rays.py"], [("append/load/yValues/thetaValues/rayCountHistogram/rayAnglesHistogram/__iter__", "rays.py")],
 state=[("_yValues, _yHistogram, ...", "cached statistics", "rays.py")],
 obs=["len", "iteration", "yValues", "histograms"])

add("C14", "Ray sources produce exactly the advertised rays",
 "Every deterministic source (uniform, Lambertian, object, lamp, fan and fan group) produces the number of rays asked for, at evenly spaced heights and angles that include both ends of the stated ranges, the number of Lambertian rays at an angle being the integer part of the number asked for times its cosine. Every random source produces exactly the stated number of rays, all inside the stated ranges, whatever the random numbers are, a Lambertian candidate being kept with the probability given by the cosine of its angle, and one of a Gaussian profile by the Gaussian of its height; a ray once given at an index is given again at that index, by indexing or iterating in any order. Positions outside the stated count are refused.",
 ["inputs", "histories"], "every small parameter combination, and for the random sources every sequence of random answers from a grid up to a depth crossed with every order of access",
 "tests look at one default instance and at one random sample",
 ["rays.py", "ray.py"], [("UniformRays .. LampRays, randomRay, __getitem__", "rays.py"), ("fan, fanGroup", "ray.py")],
 obs=["len", "indexing", "iteration", "count"])

add("C15", "Tracing in parallel gives the rays that serial tracing gives",
 "For any system, any list of rays (a generator included), any number of worker processes and any scheduling of them, tracing through in parallel returns exactly the output rays that serial tracing returns, each as often, none lost, none added, blocked ones left out, and with the same heights, angles and positions. If a worker fails or dies at any point, the result is still that of serial tracing. The input is not consumed or altered.",
 ["schedules", "fault_sequences", "inputs"], "every assignment and completion order of the work units, every point at which pool creation or a unit fails, every small ray list and process count",
 "tests run the pool once on one schedule and compare counts",
 ["matrix.py", "matrixgroup.py", "rays.py"], [("traceManyThroughInParallel/traceManyThrough", "matrix.py")],
 obs=["returned rays"])

add("C16", "Saved systems and rays come back the same, and bad files change nothing",
 "Saving any system or ray collection and loading it, in place of or in addition to what is there, gives elements and rays with the same behaviour as the originals, and the loaded object answers every question from its new content. A file that is truncated at any byte, empty, of another type, or holds anything other than elements (rays) makes loading fail with an error and leaves the object exactly as it was. Saving does not alter the object.",
 ["crash_points", "histories", "inputs"], "every prefix of every saved file of a family of systems and ray sets, every mix of save and load (append or replace) up to a depth",
 "tests round-trip one system; interrupted writes need every prefix",
 ["matrixgroup.py", "rays.py"], [("save/load", "matrixgroup.py"), ("save/load", "rays.py")],
 obs=["len", "matrices", "traces", "rays"])

add("C17", "Preferences survive crashes and other sessions without losing keys",
 "Under any history of sets, updates, reads, deletions and resets, one after the other, through any number of preference objects on the same file, each look-up of a key sees the latest value written by any of them, keys written by others are never lost, and a fresh session sees exactly the latest state. If the process dies at any point of a write, the file holds either the previous or the new complete state, so that no earlier preference is lost.",
 ["histories", "crash_points"], "every history of operations by up to three objects up to a depth, and a crash at every file-system step of every write with every possible torn prefix",
 "tests use one object and no crash",
 ["preferences.py"], [("readFromDisk/writeToDisk/update/__setitem__", "preferences.py")],
 state=[("the JSON file", "shared persistent state", "preferences.py")],
 obs=["item access", "file content"])

add("C18", "Importing the package always succeeds, whatever the start-up environment",
 "Importing the package succeeds and starts in the stored warning mode (expert when asked for by the environment, beginner when none is stored) for any content of the preferences file (missing, empty, truncated, not a dictionary, unreadable or read-only, any stored date or mode) and any outcome of the network check. The version check is made when the last one is more than a day old or unknown, never otherwise, and announces an update exactly when a newer release exists, in whatever order the releases are listed.",
 ["configurations", "fault_sequences", "inputs"], "every combination of a preferences-file content, file permission, environment variable, clock distance and network outcome from the alphabets",
 "tests import once in a healthy environment",
 ["__init__.py", "preferences.py", "utils.py"], [("lastCheckMoreThanADay", "__init__.py"), ("checkLatestVersion", "utils.py"), ("readFromDisk", "preferences.py")],
 obs=["import", "warning filters", "network attempt", "stored preferences"])

add("C19", "Every catalog lens and objective has the optics its own data state",
 "Every lens of the vendor catalogs, and any compound lens built from radii, thicknesses and glasses or indices, has the matrix, focal lengths, apertures, vertices and surfaces of the stack of surfaces it is described by, in both orientations, and warns exactly when the focal length, back focal length or edge thickness it is designed for is missed by more than the stated tolerance. Each catalog lens has the radii, thicknesses, glasses and stated lengths of the catalog, meets its stated focal length within 5% at its reference wavelength, and at any other wavelength uses the indices of its glasses there; its chromatic focal shifts follow from them. Objectives map focus to focus with the stated focal length, numerical aperture and working distance, in both orientations, in any number of turns.",
 ["configurations", "inputs"], "every class of the catalogs, each as is and flipped, at its reference wavelength and a grid of others; every combination of user-supplied parameters from a grid",
 "tests instantiate a few parts",
 ["specialtylenses.py", "thorlabs.py", "eo.py", "olympus.py", "nikon.py", "components.py"], [("AchromatDoubletLens, SingletLens, Objective, CompoundLens", "specialtylenses.py"), ("part data", "thorlabs.py"), ("part data", "eo.py"), ("objective data", "olympus.py"), ("objective data", "nikon.py")],
 obs=["ABCD", "focal lengths", "vertices", "apertures", "warnings"])

add("C20", "Reading a Zemax file gives the lens the file prescribes",
 "For any well-formed prescription file, in either text encoding, in inches or millimetres, the surfaces read back have the curvature, spacing, glass and diameter written in the file, converted to millimetres, and the group built from them is the sequence of interfaces and glass gaps of the first block of glass, with the indices at the design wavelength. Flat surfaces have infinite radius and missing diameters are infinite. An unknown glass is refused with an error.",
 ["inputs", "configurations"], "every prescription file generated from an alphabet of surfaces, units, wavelengths and encodings up to a number of surfaces",
 "tests read four fixed files",
 ["zemax.py", "materials.py"], [("ZMXReader", "zemax.py"), ("findByName", "materials.py")],
 obs=["surfaces()", "lensSurfaces()", "matrixGroup()", "prescription()"])

add("C21", "Glass indices are physical and look-ups find the right glass",
 "For every material and every optical wavelength (0.4 to 2 micrometres) the index is real and finite; over the visible it is above one and decreases with wavelength (air stays one), reproduces the stated Abbe number, and matches the published dispersion value; wavelengths that are not in micrometres (such as nanometres or metres) are refused. Looking a glass up by name, in any letter case and with hyphens, underscores or neither, gives that glass, whose printed name finds it again; a glass that a user defines is found like the others; an unknown name is refused. Looking up by index lists exactly the glasses within the tolerance.",
 ["inputs", "configurations"], "every material crossed with a wavelength grid and the edges of the accepted range, every spelling of every name, every index and tolerance of a grid",
 "tests check a few names and one index each",
 ["materials.py"], [("n, abbeNumber, findByName, findByIndex, all", "materials.py")],
 obs=["n", "abbeNumber", "findByName", "findByIndex"])

add("C22", "A figure draws the rays, images and elements the system really has",
 "For any system and any ray sources, each drawn ray follows the points of its trace, stopping where it is blocked (or left out entirely when asked to hide blocked rays); sources away from the first plane are drawn through the real system on both sides; objects, images, stops, pupils, focal points and the elements themselves (rims, surfaces, outlines of objectives) are drawn at their computed positions and sizes, in the colors and fills asked for. Displaying any number of times, in any design, with any check boxes ticked and at any zoom, succeeds and changes nothing in the optics; chosen design settings stay in effect; each check box shows and hides the rays, objects and images of its group. A laser path draws every beam at its computed spot size, its waists marked. The figure of a single element shows its own focal points, principal planes and focal lengths.",
 ["programs", "histories", "configurations"], "every small system crossed with ray sources, source planes and display options, every history of display and design calls up to a depth, and every setting of the check boxes, reached by clicks",
 "tests check that display does not raise for a few systems",
 ["figure.py", "graphics.py", "graphicComponents.py", "imagingpath.py", "laserpath.py"], [("rayTraceLines/rearrangeRayTraceForPlotting/graphicsOfConjugatePlanes/initVisibilityCheckBoxes", "figure.py"), ("display/design", "imagingpath.py"), ("display", "laserpath.py"), ("display", "matrix.py")],
 obs=["lines, shapes and texts of the matplotlib figure", "the system after display"])

add("C23", "The efficiency report counts each ray of the source as tracing does",
 "For any imaging path, any source of rays and whatever the random numbers are, the efficiency report classes each emitted ray as transmitted, vignetted or blocked as tracing it through the path and its coefficients on the principal and axial rays say; it states the fractions, the optical invariants (of the system and of the source, indices included), the stops and the positions of the blockers that follow from these, and it draws every ray in its class. It never fails, with or without stops, transmitted rays or blocked rays, and never changes the path.",
 ["programs", "inputs"], "every small path with any placement of stops, crossed with sources whose every ray is chosen from a grid, and every draw of the random source",
 "tests call the report for one path and look only at whether it returns",
 ["imagingpath.py"], [("reportEfficiency", "imagingpath.py")],
 obs=["text of the report", "points and lines of its figure", "the path afterwards"])

add("C24", "The last warning mode chosen decides which messages are shown",
 "After any history of choosing the beginner, expert and silent modes, the last one alone decides for each kind of message: the beginner mode shows hints every time and the other kinds, the expert mode hides the hints and shows each other message once, the silent mode hides them all. A mode that is saved is the one in effect in the next session; one that is not saved leaves the stored one alone.",
 ["histories"], "every history of mode changes and of messages of each kind up to a depth",
 "the outcome depends on the order in which warning filters were installed; tests only call the functions",
 ["utils.py", "__init__.py"], [("beginnerMode/expertMode/silentMode", "utils.py")],
 obs=["warnings shown", "stored preferences"])

add("C25", "The command line runs the examples asked for, each showing what it always shows",
 "python -m raytracing runs exactly the examples named by -e, in that order (all of them when none are named, and none of them when one of the numbers names no example), printing the source of each before its output; --list gives every example with its number and title, --classes draws each class below Rays and Matrix once under each of its parents, and these run no example. Each shipped example completes, and prints and draws the same as on its own whatever examples ran before it in the same process.",
 ["histories", "inputs"], "every list of examples up to a length on the command line, every malformed request of an alphabet, and every example after every history of others up to a length in one process",
 "tests neither run the command line nor the examples; leftovers of one run (design, warning filters, caches, class attributes) show only in the next one",
 ["__main__.py", "examples/__init__.py", "utils.py", "figure.py", "imagingpath.py"], [("command line", "__main__.py"), ("short", "examples/__init__.py"), ("printClassHierarchy", "utils.py")],
 obs=["standard output", "figures shown", "exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
