E = "explicit-state model checking: "
TECHNIQUE = {
 "C01": E+"every element sequence and nesting up to a bound, each replayed on the code against an exact rational model",
 "C02": E+"every element sequence x ray, stepwise rational transition model against every trace of the code",
 "C03": E+"every edit history up to a depth on the code and on a list model, full observation after each edit",
 "C04": E+"every sequence of questions up to a depth on each system, each answer against that of a fresh system",
 "C05": E+"every element sequence up to a bound; cardinal points against exact model rays and rays traced by the code",
 "C06": E+"every element sequence x distance; conjugates, magnifications and sub-paths against exact model and traced rays",
 "C07": E+"every element sequence and nesting, turned around once and twice; exact reversed model and retraced rays",
 "C08": E+"every element/aperture sequence; stop, pupil and marginal rays against the rational clipping model",
 "C09": E+"every element/aperture sequence; field stop, field of view and chief rays against the rational clipping model",
 "C10": E+"every element sequence x ray pair x depth; invariant against the exact model",
 "C11": E+"every element sequence x beam x wavelength; complex radius, clipping and sizes against the ABCD law in exact rational arithmetic",
 "C12": E+"every round trip up to a bound and every history of edits and completions; modes and stability against the exact round trip",
 "C13": E+"every history of collection operations up to a depth, run on the code and on a list model, full observation after each step",
 "C14": E+"every outcome of the random generator on a grid (controlled generator), every history of reads, every ray class and parameter set",
 "C15": E+"every completion order of the work units and every fault point of the pool, on the real code under a controlled pool, plus real worker deaths",
 "C16": E+"every save/load history up to a depth and every truncation of every file, against a list model",
 "C17": E+"every history of operations by up to three objects on one file, and a crash and an error at every file-system step with torn prefixes",
 "C18": E+"every combination of preferences content, permission, environment, clock and network outcome, each imported in a process of its own",
 "C19": E+"every catalog class x orientation x wavelength, every user-built lens of a grid, against an exact stack-of-surfaces model",
 "C20": E+"every prescription file of a grammar up to a number of surfaces, against an independent reading of the prescription",
 "C21": E+"every material x wavelength grid, every spelling of every name, every index and tolerance of a grid, against published dispersion formulae",
 "C22": E+"every small system x source x option, every history of displays and settings and every setting of the check boxes, what is drawn against the rational model",
 "C23": E+"every small path x every set of source rays of a grid, the report and its figure against the rational trace model",
 "C24": E+"every history of modes and messages up to a depth against a three-mode model, next sessions included",
 "C25": E+"every list of examples and malformed request on the command line, and every example after every history of others, against what it shows on its own",
}
COMMON = (" Exhaustive within the stated bound: every member of the finite space is run on the real code and compared with a reference model "
          "written from the laws of paraxial optics (exact rational arithmetic), not from the code. Parameters are a fixed finite alphabet; "
          "systems longer than the bound and other parameter values are not covered.")
NOTE = {p: COMMON.strip() for p in TECHNIQUE}
NOTE["C08"] += " One recorded finding (thick-exit) is excluded and reported as KNOWN-FINDING."
NOTE["C19"] += " Eight recorded findings (stated-CLASS, catalog data that miss the stated focal length) are reported as KNOWN-FINDING."
NOT_APPLICABLE = {}
