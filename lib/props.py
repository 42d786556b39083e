"""The one place where the properties are written down; `python3 lib/props.py` writes properties.jsonl and MANIFEST.json."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
AN = "crates/aquascope/src/analysis/"


def prop(id, title, statement, over, text, why, files, mech, technique, note, **kw):
    assert len(title) <= 80, (id, len(title))
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    anchors.update({k: v for k, v in kw.items() if k in ("observe_at", "hook_needed", "state")})
    PROPS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=anchors),
                  technique, note))


prop("P01", "Accepted programs are never shown with a missing permission",
     "For every function of a program the Rust compiler accepts, the permission diagram the analysis produces has no missing "
     "permission: at every place expression it displays, each expected permission (read, write, own) is among the permissions shown "
     "as present, and no lifetime-flow violation is shown.",
     ["programs"], "every program the compiler accepts, here: generated functions over owned, borrowed, boxed, nested and Drop data with branches, loops, matches, closures",
     "The tests hold a few hand-written bodies; a false 'missing permission' depends on the combination of paths, loans, moves and control flow, of which there are unboundedly many.",
     [AN + "boundaries/mod.rs", AN + "boundaries/path_visitor.rs", AN + "permissions/context.rs", AN + "permissions/output.rs", AN + "ir_mapper/mod.rs"],
     [("boundary expectations", AN + "boundaries/mod.rs compute_permission_boundaries"), ("permission facts", AN + "permissions/output.rs derive_permission_facts"), ("places and points", AN + "ir_mapper/mod.rs")],
     "property-based testing: generated programs, differential oracle = the Rust compiler",
     "random programs; oracle is rustc's own verdict on the same program")

prop("P03", "Each use of a place gets exactly one expectation, at its place, of its kind",
     "In the permission diagram of an accepted function every place the source uses carries exactly one expectation, positioned at that use "
     "(before the place, or between a method receiver or match scrutinee and what follows it), asking for R to copy, share-borrow or inspect, "
     "R and W to mutably borrow or to assign through, and R and O to move; nothing else carries one.",
     ["programs"], "every accepted program and every use of a place written in it",
     "The tests compare a few dozen marked positions; they do not say that nothing is dropped or duplicated elsewhere, for other combinations of fields, references, calls, methods and statements.",
     [AN + "boundaries/mod.rs", AN + "boundaries/path_visitor.rs", AN + "ir_mapper/mod.rs", AN + "permissions/utils.rs"],
     [("collection of paths from the HIR", AN + "boundaries/path_visitor.rs get_path_boundaries"), ("matching of a path with a MIR place", AN + "boundaries/mod.rs select_candidate_location, paths_at_hir_id"), ("expected permissions", AN + "boundaries/path_visitor.rs ExpectedPermissions")],
     "property-based testing: generated programs whose generator records every use, its position and its kind (reference model)",
     "random programs; reference model is the generator's own record of what it wrote")

prop("P04", "The permissions shown as present are those the compiler grants there",
     "For every displayed place in an accepted function, R, W and O are shown as present exactly when the compiler would accept, immediately "
     "before the statement, a read (shared borrow), a write (mutable borrow) or a move of that very place.",
     ["programs"], "every accepted program, displayed place and permission; compared where the state before the statement is the state at the use",
     "A wrong 'present' letter needs a particular mix of mutability, indirection, loans still live, moves and initialisation; the tests fix a few of these.",
     [AN + "permissions/context.rs", AN + "permissions/output.rs", AN + "permissions/mod.rs", AN + "boundaries/mod.rs"],
     [("permissions at a point", AN + "permissions/context.rs permissions_data_at_point"), ("loan, move and initialisation facts", AN + "permissions/output.rs")],
     "property-based testing: metamorphic probes (a read, write or move inserted before the statement) judged by the Rust compiler",
     "random programs; every probed variant is compiled by rustc; where NLL and Polonius disagree the case is not judged")

prop("P02", "A rejected program shows the missing permission where the compiler complains",
     "When the Rust compiler rejects a function because a use of a place conflicts with a borrow, a move or its mutability, the first such "
     "error's use is displayed with the permission it lacks: R for a use of something moved, uninitialised or mutably borrowed, W for a write or mutable "
     "borrow that is not possible, O for a move of something borrowed or behind a reference. "
     "No place used before that error, other than by a pattern, is displayed with a permission missing because of a borrow, of its type or of its declaration.",
     ["programs"], "every function rejected by the borrow checker, here: generated functions a share of whose statements ignore the borrow rules",
     "The tests hold one program per kind of error; which loan, move or type takes the permission away depends on the combination of paths and control flow.",
     [AN + "permissions/output.rs", AN + "permissions/context.rs", AN + "boundaries/mod.rs", AN + "boundaries/path_visitor.rs", AN + "mod.rs", "crates/aquascope/src/errors/mod.rs"],
     [("permission facts of loans, moves and types", AN + "permissions/output.rs"), ("expected permissions", AN + "boundaries/path_visitor.rs"), ("results up to the first error", AN + "mod.rs and errors/mod.rs")],
     "property-based testing: generated rejected programs, differential oracle = the compiler's first error (code, place, position)",
     "random programs; only the first error is judged, later ones are outside the property")

prop("P05", "The reasons shown for a permission determine it and name the right borrow",
     "In every result, a permission is shown as present exactly when the place's type and declaration allow it and none of the reasons shown against it (a borrow, a "
     "move, missing initialisation) applies. Every borrow or move referred to has a recorded source position "
     "inside the function, and every borrow a recorded region inside the function, which does not begin before it. Where control flows straight on, the region of a borrow or "
     "move holds every later use that lacks a permission because of it, and no use of the borrowed place with every permission it needs that changes or moves it. At the first use the compiler rejects, the borrow or move "
     "blamed for the missing permission is the one at the position the compiler names.",
     ["programs"], "every function with a result, accepted or rejected by the borrow checker",
     "The tests look at letters only; the positions of loans and moves and the regions are not asserted on anywhere but in a few snapshots.",
     [AN + "permissions/context.rs", AN + "permissions/mod.rs", AN + "permissions/output.rs", AN + "permissions/utils.rs", AN + "mod.rs"],
     [("permission data with its reasons", AN + "permissions/context.rs permissions_data_at_point"), ("loan and move points, loan regions", AN + "mod.rs and permissions/context.rs")],
     "property-based testing: generated programs, invariant over the result and differential oracle = the labels of the compiler's diagnostics",
     "random programs; where the compiler gives no label the position is not judged")

prop("P06", "The permission steps lead to the state the compiler grants after the statement",
     "After every statement of an accepted function, a place has the state that the steps show for it: a permission shown as gained is absent "
     "before and present after, one shown as lost is present before and absent after, and what is not shown does not change. Present means that the "
     "place is still used later, and that the compiler would accept a read (R), a write (W) or a move (O) of it at that point.",
     ["programs"], "every accepted function and every statement of it with a statement after it in its block, and entering a block",
     "A wrong step needs a particular mix of control flow (branches, loops, matches) and liveness; the tests are a few dozen snapshots of hand-written programs.",
     [AN + "stepper/mod.rs", AN + "stepper/hir_steps.rs", AN + "stepper/segmented_mir.rs", AN + "stepper/table_builder.rs", AN + "permissions/output.rs", AN + "permissions/context.rs"],
     [("steps of the HIR", AN + "stepper/hir_steps.rs"), ("segments of the MIR", AN + "stepper/segmented_mir.rs"), ("tables and their merging", AN + "stepper/table_builder.rs")],
     "property-based testing: liveness computed from the generated source (reference model) and metamorphic probes judged by the Rust compiler",
     "random programs, up to four statements of each; every probed variant is compiled by rustc")

prop("P07", "The view of changes is the view of everything minus what does not change",
     "For every function the steps reported in the changes-only view are exactly those of the full view from which the places whose permissions do not "
     "change, and then the tables and steps left empty, are removed; without a view being asked for, the changes-only view is given. All other parts of the result are "
     "the same in both views.",
     ["programs", "configurations"], "every function with a result, in both step views and by default",
     "The tests run one view per program and never compare the two.",
     [AN + "stepper/mod.rs", AN + "stepper/table_builder.rs", AN + "mod.rs"],
     [("step views", AN + "stepper/mod.rs"), ("pruning of unchanged rows and empty tables", AN + "stepper/table_builder.rs")],
     "property-based testing: generated programs, metamorphic relation between the views", "random programs, accepted and rejected")

prop("P08", "A function's result depends on nothing but the function's own code",
     "Renaming variables, adding comments, blank lines or white space, or adding unrelated items elsewhere in the crate changes nothing in a function's result but the "
     "names and positions concerned; this includes names and comments with non-ASCII characters and names that resemble others. Analysing the same program again gives the same result.",
     ["programs"], "every function and every such rewriting of the crate around it",
     "A test has one spelling of a program; the dependency on spelling (name matching, byte or char positions) or on other items needs particular pairs of programs.",
     [AN + "boundaries/mod.rs", AN + "mod.rs", AN + "ir_mapper/mod.rs", AN + "permissions/context.rs", "crates/aquascope_front/src/plugin.rs"],
     [("matching of names with places", AN + "boundaries/mod.rs"), ("positions", AN + "mod.rs"), ("per-body analysis", AN + "mod.rs and crates/aquascope_front/src/plugin.rs")],
     "property-based testing: generated programs, metamorphic relation (rename, comment, add items)", "random programs and random rewritings")


prop("P09", "Every crate gets a well-formed result, never a crash or a hang",
     "For every crate the permissions analysis ends with one line of JSON, in which every function the compiler could type-check has exactly one entry: its "
     "diagram, or an error that says what is not supported. A crate that cannot be parsed gives an empty list, and a function that does not type-check a build "
     "error; an accepted program never gives a build error.",
     ["programs"], "every crate, correct, with errors of ownership, types, names or syntax, or with its tokens shuffled",
     "A panic, an endless loop or an internal compiler error takes a particular shape of program; the tests run a few dozen shapes, all of them well-formed.",
     [AN + "mod.rs", AN + "stepper/segmented_mir.rs", AN + "stepper/hir_steps.rs", AN + "boundaries/mod.rs", AN + "ir_mapper/mod.rs", "crates/aquascope_front/src/plugin.rs"],
     [("per-body analysis", "crates/aquascope_front/src/plugin.rs"), ("segments of the MIR", AN + "stepper/segmented_mir.rs"), ("text of paths", AN + "boundaries/mod.rs")],
     "fuzzing with a grammar of program fragments and token mutations; invariant over the output, the compiler's verdict as oracle",
     "random crates; match guards and several shapes of jumps are explicitly not supported by the analysis and count as its explicit errors")

prop("P10", "An error hides what follows it in its own function, and nothing else",
     "When a function has an ownership error, its diagram up to the first error (in the order of the text) is the one without the error, and nothing after the error is "
     "shown. Other functions of the crate are shown as if the error did not exist, also when it is a type error.",
     ["programs"], "every accepted function, every statement before which an error on variables of its own is inserted, and every other function of the crate",
     "The tests have one function with one error per file; what leaks from one body to another or across the first error depends on their order and number.",
     [AN + "boundaries/mod.rs", AN + "stepper/table_builder.rs", "crates/aquascope/src/errors/mod.rs", "crates/aquascope_front/src/plugin.rs"],
     [("diagnostics of the current body", "crates/aquascope/src/errors/mod.rs"), ("filters by the first error", AN + "boundaries/mod.rs compute_permission_boundaries, stepper/table_builder.rs prettify_permission_steps")],
     "property-based testing: generated programs, metamorphic relation (insert an error, add a function)", "random programs and random errors")

MB = "crates/mdbook-aquascope/src/"

prop("P11", "A flow is shown as violated only, and whenever, the compiler rejects it",
     "With flows shown, no flow of an accepted function is marked as a violation; and a function whose only error is that one reference is returned, or stored through a parameter, "
     "with too short a lifetime has a violated flow at the expression from which, or at a use of the variable through which, the compiler says it escapes.",
     ["programs"], "every function with lifetime parameters and bounds between them, and every flow of references through variables, fields, branches and stores",
     "The tests have about ten signatures; the verdict depends on the transitive closure of the bounds and of the constraints of a body.",
     [AN + "permissions/flow.rs", AN + "boundaries/mod.rs"],
     [("the graph of flows", AN + "permissions/flow.rs compute_flows"), ("the kind of a flow", AN + "permissions/flow.rs RegionFlows::flow_kind"), ("flows at an expression", AN + "boundaries/mod.rs get_flow_permission")],
     "property-based testing: differential against the borrow checker of the same compiler, on generated signatures and bodies",
     "random functions; completeness only where the compiler reports exactly one lifetime error and no call or index stands in between")

prop("P12", "cargo aquascope prints the analysis of the package as it is now, as asked",
     "In every history of edits and runs, wherever the package lies and whatever it is called, `cargo aquascope permissions` with any options prints one line, the analysis of the current sources "
     "of the package (and not of its dependencies) with exactly these options, and ends with 0; arguments that make no sense are refused without an answer.",
     ["histories", "configurations"], "every sequence of edits, also to earlier versions and with old time stamps, and of runs with any options; every package of one or more files",
     "No test runs the command; that a stale answer or the wrong option is used shows only in a sequence of runs.",
     ["crates/aquascope_front/src/plugin.rs", "crates/aquascope_front/src/bin/cargo-aquascope.rs", "crates/aquascope_front/src/bin/aquascope-driver.rs"],
     [("arguments", "crates/aquascope_front/src/plugin.rs AquascopePlugin::args"), ("the run", "crates/aquascope_front/src/plugin.rs AquascopePlugin::run, AquascopeCallbacks")],
     "stateful property-based testing: generated histories of edits and runs of the real command; the oracle is the analysis of the same sources in a fresh process",
     "random histories of 2 to 9 steps; the content of an answer is decided by P01 to P11")

prop("P13", "A book page keeps everything but its Aquascope blocks and inline permissions",
     "In every page each Aquascope block, wherever it stands and with any line ending, is replaced by exactly one embedding, in place, and each inline permission outside of "
     "the blocks by its rendering; all other text, the other chapters and the structure of the book are unchanged, byte for byte. "
     "The frontend is loaded once, by its path relative to the page, on exactly the pages with something to show, and no scratch file is left behind.",
     ["inputs"], "every book: all texts, numbers and positions of blocks and inline permissions, line endings, nesting of chapters",
     "The tests parse one block at offset 0 and one inline permission; what is lost or doubled depends on what stands next to what.",
     [MB + "block.rs", MB + "permissions.rs", MB + "preprocessor.rs", MB + "main.rs"],
     [("recognition of blocks", MB + "block.rs parse_all"), ("replacements of a page", MB + "preprocessor.rs replacements")],
     "property-based testing: generated books put together from pieces whose rendering is known, run through the real preprocessor binary",
     "random books; cargo is replaced by a stand-in, so the diagrams themselves are not part of this")

prop("P14", "Annotations never reach the compiler and point where the author put them",
     "The program that is compiled, and that the page shows, is the block's text without its annotations, with hidden lines and escaped '#' lines restored. "
     "Every annotation is passed on once, with its options, at the line or the character of that program at which it stood.",
     ["inputs"], "every block: all programs, texts in any script, and all kinds, numbers and positions of annotations, hidden and escaped lines",
     "The one test has four lines of ASCII; an offset that is wrong by one appears behind some combination of escapes, multibyte text, hidden lines and other annotations.",
     [MB + "annotations.rs", MB + "block.rs"], [("parser of annotations", MB + "annotations.rs parse_annotations")],
     "property-based testing: blocks are generated together with the program and the annotations they stand for (reference model)",
     "random blocks")

prop("P15", "What the page embeds is what the author wrote and the analysis answered",
     "The attributes of an embedding, decoded as a browser and the frontend decode them, are the program, the operations and the options of the block and, for every "
     "operation, the very JSON value the analysis printed, for any characters in them and also when the answer comes from the cache.",
     ["inputs"], "every answer (a JSON value), every program and option of a block",
     "No test looks at the HTML; escaping goes wrong for particular characters in particular places.",
     [MB + "preprocessor.rs", MB + "cache.rs"], [("the embedding", MB + "preprocessor.rs process_code"), ("answers on disk", MB + "cache.rs")],
     "property-based testing: round trip of generated values through the real preprocessor binary", "random JSON values")

prop("P16", "The cache never changes what a book shows, and spares what was built before",
     "In every history of builds each block shows the answer for its own program, operations and options and its own annotations, as a build without a cache would; a damaged cache "
     "never fails a build. A block that a successful build has seen is not analysed again as long as the cache is undamaged, also after a build that failed.",
     ["histories"], "every sequence of edits and builds, of failing blocks, and of damage to the cache file between builds",
     "The test has one block and three builds; a stale or foreign answer needs a history in which two blocks are mistaken for each other.",
     [MB + "cache.rs", MB + "preprocessor.rs", MB + "block.rs", MB + "annotations.rs"],
     [("key of an answer", MB + "block.rs AquascopeBlock, annotations.rs Hash"), ("load and save", MB + "cache.rs")],
     "stateful property-based testing: generated histories of edits, builds and damage against a model of what is cached", "random histories of 2 to 5 builds")

prop("P17", "An inline permission is rendered as written, or the build fails and names it",
     "@Perm{p} and @Perm[option]{p}, for each of the four permissions and three options, are rendered as that permission with that option whatever stands around them, and are "
     "left alone within an Aquascope block. Any other permission or option fails the build with a message that names it and no output.",
     ["inputs"], "every text around, number of and choice of inline permissions, valid and invalid",
     "The tests have two valid texts and one invalid one.",
     [MB + "permissions.rs", MB + "preprocessor.rs"], [("inline permissions", MB + "permissions.rs parse_perms")],
     "property-based testing: generated pages put together from pieces whose rendering is known", "random pages")

prop("P18", "Every block runs on its own, as its header says, and a failure fails the build",
     "For every block of a book each of its operations runs exactly once, on that block's program alone, in a scratch project of its own, with the flags its header asks for, and its own answer is "
     "embedded, for any sizes of outputs and any timing. When a run fails, does not end, or answers with an error or with something that is not an answer, the build fails without output, "
     "and without a crash, and shows the program and what the run printed.",
     ["schedules", "fault_sequences"], "every set of blocks, built in parallel, and every way in which some of the runs fail",
     "The tests never run two blocks, and have no failing run; a mix-up needs concurrency, a hang an output larger than a pipe.",
     [MB + "preprocessor.rs"], [("one run", MB + "preprocessor.rs run_aquascope"), ("blocks in parallel", MB + "preprocessor.rs replacements")],
     "property-based testing with injected faults: generated books, a stand-in for cargo that records every call and answers, fails, delays or floods as planned",
     "random books, timings and faults; whether options reach the analysis is decided up to the command line")


SV = "crates/aquascope_serve/src/"
prop("P19", "The server analyses exactly the posted code and answers exactly what was printed",
     "Every request to /permissions or /interpreter is answered once. Its code is analysed byte for byte, once, by the operation of its path, with --should-fail for the interpreter if and only if its config is an "
     "object with shouldFail other than false and null; the answer holds all that the run printed to each stream and tells success if and only if something was printed, whatever the exit status. "
     "When no project can be made the answer is an error that says why. Pages of any origin may ask.",
     ["inputs", "configurations"], "every code and config, in any JSON notation, and every output: any bytes, sizes and exit status, or end by a signal",
     "The one test of the server writes a file and reads it back; no test sends a request.",
     [SV + "container.rs", SV + "server.rs", SV + "main.rs"], [("one run", SV + "container.rs permissions, interpreter"), ("the endpoints", SV + "server.rs make_single_file_endpoint")],
     "property-based testing: generated requests to the real server over HTTP; a stand-in for cargo records what it is given and answers as planned",
     "random requests; the compiler behind the server is replaced by a stand-in")

prop("P20", "Requests handled at the same time neither see nor change each other",
     "Whatever the overlap of requests, over one connection or several, each is answered with what its own run on its own code printed, every request has exactly one run, "
     "and the code that a run analyses does not change while it runs.",
     ["schedules"], "every set of overlapping requests and every order of their steps",
     "No test sends two requests; a mix-up needs two that overlap at a particular step.",
     [SV + "container.rs", SV + "server.rs"], [("scratch projects", SV + "container.rs Container::new")],
     "property-based testing with generated schedules: concurrent requests with drawn start times and running times against the real server",
     "random schedules of 2 to 12 requests; the interleaving within the server is the scheduler's")

prop("P21", "However a request ends, the server leaves nothing behind and goes on",
     "After requests that succeed or fail, that take too long, whose client goes away, that are malformed or not HTTP at all, no scratch folder and no running command of theirs remains and the server answers the next. "
     "A command that does not end is ended and its request answered with an error; what is not a request is answered with an error and never run.",
     ["histories", "fault_sequences"], "every sequence, also overlapping, of such requests, and every moment at which a client goes away or cargo fails",
     "No test sends a request, far less one that goes wrong half-way.",
     [SV + "container.rs", SV + "server.rs"], [("end of a command", SV + "container.rs exec_output"), ("scratch folder", SV + "container.rs Container"), ("malformed requests", SV + "server.rs Json")],
     "stateful property-based testing with injected faults: generated histories against the real server, then a look at its scratch folder and its processes",
     "random histories of 1 to 6 requests; the time limit itself is met in one fixed history per run")


FE = "frontend/packages/"
ED = FE + "aquascope-editor/src/"
WEB = "property-based testing: generated answers, pages run in a stand-in for a browser, compared with an independent model of what they have to show"
WNOTE = "random pages; DOM, React, CodeMirror and LeaderLine are replaced by small stand-ins, the frontend's own code and lodash are real"

prop("P22", "The page shows each expectation of the analysis once, at its place",
     "For every embedded block with boundaries turned on, the code shows one stack of letters at each place the answer has an expectation for, counting lines and characters: "
     "R, W, O and F for what is expected, marked as missing exactly for what is not there or is a violation, open on the lines the annotations focus; if boundaries are off, or a part of the answer is an error, nothing for it. The code is shown unchanged.",
     ["inputs", "configurations"], "every answer of the analysis, code in any script, annotations and options, and several blocks per page",
     "The tests of the frontend only look whether a page has an editor; displacement depends on the characters before a place, mix-ups on the set of places.",
     [ED + "editor-utils/boundaries.tsx", ED + "editor-utils/permissions.tsx", ED + "editor-utils/misc.tsx", ED + "lib.tsx"],
     [("the stack", ED + "editor-utils/boundaries.tsx PermStack, BoundaryPointWidget"), ("one per place", ED + "editor-utils/permissions.tsx makePermissionsDecorations"), ("positions", ED + "editor-utils/misc.tsx linecolToPosition")], WEB, WNOTE)

prop("P23", "The page shows the permission changes of each line, a row per path",
     "For every embedded block with the stepper turned on, each line with changes shows its tables at its end: a row per path in the order of the answer, with the icon of the most important event and, "
     "for each of R, W and O, gained, lost, kept or absent as the answer says. Rows outside of the paths in focus are behind dots that show and hide them, lines outside of the lines in focus are closed, arrows open and close "
     "their own line only, and all tables begin in the same column.",
     ["inputs", "configurations", "histories"], "every answer of the analysis, code, matchers of paths by text or regular expression, focused lines, and clicks",
     "No test renders a table; what is in focus and the order of events depend on combinations of answers and annotations.",
     [ED + "editor-utils/stepper.tsx", ED + "editor-utils/permissions.tsx", ED + "editor-utils/misc.tsx"],
     [("a row", ED + "editor-utils/stepper.tsx PermDiffRow, PermChar"), ("focus", ED + "editor-utils/stepper.tsx StepLine, StepTableIndividual"), ("alignment", ED + "editor-utils/stepper.tsx PermissionStepLineWidget")], WEB, WNOTE)

prop("P24", "Pointing at a permission highlights exactly what explains it",
     "While the pointer is on a letter of a stack or on a permission of a row, the code highlights, in the colour of that permission, exactly the loan or move that the answer gives as the reason for it and the regions in which that has effect, "
     "and nothing of other bodies, other loans or older answers; once the pointer leaves, nothing.",
     ["inputs", "histories"], "every answer, with any overlap of regions and the same keys in several bodies, before and after a new answer of the server",
     "No test points at anything; that only the right region lights up has to hold for all of them at once, whatever ranges overlap.",
     [ED + "editor-utils/misc.tsx", ED + "editor-utils/boundaries.tsx", ED + "editor-utils/stepper.tsx"],
     [("regions", ED + "editor-utils/misc.tsx generateAnalysisDecorationFacts, showRegion, hideRegion"), ("reasons", ED + "editor-utils/boundaries.tsx PermStack; stepper.tsx PermDiffRow")], WEB, WNOTE)

prop("P25", "Each embedded block shows its own code and answers; its buttons work on it",
     "Every block of a page shows its own code and answers, independently of the other blocks, whatever they contain, errors included, which are reported to the console; it can be edited if and only if it is interactive. Lines that are hidden stay hidden until "
     "the eye is clicked; copying copies the code as it is now; editing removes the marks that belong to the old code; refreshing sends the code as it is now once per operation to the block's server and shows the answers, "
     "or keeps what is shown and reports the reason if the server fails. Initializing again changes nothing.",
     ["histories", "configurations", "inputs"], "every set of blocks and every sequence of edits, clicks, answers and failures",
     "The tests load one page; no test clicks, edits, or has two blocks.",
     [FE + "aquascope-embed/src/main.tsx", ED + "lib.tsx"],
     [("the blocks", FE + "aquascope-embed/src/main.tsx initAquascopeBlocks"), ("operations", ED + "lib.tsx renderOperation, callBackendWithCode"), ("edits", ED + "lib.tsx resetMarkedRangesOnEdit"), ("hidden lines", ED + "editor-utils/misc.tsx hiddenLines; lib.tsx HideButton")],
     WEB.replace("generated answers", "stateful: generated blocks and actions"), WNOTE)

prop("P26", "The page draws each recorded state of the program faithfully",
     "For every trace, the diagram has a state per step, or one per mark in the code: the latest state of the function around the mark that began before it, in order of execution, labelled alike in code and diagram. A state draws its frames and locals by name with their values, those that are moved marked, "
     "the heap, and per pointer one arrow to exactly the cell, or run of cells, it points to; String, Vec and Box are drawn as the pointer within unless concrete types are asked for, by option or by button. A failure is told at the last state, with the dangling pointer marked.",
     ["inputs", "configurations"], "every trace without shadowed locals or pointers to elided elements, any nesting of values, any marks and options",
     "No test renders a trace; arrows depend on paths through nested values, states on the order of marks and steps.",
     [ED + "editor-utils/interpreter.tsx"],
     [("values", ED + "editor-utils/interpreter.tsx ValueView, AdtView, AbbreviatedView, PointerView"), ("arrows", ED + "editor-utils/interpreter.tsx renderArrows"), ("marks", ED + "editor-utils/interpreter.tsx filterSteps, renderInterpreter")], WEB.replace("generated answers", "generated traces"), WNOTE)

prop("P27", "The playground asks about what is chosen and shows what is answered",
     "On the playground page each button sends the code as it is now and the boxes as they are checked to its operation, and is blocked until the answer is there, whatever the answer is, even none. An answer is shown in code and diagram as the boxes were when asked; "
     "a failure leaves no marks of an older version of the code. What the server printed is in the other tab; an error of the build or of the analysis opens that tab and its card, "
     "of the build for five seconds, of the analysis with its message until it is closed.",
     ["histories", "fault_sequences"], "every sequence of edits, boxes, tabs, requests, and answers, failures or no connection, also of both operations at once",
     "The tests look whether the page has an editor; no test sends a request.",
     [FE + "aquascope-standalone/src/index.tsx", ED + "lib.tsx", FE + "aquascope-standalone/index.html"],
     [("buttons and errors", FE + "aquascope-standalone/src/index.tsx"), ("requests", ED + "lib.tsx callBackendWithCode, renderOperation, renderPermissions")],
     WEB.replace("generated answers", "stateful: generated actions, answers and failures"), WNOTE)


def main():
    checks, na = [], []
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p, tech, note in PROPS:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
            path = f"checks/{p['id']}.py"
            if os.path.exists(os.path.join(ROOT, path)):
                checks.append({"property": p["id"], "quick_cmd": f"python3-vt {path}", "thorough_cmd": f"python3-vt {path} --thorough",
                               "technique": tech, "level": "exploration", "level_note": note})
            else:
                na.append({"property": p["id"], "reason": note})
    m = {"version": 1, "setup_cmd": "lib/build.sh vh mdb fake serve cli web", "checks": checks, "not_applicable": na}
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
