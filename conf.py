# Read by run.py. q/t: rapid checks per shard in the quick / thorough tier.
CONF = {
    "C01": dict(q=18000, t=200000, rule="random type terms (10 constructors, conflicting package names, arbitrary tags/names/lengths), as String() or in every slot of a generated file; non-trivial: the term nests at least two constructors; distinct by canonical term"),
    "C18": dict(q=45000, t=500000, rule="every code point as a leading character with four suffixes (shard 0), then random names; non-trivial: non-empty and not already starting with an upper-case letter; distinct by text"),
}
CONF["C02"] = dict(q=72000, t=300000, rule="random type terms compared accessor by accessor at every node, before and after scribbling over every list obtained; and single constructor calls with possibly missing/negative/invalid arguments; non-trivial: depth at least two, or a construction attempt; distinct by canonical term")
CONF["C03"] = dict(q=4500, t=60000, rule="go/types values built by constructors or taken from a type-checked generated package (types through aliases, embedded unnamed interfaces; const/var/func/type/method objects), all universe and unsafe objects once; non-trivial: some converted type nests at least two constructors; distinct by source or term")
CONF["C04"] = dict(q=100000, t=150000, rule="reflect types composed with reflect.*Of over 11 compiled packages, standard types and 200 compiled unnamed struct/interface types (all checked once by themselves); non-trivial: nests at least two constructors; distinct by canonical term")
CONF["C05"] = dict(q=45000, t=200000, rule="sequences of up to 80 registrations and queries through every entry point, over 2-40 packages with conflicting, unknown, odd names and paths, compared with a reference table after each step; non-trivial: at least two foreign packages registered; distinct by history")
CONF["C06"] = dict(q=15000, t=200000, rule="one to eight types, signatures or symbols (depth up to 5, unknown and conflicting package names; the same again, extended in place, or look-alikes over other packages) qualified one after another against a table with a random registration history, each by ensure and plain variants, twice; non-trivial: something refers to at least one foreign package; distinct by history and term")
CONF["C03"].update(q=12000, t=150000)
CONF["C07"] = dict(q=4500, t=60000, rule="programs of 1-3 generated packages with 1-3 files each over external packages with conflicting or unknown names: every element kind, types nested up to 4 deep, bodies and initialisers with references of every supported form by call and by template; rendered, compiled, and every reference resolved by the type checker; non-trivial: at least two references in the files; distinct by reference source")
CONF["C08"] = dict(q=4500, t=60000, rule="the same programs; the parsed output is compared declaration by declaration with an independent printing of the model; non-trivial: at least two specs in some file; distinct by reference source")
CONF["C09"] = dict(q=4500, t=60000, rule="the same programs with arbitrary comment texts (line breaks, comment delimiters, code, quotes, directives, blanks) on files, packages and every element; non-trivial: at least two comments; distinct by reference source")
CONF["C10"] = dict(q=27000, t=120000, rule="code blocks of up to 30 calls (plain, formatted, line, template and nested), arbitrary text and verbs, as body or initialiser, built three ways with different splits; non-trivial: at least two calls; distinct by script")
CONF["C11"] = dict(q=18000, t=120000, rule="up to 25 references of every supported form (all element kinds, types, methods, go/types and reflect values, universe objects; by value and by pointer; own, foreign, generated and unknown packages) in calls and templates; non-trivial: at least one reference; distinct by forms and targets")
CONF["C21"] = dict(q=7500, t=100000, rule="programs as for C07 plus explicit registrations used or not used, import blocks compared with the references of the independent printing; non-trivial: at least two imports in some file; distinct by registrations and reference source")
CONF["C12"] = dict(q=36000, t=200000, rule="template data composed of all containers, library values, go/types and reflect values, named types with unexported fields, nils and typed nils, the same pointer, slice or map in several places, parts of slices, pointers at other slots and back at enclosing values, slices and maps that contain themselves, against tables with earlier registrations; the rebuilt value is compared with an independent description, also after slots were changed and the value used again; non-trivial: holds at least one reference; distinct by value")
CONF["C13"] = dict(q=7500, t=100000, peer=True, rule="programs, and template data made of maps with many keys of every sort over packages with conflicting names: built and rendered several times in one process and once in a second one, all results compared byte for byte; non-trivial: at least two references; distinct by model")
CONF["C14"] = dict(q=4500, t=60000, rule="programs in which code blocks, types, fields, interface elements, signatures, template data and whole elements occur in several files, histories of up to 7 renderings (single, several, failing) compared with fresh models, renderings in between while the model is built, changes to names, comments, tags, bodies and arguments after rendering compared with the same changes before, and all answers of model objects before and after; non-trivial: something is shared; distinct by program and history")
CONF["C15"] = dict(q=7500, t=100000, rule="programs rendered plainly, with syntax errors made of up to three fragments in four places, to writers failing at any byte, with failing templates; non-trivial: more than eight lines, or a fault; distinct by source and fault")
CONF["C16"] = dict(q=7500, t=100000, rule="lists of up to 16 generated files with faults when opening, rendering, writing and closing, alone and combined, against the calls that must happen; non-trivial: at least two files; distinct by script")
CONF["C17"] = dict(q=6000, t=80000, nobody=True, rule="histories of up to 14 writes (to directories, through GOPATH), foreign files and removals in a scratch tree, compared with a model of the tree after each write; and file names; non-trivial: at least two files written, or a name; distinct by history")
CONF["C19"] = dict(q=20000, t=150000, rule="histories of up to 30 steps creating const/var/type elements in every way, grouping, adding to files through every route, renaming elements and packages, rendering; every answer of every element compared with a reference after each step; non-trivial: some element has been added to a file; distinct by history")
CONF["C20"] = dict(q=36000, t=150000, rule="functions, methods and interface methods with signatures growing over up to 30 steps before and after being added, every derived symbol, reference and type compared with a reference, and those derived earlier again; receivers made in every way from named and unnamed types; non-trivial: at least two steps, or a receiver; distinct by history")
CONF["C22"] = dict(q=6000, t=80000, purego=True, rule="template data with and without unexported fields, programs and names, given to a second process built with -tags purego; results compared with the default build's, or (references in unexported fields) with an independent description in which those fields are carried over; non-trivial: at least one reference; distinct by value, source or names")
CONF["C23"] = dict(q=1000, t=20000, race=True, nobody=True, procs=4, technique="property-based testing (rapid) of concurrent use, with the race detector and a sequential reference", rule="scenes of up to a dozen goroutines: files of one program that share elements, types, code blocks, arguments and template data, rendered singly or in lists, questions to their elements, other programs built and rendered, one template value or one type used with several import tables, conversions of shared go/types and reflect types, name helpers; each scene played twice under the race detector, every result compared with the same job done alone; non-trivial: at least two goroutines; distinct by scene",
                   note="Random search over scenes with shrinking; schedules are those the runtime happens to choose, but the race detector reports conflicting accesses whichever comes first. Needs cgo; without it only results are compared. Trusts the Go race detector and the harness's own models.")
