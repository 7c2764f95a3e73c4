#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as code so the lines stay well-formed)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("C01", "Rendered type expressions denote exactly the modelled type",
  "For every type that can be built with the type constructors, its rendered text, read by a Go parser and type checker, denotes exactly that type: same constructors and nesting, named types and qualifiers, channel directions, array lengths, parameter and result types, variadics, field names, embedding, struct tags, methods and embedded interfaces. Parameter and result names survive too, and when only some entries of a list are named the unnamed ones read as the blank identifier.",
  ["inputs"], "all finite type terms (arbitrary nesting, widths, names, tags, directions, lengths), in String() of a type and wherever a type is printed in a generated file",
  "types_test.go checks accessors only and never the rendered text; the golden files contain about ten type expressions, none nested in a way where text is ambiguous (channels of channels, embeds followed by methods, tags that cannot be backquoted).",
  ["types.go", "model.go"], [("typeNameToString / typeNameToBuffer", "types.go"), ("signatureToBuffer", "types.go"), ("FieldSpec.writeTo, TypeSpec.writeUnderlying", "model.go")],
  ["TypeName.String()", "WriteGoFile output"])
p("C02", "Type values report what they were built from; ill-formed types are rejected",
  "Every constructed type value answers each accessor (kind, symbol, element, key, length, direction, basic kind, signature, fields, methods, embeds) with exactly what it was built from, and with the documented empty answer for accessors that do not apply. Changing a field, method or embed list obtained from a type value does not change the type. Constructions the API documents as impossible (missing element or argument type, negative length, bad direction or kind, variadic without a final slice) are refused by a panic, and nothing else is.",
  ["inputs"], "all constructor argument combinations, valid and invalid, nested arbitrarily",
  "TestNewType samples 4 element types one level deep, never checks isolation of returned slices, and covers a single invalid construction.",
  ["types.go"], [("PointerType/SliceType/ArrayType/MapType/ChannelType/FuncTypeFromSig/StructType/InterfaceType/BasicType", "types.go"), ("TypeName accessors", "types.go")],
  ["TypeName accessors"])
p("C03", "Conversion from go/types preserves the element",
  "For every non-generic go/types type, the converted type denotes the same type (aliases may be seen through), with parameter names, tags, embedding and variadics kept; for every package, constant, variable, type, function and method object the converted package, symbol or method reference names that same element. A concrete method's signature gains its receiver as first parameter. An interface with a type set, which has no counterpart, is refused by a panic and never taken for another type. Predeclared types and objects, which have no package, convert to unqualified references.",
  ["inputs"], "all go/types types and objects of non-generic programs, including predeclared ones, aliases, unsafe.Pointer, interfaces with explicit and embedded parts, and methods of concrete and interface types",
  "TestTypeNameForGoType is an empty TODO; no test calls the conversions.",
  ["types.go", "model.go"], [("TypeNameForGoType, signatureFromGoType", "types.go"), ("SymbolForGoObject, PackageForGoType", "model.go")],
  ["TypeNameForGoType", "SymbolForGoObject", "PackageForGoType"])
p("C04", "Conversion from reflect types preserves the type",
  "For every reflect type of non-generic, package-level types, the converted type denotes the same Go type: same constructors, named types with their import path, channel directions, array lengths, parameter and result types, variadics, struct fields with names, embedding and tags, and the complete method set of unnamed interfaces (all as explicit methods).",
  ["inputs"], "all reflect.Type values built from basic, named, pointer, slice, array, map, chan, func, struct and interface types, nested arbitrarily",
  "TestTypeNameForReflectType is an empty TODO; no test calls the conversion.",
  ["types.go"], [("TypeNameForReflectType, signatureFromReflectType", "types.go")],
  ["TypeNameForReflectType"])
p("C05", "Import table: one stable, unique, legal name per imported package",
  "Over any sequence of registrations and queries, every import path keeps one prefix for life, different paths never share a prefix, the file's own package always has the empty prefix, and a prefix is always a legal Go package qualifier when the given package name is one or is left empty (then it hides no predeclared identifier either). The import list is sorted by path and holds exactly the registered foreign packages, with an alias whenever the prefix is not known to be the package's real name and none otherwise. Querying a package that was never registered panics and changes nothing.",
  ["histories"], "all sequences of register/query/list operations over any mix of import paths (conflicting base names, names ending in digits, unknown package names, versioned and dashed paths, the own package)",
  "TestImportPackages runs one fixed sequence of 11 registrations with plain alphanumeric names.",
  ["imports.go"], [("prefixForPackage, RegisterImport, PrefixForPackage", "imports.go"), ("ImportSpecs, ImportSpec.String", "imports.go")],
  ["Imports methods"],
  [("importsByPath / pathsByName", "assigned prefix per path and its inverse", "imports.go")])
p("C06", "Qualifying a symbol, type or signature changes qualifiers and nothing else",
  "Qualifying any symbol, type or signature against an import table yields the same element in which every package qualifier is exactly the prefix the table assigns to that import path (empty for the own package and for unqualified symbols), with structure, names, tags and variadics unchanged, at every depth. The ensure variants register every package referenced and no other; the plain variants give the same answer when all packages are registered and otherwise panic without registering anything. The argument itself is left unmodified and qualifying again changes nothing.",
  ["inputs", "histories"], "all types, signatures and symbols, against all import tables reachable by earlier registrations",
  "imports_test.go ends in 'TODO: tests for symbol and typename importing/re-writing'; only trivially qualified types occur in the golden files.",
  ["imports.go"], [("qualify, qualifyType, qualifySignature, qualifyFields, qualifyMethods, qualifySymbols", "imports.go")],
  ["EnsureImported/Qualify", "EnsureTypeImported/QualifyType", "EnsureAllTypesImported/QualifySignature"])
p("C07", "Every reference in generated code resolves to the element it was made from",
  "For any well-formed set of generated files over any packages, the output compiles, and each reference that was supplied as a model object (in declared types, signatures, receivers, embeds, initialisers, bodies or templates) resolves, under the file's own imports, to the package and element it was made from. This holds whatever name conflicts exist between packages, whether package names are known, and whether the element is foreign, in another generated file, or in the same package.",
  ["programs"], "all generated multi-file, multi-package programs whose declared names are legal and do not collide with package names",
  "The two end-to-end tests compare one hand-written file each with a golden; no conflict, alias, cross-file or template reference occurs, and the golden is only compared, not compiled against a model.",
  ["model.go", "imports.go", "code.go", "templates.go"], [("WriteGoFile qualification pass", "model.go"), ("CodeBlock/line/templ qualification", "code.go"), ("alias assignment", "imports.go")],
  ["WriteGoFile output parsed and type-checked"])
p("C08", "Generated files declare exactly the modelled elements, in order",
  "The rendered file contains exactly the declarations, specs, fields, methods, names, types, initialisers, tags, receivers, parameters and bodies that were added, in the order they were added: nothing lost, duplicated, reordered or merged. Alias and defined types, constant groups that repeat a previous initialiser, multi-name specs and the package clause with its canonical import path are kept as modelled.",
  ["programs"], "all generated files made of any mix and nesting of const, var, type and func elements built through any of the API's construction routes",
  "Two golden files, no type aliases, multi-name specs, iota groups, nested unnamed structs/interfaces, grouped type declarations or empty files.",
  ["model.go"], [("GoFile.writeTo and the *Decl/*Spec writeTo methods", "model.go"), ("NewTypeSpec, NewTypeAlias, NewStructTypeSpec, NewInterfaceTypeSpec", "model.go")],
  ["WriteGoFile output"])
p("C09", "Comments stay comments and stay attached",
  "Whatever text a comment holds (line breaks, comment delimiters, code, quotes), it appears in the output only as comment text, line for line, attached to the element it was set on, and the code apart from comments is the same as without it. The file comment is separate from the package documentation, which is exactly the package comment.",
  ["inputs"], "all comment strings that are legal inside a Go line comment, on every commentable element: file, package, declaration, const, var, type, field, embed, method, func",
  "One golden file with single-line plain comments on some elements; no multi-line or hostile text, no file or package comment at all.",
  ["model.go"], [("writeComment and its callers", "model.go")],
  ["WriteGoFile output parsed with comments"])
p("C10", "Code block text is emitted verbatim, in order",
  "The body or initialiser rendered for a code block is exactly the concatenation, in call order, of what was added to it: plain text untouched (percent signs included), formatted text as the fmt package renders it with references replaced by their qualified form, lines ended by one newline, template output, and nested code blocks in place. A body that ends with a comment and without a newline is no exception. How the same content is split over calls makes no difference.",
  ["inputs", "histories"], "all sequences of Print/Println/Printf/Printlnf/AddCode/RenderCode calls on code blocks and funcs, with arbitrary text, verbs and arguments",
  "Tests use only Printlnf and Println with short fixed lines; no AddCode, Print, RenderCode or percent sign.",
  ["code.go", "model.go"], [("CodeBlock methods, line.writeTo, templ.writeTo", "code.go"), ("FuncSpec code methods", "model.go")],
  ["function bodies and initialisers in WriteGoFile output"])
p("C11", "Every supported kind of reference argument renders as the qualified reference",
  "In a code block, any supported way of naming an element (package, symbol, method reference, type, const/var/type/func element, embedded interface element, reflect type, go/types type, object or package; by value or pointer) renders as the source reference to that element as seen from the file: unqualified in its own package, otherwise qualified by the prefix under which the package is imported, and the package is imported. Interface methods, methods passed as elements and struct fields render as the bare name without importing anything; a method reference renders as type dot method.",
  ["inputs"], "all supported argument kinds, for own, foreign and conflicting packages, known and unknown package names, any position in any code block",
  "The golden files use only *TypeSpec, *ConstSpec, *VarSpec and Symbol arguments, always without conflicts.",
  ["code.go"], [("line.qualify", "code.go"), ("String methods of model elements", "model.go")],
  ["function bodies and initialisers in WriteGoFile output"])
p("C12", "Template data is rebuilt with references qualified and all else intact",
  "For any template data value, also one with cycles (of pointers, or maps and slices that contain themselves), the rebuilt value has the same types and shape, every contained reference that can be replaced in its slot (package, symbol, method reference, type, signature, file element; go/types and reflect values in slots able to hold the replacement) is the qualified one, every other part is equal to the original, and all referenced packages are imported. The original value is never modified, repeating the operation changes nothing, and no supported value causes a panic.",
  ["inputs"], "all data values nested from structs (exported and unexported fields, addressable or not), pointers (also back at enclosing values), slices, arrays, maps (keys and values), interfaces and nils holding references anywhere",
  "No test calls QualifyTemplateData or RenderCode.",
  ["templates.go", "templates_unsafe.go", "imports.go"], [("qualifyTemplateData", "templates.go"), ("getField", "templates_unsafe.go"), ("Imports.QualifyTemplateData", "imports.go")],
  ["Imports.QualifyTemplateData result", "RenderCode output"])
p("C13", "Output is a deterministic function of the model",
  "Rendering equal models always gives byte-identical files and the same import names, in every run and every process. In particular the order in which a map inside template data happens to be iterated never influences aliases or text (for maps whose keys differ in what they hold, not only in address).",
  ["programs", "schedules"], "all models, including template data with maps whose keys or values reference packages with conflicting names; all map iteration orders",
  "Each golden test renders once, without maps.",
  ["imports.go", "templates.go", "model.go"], [("ImportSpecs sorting", "imports.go"), ("qualifyTemplateData map case", "templates.go")],
  ["WriteGoFile output", "ImportSpecs"])
p("C14", "Rendering leaves the model reusable",
  "Rendering a file does not change what any model object means: rendering it again gives the same bytes, and files, elements, types, code blocks, argument lists or template data shared with other files render there exactly as if nothing had been rendered before, in any order. Types and symbols derived from an element after rendering equal those derived before.",
  ["histories"], "all sequences of render operations over files that share any model parts, with any name conflicts between them",
  "Each test renders every file exactly once and shares nothing between files.",
  ["code.go", "model.go", "templates.go"], [("qualification pass of WriteGoFile", "model.go"), ("line.qualify, templ.qualify", "code.go")],
  ["repeated WriteGoFile output", "ToTypeName/Underlying after rendering"])
p("C15", "One-file rendering is all-or-nothing and canonically formatted",
  "When rendering succeeds, the writer has received exactly the complete, gofmt-formatted file. When the rendered code has a syntax error, the result is a format error that carries the unformatted source and the formatter's message, and the writer has received nothing. A writer's error is returned to the caller unchanged.",
  ["inputs", "fault_sequences"], "all models including ones with arbitrary, possibly malformed, body and initialiser text; all writer failures",
  "Tests render only valid files to an in-memory buffer and never see an error.",
  ["model.go"], [("WriteGoFile, FormatError", "model.go")],
  ["WriteGoFile result and bytes written"])
p("C16", "Multi-file writing stops at the first failure and never loses it",
  "Writing a list of files opens each file's writer once, in order, under package path joined with file name, writes exactly that file's rendered content to it and closes it exactly once before the next is opened. At the first failure of any kind (open, render, write or close) that failure is returned, the opened writer is still closed, and no later file is opened; success is reported only if every file was opened, written and closed without error.",
  ["fault_sequences"], "all file lists and every position and kind of failure: open error, syntax error, write error after any prefix, close error",
  "Tests write one valid file with writers that never fail.",
  ["model.go"], [("WriteGoFiles", "model.go")],
  ["sequence of open/write/close calls and returned error"])
p("C17", "Files land at the right place on disk with exactly the rendered content",
  "Writing to a directory tree puts each file at root, then package path, then file name, creating missing directories, and leaves it holding exactly the rendered source even if a longer file was there before; no other file is touched. The GOPATH variant uses the first entry of the GOPATH list as root and reports an error only when GOPATH is empty or writing fails. Creation of a file model whose name has a directory part or lacks the .go extension is refused.",
  ["inputs", "configurations"], "all package paths, file names, pre-existing directory contents and GOPATH settings",
  "The file-system writers are only reachable with 'regenerate = true'; the GOPATH writer is never called.",
  ["model.go"], [("WriteGoFilesToFileSystem, WriteGoFilesToGoPath, NewGoFile", "model.go")],
  ["directory tree after the call", "returned error"])
p("C18", "Export and Unexport always yield the right visibility",
  "For every non-empty valid UTF-8 name, the exported form starts with an upper-case letter, so Go treats it as exported, and the unexported form is not exported; only the start of the name changes: a leading cased letter is replaced by its other case, a leading underscore becomes X, any other start is kept and prefixed. Both are idempotent, the empty name stays empty, and only invalid UTF-8 starts are refused.",
  ["inputs"], "all strings; in particular every Unicode code point in first position",
  "names_test.go has four ASCII names per function.",
  ["names.go"], [("Export, Unexport", "names.go")],
  ["Export, Unexport results"])
p("C19", "Const, var and type elements refer to themselves correctly",
  "Once added to a file, every const, var and type element yields symbols and type names with its own name and exactly that file's package (of several, the one it was added to last), by index for multi-name elements; its string form is that symbol, or the comma-separated symbols. Before being added (or for an ambiguous or unnamed element) asking for a symbol panics, while the string form is the bare name or names. A type's underlying type is the one it was built from, and only aliases report being one. Fields and interface methods print as their names, embedded interfaces as their symbols.",
  ["inputs", "histories"], "all elements, added through any route (single, grouped, at creation or later before adding), in any file",
  "The golden tests use a handful of single-name elements after adding them, and no test inspects symbols or panics.",
  ["model.go"], [("ToSymbol/SymbolAt/String/ToTypeName/Underlying/IsAlias of specs", "model.go"), ("AddElement/AddConst/AddVar/AddType and setParent", "model.go")],
  ["spec methods"])
p("C20", "Functions, methods and receivers describe themselves correctly",
  "A function element yields a symbol, or for a method a method reference on its receiver type, in its file's package (of several files, the one it was added to last); its type has exactly its signature, with the receiver (pointer or value) as first parameter for methods, and interface methods likewise with their interface type. Receivers built from a named type, a pointer to one, or a type element record exactly that type name and pointer-ness, and unnamed types are refused. Deriving types or references never changes the element.",
  ["inputs", "histories"], "all functions, methods, interface methods and receivers with any signature, named or unnamed receivers and parameters, before and after being added to a file",
  "The golden tests define two methods and never derive a reference or type from a function.",
  ["model.go"], [("FuncSpec.ToSymbol/ToTypeName/String", "model.go"), ("InterfaceMethod.ToTypeName/ToMethodRef", "model.go"), ("NewReceiver, NewReceiverForType, NewPointerReceiver, NewPointerReceiverForType", "model.go")],
  ["FuncSpec, InterfaceMethod and ReceiverSpec results"])
p("C21", "The import block lists exactly the packages in use",
  "A generated file imports each package that its rendered code refers to through model objects, plus those explicitly registered on the file, and no other; each appears once, sorted by path, never the file's own package, and with an alias exactly when the name used in the code is not known to be the package's real name.",
  ["programs"], "all generated files with any mix of references in any position, explicit registrations, and packages whose names are known, unknown or conflicting",
  "Golden files have four conflict-free imports each.",
  ["imports.go", "model.go", "code.go"], [("RegisterImport via the qualification pass", "imports.go"), ("GoFile.writeTo import section", "model.go")],
  ["import declarations of WriteGoFile output", "ImportSpecs"])
p("C22", "The build without unsafe behaves like the default build",
  "With the purego build, qualifying template data without references in unexported fields gives the same result, imports and rendered code as the default build, and data with unexported fields is accepted, those fields being carried over unchanged. Everything else the library does is identical in both builds.",
  ["configurations", "inputs"], "all template data values (cyclic ones only with exported fields) and generated programs, in the default and the purego build",
  "test.sh runs only the default build, and no test touches template data.",
  ["templates_no_unsafe.go", "templates_unsafe.go", "templates.go"], [("getField variants", "templates_no_unsafe.go, templates_unsafe.go")],
  ["QualifyTemplateData results and WriteGoFile output of both builds"])
p("C23", "Separate files can be generated at the same time",
  "Goroutines that each work on their own files, import tables and newly made objects can run at the same time with exactly the results of running one after another, whatever elements, types, code blocks, arguments, template data, reflect or go/types values their files have in common, as long as nobody changes those common objects. No memory is read and written without synchronisation; the only objects that must stay with one goroutine at a time are a file or import table in use and an object being changed.",
  ["schedules", "programs"], "all sets of files, and of other uses of the library, that share any model parts, under all interleavings of rendering, qualifying, converting, printing and asking elements for their symbols and types",
  "No test uses more than one goroutine, and the existing tests are not run with the race detector.",
  ["model.go", "code.go", "types.go", "imports.go", "templates.go"], [("qualification pass of WriteGoFile", "model.go"), ("line.qualify, templ.qualify", "code.go"), ("TypeNameForReflectType, TypeNameForGoType, typeNameToString", "types.go"), ("Imports", "imports.go")],
  ["WriteGoFile output", "QualifyTemplateData results", "race detector reports"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
