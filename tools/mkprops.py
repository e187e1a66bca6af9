import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or ["error returned by the library call, exit status and stdout of the command, bytes of the files below the output location"],hook_needed=None)))
GENS=["genGo.go","genC.go","genJava.go","genRust.go","genTypeScript.go"]
p("P01","Reported success means every output file is complete on disk",
 "Whenever generation reports success (no error from the library, \"done\" and exit status 0 from the command), every output file it was to produce exists under its expected name and holds the whole generated source, whichever directory creation, file creation, write, flush or close failed on the way. This holds for each of the five target languages, and for outputs produced on behalf of imported schemas as well as for the schema that was asked for.",
 ["fault_sequences","inputs","configurations"],
 "All sequences of output-side I/O failures (mkdir, create, partial or failed write, full disk, failing close), on all schema sets, languages and output layouts.",
 "No existing test injects an I/O failure; they only compare one file written to a healthy disk, so ignored write results pass them all.",
 ["parser.go","utils.go"]+GENS,[("write of generated source and its error return","genGo.go:GenGo, genC.go:GenC, genJava.go:GenJava, genRust.go:GenRust, genTypeScript.go:GenTypeScript"),("output directory preparation","utils.go:PrepareOutputDir")])
p("P02","Reported success means every schema byte was read and used",
 "Whenever generation reports success, the generated code reflects the entire content of the schema and of every included or imported schema it needed: each named top-level declaration appears with its members, every type taken from another file is the type that file defines, and the declarations of each imported schema that supplies a type appear in that schema's own output. A schema document that exists but cannot be opened, cannot be read to its end, or is cut short inside its schema element yields an error instead of partial output or silently weaker types. Without failures, valid schema sets whose names the target language can express succeed.",
 ["fault_sequences","inputs"],
 "All sequences of input-side failures (stat, open, read at any offset, torn or truncated stored files) hitting the main schema or any transitive dependency at any moment, for all schema sets and languages.",
 "The only fixture is one small healthy file without includes or imports; nothing fails a read, and dependency loading is never executed by a test.",
 ["parser.go","schema.go","xmlInclude.go","xmlImport.go","xmlElement.go"],[("token loop over the document","parser.go:Parse"),("dependency loading and type lookup","parser.go:GetValueType")])
p("P03","Failures come back as errors and exit codes, and nothing else",
 "When generation cannot be completed because of any I/O failure, the library returns a non-nil error to its caller: it neither panics nor terminates the host process nor runs on for ever, and the caller can go on using it. The command then exits with a non-zero status, prints a message naming the file whose processing failed, and does not print \"done\". Conversely, a run that hit no failure on a valid input returns no error and exits 0.",
 ["fault_sequences","inputs","configurations"],
 "All I/O failures at all operations of a run (walk, stat, open, read, mkdir, create, write, close), for library and command use.",
 "Tests only exercise the success path; no test runs the command or makes a call fail.",
 ["parser.go","utils.go","cmd/xgen/xgen.go"]+GENS,[("error propagation of the parse","parser.go:Parse"),("exit status","cmd/xgen/xgen.go:main")])
p("P04","Output depends on the bytes of a schema, not on how they are delivered",
 "For a given set of input bytes, the generated code is the same however the storage delivers them: in single bytes, arbitrary short reads, splits inside multi-byte characters, tags, line ends or encoded text, or arbitrarily slowly. Schema size and declared character encoding do not change this.",
 ["fault_sequences","schedules","inputs"],
 "All segmentations and timings of the reads of all involved files, for schemas from bytes to megabytes, in UTF-8 and declared single-byte encodings.",
 "The tests read one 2 KB local file, which always arrives in one read.",
 ["parser.go","xmlCharData.go"],[("streaming decoder over the opened file","parser.go:Parse"),("accumulation of character data","xmlCharData.go:OnCharData")])
p("P05","Generation is reproducible",
 "Generating the same schemas with the same options produces byte-identical outputs and the same set of files on every run, whatever the iteration order of hash tables, the order in which directories list their entries, the clock, file timestamps, the process id, host name, environment, or random number state.",
 ["schedules","inputs","configurations"],
 "All resolutions of runtime nondeterminism (map iteration including entries added during iteration, directory order, clocks, identity of process and host), for all schema sets, languages and invocation styles.",
 "A test run samples one resolution of the nondeterminism on a schema without unions or includes, where it hardly shows.",
 ["parser.go","utils.go"]+GENS,[("search through the included schemas","parser.go:GetValueType"),("sorted member lists","utils.go:toSortedPairs")],
 [dict(name="include set",meaning="files named by include statements, consulted to find types",where="parser.go:Options.IncludeMap")])
p("P06","Independent generations may run concurrently",
 "Generations that use separate option values and distinct output files may run concurrently in one process, in any interleaving, sharing input files, dependencies and output directories: each one's result and output equal those of running it alone. There is no unsynchronised sharing of process-wide state between them.",
 ["schedules","inputs"],
 "All interleavings of two to several concurrent generations of any languages over any schema sets, including first-time creation of shared directories.",
 "All tests are sequential; a test would sample a few interleavings at best, and the window is the instant one generation names its types while another begins.",
 ["utils.go","parser.go"]+GENS,[("duplicate-name counting during generation","utils.go:fieldNameCount"),("creation of shared output directories","utils.go:PrepareOutputDir")],
 [dict(name="name counters",meaning="how often a type name was emitted in the file being generated",where="utils.go:fieldNameCount")])
p("P07","A generation is unaffected by what the process did before",
 "In a long-lived process, the outcome and output of a generation with its own options are the same as in a fresh process, after any sequence of earlier generations of other or the same schemas, in other languages or packages, whether those succeeded, failed on I/O or were rejected. In particular, once failures stop, the very next attempt succeeds and is correct.",
 ["histories","fault_sequences"],
 "All histories of earlier successful and failed generations in the same process, with changing files, languages, packages and faults.",
 "Tests in one binary do run several generations, but all over one schema, all successful, and the languages share no state that the schema exercises.",
 ["utils.go","parser.go"]+GENS,[("reset of per-file state at the start of parsing and generation","parser.go:Parse, gen*.go:Gen*")])
p("P08","Running again repairs an interrupted generation",
 "If the output location lies outside the input, then after a run is killed or loses power at any instant, including in the middle of a write and repeatedly, running the same command again on the surviving files succeeds and leaves exactly the outputs of an uninterrupted run, with no other files left behind. The same holds over any older outputs already in place: shorter or longer ones, ones of earlier schema versions, empty or garbled ones.",
 ["crash_points","histories","fault_sequences"],
 "All crash points (between and inside file operations, between computation steps), with any subset of unsynced data surviving, all pre-existing output states, repeated crashes; input and output locations do not overlap.",
 "No test interrupts a run or generates over existing outputs; the test harness always starts from an empty directory.",
 ["parser.go","utils.go","cmd/xgen/xgen.go"]+GENS,[("outputs are created truncated","gen*.go:Gen* os.Create"),("existing directories are accepted","utils.go:PrepareOutputDir")])
p("P09","Nothing outside the output location is ever modified",
 "A run creates, writes, renames or removes nothing except the output files, and the directories that hold them, below the given output location (or the single output file named by it and, for imported schemas, the directory of its name without the extension); schema files, their directories and all unrelated files, including pre-existing unrelated files in the output location, keep their content and attributes. This holds in successful, failing and interrupted runs, however schemas reference each other across directories, and successful runs leave no temporary files.",
 ["fault_sequences","inputs","crash_points","configurations"],
 "All fault and crash sequences, all directory layouts, relative and absolute invocations, and include/import references including parent-directory ones; output names do not coincide with input names.",
 "Tests never look at anything but the one expected output file.",
 ["parser.go","utils.go"]+GENS,[("mapping of schema path to output path","parser.go:Parse"),("output file naming","genGo.go:FileWithExtension")])
p("P10","A directory run covers every file, or says that it did not",
 "When the command is given a directory and exits 0, every regular file below it, at any depth and whatever its name, has its complete generated counterpart at the mirrored place below the output location. If any directory cannot be listed, any entry cannot be examined, or any file cannot be processed, the command exits non-zero and names the path.",
 ["fault_sequences","inputs","configurations"],
 "All directory trees of directories and regular schema files, all listing orders, and all failures of listing, examining and opening entries.",
 "The tests list one flat directory containing one file, and listing never fails in them.",
 ["utils.go","cmd/xgen/xgen.go","parser.go"],[("directory walk","utils.go:GetFileList"),("per-file loop","cmd/xgen/xgen.go:main")])
p("P11","Every file handle is released when the call returns",
 "When a generation returns, successfully or with an error at any point, no file or directory handle it opened remains open, and while it runs the number of open handles is bounded by the nesting of the dependencies. A process can therefore run any number of generations, failing ones included, under a small handle limit.",
 ["fault_sequences","histories","inputs"],
 "All failure points of all generations, all dependency graphs, and arbitrarily long histories under a small handle limit.",
 "Leaks are invisible to short-lived tests, and the failing paths are not tested.",
 ["parser.go"]+GENS,[("deferred close of the schema file","parser.go:Parse"),("deferred close of the output file","gen*.go:Gen*")])
p("P12","Any include/import graph is processed in bounded work",
 "For every finite set of schemas whose includes and imports form any graph (chains, diamonds, self-references, cycles), generation terminates, with a number of file reads bounded polynomially by the number of references and files, and each dependency's output is generated a bounded number of times. I/O failures at any point of the traversal do not change this.",
 ["inputs","fault_sequences","programs"],
 "All finite reference graphs between schema files, with failures at any operation of the traversal; stated as completion within a bounded number of steps and file operations.",
 "No test involves a second schema file; non-termination appears only on cycles.",
 ["parser.go","xmlInclude.go","xmlImport.go","schema.go"],[("registry of schemas already being parsed","parser.go:Parse ParseFileMap/ParseFileList"),("extraction without recursion","parser.go:GetValueType Extract")],
 [dict(name="parse registry",meaning="trees of the files already begun",where="parser.go:Options.ParseFileMap")])
p("P13","Damaged schema files never crash the generator",
 "If the stored bytes of a schema or of one of its dependencies are damaged in any way (flipped bytes, zeroed, dropped, duplicated or swapped blocks, truncation, content of another file), generation terminates and either reports an error or completes; it never panics and never exhausts its step budget.",
 ["fault_sequences","inputs"],
 "All storage damage applied to any of the files a run reads, for all schema sets and languages.",
 "Tests parse one well-formed file; a crash needs a document whose element nesting no longer fits what the handlers assume.",
 ["parser.go","utils.go","xmlComplexType.go","xmlElement.go","xmlGroup.go","xmlSimpleType.go","xmlCharData.go","xmlAttributeGroup.go"],[("handler dispatch by element name","utils.go:callFuncByName"),("stacks of open declarations","xml*.go")])
p("P14","A failed run never harms outputs it was not writing",
 "If a run fails while reading or resolving schemas, the previous output of the schema that failed is left byte-identical. Whatever fails, every output file other than the one being written at the moment of the failure is either untouched or the complete new output; in a directory run, the outputs of all files completed before the failure stay complete.",
 ["fault_sequences","histories"],
 "All failures at all operations of single and directory runs, over pre-existing outputs of earlier runs.",
 "No test generates over existing outputs or makes a run fail midway.",
 ["parser.go","cmd/xgen/xgen.go"]+GENS,[("output is opened only after the whole document was parsed","parser.go:Parse then Gen*"),("order of generation and file creation","gen*.go:Gen*")])
p("P15","A schema's output does not depend on its neighbours in the run",
 "The code generated for a schema is the same whether the schema is processed alone, as part of a directory run at any position among any other files, or on behalf of another schema that imports it; names, prefixes, locations and options that belong to one schema document do not leak into the code of another. Adding, removing or renaming unrelated schemas does not change it.",
 ["histories","inputs","configurations"],
 "All orders and combinations in which a set of schemas with includes and imports across directories can be processed in one run.",
 "There is one schema in the tests, so there are no neighbours.",
 ["parser.go","schema.go","cmd/xgen/xgen.go"],[("options handed to dependency parsers","parser.go:GetValueType"),("namespace and location tables","schema.go")],
 [dict(name="namespace tables",meaning="prefixes and schema locations",where="parser.go:Options.LocalNameNSMap, NSSchemaLocationMap")])
# not applicable: pure functions of the input
def na(id,title,statement,text,why,files,mech): p(id,title,statement,["inputs","programs"],text,why,files,mech)
na("P16","Built-in types keep their meaning in every language",
 "Every XSD built-in datatype maps, in each of the five target languages, to a type able to hold its values, consistently wherever the type is mentioned.",
 "All built-in types, languages and places of use.","One schema mentions nine of the forty-odd built-in types.",["utils.go"],[("type table","utils.go:BuildInTypes")])
na("P17","Generated Go code compiles and round-trips documents",
 "For every schema accepted, the generated Go package compiles, and an XML document valid for the schema can be unmarshalled into the generated types and marshalled back without losing content.",
 "All schemas and valid documents.","One schema and one document are tested.",["genGo.go"],[("Go emitters","genGo.go")])
na("P18","Generated C, Java, Rust and TypeScript sources are well-formed",
 "For every schema accepted, the generated sources are syntactically valid in their language, and refer only to declared or standard types.",
 "All schemas.","The expected outputs are compared as text and never compiled.",GENS[1:],[("emitters","genC.go, genJava.go, genRust.go, genTypeScript.go")])
na("P19","Generated names are legal and unique",
 "Different declarations of a schema get different, legal identifiers in the target language, whatever characters, case or keywords their XSD names use.",
 "All sets of names.","The fixture's names are already legal and distinct.",GENS,[("name mangling","gen*.go:gen*FieldName"),("duplicate counters","utils.go:fieldNameCount")])
na("P20","Multiplicity and optionality are preserved",
 "An element or attribute that may occur several times becomes a collection, an optional one is representable as absent, and a mandatory single one is neither.",
 "All occurrence constraints in all nestings of sequence, choice, all and group.","The fixture has one repeated choice.",["xmlElement.go","xmlChoice.go","xmlGroup.go","xmlAttribute.go"],[("occurrence handling","xmlElement.go:OnElement, xmlChoice.go:OnChoice")])
na("P21","Derivation keeps the content of the base type",
 "A type derived by extension carries the members of its base as well as its own, and a simple type derived by restriction, list or union is based on the types it names.",
 "All derivation structures.","The fixture has one derivation.",["xmlExtension.go","xmlRestriction.go","xmlUnion.go","xmlList.go"],[("derivation handling","xmlExtension.go, xmlRestriction.go")])
na("P22","Splitting a schema over files does not change its types",
 "A type resolved through include or import is the same as if its definition stood in the including document.",
 "All ways to split a schema set over files.","No fixture has more than one file.",["parser.go"],[("dependency lookup","parser.go:GetValueType")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x,ensure_ascii=False)+"\n" for x in P))
for x in P:
    assert len(x["title"])<=80,(x["title"],len(x["title"]))
    assert x["statement"].count(". ")<=2,x["id"]
