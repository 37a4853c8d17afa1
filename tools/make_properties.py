import json
P=[]
def p(id,title,statement,over,qtext,why,files,mechanism,**kw):
    kw={k:[v] for k,v in kw.items()};P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":mechanism,"where":", ".join(files)}],**kw}})
S="src/arti/"
p("C01","A build's results equal re-evaluating every step on the current raw data",
"After a build succeeds, every produced artifact read through the resulting snapshot equals what a from-scratch evaluation of the graph's producers over the raw data present at the build would give, whatever sequence of raw-data edits, reverts, builds, fresh metadata backends and storage kinds came before. Every step receives, under the right parameter, exactly the values its input artifacts have in that build. Every returned value lands in the artifact that was assigned to that output position, including when only some outputs of a producer are kept or one output is assigned under several names.",
["inputs","programs","histories","configurations"],
"All acyclic graphs of producers (chains, fan-in/out, several outputs, some outputs unused, repeated producers), all storages, all histories of edits, reverts and builds.",
"Quantifies over graph shapes and build histories; the tests build about five fixed graphs with one or two edits each.",
[S+"graphs/__init__.py",S+"executors/__init__.py",S+"executors/local.py",S+"producers/__init__.py",S+"backends/memory.py"],
"The executor walks nodes topologically, computes an input fingerprint per partition, links existing outputs with that fingerprint to the snapshot, and otherwise reads inputs, builds, validates and writes each output by position.",
observe_at="user-supplied build functions (arguments and returns) and reads through the snapshot")
p("C02","A build runs exactly the steps whose inputs or version changed, once each",
"A build runs a producer's step exactly once if no completed output is stored for that producer, version and input contents, and not at all otherwise. This holds across repeated builds, reverted inputs, changes to unrelated parts of the graph, edits that do not change content, and, for outputs stored outside the metadata backend, on the first build after the backend is replaced by an empty one. A step runs only after everything it depends on is available.",
["programs","histories","configurations"],
"All graphs and all histories of edits, reverts, unrelated changes, rebuilds and backend replacement.",
"Counts of step executions depend on the whole history; tests check counts for single-producer graphs with at most four builds.",
[S+"executors/__init__.py",S+"executors/local.py",S+"producers/__init__.py",S+"backends/memory.py"],
"Existing output partitions are looked up by input fingerprint (content of inputs, producer name, version) before building; those found are linked instead of rebuilt.",
observe_at="invocation log of user-supplied build functions")
p("C03","A failed step publishes nothing as complete, and the next build recovers",
"If reading, building, validating, serialising or writing fails for a step, the build raises, a rejected or half-written output is never readable through that or any later snapshot, and it is never taken for a completed output by a later build. Steps that completed before the failure stay valid and are not run again. Once the cause is gone, the next build, with the same or an empty backend, completes with the same values as an undisturbed one.",
["fault_sequences","crash_points","programs"],
"Every fault point (each input read, build call, validation, and each output's serialisation/write) of every step and partition, singly and in sequences, for all storages and formats.",
"The tests inject one failure (validation of a single-output producer) and never retry afterwards.",
[S+"executors/__init__.py",S+"graphs/__init__.py",S+"io/json_localfile_python.py",S+"io/pickle_localfile_python.py",S+"io/json_stringliteral_python.py",S+"io/json_gcsfile_python.py",S+"io/pickle_gcsfile_python.py"],
"Outputs are written and registered one by one after validation; a later build trusts whatever the backend or storage discovery returns for an input fingerprint, and treats a partition as existing only if all outputs have it.",
observe_at="exceptions from build, files in storage, reads and invocation counts of later builds")
p("C04","A snapshot's identity changes exactly when structure or raw data changes",
"Two snapshots have the same identity if and only if the graphs have the same name, tags, artifacts, wiring and producer definitions, and every raw artifact has the same partitions with the same contents. Identity does not depend on the order in which artifacts were defined, the process or its hash seed, the metadata backend, or whether produced artifacts have been built. Snapshotting fails if any raw artifact has no data.",
["inputs","programs","histories","configurations"],
"All pairs of graphs and raw-data states, all definition orders, all hash seeds.",
"An if-and-only-if over pairs of states and across processes; tests compare one formula and one argument swap in one process.",
[S+"graphs/__init__.py",S+"internal/models.py",S+"storage/__init__.py"],
"The id combines the fingerprints of graph, nodes, names and the snapshots of all discovered raw partitions.",
observe_at="snapshot ids, in-process and in subprocesses with different hash seeds")
p("C05","A definition's fingerprint depends on all of, and only, its significant content",
"Equal definitions (types, formats, storages, artifacts, producers, versions, views, graphs; mapping entries in the same order, artifacts of a graph in any) have equal fingerprints in every process, and changing any significant value at any nesting depth, including the class (name) of a nested object, changes the fingerprint. Content declared insignificant (type descriptions, producer annotations, which producer makes an artifact, a graph's backend) never affects it. A copy with changed values has the fingerprint of a freshly made equal definition, whether or not the original's fingerprint had been computed.",
["inputs","histories","configurations"],
"All definitions and single-point mutations at any depth, all copy/pickle histories, all hash seeds.",
"Sensitivity and insensitivity range over every field of every definition class and over processes; tests pin a few values in one process.",
[S+"internal/models.py",S+"fingerprints/__init__.py",S+"internal/mappings.py",S+"types/__init__.py",S+"versions/__init__.py",S+"artifacts/__init__.py"],
"Fingerprint hashes the JSON dump restricted to fields not marked as skipped, tagged with the class name, and is cached on the instance.",
observe_at="fingerprint values of generated and mutated definitions, in-process and in subprocesses")
p("C06","Fingerprint arithmetic is an exact 64-bit group; conversions are lossless",
"Combining fingerprints is commutative, associative and self-inverse with the identity fingerprint neutral, and results always stay fingerprints within the signed 64-bit range. Conversion between signed and unsigned 64-bit values is the two's-complement bijection, and every out-of-range value or arithmetic result is rejected rather than wrapped or returned out of range. Fingerprinting a string (without NUL characters) gives the platform-independent reference 64-bit hash on every call, in every process.",
["inputs"],
"All integers, all pairs and triples of fingerprints, all strings.",
"Algebraic laws over the 64-bit space; tests check a handful of constants.",
[S+"fingerprints/__init__.py",S+"internal/utils.py"],
"Integer subclasses re-wrap each operator's result and range-check on construction; strings hash via Farmhash Fingerprint64.",
observe_at="operator results against plain Python integers")
p("C07","What is written is what is read back",
"For every supported combination of type, format, storage and view, reading a written partition returns a value equal to (and of the same Python type as) the one written, and writing one partition never alters what another reads. Reading several partitions of a partitioned collection returns exactly the concatenation of the selected partitions' rows, each partition once and intact. Reading no partitions raises a not-found error, and reading several into an unpartitioned type is an error.",
["inputs","configurations","histories"],
"All values representable in the format, all formats x storages (local file, in-backend literal, cloud object emulator), all sets of partitions, overwrites included.",
"Ranges over values and partition sets; tests read back one or two integers per format and storage.",
[S+"io/__init__.py",S+"io/json_localfile_python.py",S+"io/pickle_localfile_python.py",S+"io/json_stringliteral_python.py",S+"io/json_gcsfile_python.py",S+"io/pickle_gcsfile_python.py"],
"Reader and writer functions are dispatched on type, format, storage partition class and view; collections chain partition contents.",
observe_at="values passed to write and returned by read")
p("C08","Partition locations and discovery are exact inverses",
"A partition's location is determined by its key and input fingerprint, distinct partitions of an artifact get distinct locations, and a key that does not fit the artifact's partitioning is refused. Discovery returns exactly the stored partitions of that artifact, each with precisely the key and input fingerprint it was written under, for every supported key type, component style, fixed (hard-coded) key component and literal path text; a location template that does not determine the key is refused rather than reported under a guessed key. When particular input fingerprints are requested, as is required where locations carry one, exactly the partitions whose key maps to that fingerprint are returned.",
["inputs","configurations"],
"All path templates (names, tags, key components, format specs, fixed components, literal text without braces), all key types and values, all sets of stored partitions and request filters.",
"An inverse law over templates x keys x filters; tests use a few date/int keys on fixed templates.",
[S+"storage/__init__.py",S+"storage/_internal.py",S+"storage/local.py",S+"storage/google/cloud/storage.py",S+"storage/literal.py",S+"partitions/__init__.py"],
"Templates are formatted to locations on write; discovery turns the template into a wildcard, lists and parses paths back into key components.",
observe_at="generated partitions, files in a scratch directory, discovered partitions")
p("C09","Content fingerprints reflect exactly the stored bytes",
"Two partitions stored in the same kind of storage have the same content fingerprint exactly when their stored bytes are equal, regardless of location, size, time of writing or process. Any change of the data behind an artifact, including one made outside this library, changes the content fingerprint the next time it is observed, and rewriting identical bytes does not. Data that has not been written has no content fingerprint and asking for it is an error.",
["inputs","histories"],
"All byte contents (empty, larger than any read buffer, differing in one byte anywhere), all out-of-band edit histories, all storages.",
"Ranges over byte strings and edit histories; tests fingerprint one short file.",
[S+"storage/__init__.py",S+"storage/local.py",S+"storage/literal.py",S+"storage/google/cloud/storage.py"],
"Local files are hashed in buffered reads, literals by value, cloud objects by the store's checksum; nothing may be cached across observations.",
observe_at="content fingerprints of partitions whose bytes the harness controls")
p("C10","The metadata backend returns exactly what was recorded",
"Every sequence of backend operations behaves like independent sets per artifact storage and per (snapshot, artifact name): reads return every recorded partition once, and nothing recorded for another storage, snapshot, name or connection's backend. For storages with input fingerprints, the requested ones filter by exact key and fingerprint; first use of a storage also reports what already exists in it. Graphs and snapshots are returned as recorded by name and fingerprint, and writes through any connection to a backend are visible to all.",
["histories","inputs"],
"All interleavings of partition, graph, snapshot and link operations over several artifacts, snapshots and connections.",
"State-machine equivalence over operation sequences; tests touch a few operations through graph builds.",
[S+"backends/__init__.py",S+"backends/memory.py"],
"Nested dictionaries of sets keyed by storage, snapshot, artifact name; warm-up from storage discovery on first read.",
observe_at="backend connection calls checked online against a reference model")
p("C11","Closed graphs are immutable and every artifact gets its own place",
"Artifacts can be added only while a graph is being defined, each name once, one graph at a time per thread, and leaving the definition (normally or by exception) always closes the graph. Each artifact's location is resolved from graph name, tags, dotted name, format and type of that graph, with unused parts removed, so that distinctly named artifacts using default locations never collide, and the assigned objects themselves are never modified. Raw artifacts carry no input-fingerprint part, produced artifacts must, and re-opening a graph to add more behaves like having defined it in one go.",
["programs","inputs"],
"All definition programs: nested names, bulk assignment, reuse of one artifact under several names/graphs, illegal assignments, exceptions, re-opening.",
"Quantifies over definition programs; tests define a few well-formed graphs.",
[S+"graphs/__init__.py",S+"internal/mappings.py",S+"storage/__init__.py",S+"storage/_internal.py"],
"Assignment casts to an artifact and binds storage template parts in the context of the open graph; status shared across nested boxes gates writes; derived graph views are cached.",
observe_at="artifact storages, errors, and derived structure after each definition program")
p("C12","Nested typed containers and frozen mappings behave like their models",
"A nested typed container behaves as a tree of uniquely named leaves (names other than the mapping's own methods): dotted, attribute and item access agree, membership tests and iteration never add entries, mappings merge, existing leaves are never overwritten, values are always of the declared type, and nothing can be added once closed. A frozen mapping behaves as an immutable mapping: equal content means equal value and hash in any insertion order, merging follows mapping-merge precedence on either side and yields a new value, and it survives copying and pickling into any other process.",
["histories","inputs"],
"All operation sequences on nested containers and frozen mappings, all hash seeds.",
"Model equivalence over operation sequences; tests walk a few examples.",
[S+"internal/mappings.py"],
"Dotted-key resolution, auto-created intermediate nodes while open, shared open/closed status, eager hash of immutable mappings.",
observe_at="every operation's result/exception against a reference tree and dict")
p("C13","Type conversions round-trip and never silently change meaning",
"Converting an internal type to a supported foreign type system and back yields the same type, up to that system's documented losses, and converting a foreign type in and out yields an equivalent foreign type. A type the target system cannot express is rejected instead of being replaced by an unrelated one, nullability, nesting, field names, field order, precision and partition/cluster metadata included. Conversion is deterministic and independent of earlier conversions.",
["inputs","programs"],
"All types of bounded nesting in all six supported systems, in both directions.",
"Quantifies over the recursive type language; tests convert one or two examples per scalar.",
[S+"types/__init__.py",S+"types/python.py",S+"types/numpy.py",S+"types/pandas.py",S+"types/pyarrow.py",S+"types/bigquery.py",S+"types/pydantic.py"],
"Priority-ordered adapters match types and recursively convert element/field types through the root type system, falling back to extended systems.",
observe_at="converted types compared with an independent reference conversion")
p("C14","Ill-formed producers and wirings are rejected early, well-formed accepted",
"Defining a producer succeeds exactly when its inputs, step signature, mapping, validation function and outputs are mutually consistent, and otherwise fails at definition with an error naming the offending part. Instantiating or wiring it accepts exactly artifacts whose class, type, format and storage the step's declared views can read or write, in matching number and order, and never an artifact already produced by another step. Accepted definitions behave as declared, whether written as a class or with the decorator.",
["programs","inputs","configurations"],
"All producer definitions over input sets, parameter kinds, hints, defaults, outputs, map/validate variants, and all wirings.",
"Acceptance is an if-and-only-if over definition programs; tests list one example per error.",
[S+"producers/__init__.py",S+"views/__init__.py",S+"internal/type_hints.py"],
"Signatures are inspected when the class is created, and artifact compatibility is checked on instantiation and on output assignment.",
observe_at="definition/instantiation outcome against a reference legality predicate")
p("C15","Reads and writes that do not fit an artifact are refused without side effects",
"Reading or writing an artifact with a Python type that cannot represent its declared type, or with a format/storage/view combination that has no handler, raises before any data, file or metadata is created or changed. Writing to a raw artifact through a snapshot, writing without a required partition key or input fingerprint (or with a superfluous one), and accessing an artifact that is not part of the graph are refused in the same way. Compatible reads and writes are accepted.",
["inputs","configurations"],
"All pairs of declared types and Python types/values, all key/fingerprint argument combinations, all handlers.",
"Ranges over type x value x argument combinations; tests check one mismatch.",
[S+"graphs/__init__.py",S+"views/__init__.py",S+"views/python.py",S+"storage/__init__.py",S+"io/__init__.py"],
"View selection by Python type, compatibility checks of hint, type and dispatch handlers, and key/fingerprint checks when generating the partition, all before the writer runs.",
observe_at="outcome plus before/after state of storage directory and backend")
p("C16","Dispatch picks the most specific handler; registries honour priority",
"A call is dispatched to the registered handler whose parameter types are the most specific match, independent of registration order and of earlier calls, and looking a handler up gives the one a call would run. Handlers whose annotations are incompatible with the declared specification are rejected at registration, and calls without any handler are refused. Where registries choose by priority, the highest priority wins in any registration order and equal priorities for one key are rejected.",
["inputs","programs","histories"],
"All sets and orders of registrations over class hierarchies, all call argument types, interleaved calls.",
"Quantifies over registration orders and call histories; tests register two or three handlers once.",
[S+"internal/dispatch.py",S+"internal/utils.py",S+"io/__init__.py",S+"views/__init__.py",S+"types/__init__.py"],
"Multiple dispatch with cached resolution and late discovery; priority registries keyed by python type or adapter key.",
observe_at="identity of handler run, against a reference specificity order")
p("C17","Partitioned steps build exactly the mapped partitions from the mapped inputs",
"When a producer maps input partitions to output partitions, each output partition is computed from exactly the input partitions mapped to it, and after a build the snapshot's output partitions are exactly the mapped keys, with no stale, missing or duplicate partition. Adding, changing or removing input partitions re-runs exactly the output partitions whose mapped inputs changed. After a successful build, several outputs of one step have the same set of partitions; a mapping that names other inputs than the step reads is refused.",
["inputs","histories","programs"],
"All mapping functions, key types (one or several fields), partition sets and histories of adding, changing and removing partitions, chained partitioned steps included.",
"Ranges over mappings and partition histories; no existing test builds a partitioned graph end to end.",
[S+"producers/__init__.py",S+"executors/__init__.py",S+"executors/local.py",S+"storage/__init__.py",S+"partitions/__init__.py",S+"backends/memory.py"],
"The map function yields key -> input partitions; fingerprints per key filter existing outputs and select what to build.",
observe_at="invocation log per key, partitions linked to the snapshot, reads")
p("C18","Graphs can be defined, built and read from several threads at once",
"Defining, building and reading different graphs concurrently gives each thread the results it would get alone, including the very first use of readers, writers and views in the process. A graph being defined in one thread never affects definitions or artifacts in another. Different graphs sharing one metadata backend, concurrent attempts to take one tag (one winner), and concurrent reading, copying, pickling and describing of one closed graph are consistent too.",
["schedules","histories"],
"All interleavings of threads defining, building and reading graphs, first-use initialisation included.",
"Quantifies over schedules; the test-suite is single-threaded.",
[S+"__init__.py",S+"graphs/__init__.py",S+"io/__init__.py",S+"internal/utils.py",S+"internal/dispatch.py",S+"backends/memory.py",S+"views/__init__.py"],
"Definition context is thread-local; submodule discovery is serialised by a lock; in-memory metadata relies on per-operation atomicity.",
observe_at="per-thread results and errors under forced thread switching and injected yields")
p("C19","Definitions and results are immutable values",
"Once made, a definition object cannot be changed through its public interface, or through the mutable objects it was built from, and its equality and hash stay constant over its life (metadata backends, which are stateful connections, aside); nothing the library does with it (fingerprinting, graph assignment, builds) alters them. Equal definitions hash equally, definitions differing in class or content are unequal, and copying or pickling (including into another process) yields an equal, equally hashing and equally fingerprinted object. Values with unknown fields, wrong types, or unhashable content are rejected when made.",
["inputs","histories","configurations"],
"All definition classes and field values, all mutation attempts, all copy/pickle paths and hash seeds.",
"Ranges over classes x fields x attempts and processes; tests probe one toy class.",
[S+"internal/models.py",S+"internal/mappings.py",S+"types/__init__.py",S+"artifacts/__init__.py"],
"Frozen, strict validated models with frozen mapping/tuple/frozenset fields and hash check on creation.",
observe_at="attempted mutations, equality/hash/fingerprint before and after")
p("C20","Type-hint compatibility is a sound partial order",
"The library's subtype check on type hints agrees with the covariant subtype relation on classes, parametrised builtin containers (which a bare class is not below), unions as supertype, annotated hints, bounded variables, None and Any, is reflexive and transitive, and answers false rather than raising for a candidate that is not a type. Extraction of annotated metadata and optional/union detection depend only on the hint's meaning, not its spelling.",
["inputs"],
"All hints of bounded nesting over these constructors, all pairs and triples.",
"A relation over recursively generated hints; tests list about sixty pairs.",
[S+"internal/type_hints.py"],
"Recursive origin/argument comparison after unwrapping annotations and type variables.",
observe_at="answers against an independent reference relation")
p("C21","Old snapshots and tags keep meaning what they meant",
"Reading a produced artifact through an earlier snapshot keeps returning the values built for that snapshot, whatever raw edits, builds and failures came later, as long as its stored files are left alone; likewise a raw artifact is read as the partitions recorded when the snapshot was taken, not ones added later. A tag resolves to the snapshot last assigned to it under that graph name; assigning an existing tag without explicit overwrite is refused and changes nothing, and unknown tags are errors. Snapshots of different graphs or states never share produced partitions unless the producing step, version and inputs are identical.",
["histories"],
"All histories of edits, builds, tag writes (with and without overwrite) and reads through old snapshots and tags.",
"Quantifies over histories; tests tag two snapshots once and never re-read old data.",
[S+"graphs/__init__.py",S+"backends/memory.py",S+"storage/__init__.py"],
"Outputs live at locations containing their input fingerprint and are linked to snapshots in the backend; tags map names to snapshots.",
observe_at="reads through all earlier snapshots and tags after each step")
p("C22","Version changes invalidate results exactly as the version policy says",
"Changing a producer's version re-runs it (and what consumes changed results) exactly when the policy calls the change significant: for semantic versions any component below major one and only the major component from then on, and any difference of string, commit or timestamp versions. Insignificant bumps reuse stored results, and going back to an earlier significant version reuses that version's results. Invalid versions (such as timestamps without timezone) are refused.",
["inputs","histories"],
"All pairs of versions of each kind, all histories of version changes interleaved with builds.",
"Ranges over version pairs and histories; tests compare a few fingerprints and never build.",
[S+"versions/__init__.py",S+"producers/__init__.py",S+"executors/__init__.py"],
"The version's fingerprint (restricted to significant components) is part of each input fingerprint.",
observe_at="invocation log across graphs that differ in producer version")
p("C23","Plain values in a graph become artifacts that read back as that value",
"Assigning a plain value (numbers up to 64 bits, strings, booleans, homogeneous lists; via Artifact.cast also homogeneous string-keyed mappings) to a name in a graph makes a raw artifact whose inferred type describes the value and whose data reads back equal, feeds producers with that value, and is part of the snapshot identity. Values whose type cannot be inferred or stored are refused at assignment. Assigning a single-output producer is the same as assigning its output, and a multi-output producer is refused unless unpacked.",
["inputs"],
"All plain values and nestings, all assignment forms.",
"Ranges over values; tests assign a few integers.",
[S+"artifacts/__init__.py",S+"internal/type_hints.py",S+"types/python.py",S+"storage/literal.py"],
"Cast infers a type from the value, dumps JSON into a literal storage.",
observe_at="artifact type, read value, step arguments")
p("C24","Artifact specifications combine class defaults and instance values faithfully",
"An artifact instance has its class's declared type, format, storage, annotations and statistics unless given explicitly, with instance annotations and statistics added after the class's own, each exactly once. Formats and storages adapt to the artifact's type and format, so the file extension and the partition-key part of its location match them. Incompatible types or formats are refused when the artifact is made.",
["inputs","programs"],
"All artifact classes (inheritance chains with overridden defaults) and instance arguments.",
"Ranges over class hierarchies and arguments; tests use two fixed classes.",
[S+"artifacts/__init__.py",S+"storage/__init__.py",S+"formats/__init__.py"],
"Validators merge class defaults and let format/storage visit the type and format.",
observe_at="attributes of constructed artifacts against a reference merge")
p("C25","Any metadata backend that keeps its contract gives the same results",
"Which metadata backend a graph uses never affects results: with any backend that implements the interface (persistent, transactional, isolating its connections, or opened anew) builds, reads, re-runs and tags come out as with the built-in one. Every connection that is opened is closed exactly once, also after failures, and not used after that; an operation given a connection works through it and opens no other. An error of the backend reaches the caller, and a later build comes out right.",
["histories","faults","configurations"],
"All backend implementations (transaction habits, order of results), histories of edits, builds, failures, tags and reopenings, and points where the backend fails.",
"Ranges over implementations, histories and failure points; tests only use the in-memory backend.",
[S+"backends/__init__.py",S+"graphs/__init__.py",S+"executors/__init__.py"],
"All metadata goes through BackendConnection methods; operations take an optional connection and otherwise open one with the backend's connect.",
observe_at="connection life cycles and calls of user-defined backends, values and step runs")
p("C26","Results do not depend on what was imported, and plug-ins are found",
"Types, fingerprints, conversions, views and built values are the same whichever of the library's modules were imported before, in whichever order, and any module may be the first. Views, readers and writers are found when first needed without being imported by hand, and so are those that other distributions add to the library's namespace packages, at any depth. Such plug-ins change nothing for what they do not handle.",
["inputs","configurations"],
"All import orders and moments of first use, all sets of plug-in modules (views, formats, storages) and places they are installed at.",
"Ranges over orders and installations, each needing a fresh interpreter; tests run in one process with everything imported.",
[S+"internal/utils.py",S+"views/__init__.py",S+"io/__init__.py",S+"internal/dispatch.py",S+"__init__.py"],
"Packages extend their path over sys.path; views and io handlers are registered on import, which is triggered recursively at first lookup.",
observe_at="outcomes of the same jobs in fresh processes that differ in imports and installed plug-ins")
p("C27","User-defined storages and formats are treated like the built-in ones",
"A storage defined by a user, with whatever fields, separators and templates, locates each partition exactly as its templates say once graph name, tags, names, extension, partition key and input fingerprint are filled in (parts that do not apply are left out), distinct partitions at distinct places; fields that are not text are passed on as they are. With such storages and user-defined formats, builds, re-runs and reads come out as with built-in ones, and a partition that a writer returns (say, with a version) is what is recorded and read later. A storage whose fields are not those of its partitions is refused when defined.",
["inputs","programs","histories"],
"All storage classes (fields, templates, separators, versioned or not), formats, partition keys and build histories.",
"Ranges over user classes and histories; tests define one mock storage and never build with it.",
[S+"storage/__init__.py",S+"storage/_internal.py",S+"io/__init__.py",S+"formats/__init__.py"],
"Storage fields are format strings resolved in steps by visitors; partitions are generated from them and handed to registered readers and writers.",
observe_at="fields of the partitions in snapshots, calls of user-defined readers and writers, values and step runs")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    assert x["statement"].count(". ")<=2,x["id"]
open(__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))+"/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
