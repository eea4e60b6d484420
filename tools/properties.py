NOT_APPLICABLE = []
PROPS = []
def P(**k): PROPS.append(k)

P(id="C05", title="Local-variable navigation and rename follow Ruby's scoping",
  statement="For every program and every occurrence of a local variable, go-to-definition leads to a binding occurrence of that very variable, find-references and document-highlight return exactly the occurrences of that variable under Ruby's scoping rules (blocks, lambdas, captures, shadowing, block-locals, all parameter kinds, pattern and regexp bindings), and no occurrence of another variable of the same name. Renaming it to a fresh name edits exactly those occurrences, so the program still parses and behaves as before.",
  over=["programs", "inputs"], quant="every generated program, every local-variable occurrence in it, every fresh valid new name, single-byte and multi-byte text",
  why="The unit tests sample a few scopes each; scoping forms nest and combine without bound.",
  files=["crates/ruby-analysis/src/indexer/rename.rs", "crates/ruby-analysis/src/indexer/ruby_document.rs", "src/query/references.rs", "src/capabilities/rename.rs"],
  mech=[("local occurrence resolution", "crates/ruby-analysis/src/indexer/rename.rs"), ("reference/definition queries", "src/query")],
  observe=["textDocument/definition", "textDocument/references", "textDocument/documentHighlight", "textDocument/prepareRename", "textDocument/rename"],
  technique="property-based testing: generated scope-rich programs, occurrence oracle by construction, rename judged by running real Ruby before and after",
  note="Generated programs only; the oracle's variable identities are those the generator declared, and Ruby 3.2 itself confirms the renamed program behaves the same.")

P(id="C08", title="Any text, any request: an answer with ranges inside the document",
  statement="Whatever text a document holds (valid, half-typed or garbage, any Unicode) and whatever position a request names, the server neither panics, crashes, hangs nor answers with an error; and every range, position, token, symbol, fold, hint, edit and diagnostic it returns lies within the document it names and is well formed (ordered, nested, non-overlapping where the protocol demands).",
  over=["inputs", "histories"], quant="every sequence of open/change/save/close with generated valid, mutated and token-soup texts, every request kind, every position including out-of-range ones",
  why="Tests use well-formed fixtures; malformed intermediate states while typing and multi-byte text are unbounded.",
  files=["src/server.rs", "src/handlers/request.rs", "src/capabilities", "crates/ruby-analysis/src/indexer", "crates/ruby-analysis/src/inference"],
  mech=[("request handlers", "src/handlers/request.rs"), ("position mapping", "crates/ruby-analysis/src/indexer/source_document.rs")],
  observe=["every textDocument/* request", "textDocument/publishDiagnostics"],
  technique="structure-aware fuzzing of documents and request sequences with a well-formedness oracle",
  note="Random search; the vendored C parser's own aborts on some malformed inputs are excluded (see DESIGN.md).")

P(id="C03", title="Go-to-definition on a method call follows Ruby's dispatch",
  statement="For every program and every call whose receiver is implicit, self, a named constant, a fresh instance of a named class or a local holding one, and for every super, go-to-definition leads only to the definition Ruby itself would dispatch to, through superclasses, includes, prepends, extends, singleton classes, reopened classes, attr_* methods and visibility, across files; it finds that definition whenever the program has one, and finds nothing where Ruby finds nothing.",
  over=["programs", "inputs"], quant="every generated multi-file program that real Ruby loads, every call and super site in it",
  why="Dispatch depends on the combination of hierarchy, reopening, visibility and files; tests fix a handful of shapes.",
  files=["crates/ruby-analysis/src/engine/resolution.rs", "crates/ruby-analysis/src/engine/query.rs", "src/query/definition.rs", "crates/ruby-analysis/src/indexer/analysis_indexer.rs", "crates/ruby-analysis/src/indexer/fact_collector"],
  mech=[("ancestor linearisation", "crates/ruby-analysis/src/engine/resolution.rs"), ("call facts", "crates/ruby-analysis/src/indexer/fact_collector/call_node/mod.rs")],
  observe=["textDocument/definition"],
  technique="property-based testing: generated multi-file programs, differential oracle against real Ruby's method resolution on an instrumented twin",
  note="Random programs; short namespace names are unique per program; the listed known findings are excluded shapes.")

P(id="C04", title="Go-to-definition on a constant follows Ruby's constant lookup",
  statement="For every program and every constant use (bare, qualified segment by segment, absolute, in superclass position, in mixin calls, in class headers), go-to-definition leads only to definitions of the constant Ruby itself resolves there (lexical scopes inside out, then ancestors, then top level), and finds it whenever the program defines it, whatever other constants of the same name exist and however the program is split over files.",
  over=["programs", "inputs"], quant="every generated multi-file program that real Ruby loads, every constant use outside singleton-class bodies",
  why="Shadowing between lexical scopes, ancestors and top level is combinatorial; tests fix a handful of shapes.",
  files=["crates/ruby-analysis/src/engine/resolution.rs", "crates/ruby-analysis/src/engine/query.rs", "crates/ruby-analysis/src/indexer/fact_collector/constant_path_node.rs", "crates/ruby-analysis/src/indexer/identifier_visitor", "src/query/definition.rs"],
  mech=[("constant path resolution", "crates/ruby-analysis/src/engine/resolution.rs")],
  observe=["textDocument/definition"],
  technique="property-based testing: generated multi-file programs, differential oracle against real Ruby's constant lookup on an instrumented twin",
  note="Random programs; uses inside class << self and value constants under compact headers are not judged (known finding).")

P(id="C06", title="Answers depend on the current texts, not on the history of edits",
  statement="However a set of open documents came to have its current texts (any sequence of opens, edits, half-typed intermediate states, rewrites, saves, closes and reopens, and requests in between), the server's structural answers equal those of a fresh server that opened just the final texts in the same order: document symbols, folds, code lenses, semantic tokens, go-to-definition, highlights, implementations, type hierarchy, completion candidates, workspace symbols, ancestors, renames and diagnostics; for a single document also references. Nothing of an earlier text survives: no ghost symbols, no stale mixins or superclasses, no stale resolutions. With several documents this holds once each was analysed again after the last change.",
  over=["histories", "inputs"], quant="every generated history over one to three documents ending in a consistent program; all document-wide answers, sampled positions, symbol searches and diagnostics",
  why="Incremental replacement of facts depends on what was there before; tests replay a handful of short edit sequences.",
  files=["src/indexer/file_processor.rs", "crates/ruby-analysis/src/engine/state.rs", "crates/ruby-analysis/src/core/symbol_store.rs", "crates/ruby-analysis/src/core/graph_store.rs", "src/handlers/notification.rs"],
  mech=[("fact replacement per file", "src/indexer/file_processor.rs"), ("fact stores", "crates/ruby-analysis/src/core")],
  observe=["every structural textDocument/* answer", "workspace/symbol", "textDocument/publishDiagnostics"],
  technique="stateful property-based testing: generated edit histories, differential oracle against a fresh server on the final texts",
  note="Inferred types (hover, type hints) are not compared; order inside one answer is not significant.")

P(id="C11", title="Outline, folds and selections mirror the structure of the document",
  statement="For every program in valid syntax, the document outline lists exactly the declared namespaces, methods, attributes, constants and variables it is specified to list, nested as in the source, each once, with the declared name, kind, visibility and the range of its declaration (selection within it); and the folding ranges cover exactly the multi-line constructs, from their first to their last line, wherever these are nested.",
  over=["programs", "inputs"], quant="every generated program layout: nesting, reopening, visibility modifiers with and without arguments, multi-line and one-line constructs, comments and multi-byte text",
  why="Nesting, visibility state and layout combine without bound; the tests check a few fixed files.",
  files=["crates/ruby-analysis/src/indexer/document_symbols.rs", "src/capabilities/folding_range.rs"],
  mech=[("outline visitor", "crates/ruby-analysis/src/indexer/document_symbols.rs"), ("folding visitor", "src/capabilities/folding_range.rs")],
  observe=["textDocument/documentSymbol", "textDocument/foldingRange"],
  technique="property-based testing: programs generated together with the expected outline and folds (oracle by construction)",
  note="Random programs; the oracle is the generator's own record of what it declared and where.")

P(id="C24", title="Signature help shows the called method and the right parameter",
  statement="For every call whose method is known, with the caret at any place between its parentheses, signature help shows the signature of the method Ruby would call with its parameters in declared order, and marks as active exactly the parameter that receives the argument under the caret: by position, by keyword, by splat, also in nested calls, multi-line and multi-byte texts; a caret outside the argument list belongs to the enclosing call or none.",
  over=["programs", "inputs"], quant="every generated parameter list and argument list, every caret position in the argument list",
  why="Parameter kinds, argument forms, nesting and caret positions combine without bound.",
  files=["src/capabilities/signature_help.rs", "src/query/signature_help.rs"],
  mech=[("signature help", "src/query/signature_help.rs")],
  observe=["textDocument/signatureHelp"],
  technique="property-based testing: generated declarations, calls and caret positions; oracle by construction from Ruby's argument binding",
  note="Random programs; only calls with an unambiguous target are generated.")

P(id="C09", title="Answers do not depend on multi-byte characters or line-ending style",
  statement="For every program, replacing letters in its names, strings and comments by multi-byte characters (names staying distinct and of the same kind), or writing its lines with CRLF instead of LF, changes no answer: every position-based request at the corresponding place (definition, references, highlight, hover, signature help, rename, completion, implementations, type hierarchy, selection ranges) and every document-wide answer (outline, folds, semantic tokens, lenses, hints, diagnostics) is the same at the corresponding places, all columns counted in UTF-16 code units as the protocol demands.",
  over=["programs", "inputs"], quant="every generated program (code, YARD comments, heredocs, strings), every spelling by one-unit and two-unit multi-byte characters of the same UTF-16 width, and both line endings; every token position in it",
  why="Each of dozens of byte/column conversions is right on ASCII text; only mixed texts show the wrong ones, and the mixtures are unbounded.",
  files=["crates/ruby-analysis/src/indexer/source_document.rs", "crates/ruby-analysis/src/indexer/yard/parser.rs", "src/query/hover/generators.rs", "src/capabilities", "src/query"],
  mech=[("position mapping", "crates/ruby-analysis/src/indexer/source_document.rs"), ("per-request conversions", "src/query")],
  observe=["every textDocument/* request", "textDocument/publishDiagnostics"],
  technique="metamorphic property-based testing: a generated program against its multi-byte and CRLF spellings, answers compared position by position",
  note="Random programs and spellings.")

P(id="C25", title="Argument diagnostics agree with what Ruby accepts",
  statement="For every call to a method whose definition is known, the server reports a wrong argument count, a missing keyword or an unknown keyword exactly if Ruby itself raises ArgumentError for that call (as far as the arguments are written out: calls with splats or forwarding may stay silent, and never are reported wrongly), on the call's own range.",
  over=["programs", "inputs"], quant="every generated parameter list (required, optional, rest, post, destructured, keyword, forwarding) against every generated argument list",
  why="Ruby's binding rules over eight parameter kinds and as many argument forms cannot be enumerated by examples.",
  files=["crates/ruby-analysis/src/engine/diagnostics.rs", "src/query/diagnostics.rs"],
  mech=[("argument checks", "crates/ruby-analysis/src/engine/diagnostics.rs")],
  observe=["textDocument/publishDiagnostics"],
  technique="property-based testing: generated method/call pairs, differential oracle against real Ruby executing the call",
  note="Random programs; receivers are those for which the server promises argument checks.")

P(id="C22", title="Workspace symbol search finds every declaration and only declarations",
  statement="For every set of documents and every declared class, module, constant or method (attr_*, alias, define_method and singleton methods included), workspace/symbol asked for its name, for its name in lower case or for the first letters of its name returns that symbol at each place it is declared, once per place and with the kind of the declaration; it returns no symbol that the documents do not declare and no match that does not contain the query's letters in order.",
  over=["programs", "inputs"], quant="every generated multi-file program, every declared name in it, three forms of query each",
  why="Which declarations reach the index depends on combinations of nesting, reopening, macros and files.",
  files=["src/capabilities/workspace_symbols.rs", "src/query", "crates/ruby-analysis/src/indexer"],
  mech=[("symbol search", "src/capabilities/workspace_symbols.rs")],
  observe=["workspace/symbol"],
  technique="property-based testing: generated multi-file programs, the generator's own list of declarations as reference model",
  note="Programs with fewer matches than the server's cap of 100.")

P(id="C23", title="Type hierarchy states exactly Ruby's inheritance and mixin relations",
  statement="For every program Ruby loads: preparing a type hierarchy on a class or module header, or on a use of its name, yields that very namespace at one of its definitions; its supertypes are exactly the superclass and the modules it includes, prepends or extends, each labelled with that relation; its subtypes are exactly the namespaces that inherit, include, prepend or extend it; and following supertypes transitively (without extend) reaches exactly the namespaces of Ruby's Module#ancestors.",
  over=["programs", "inputs"], quant="every generated multi-file program that real Ruby loads, every namespace in it, relations written relative, absolute and across files",
  why="Relations resolve through lexical scope, reopening and other files; examples fix a few shapes.",
  files=["src/capabilities/type_hierarchy.rs", "src/query/type_hierarchy.rs", "crates/ruby-analysis/src/engine/hierarchy.rs", "crates/ruby-analysis/src/engine/state.rs"],
  mech=[("graph edges", "crates/ruby-analysis/src/engine"), ("hierarchy items", "src/capabilities/type_hierarchy.rs")],
  observe=["textDocument/prepareTypeHierarchy", "typeHierarchy/supertypes", "typeHierarchy/subtypes"],
  technique="property-based testing: generated multi-file programs, differential oracle against the relations real Ruby records",
  note="Namespaces are opened before the files that use them or referred to by absolute name; a relation written twice may be listed twice.")

P(id="C26", title="Renaming a constant or method edits exactly what denotes it, or is refused",
  statement="For every program Ruby loads, find-references on the definition of a class, module or constant returns every use Ruby resolves to it and no use that it resolves elsewhere. A rename of a class, module, constant or method asked for at a definition or use is either refused or edits every definition of it and every use Ruby binds to it (for methods: calls on implicit or explicit self, on a constant, on new instances, names given to alias and visibility calls), edits nothing else, and never leaves a super without its method.",
  over=["programs", "inputs"], quant="every generated multi-file program that real Ruby loads, a sample of its definitions and uses",
  why="The set of occurrences depends on constant lookup and dispatch across files, which tests sample only.",
  files=["crates/ruby-analysis/src/engine/resolution.rs", "src/query/references.rs", "src/capabilities/rename.rs"],
  mech=[("rename targets", "crates/ruby-analysis/src/engine/resolution.rs"), ("constant references", "src/query/references.rs")],
  observe=["textDocument/rename", "textDocument/references"],
  technique="property-based testing: generated multi-file programs, differential oracle against how real Ruby binds each occurrence",
  note="Calls reached only through overriding in descendants or includers are not judged; uses inside class << self are not judged.")

P(id="C16", title="RBS signatures are read as they are written",
  statement="For every RBS text in the grammar's language, parsing yields exactly the declarations it states (classes, modules, interfaces, type aliases, constants, globals, nested ones under their qualified names), each with its name, type parameters (variance, bounds), superclass, self types, mixins, methods (kind, visibility, every overload with each parameter's kind, name and type, block and return type), attributes and aliases, and every type expression with its structure; nothing is dropped, merged, duplicated or attributed to another declaration. And, within the bounds the analysis sets on block signatures, indexing that text never fails as a whole: the index then holds exactly the declared classes, modules, constants, globals, superclasses, mixins (interfaces aside) and methods, including attribute readers and writers, aliases and the `new` of an `initialize`, with their visibility and parameter kinds, located inside the text.",
  over=["inputs"], quant="every generated RBS declaration tree and layout; constructs the vendored grammar itself cannot parse are outside",
  why="Type expressions nest and declarations combine without bound; the tests parse a handful of snippets, many only for not failing.",
  files=["crates/rbs-parser/src/visitor.rs", "crates/rbs-parser/src/parser.rs", "crates/rbs-parser/src/types.rs", "crates/ruby-analysis/src/indexer/rbs_indexer.rs"],
  mech=[("syntax tree to declarations", "crates/rbs-parser/src/visitor.rs"), ("declarations to facts", "crates/ruby-analysis/src/indexer/rbs_indexer.rs")],
  observe=["rbs_parser::Parser::parse", "ruby_analysis::indexer::index_rbs"],
  technique="property-based testing: generated RBS declaration trees, printed in varied layouts, round-trip oracle (what was printed is what is read)",
  note="Random trees; the vendored tree-sitter grammar's own gaps are excluded from the generator, and method names the analysis has no notation for (`!`, `~`, quoted names with blanks) from the index lane (see DESIGN.md).")

P(id="C12", title="The persistent cache returns exactly what was published, or nothing",
  statement="For every history of lookups, publications, abandoned reservations, invalidations, clears and limit-driven evictions, by any number of users and processes of one cache directory, with stored files damaged in any way and processes killed or failing to write at any moment: a lookup returns exactly the bytes last published under that very key or hands out the right to produce them; it never returns damaged, foreign, stale or removed bytes, never loses an intact publication, never lets two users produce one key at once, never blocks for good, leaves no partial files after a failed write, keeps within its limits and touches no file that is not its own.",
  over=["histories", "crash_points", "fault_sequences", "schedules"], quant="every generated history, damage to any stored file, kill point or write limit of a publishing process, and contention of two to four users",
  why="Corruption, crashes and concurrent users meet in any order; tests damage one file in a few fixed ways.",
  files=["src/persistent_cache.rs"],
  mech=[("derived product cache", "src/persistent_cache.rs")],
  observe=["PersistentDerivedProductCache::lookup_compiled_wasm_or_reserve", "publish, invalidate, clear, summary"],
  technique="stateful property-based testing with fault injection (file damage, write limits, SIGKILL) against a reference model of the store",
  note="Random histories and kill moments; power loss (lost page cache) is not simulated.")

P(id="C13", title="Shared work runs once, reaches everyone who asked, and failures are not kept",
  statement="For every interleaving of lookups, producer endings (success, failure, panic) and waiters that give up: at most one producer per key runs at a time; everyone who asked while it ran gets that one outcome (the same object), nobody gets an answer before it ends or waits after it; a waiter that gives up does not stop the work; after a failure or panic has been delivered the next lookup starts afresh; what is kept never exceeds the entry and weight limits, oldest first out, an ephemeral cache keeps nothing; and the counters add up.",
  over=["schedules", "histories"], quant="every generated history over the three cache kinds and several keys, and parallel retry storms on real threads",
  why="Races between completion, removal and new lookups depend on the schedule; tests run a few fixed ones.",
  files=["src/single_flight.rs"],
  mech=[("single-flight caches", "src/single_flight.rs")],
  observe=["get_or_try_init", "snapshot", "contains_key", "retained_weight"],
  technique="model-based property testing of generated histories under controlled interleaving, plus randomised stress on real threads",
  note="Controlled interleavings are exact; the stress lane samples the schedules the machine produces.")

P(id="C14", title="Indexing work runs within budget, in order, and never waits needlessly",
  statement="For every history of submissions, completions, panics, aborts, cancellations and changes of the active project: the work running at any time never exceeds the task, CPU-lane, memory and I/O budgets, and never includes two coordinators of one project; whatever fits is running (nothing waits while it could run); among the requests that fit the active project comes first, then open documents, then background work, each in order of arrival, with at most one such preference while background work that fits is waiting; project-parallel work of other projects waits while the active project's navigation is pending; whatever ends in whatever way gives back exactly what it held; cancelled requests never start and every caller gets its own outcome.",
  over=["schedules", "histories", "fault_sequences"], quant="every generated history over generated budgets, projects and claims, and parallel runs on real threads",
  why="Admission depends on the whole history of claims, releases and priorities; tests run a few fixed sequences.",
  files=["src/indexing_resources.rs", "src/indexing_scheduler.rs"],
  mech=[("resource governor", "src/indexing_resources.rs"), ("project scheduler", "src/indexing_scheduler.rs")],
  observe=["IndexingResourceGovernor::run_*", "IndexingScheduler::acquire*/register_cancellable", "snapshot"],
  technique="model-based property testing of generated histories against a reference admission rule, plus randomised stress on real threads that measure what runs beside them",
  note="Controlled interleavings are exact; the stress lane samples the schedules the machine produces.")

P(id="C02", title="Unresolved diagnostics mark exactly what Ruby cannot find",
  statement="For every program Ruby loads, no `unresolved-constant` or `unresolved-method` diagnostic is published on a constant or method use that Ruby resolves; and one is published on every constant use outside singleton class bodies for which Ruby raises NameError, and on every call of a method no class defines made on a new instance, on a local variable holding one, on a constant, or on the implicit self of an instance method; after an edit of an open document that changes its methods, value constants, mixins or visibility, the diagnostics of the other open documents are those they get when analysed again.",
  over=["programs", "inputs"], quant="every generated multi-file program that real Ruby loads, every constant and method use in it",
  why="Whether a name exists depends on nesting, ancestors, reopening and other files in any combination; tests check a few shapes, and one wrong warning per file makes users switch the diagnostic off.",
  files=["crates/ruby-analysis/src/engine/resolution.rs", "crates/ruby-analysis/src/engine/diagnostics.rs", "src/query/diagnostics.rs"],
  mech=[("reference resolution", "crates/ruby-analysis/src/engine/resolution.rs"), ("published diagnostics", "src/capabilities/indexing.rs")],
  observe=["textDocument/publishDiagnostics"],
  technique="property-based testing: generated multi-file programs, differential oracle against whether real Ruby resolves each use",
  note="Top-level methods called elsewhere, and headers of compact class definitions, are not judged for missing reports.")

P(id="C10", title="A template is analysed as the Ruby in its tags, at its own places",
  statement="For every ERB template, every answer (symbols, tokens, folding, hints, definitions, references, hovers, highlights, renames, completions, signature help, diagnostics) equals the answer given for a Ruby file in which everything outside the tags is blank, at the same positions; and requests on host text, comment tags and escaped tags answer nothing, whatever that text looks like.",
  over=["inputs", "programs"], quant="every generated template: Ruby split over tags of every form (<% <%= <%- -%>), host text of any kind in between, LF and CRLF, non-ASCII text",
  why="Every feature has to go through the same masking; one that reads the raw text fails only where host text happens to look like Ruby.",
  files=["crates/ruby-analysis/src/indexer/erb.rs", "crates/ruby-analysis/src/indexer/ruby_document.rs", "crates/ruby-analysis/src/indexer/analyzer.rs", "src/query/definition.rs"],
  mech=[("template masking", "crates/ruby-analysis/src/indexer/erb.rs"), ("analysis text", "crates/ruby-analysis/src/indexer/ruby_document.rs")],
  observe=["all textDocument requests on *.erb documents", "textDocument/publishDiagnostics"],
  technique="property-based testing: metamorphic relation between a generated template and its Ruby alone at the same places",
  note="Parser warnings (without a code) are not compared; a Ruby comment ends its tag's line in the generator.")

P(id="C15", title="Completion offers exactly what Ruby accepts there",
  statement="For every program Ruby loads: completion after `X.new.`, after a local variable holding one, and after `X.` offers every public method Ruby accepts there and no method the receiver lacks; after `A::B::` it offers the constants written in that namespace; and the local variables offered at any place are exactly those Ruby's `binding.local_variables` has there.",
  over=["programs", "inputs"], quant="every generated program that real Ruby loads; sampled receivers, namespaces and places",
  why="What is available depends on ancestors, mixins, reopening, scope gates and order of assignment in any combination.",
  files=["src/capabilities/completion", "crates/ruby-analysis/src/indexer/rename.rs", "crates/ruby-analysis/src/indexer/ruby_document.rs"],
  mech=[("method and constant completion", "src/capabilities/completion"), ("visible locals", "crates/ruby-analysis/src/indexer/rename.rs")],
  observe=["textDocument/completion"],
  technique="property-based testing: generated programs, differential oracle against real Ruby's reflection at the same places",
  note="Private and protected methods may or may not be offered; methods of Object, Kernel and Class are not judged.")

P(id="C18", title="Compiled Java is described exactly as the JVM describes it",
  statement="For every compiled Java class, reading its class file yields exactly the name, superclass, interfaces, modifiers, fields, methods (descriptor, generic signature, parameter names, exceptions), record components and nesting that the JVM's own reflection states; damaged or hostile bytes are refused with an error, never a crash or hang; an archive answers each class name with the entry of the highest eligible release and its limits are errors, not truncation; a source position located for a member is the declaration of that very member, and implicit members are never mapped to another; the Ruby generated for a class parses and declares every method that Ruby can name, with its arity.",
  over=["inputs", "fault_sequences", "configurations"], quant="every generated Java source set compiled by the real compiler, every generated damage to its bytes, every generated archive layout and target release",
  why="Class files combine attributes, generics and inner classes without bound and come from anywhere; tests hold a few fixtures.",
  files=["crates/jvm-metadata/src/classfile.rs", "crates/jvm-metadata/src/descriptor.rs", "crates/jvm-metadata/src/archive.rs", "crates/jvm-metadata/src/java_source.rs", "crates/jruby-support/src/signatures.rs"],
  mech=[("class file reader", "crates/jvm-metadata/src/classfile.rs"), ("archive selection", "crates/jvm-metadata/src/archive.rs"), ("source navigation", "crates/jvm-metadata/src/java_source.rs"), ("generated signatures", "crates/jruby-support/src/signatures.rs")],
  observe=["parse_class_file", "archive index and class lookup", "locate Java declarations", "generated Ruby signatures"],
  technique="property-based testing: generated Java programs, differential oracle against JVM reflection and the compiler's own positions; byte-level fuzzing for damage",
  note="Java 17 compiler and JVM are the reference; the damage lane's oracle is absence of crash, hang and excess.")
