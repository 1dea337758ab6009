import json
P=[]
def p(id,title,statement,over,q,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
PROG=["programs","inputs"]
p("C01","A quasiquote evaluates to exactly the quoted code",
 "For any Python expression or statement suite that contains no unquotes, running the code produced by `q` yields a fresh AST structurally equal (node types, field values, list lengths, constant types) to the quoted code. Identifiers and constants, including complex, bytes, None, Ellipsis, negative zero and strings with any characters, survive unchanged.",
 PROG,"every AST the parser can produce, every node type and every field, at every nesting depth",
 "The tests quote a dozen hand-picked snippets; a node type, optional field or constant type missing from the quasiquote compiler is only seen when somebody quotes it.",
 ["mcpyrate/quotes.py"],[("astify","mcpyrate/quotes.py:astify"),("q","mcpyrate/quotes.py:q"),("splice_ast_literals","mcpyrate/quotes.py:splice_ast_literals")],
 ["value of the code that `q[...]` / `with q as x` expands to"])
p("C02","Unquotes splice exactly the given values, in place and in order",
 "Wherever an expression may appear in quoted code, `u[v]` yields the AST of the value v (numbers, strings, bytes, None, booleans, Ellipsis, and lists, tuples, dicts and sets of such; a value of any other type is refused with TypeError, or spliced as that very value, but never as another one), `n[s]` the parsed source string s, `a[t]` the AST t itself, and `s[ts]` / `t[ts]` a List / Tuple node of the items (None in a list standing for no node); the rest of the quoted code is unchanged. A list of ASTs given to `a[...]` inside a list-like position (call arguments, list/tuple/set elements, statement suite via `with a`) is flattened and spliced at that position preserving the order of all neighbours, at any nesting depth. A value of the wrong kind (a statement in expression mode, an expression in block mode, a non-AST) is rejected with TypeError.",
 PROG,"every surrounding quoted AST, every position of the unquote in it, every list length and every kind of spliced value",
 "The tests splice in a few fixed positions with fixed values; whether splicing works depends on the path from the root of the quote to the unquote.",
 ["mcpyrate/quotes.py"],[("unquote macros u,n,a,s,t","mcpyrate/quotes.py"),("ast_literal, splice_ast_literals, ast_list, ast_tuple, lift_sourcecode","mcpyrate/quotes.py")],
 ["value of the code that `q` expands to"])
p("C03","Each unquote acts at exactly its own quote level",
 "In arbitrarily nested quasiquotes, an unquote operator takes effect only where the number of enclosing quotes minus the number of enclosing unquotes reaches zero at it; at any other positive level the quote or unquote invocation is preserved literally as code. An unquote at quote level zero raises an error. The level is restored after every quote, also when an expansion raises, so that an error in one quote does not affect the next.",
 PROG,"every nesting of q/u/n/a/s/t/h, every depth, every failing expansion",
 "Tests nest quotes two or three deep in fixed shapes; the level is a global counter whose value depends on the whole history of nesting and of errors.",
 ["mcpyrate/quotes.py","mcpyrate/utils.py"],[("_quotelevel, NestingLevelTracker","mcpyrate/utils.py:NestingLevelTracker"),("_replace_tree_in_macro_invocation","mcpyrate/quotes.py")],
 ["code that a nested `q` expands to","exceptions"],
 [("_quotelevel","current quote level","mcpyrate/quotes.py")])
p("C04","A hygienically captured value always comes back as that value",
 "Looking up a hygienically captured run-time value (`h[]`) always yields a value equal to the one that was captured, at that capture, regardless of any other captures, lookups or discarded code before it; repeated lookups of one live capture return the same object, and distinct captures are independent. Captured values can be recognized in the AST, before and after capture, with their name and contents.",
 ["histories","inputs"],"every history of captures, lookups and disposals of captured code, including reuse of memory addresses",
 "Whether a stale value is returned depends on memory addresses being reused after garbage collection, which no unit test controls.",
 ["mcpyrate/quotes.py"],[("capture_value","mcpyrate/quotes.py:capture_value"),("lookup_value","mcpyrate/quotes.py:lookup_value"),("is_captured_value","mcpyrate/quotes.py:is_captured_value")],
 ["value of the expanded capture"],[("_lookup_cache","cache of unpickled values","mcpyrate/quotes.py")])
p("C05","A hygienically captured macro reference invokes that very macro",
 "A macro captured hygienically (`h[macroname]` in a quote, or by the public capture functions) is reachable at any later expansion under a fresh unique name that never collides with another capture or an existing binding, and invoking that name applies exactly the captured macro function, whatever is bound to its original name at the use site and whatever the expander's local bindings are. The unique name extends the original macro name, and capturing an already captured macro again does not accumulate suffixes. A name that is not bound to a macro is captured as an ordinary value instead.",
 ["histories","programs"],"every sequence of captures and lookups, every set of bindings at the capture and use sites",
 "The tests capture one or two macros with no conflicting bindings.",
 ["mcpyrate/quotes.py","mcpyrate/core.py"],[("capture_macro, capture_as_macro, lookup_macro","mcpyrate/quotes.py"),("global_bindings","mcpyrate/core.py")],
 ["macro function applied by the expander","global macro bindings"],[("global_bindings","macro bindings shared by all expanders","mcpyrate/core.py")])
p("C06","Uncompiling a quoted AST inverts the quasiquote compiler",
 "For every AST and every supported constant or container, uncompiling the output of the quasiquote compiler gives back the original tree; unquote operators come back as equivalent unquote markers with the same operand and parameters, and compiling the result again gives code with the same meaning as the first time. The run-time wrapper that `q` adds is transparently dropped.",
 PROG,"every quoted AST, with unquotes at every position",
 "The tests only reach this through two fixed snippets in the metatools tests.",
 ["mcpyrate/quotes.py"],[("unastify","mcpyrate/quotes.py:unastify"),("astify","mcpyrate/quotes.py:astify")],
 ["return value of unastify"])
p("C07","Unparsed source code parses back to the same AST",
 "For every AST that Python's parser can produce (in its exec, eval and single modes), the source text produced by the unparser parses back to a structurally equal AST. This includes operator nesting, f-strings with arbitrary text, nested patterns, type parameters, decorators, argument lists, and every statement form.",
 PROG,"every AST the parser can produce: every node type in every child position of every other, every string content, every operator",
 "Whether parentheses, escapes and separators are right depends on the combination of parent, position and child, of which the tests sample none systematically.",
 ["mcpyrate/unparser.py"],[("Unparser","mcpyrate/unparser.py:Unparser")],["return value of `unparse`"])
p("C08","Syntax highlighting and dumping never change the content",
 "Removing the ANSI color sequences from colored output gives exactly the uncolored output, for both the unparser and the AST dumper, in normal and debug modes, with or without macro bindings for highlighting. An AST dump, evaluated as Python code, reconstructs a structurally equal AST, for every combination of its formatting options.",
 PROG+["configurations"],"every AST, every combination of options, every set of macro bindings",
 "The tests do not compare colored and uncolored output at all.",
 ["mcpyrate/unparser.py","mcpyrate/astdumper.py","mcpyrate/colorizer.py"],[("maybe_colorize","mcpyrate/unparser.py"),("dump","mcpyrate/astdumper.py:dump"),("colorize, setcolor","mcpyrate/colorizer.py")],["return values of `unparse`, `dump`, `colorize`"])
p("C09","Exactly the macro invocations are recognized, in every position",
 "A subscript, with-item, decorator or identifier is treated as a macro invocation if and only if its name is bound to a macro, the macro arguments (if present in brackets) are accepted by the macro's declaration as parametric, and, for a bare identifier, the macro is declared as an identifier macro. This holds for every kind of syntax, wherever it appears in the code, and arguments are delivered as a list in order. Everything else, including unbound names, calls, and non-parametric invocations with arguments, is left as ordinary code.",
 PROG+["configurations"],"every AST, every set of bindings, every combination of macro declarations and invocation syntax",
 "Tests use each invocation syntax with suitable macros; the negative combinations and unusual positions are not covered.",
 ["mcpyrate/expander.py"],[("destructure_candidate","mcpyrate/expander.py:destructure_candidate"),("MacroExpander.visit_*","mcpyrate/expander.py"),("ismacrocall","mcpyrate/expander.py")],["which macro functions are called, and with which arguments"])
p("C10","Macros are applied in the documented order with the documented arguments",
 "Nested macro invocations expand outermost first, the items of a `with` left to right, decorators innermost (last) first, and siblings in the order of the AST's fields; each macro receives the code inside its invocation, its arguments, the as-part, the syntax kind, the expander, and an intact copy of the whole invocation including the part being popped. The invocation is replaced by exactly what the macro returned (one node, several, or nothing), remaining non-macro with-items and decorators stay attached, and a deleted statement or expression leaves valid code behind with a coverage marker at the location of the invocation.",
 PROG,"every arrangement of macro invocations and ordinary code, every kind of return value",
 "The tests check one or two macros at a time; ordering and argument passing depend on the combination.",
 ["mcpyrate/expander.py","mcpyrate/core.py"],[("MacroExpander.visit_With, _visit_Decorated, visit_Subscript, visit_Name","mcpyrate/expander.py"),("BaseMacroExpander.expand","mcpyrate/core.py")],["calls received by macro functions","expanded AST"])
p("C11","Recursion modes expand exactly as deep as requested",
 "In recursive mode expansion continues until no macro invocation remains in the output; in once mode exactly one pass is made, and the result is protected from all further expansion; a macro may nest either mode in the other and each subtree follows its innermost request. An identifier macro that returns its own name is left as that name. The mode in force before a nested visit is restored afterwards, also when an expansion raises.",
 PROG+["histories"],"every chain of macros expanding to macros, every nesting of visits, every failure point",
 "The tests expand one or two levels and do not fail in the middle.",
 ["mcpyrate/core.py","mcpyrate/expander.py"],[("visit_once, visit_recursively, _recursive_mode","mcpyrate/core.py:BaseMacroExpander"),("Done","mcpyrate/core.py")],["macro calls","expanded AST","expander.recursive"],[("expander.recursive","current recursion mode","mcpyrate/core.py")])
p("C12","Code that invokes no macros passes through expansion unchanged",
 "Macro-expanding code that contains no macro invocations leaves it structurally unchanged, including source locations, whatever macros are bound; code around a macro invocation is likewise unchanged. No expander-internal marker remains in the output of a completed expansion, while other markers are kept, and custom postprocessors run exactly once each in registration order, with duplicates ignored and removed ones not run.",
 PROG+["configurations"],"every AST, every set of bindings, every sequence of postprocessor registrations",
 "The tests look at expanded behaviour, not at the surrounding AST.",
 ["mcpyrate/core.py","mcpyrate/expander.py"],[("expand_macros","mcpyrate/expander.py"),("global_postprocess, add_postprocessor, remove_postprocessor","mcpyrate/core.py")],["expanded AST"],[("global_postprocessors","registered hooks","mcpyrate/core.py")])
p("C13","Failing macros are reported with cause and all use sites, outermost first",
 "If a macro raises, or returns anything other than an AST node, an iterable of AST nodes, or None, expansion fails with a macro application error that names the macro, the invocation syntax, the file and the line of the use site. The original exception is preserved as the direct cause, and for macros that expand inner macros themselves all use sites are combined into one report, outermost first. A valid return value never raises.",
 PROG+["fault_sequences"],"every kind of return value, every exception type, every nesting depth of failing macros",
 "Tests contain no failing macros.",
 ["mcpyrate/core.py","mcpyrate/utils.py"],[("BaseMacroExpander.expand","mcpyrate/core.py"),("format_location, get_lineno","mcpyrate/utils.py")],["exception type, message, __cause__"])
p("C14","Expression contexts are fixed to what the compiler requires",
 "After context fixing, every Name, Attribute, Subscript, Starred, List and Tuple node carries Store where it is bound by an assignment, loop, with, comprehension or walrus, Del in a del statement, and Load elsewhere, as Python's parser would have set, whatever contexts were there before. With the copying mode enabled this holds also when the same node instance appears in several places of the tree; nothing but contexts changes. Macro expansion does this with everything macros return, before the next macro sees it, and with the whole result.",
 PROG,"every AST, every initial assignment of contexts, every sharing of node instances",
 "Tests rely on a few expansions compiling; wrong contexts depend on parent/child combinations and on sharing.",
 ["mcpyrate/astfixers.py"],[("_CtxFixer","mcpyrate/astfixers.py"),("fix_ctx","mcpyrate/astfixers.py"),("BaseMacroExpander._visit_expansion, global_postprocess","mcpyrate/core.py")],["ctx attributes in the resulting AST"])
p("C15","Source locations are filled, kept or overwritten per mode",
 "Filling locations from a reference gives every node lacking line or column information the reference's position and keeps existing positions (reference mode); inherits from the nearest enclosing node that has one (update mode); or replaces all positions (overwrite mode). It applies to every node of the tree or list of trees, handles line and column independently, changes nothing else, and does nothing when the reference has no position.",
 PROG,"every tree shape, every pattern of present and missing locations, all position values",
 "The tests never look at location attributes.",
 ["mcpyrate/astfixers.py"],[("fix_locations","mcpyrate/astfixers.py")],["lineno, col_offset, end_lineno, end_col_offset of the result"])
p("C16","Tree walkers scope their state to the subtree and collect in order",
 "A walker's state set for a subtree is in force for exactly that subtree (all of it, and nothing else) and the previous state is restored afterwards, also on exceptions; the last setting for a subtree wins, and the original state object is not modified by it. Nodes are visited in AST field order, collected values keep the order of visiting, a transformer's return value (node, list, None) replaces, splices or deletes the node, and a visited list stays a list.",
 PROG,"every tree shape, every placement of state changes and edits",
 "Only exercised indirectly.",
 ["mcpyrate/walkers.py"],[("BaseASTWalker, ASTVisitor, ASTTransformer","mcpyrate/walkers.py")],["visited (node, state) pairs, collected, resulting tree"])
p("C17","AST markers are found, deleted and reported completely",
 "Collecting markers of a class returns every instance of that class or its subclasses in the tree, however nested, in order; deleting them leaves exactly the tree in which each such marker is replaced by its body, without touching other markers or nodes; the final check raises if and only if any matching marker remains. After macro expansion the expander deletes its own markers and then calls the postprocessors registered at that time, each once, in the order of registration, with what the one before it returned.",
 PROG,"every tree with markers of several classes at every position and nesting, with node or list bodies",
 "Not tested directly.",
 ["mcpyrate/markers.py"],[("get_markers, delete_markers, check_no_markers_remaining","mcpyrate/markers.py"),("global_postprocess, add_postprocessor, remove_postprocessor","mcpyrate/core.py")],["return values, exceptions"])
p("C18","Splicing replaces every paste-here indicator, and nothing else",
 "Splicing an expression or statements into a code template replaces each paste-here indicator with the given code (the first occurrence by the code itself, the others by independent equal copies), wherever it appears, and leaves everything else in the template unchanged; other names, and the bare name in a non-matching position, are not touched. A single node may be given instead of a list, an empty template yields the code itself, and invalid arguments are rejected.",
 PROG,"every template, every set of positions of the indicator, every tag and code to splice",
 "The tests use one template shape for each function.",
 ["mcpyrate/splicing.py"],[("splice_expression, splice_statements","mcpyrate/splicing.py")],["resulting AST"])
p("C19","Splicing a module into a dialect template keeps all code in canonical order",
 "Splicing a module body into a dialect template produces, in this order: the docstring (user's, then template's, joined when both exist), future-imports (template's, then user's), the user's `__all__`, dialect-imports (template's, then user's), macro-imports (template's, then user's), and the rest of the template with the rest of the user's code at the paste point. No other statement is lost, duplicated or reordered; the template's own `__all__` is dropped; template code is located at the given position, or else at the first statement of the user's code; and the result compiles.",
 PROG,"every sequence of statement kinds in the body and in the template, at top level and nested",
 "The tests splice two fixed modules.",
 ["mcpyrate/splicing.py","mcpyrate/coreutils.py"],[("splice_dialect","mcpyrate/splicing.py"),("split_futureimports","mcpyrate/coreutils.py")],["resulting statement list"])
p("C20","Future-imports and docstrings keep their place at the top of the module",
 "Splitting a module body yields its docstring statement (a leading string constant only, including an empty one), the run of future-imports directly after it, and everything else, whose concatenation is the original body; injecting statements places them directly after those future-imports. This holds for any body, including empty ones and ones consisting only of a docstring and future-imports.",
 PROG,"every sequence of statement kinds",
 "Tests use a single module layout.",
 ["mcpyrate/coreutils.py","mcpyrate/utils.py"],[("split_futureimports, inject_after_futureimports","mcpyrate/coreutils.py"),("getdocstring","mcpyrate/utils.py")],["return values"])
p("C21","Multi-phase compilation runs every phase, highest first, and lifts its code",
 "A module with `with phase[n]` blocks is compiled from the highest phase down to zero; each phase contains exactly its own code, and all code of higher phases is available to it in the documented order, with `__phase__` set to the current number and placed after any future-imports; the final result contains the code of all phases and no phase blocks. Invalid phase specifications are rejected. When compilation ends, successfully or not, the module table entry for the module is what it was before.",
 PROG+["fault_sequences"],"every arrangement of phase blocks and ordinary statements, every set of phase numbers, every failing phase",
 "The tests compile three fixed multi-phase modules, all succeeding.",
 ["mcpyrate/multiphase.py"],[("iswithphase, extract_phase, split_multiphase, detect_highest_phase, multiphase_expand","mcpyrate/multiphase.py")],["code run at each phase","final AST","sys.modules"],[("sys.modules[self_module]","temporary module during compilation","mcpyrate/multiphase.py")])
p("C22","A module is considered stale if any macro dependency changed",
 "The modification time reported for a source file is the maximum of its own and those of all modules it macro-imports or dialect-imports from, directly or indirectly, also from within top-level phase blocks, whatever the state of the on-disk import cache; a macro module without a source file counts with the time of its own file, and one without any file does not count. The import cache is used only if it was written for the same modification time of the same file, and a missing, damaged or unwritable cache never changes the result.",
 ["inputs","configurations","histories"],"every dependency graph, every assignment of modification times, every state of the cache files",
 "No test covers modification times.",
 ["mcpyrate/importer.py"],[("path_stats","mcpyrate/importer.py:path_stats")],["return value of path_stats","cache files read and written"])
p("C23","Source files map to the package of their deepest search-path entry",
 "For a source file, the search-path entry found is the deepest directory in the module search path that contains it (by whole path components), the relative path is its path below that entry, and the package name is the dotted path of its directory; a file directly at a search-path root or outside all of them is rejected. The order of the search path, trailing or missing separators and other entries with a common name prefix make no difference.",
 ["inputs","configurations"],"every search path (order, nesting, common prefixes, relative entries) and every file path",
 "Not tested; depends on path string contents.",
 ["mcpyrate/coreutils.py"],[("match_syspath, relativize, resolve_package","mcpyrate/coreutils.py")],["return values, exceptions"])
p("C24","Generated symbols are always fresh, and their suffix can be removed",
 "Every call of the symbol generator returns a name different from all names it returned before in the process, even if the underlying unique-id source repeats itself, starting with the requested base name; with an identifier as the base name the result is an identifier. Removing the unique suffix from a generated name gives back its base name, and any string without such a suffix is left unchanged.",
 ["histories","inputs"],"every history of generated names, every output of the unique-id source, every base name",
 "Collisions do not occur in tests.",
 ["mcpyrate/utils.py"],[("gensym, scrub_uuid","mcpyrate/utils.py")],["return values"],[("_previous_gensyms","names generated so far","mcpyrate/utils.py")])
p("C25","Renaming affects all and only the occurrences of the name",
 "Renaming a name in an AST changes every identifier-holding field equal to the old name (variables, attributes, functions, classes, parameters, keyword arguments, imports, exception handlers, global and nonlocal declarations, patterns, type parameters) to the new name, and changes nothing else; string constants and other names are untouched. Renaming to a fresh name and back restores the tree.",
 PROG,"every AST, every node type holding names, every pair of names",
 "The tests use rename on a lambda only.",
 ["mcpyrate/utils.py"],[("rename","mcpyrate/utils.py:rename")],["resulting AST"])
p("C26","Macro-imports bind exactly the imported macros and leave only a plain import",
 "For every macro-import at the top level of a module, each imported name (or its as-name) is bound to the object of that name in the resolved module, later bindings overriding earlier ones; the statement is replaced by a plain absolute import of that module (or removed, for a self-macro-import), and all other statements are untouched. Relative imports resolve against the file's package, and missing modules, missing names, non-callable objects, missing module names, relative self-imports and disallowed as-names are rejected with the documented exception.",
 PROG+["configurations"],"every sequence of statements, every form of macro-import, every content of the imported modules",
 "Tests import existing macros only.",
 ["mcpyrate/coreutils.py","mcpyrate/expander.py"],[("ismacroimport, get_macros","mcpyrate/coreutils.py"),("find_macros","mcpyrate/expander.py")],["bindings, resulting AST, exceptions"])
p("C27","Dialects are applied in order of appearance, each exactly once",
 "Source transformers run in the order their dialect-imports appear in the text, once per distinct import and also for imports added by earlier transformers; the same holds for AST transformers, and postprocessors run in the order the AST transformers' dialects ran, on the same instances. Each transformer receives the previous one's output, one that declines leaves the content unchanged, and an empty result, a non-dialect, or a failing transformer is rejected with the documented exception. Text following a dialect-import never affects its recognition, and the AST form of the import is replaced by a plain absolute import.",
 PROG+["histories"],"every sequence of dialect-imports and other lines, every combination of transformers that act, decline, fail or add imports",
 "Tests use at most two dialects, imported at the top.",
 ["mcpyrate/dialects.py"],[("DialectExpander._transform, find_dialectimport_source, find_dialectimport_ast, postprocess_ast","mcpyrate/dialects.py")],["order of transformer calls, resulting content"])
p("C28","Observing an expansion does not change it",
 "Stepping through an expansion in the debugger macro, installing a debug hook, or collecting macro invocations beforehand yields the same expanded code as without; the collector reports each (macro, syntax) pair that the expander would directly find in the code, once. Debug hooks are restored afterwards, also on errors, and the hook sees the unmodified invocation and the macro's result.",
 PROG,"every arrangement of macro invocations",
 "The tests do not use the debug tools.",
 ["mcpyrate/debug.py","mcpyrate/expander.py","mcpyrate/core.py"],[("step_expansion","mcpyrate/debug.py"),("MacroCollector","mcpyrate/expander.py"),("debughook","mcpyrate/core.py")],["expanded AST, collected invocations"])
p("C29","Dynamic modules are registered and disposed of exactly as documented",
 "Creating a module at run time registers it under its name (a fresh unique one if none is given) with the right package and file attributes, attaches it to its parent package only if requested, and rejects invalid names or missing parents without side effects; a temporary module disappears from the module table and its parent when its context exits, normally or by an exception. Running code in a module executes it in that module's namespace, sets its docstring to the code's docstring if there is one and None otherwise, and resolves the module by object or by name.",
 ["inputs","configurations","fault_sequences"],"every combination of name, file, parent state, update flag and exit path; every form of source and module",
 "The tests cover a few combinations, none failing.",
 ["mcpyrate/compiler.py"],[("create_module, temporary_module, run","mcpyrate/compiler.py")],["sys.modules, parent namespace, module attributes"],[("sys.modules","module table","mcpyrate/compiler.py")])
p("C30","The expand-family macros agree with expanding by hand",
 "Expanding quoted code once or fully with the run-time or macro-expansion-time variants of the expand macros gives the same AST as applying the corresponding expander mode to that code by hand, in expression form and (for the variants that also quote) in block form; the stop-gap markers they leave inside are compiled so that the quoted result can still be used as a quote. `expand_first` expands the chosen macros before the others; `stepr` gives the same AST as the expansion it shows; location filling changes locations only. Code that is not a quote, and malformed invocations, are rejected. Bindings listed by the binding-inspection tools are exactly those of the expander.",
 PROG,"every quoted code with nested macro invocations",
 "The tests use one snippet.",
 ["mcpyrate/metatools.py"],[("expand1s, expands, expand1r, expandr, expand_first, macro_bindings","mcpyrate/metatools.py")],["value of the expanded code"])
p("C31","Cache cleaning removes bytecode caches, and only those",
 "Cleaning bytecode caches under a directory removes the contents of exactly the cache directories found under it and reports exactly those, and removes nothing else; a dry run removes nothing. What vanishes meanwhile is ignored, any other error is raised. It rejects a path that is not a directory.",
 ["inputs","configurations","fault_sequences"],"every directory tree (names, nesting, file kinds) and every failing removal",
 "Not tested.",
 ["mcpyrate/pycachecleaner.py"],[("getpycachedirs, deletepycachedirs","mcpyrate/pycachecleaner.py")],["file-system removal operations requested"])
p("C32","A Bunch behaves as the mapping it holds",
 "Under every sequence of operations, a Bunch has the same contents, iteration order, length, results and membership as a dict given the corresponding operations, with attribute and item access equivalent; missing attributes raise AttributeError and missing keys KeyError; names of its own methods cannot be overwritten as attributes; copies are independent of the original, and wrapping a mapping shares its storage.",
 ["histories","inputs"],"every sequence of mapping and attribute operations over every name",
 "Only used indirectly.",
 ["mcpyrate/bunch.py"],[("Bunch, bunchify","mcpyrate/bunch.py")],["results and exceptions of operations"])
p("C33","Importing macro-enabled modules through the import system is transparent",
 "With the importer active, importing a module that uses macros yields the same module state whether it is compiled afresh or loaded from its bytecode cache, in the same or another process, and in it all macros are expanded. Modules that use neither macros nor dialects compile to the same code as under the standard importer, at every optimization level. An import that fails leaves no partially initialized module behind, and importing again after the cause is gone works. After the source of the module, or of a macro module it depends on, is edited, the next import in a new process sees the change. Activating and deactivating the importer any number of times installs and removes exactly its hooks.",
 ["histories","configurations","crash_points"],"every module, every cache state, every interleaving of edits and imports",
 "The tests import each test module twice in fixed order.",
 ["mcpyrate/importer.py","mcpyrate/activate.py"],[("source_to_xcode, path_xstats","mcpyrate/importer.py"),("activate","mcpyrate/activate.py")],["imported module"])
p("C34","The interactive console keeps macros and names across inputs",
 "In the macro-enabled console (`MacroConsole`), each input sees all names and macro bindings established by earlier inputs, a macro-import takes effect from its own input on (also reloading the edited macro module), and displayed results are those of the expanded code; `@macro` definitions and self-macro-imports bind the session's own functions as macros. An input that fails to parse, import, expand (also if interrupted) or compile leaves names and macro bindings as they were, and one that fails while running keeps what it had done by then, as in the standard console. No input except raising SystemExit ends the session. The special commands `obj?`, `obj??`, `macros?` show the documentation, source or bindings and change nothing.",
 ["histories"],"every sequence of console inputs",
 "No tests.",
 ["mcpyrate/repl/console.py"],[("MacroConsole.runsource","mcpyrate/repl/console.py")],["console output, session namespace, macro bindings"])
p("C35","macropython runs exactly the named program, as `__main__`",
 "`macropython path/to/script` runs exactly that file, whatever its name, however its path is written and whatever other modules have that name, once, as the module `__main__` (also `sys.modules['__main__']`) without a package, with the directory of the (resolved) file first in `sys.path`. `macropython -m name` runs what `python -m name` would find, with the working directory first in `sys.path`, after initializing the parent packages: a module as `__main__` with its parent package as `__package__` (so that relative imports work), a package, subpackage or namespace package by importing its `__main__` submodule. Macros in the program are expanded. A program that fails with an exception restores the bootstrapper's `__main__` and propagates the exception; what is not there or cannot be run (missing file or module, a dotted name below a plain module, a package without `__main__`) is reported as such before anything else is run, and never confused with an import error inside the program. `macropython -i` starts a macro-enabled session with the working directory first in `sys.path` and keeps the history between sessions.",
 ["inputs","configurations"],"every file name, path form, working directory, package layout and kind of program",
 "No tests.",
 ["mcpyrate/repl/macropython.py"],[("main, import_module_as_main","mcpyrate/repl/macropython.py")],["what runs, as what, sys.path, sys.modules['__main__'], exception"])
p("C36","The IPython extension keeps macros and names across cells, and can be unloaded",
 "With the extension `mcpyrate.repl.iconsole` loaded in IPython, each cell sees all names and macro bindings established by earlier cells, a macro-import takes effect from its own cell on (also reloading the edited macro module), and displayed results are those of the expanded code; `@macro` definitions and self-macro-imports bind the session's own functions as macros. A cell that fails to parse, to import its macros or to expand is rejected and leaves names and macro bindings as they were, and no cell disables the extension. `%macros` shows the bindings; `%%dump_ast` shows the tree of the cell's text, in the requested mode and expanded if requested, and changes nothing. Unloading the extension leaves the shell's transformers and events as before loading it, so that later cells are plain Python, and loading it again starts anew with each macro expanded once.",
 ["histories"],"every sequence of cells, loads and unloads",
 "No tests.",
 ["mcpyrate/repl/iconsole.py"],[("InteractiveMacroTransformer.visit, IMcpyrateExtension","mcpyrate/repl/iconsole.py")],["cell results, session namespace, macro bindings, hooks in the shell"])
p("C37","Nesting levels are restored however a block is left",
 "A nesting level tracker starts at the given level (0 by default), and its level inside each `set_to(n)` / `changed_by(d)` block is exactly the level given, or the one outside changed by d; after the block, left in any way (normally, by an exception or by returning) it is again the one before, under any nesting and sequence of blocks, independently of other trackers. A change that would make the level negative, or a value that is not an integer, is refused and changes nothing; the level cannot be assigned to directly.",
 ["histories","inputs"],"every program of nested and successive blocks, for all integer levels",
 "One nesting is tested.",
 ["mcpyrate/utils.py"],[("NestingLevelTracker","mcpyrate/utils.py")],["value of the tracker"])
p("C38","Debug utilities report what is there",
 "The source location validator reports exactly the nodes of a tree that miss one of the requested location attributes, each with the names of these and its own source code, in tree order, never the ignored ones; and the line number found for a tree is the first one there is in it. A location message quotes the given file name, line number and source code of the tree. The listing of macro bindings names exactly the bindings of the expander, each with the macro it is bound to. Extracting the bindings of given macro functions gives exactly those of them, under all their names, and leaves the bindings as they are. Coloring a text keeps it, and resets the style before and after it.",
 PROG,"every tree, every presence of its location attributes, every set of bindings",
 "No tests.",
 ["mcpyrate/debug.py","mcpyrate/utils.py"],[("SourceLocationInfoValidator","mcpyrate/debug.py"),("get_lineno, format_location, format_bindings","mcpyrate/utils.py")],["collected nodes, messages"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
