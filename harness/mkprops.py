import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))
OPT="sonolus/backend/_opt/"
prop("C01","Compiled programs behave as their source at every level",
 "For every well-formed callback program (control-flow graph), every optimisation level, mode and callback, and every initial memory, running the emitted engine program performs exactly the memory writes and native effects of the source program, in the same order and with the same values, and terminates with the same result. Compilation of such a program never fails, crashes or hangs.",
 ["programs","inputs","configurations"],"all programs x {minimal, fast, standard} x mode/callback contexts x initial memories",
 "The tests check a few dozen hand-written graphs and random straight-line samples against fixed outputs; the space of program shapes and inputs that exercise interactions of passes (SSA, SCCP, GVN, LICM, if-conversion, coalescing, allocation, fusion) is unbounded.",
 [OPT+"driver.pyx",OPT+"ir.pyx",OPT+"midend.pyx",OPT+"lower.pyx",OPT+"analysis.pyx",OPT+"emit.pyx","sonolus/backend/optimize/__init__.py"],
 [("pass pipeline per level",OPT+"driver.pyx:_pipeline"),("SSA construction and mid-end",OPT+"midend.pyx"),("out-of-SSA, allocation, fusion",OPT+"lower.pyx"),("emission",OPT+"emit.pyx")],
 [("memory","numbered blocks of numbers","engine"),("temporaries","block 10000 after allocation","lower.pyx:allocate_func")],
 ["optimize_and_finalize(cfg, level, config)"])
prop("C02","Side effects and random draws happen exactly once, in order",
 "Every native side effect the source program executes is executed exactly once, in program order and with the operand values current at that point; a random draw is never duplicated, reordered with another draw or effect it depends on, and all uses of one draw see one value (a draw nobody uses may be dropped).",
 ["programs","inputs"],"all programs mixing effects, draws, memory and control flow, at all levels",
 "Duplication, loss or reordering of an effect needs a particular neighbourhood of expressions (a draw inlined into a multiply used operand, an effect whose value is dead, a switch test evaluated twice); tests sample a handful.",
 [OPT+"lower.pyx",OPT+"midend.pyx",OPT+"emit.pyx","sonolus/backend/ops.py"],
 [("side-effect, purity and pinning flags of operations","sonolus/backend/ops.py"),("inlining and dead code elimination respect pinned values",OPT+"lower.pyx"),("fusion of read-modify-write",OPT+"lower.pyx:fuse_rmw")],
 observe=["trace of effects of the emitted program"])
prop("C03","Memory reads yield the current value, whatever the aliasing",
 "A read of engine memory yields the value most recently written to that cell, also when the cell is reached through computed block numbers, computed indices, pointers stored in memory, bulk copies or fused read-modify-write operations. Only memory that the given callback of the given mode cannot write may be treated as constant.",
 ["programs","inputs","configurations"],"all read/write interleavings over aliasing addresses, for every mode, callback and block",
 "Correct caching of reads depends on which of two syntactically different addresses coincide at run time and on the permission tables of ~70 blocks; tests never enumerate them.",
 [OPT+"midend.pyx",OPT+"ir.pyx",OPT+"lower.pyx","sonolus/backend/blocks.py"],
 [("readable/writable callbacks per block","sonolus/backend/blocks.py"),("merging of reads of non-writable memory",OPT+"midend.pyx"),("load forwarding and fusion",OPT+"lower.pyx")],
 observe=["trace of writes and effects of the emitted program"])
prop("C04","Temporaries never overwrite each other and fit their storage",
 "Two program variables (scalars or array elements) whose values are both still needed never occupy the same storage, an array's elements stay addressable by run-time index, and simultaneous exchanges of variables keep every value. All temporary storage lies within the 4096 cells the runtime provides; a program that cannot fit is rejected rather than miscompiled, and one that fits at all levels of pressure is accepted.",
 ["programs","inputs"],"all programs with scalars, arrays, swaps, loops; all storage demands around the capacity",
 "Interference depends on whole-program liveness through loops and switches; tests check small examples and never the combination with coalescing, dead stores and partially initialised arrays.",
 [OPT+"lower.pyx",OPT+"analysis.pyx"],
 [("liveness",OPT+"analysis.pyx:compute_liveness"),("interference, packing, bump",OPT+"lower.pyx:_pack"),("coalescing",OPT+"lower.pyx:_coalesce"),("parallel copies",OPT+"lower.pyx:lower_from_ssa")],
 observe=["block 10000 accesses of the emitted program; ValueError on overflow"])
prop("C05","Branches reach the same successor for every test value",
 "For every set of case labels (integers, fractions, negative, sparse, strided, huge) with or without a default and every test value (also NaN, infinities and values next to a label), the emitted dispatch continues at the successor the source graph prescribes, and with no matching label and no default the program ends.",
 ["programs","inputs"],"all label sets and test values, at all levels",
 "Dispatch is lowered in many special cases (offset, stride, dense, sparse, chained equality, boolean, folded tests) selected by the label set; tests use a few label sets and integer tests.",
 [OPT+"lower.pyx",OPT+"emit.pyx",OPT+"midend.pyx"],
 [("switch normalisation and chain rewriting",OPT+"lower.pyx"),("selection of If/Switch/SwitchInteger forms",OPT+"emit.pyx"),("branch folding",OPT+"midend.pyx")],
 observe=["executed path of the emitted program"])
prop("C06","Compile-time evaluation agrees with run-time evaluation",
 "Whenever the compiler evaluates an operation on known operands, simplifies an expression, or prunes a branch by known or bounded values, the outcome equals what evaluating the original expression at run time yields; an operation outside its domain (division by zero, overflow, ...) is left to run time and never fails compilation. Literal numbers, including fractions, huge values, NaN and infinities, reach the program unchanged.",
 ["inputs","programs"],"all operations and operand values, incl. special values and values at representation boundaries",
 "The folding kernels are sampled on fixed points; algebraic rewrites and range reasoning combine over arbitrary expression trees.",
 [OPT+"kernels.pyx",OPT+"midend.pyx",OPT+"emit.pyx"],
 [("folding kernels",OPT+"kernels.pyx:fold"),("simplification and propagation",OPT+"midend.pyx"),("special constants via read-only memory",OPT+"emit.pyx")],
 observe=["kernels.fold(op, args)","trace of the emitted program"])
prop("C07","Compilation is repeatable and leaves its input alone",
 "Compiling the same program under the same settings gives the same output regardless of what was compiled before, of hash randomisation, of object identity, of block creation or edge insertion order, and of concurrent compilation in other threads; and the program handed to the compiler is never modified.",
 ["histories","configurations","schedules"],"all sequences and interleavings of compilations in a process, all hash seeds",
 "Dependence on earlier compilations, set ordering or shared state shows only under particular histories; a test runs one.",
 [OPT+"driver.pyx",OPT+"ir.pyx",OPT+"lower.pyx","sonolus/backend/optimize/__init__.py","sonolus/backend/place.py","sonolus/backend/ir.py"],
 [("marshalling into a private arena",OPT+"ir.pyx:marshal_in"),("sorted iteration",OPT+"lower.pyx"),("non-destructive contract","sonolus/backend/optimize/__init__.py")],
 observe=["output and input graph before/after"])
prop("C08","The packaged node table decodes to the compiled programs",
 "Adding any sequence of compiled programs to a node table returns for each an index from which the table decodes to exactly that program, now and after any later additions; every reference points to an earlier entry, equal nodes are stored once, and numbers decode to the numbers added.",
 ["histories","inputs"],"all sequences of additions of arbitrary programs",
 "Sharing across programs and hash/equality corner cases (1 vs 1.0, nested equal subtrees, deep trees) depend on the history of additions.",
 ["sonolus/build/node.py","sonolus/backend/node.py","sonolus/build/compile.py"],
 [("memoised interning of nodes","sonolus/build/node.py:OutputNodeGenerator"),("structural equality/hash of nodes","sonolus/backend/node.py")],
 state=[("nodes","the table","OutputNodeGenerator.nodes"),("indices","node -> index","OutputNodeGenerator.indexes")],
 observe=["OutputNodeGenerator.add / get"])
prop("C09","The reference interpreter implements the runtime's language",
 "For every engine program, the interpreter evaluates operands in order, only the selected arms, with the runtime's meaning of loops, multi-level breaks, switches, short-circuiting, shifted/pointed and read-modify-write memory operations and arithmetic, and reports the same result, memory and log as the runtime's definition.",
 ["programs","inputs"],"all engine programs, including ones the compiler does not emit",
 "Tests run compiled programs and single operations; nesting of breaks, blocks, loops and effects in operand positions is unbounded.",
 ["sonolus/backend/interpret.py","sonolus/backend/node.py","sonolus/backend/ops.py"],
 [("evaluation of nodes","sonolus/backend/interpret.py:Interpreter.run")],
 state=[("blocks","memory","Interpreter.blocks"),("log","DebugLog operands","Interpreter.log")],
 observe=["Interpreter.run result, .get, .log"])
prop("C10","Optimised graphs are programs again",
 "The graph the optimiser returns is itself a program with the behaviour of its input: emitting it gives an equivalent engine program, and a graph whose temporaries have not been placed yet can be optimised again, at any level and any number of times, with the same behaviour.",
 ["programs","histories","configurations"],"all sequences of optimisation steps over all programs",
 "Tests optimise once; export and re-import of intermediate forms and repeated optimisation are covered by a handful of graphs.",
 [OPT+"driver.pyx",OPT+"ir.pyx","sonolus/backend/optimize/flow.py"],
 [("export of the arena to graphs",OPT+"ir.pyx:marshal_out"),("run_passes / cfg_to_engine_node","sonolus/backend/optimize/__init__.py")],
 observe=["run_passes, cfg_to_engine_node"])
prop("C11","Callbacks written in Python behave as Python",
 "A function of the supported subset (arithmetic, comparisons and short-circuit logic, conditionals, while/for loops with break/continue/else over ranges, arrays, tuples and user iterators, comprehension-like generator expressions, generator functions, match, early return, nested functions and calls, default/keyword/starred arguments, records with methods, properties and operators, fixed arrays and their sorting and searching, assignments and augmented assignments) does the same when compiled at any level as when run by Python: same effects in the same order, same results. (How often a key given to min, max or a sort is evaluated is not fixed.)",
 ["programs","inputs"],"all functions of the subset and all inputs",
 "Each construct is tested alone; interactions (loop else with break inside match inside a call, merge of constants across branches) form an unbounded space.",
 ["sonolus/script/internal/visitor.py","sonolus/script/internal/context.py","sonolus/script/internal/builtin_impls.py","sonolus/script/num.py","sonolus/script/record.py","sonolus/script/array.py"],
 [("AST visitor","sonolus/script/internal/visitor.py"),("context merging at joins","sonolus/script/internal/context.py")],
 observe=["debug_log trace of compiled and plain runs"])
prop("C12","Containers behave as the collections they model",
 "After any sequence of operations, a bounded list, set or map holds exactly the elements the corresponding mathematical sequence, set or finite map holds, iteration visits each exactly once, sorting leaves the same elements in order (also of linked lists of entities), and exceeding the capacity or missing an element is reported as documented; the same when the code is compiled.",
 ["histories","inputs"],"all operation sequences up to capacity, interpreted and compiled",
 "State reached depends on the whole history (removals, re-insertions, sorting); tests run short fixed histories.",
 ["sonolus/script/containers.py","sonolus/script/array_like.py","sonolus/script/array.py"],
 [("VarArray/ArraySet/ArrayMap/FrozenNumSet","sonolus/script/containers.py"),("sorting and searching","sonolus/script/array_like.py")],
 state=[("size, slots","contents","containers.py")],
 observe=["operation results and contents"])
prop("C13","A resource collection serves exactly what was put into it",
 "After any sequence of adding items and assets, loading collections from disk or packages and merging collections, the written site lists and describes exactly the items present (later additions of the same name winning; the names info and list are reserved), every referenced file exists under its content hash with the right bytes, a level's engine given by name and the skin, background, effect and particle it uses resolve to those items' current form, no operation on one collection changes another, and loading the written package again yields the same collection.",
 ["histories","inputs"],"all histories of collection operations, all item names and contents",
 "One round trip is tested on one collection; name collisions, merging, relinking and unusual names arise only in longer histories.",
 ["sonolus/build/collection.py"],
 [("items by category and name, repository by hash","sonolus/build/collection.py:Collection"),("linking and writing","sonolus/build/collection.py:Collection.write"),("loading","sonolus/build/collection.py:load_from_scp, load_from_source")],
 state=[("categories","name -> item by category","Collection.categories"),("repository","hash -> bytes","Collection.repository")],
 observe=["files written; Collection contents"])
prop("C14","Packaged engines run each archetype's callbacks",
 "In a built engine, each callback of each archetype (own or inherited) and each global callback refers to code that behaves as the method written for it, with its order; initialisation data, special constants and exported/imported fields match, at every optimisation level and for every build configuration.",
 ["programs","configurations"],"all archetype hierarchies, callback sets, levels and configurations",
 "Tests build example engines without executing the packaged result.",
 ["sonolus/build/compile.py","sonolus/build/engine.py","sonolus/script/archetype.py","sonolus/script/engine.py"],
 [("compile_mode","sonolus/build/compile.py"),("package_engine","sonolus/build/engine.py")],
 observe=["engine data: archetypes, nodes, ROM"])
prop("C15","Development rebuilds serve the current project",
 "After any sequence of edits, successful and failed rebuilds, and requests, the site a client following the served lists sees is the one a fresh build of the project as it stood at the last successful rebuild would give, a failed rebuild leaves that site in place, and the debug messages of the served engines decode to their texts. (Files no list refers to any more may linger.)",
 ["histories","fault_sequences"],"all interleavings of edits, rebuilds, failures and requests",
 "No test drives the rebuild loop; stale state appears only after at least two rebuilds.",
 ["sonolus/build/dev_server.py","sonolus/build/project.py","sonolus/build/cli.py"],
 [("rebuild command","sonolus/build/dev_server.py:RebuildCommand"),("site building","sonolus/build/project.py")],
 observe=["what the server answers over HTTP and prints on decode, after each command"])
prop("C16","Entity fields never overlap and level data means what was written",
 "For every archetype hierarchy, every imported, exported, shared and private field occupies its own cells within its memory, subclasses keep the layout of what they inherit, and the level data built from entity instances records exactly the values given, with references resolving to the entities they were made from.",
 ["programs","inputs"],"all archetype declarations and entity lists",
 "Layouts are tested on a few declarations; overlap or mis-resolved references need mixed field kinds, inheritance and reference cycles.",
 ["sonolus/script/archetype.py","sonolus/build/level.py","sonolus/script/level.py"],
 [("field allocation","sonolus/script/archetype.py"),("level data packaging","sonolus/build/level.py")],
 observe=["field addresses in compiled code; packaged level data"])
prop("C17","Values have value semantics, references have reference semantics",
 "Assigning, passing, storing and copying numbers, records and arrays aliases or copies exactly as documented, so a later mutation is visible through exactly the names that share storage, in plain and in compiled execution alike: assigning to a field or an element, @= and array construction copy the value in; unary plus and copy() give a fresh copy; binding a name, passing an argument, returning, iterating and building a record from records refer to the same storage; a name bound again means what it was last bound to (where the compiler cannot tell, it rejects the program).",
 ["programs","histories"],"all sequences of bindings, copies and mutations over nested records and arrays",
 "Aliasing bugs need particular sequences of bindings, copies and mutations across control flow.",
 ["sonolus/script/record.py","sonolus/script/array.py","sonolus/script/internal/value.py","sonolus/script/internal/context.py"],
 [("_copy_from_/_copy_/_set_","sonolus/script/internal/value.py"),("copy-assignment","sonolus/script/internal/visitor.py")],
 observe=["debug_log trace"])
prop("C18","Size does not change meaning",
 "Very deep expressions, very long blocks, very many blocks and variables, and very wide switches compile in reasonable time without exhausting the stack and behave as their source, or are rejected with an error when a documented limit is exceeded.",
 ["programs","inputs"],"programs orders of magnitude larger than the samples in the tests",
 "Word-size boundaries of bit sets, worklist orders, recursion and index widths only matter beyond the sizes tests use.",
 [OPT+"ir.pyx",OPT+"analysis.pyx",OPT+"lower.pyx",OPT+"emit.pyx","sonolus/build/node.py"],
 [("explicit stacks and bit sets",OPT+"analysis.pyx"),("dense interference matrix cap",OPT+"lower.pyx")],
 observe=["trace of the emitted program"])
open(str(__import__('pathlib').Path(__file__).resolve().parent.parent / 'properties.jsonl'),'w').write(''.join(json.dumps(p)+'\n' for p in P))
