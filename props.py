# One entry per property; mk.py turns this table into properties.jsonl and MANIFEST.json.
def p(id, title, statement, over, text, why, files, mech, technique, note):
    return {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
            'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}, 'technique': technique, 'note': note}

SIM = "The deciding oracle is an independent reference interpreter plus the harness' own simulator for the emitted Verilog subset; both are trusted."

P = [
    p('C01', 'Generated Verilog computes what the source program means',
      "For every well-typed combinational program, compilation succeeds and the emitted Verilog, for every input, drives the output with exactly the value the Spade program denotes (integer arithmetic with the documented growing or wrapping widths, comparisons, shifts, structs, enums, tuples, arrays, slices, if/match/if-let, blocks, function and method calls, lambdas, gen-if, conversions, undef where undefined).",
      ['programs', 'inputs'], 'all well-typed combinational programs and all values of their inputs',
      'The existing tests compare a fixed set of programs to stored snapshots of text; nothing executes the Verilog, so a wrong but stable translation passes.',
      ['spade-hir-lowering/src/lib.rs', 'spade-mir/src/codegen/mod.rs', 'spade-hir-lowering/src/pattern.rs', 'spade-hir-lowering/src/monomorphisation.rs', 'spade-typeinference/src/lib.rs'],
      [('expression lowering', 'spade-hir-lowering/src/lib.rs'), ('Verilog code generation', 'spade-mir/src/codegen/mod.rs')],
      'property-based testing: generated programs, reference interpreter vs. simulation of the emitted Verilog', SIM),
    p('C02', 'Registers, memories, instances and assertions behave as specified over any input history',
      "For every entity and every history of inputs and clock edges, the simulated Verilog shows in each cycle the value the program denotes: registers take their next value on the edge of their own clock, reset values take priority, initial values hold before the first edge, memories have the specified initial contents and apply the write ports in order, reads are combinational, nested instances keep separate state, forward-declared names are tied to their definition, and an assertion fires in exactly the cycles in which its condition is false.",
      ['programs', 'histories of inputs and clock edges'], 'all well-typed entities and all finite input histories',
      'Sequential behaviour depends on histories; the snapshot tests never run a cycle.',
      ['spade-hir-lowering/src/lib.rs', 'spade-mir/src/codegen/mod.rs', 'spade-mir/src/eval.rs'],
      [('register and memory code generation', 'spade-mir/src/codegen/mod.rs'), ('initial values', 'spade-mir/src/eval.rs')],
      'stateful property-based testing: generated entities and histories, model registers/memories vs. simulation of the emitted Verilog', SIM),
    p('C03', 'Pipelines delay, stall and validate data exactly as their stages say',
      "For every pipeline, a value defined in stage k and used in stage k+n is the value it had n enabled steps before; a stage whose condition (or a later stage's condition) is false holds its contents; stage.ready is the conjunction of the conditions downstream; stage.valid follows the data; stage(label), stage(+n) and stage(-n) name the value in that stage; nested pipelines have the latency they declare; and reg*N is N registers.",
      ['programs', 'histories of inputs and clock edges'], 'all pipelines (any depth, any placement of conditions) and all input histories',
      'The interplay of several stall conditions with validity shows only over particular histories; the snapshot tests compare text for a few fixed pipelines.',
      ['spade-hir-lowering/src/pipelines.rs', 'spade-hir-lowering/src/substitution.rs', 'spade-ast-lowering/src/pipelines.rs', 'spade-typeinference/src/lib.rs'],
      [('pipeline lowering', 'spade-hir-lowering/src/pipelines.rs'), ('pipeline registers', 'spade-hir-lowering/src/substitution.rs')],
      'stateful property-based testing: generated pipelines and histories, explicit per-stage register model vs. simulation of the emitted Verilog', SIM),
    p('C04', 'match and if let take the first arm whose pattern and guard hold',
      "For every match expression and if-let, over every scrutinee value, the result is that of the first arm (in source order) whose pattern matches the value and whose guard, if any, is true, with the arm's names bound to exactly the matched components; patterns include literals, tuples, arrays, structs and enum variants with positional or named arguments, nested arbitrarily, `name @ pattern`, bindings and wildcards.",
      ['patterns', 'values'], 'all lists of arms over all types, and all scrutinee values',
      'Which arm wins depends on overlaps between nested patterns and the exact bits of the value; tests fix a few matches and compare text.',
      ['spade-hir-lowering/src/lib.rs', 'spade-mir/src/codegen/mod.rs', 'spade-mir/src/enum_util.rs', 'spade-ast-lowering/src/lib.rs'],
      [('pattern conditions and bindings', 'spade-hir-lowering/src/lib.rs'), ('match code generation', 'spade-mir/src/codegen/mod.rs')],
      'property-based testing: generated overlapping patterns, vectors derived from the patterns, reference matcher vs. simulation of the emitted Verilog', SIM),
    p('C05', 'A match is accepted exactly when it covers every value',
      "A match expression is accepted if and only if every value of the scrutinee's type is matched by an arm without a guard, and a pattern in let, reg or a lambda's parameters is accepted if and only if it matches every value of its type; a rejected one gives an ordinary error, never an internal error.",
      ['patterns', 'types'], 'all lists of arms over all types',
      'The exhaustiveness algorithm splits ranges and nests constructors; errors show only for particular combinations of literals, widths and nesting.',
      ['spade-hir-lowering/src/usefulness.rs', 'spade-hir-lowering/src/pattern.rs', 'spade-hir-lowering/src/lib.rs'],
      [('usefulness', 'spade-hir-lowering/src/usefulness.rs'), ('constructor splitting', 'spade-hir-lowering/src/pattern.rs')],
      'property-based testing: generated partitions of a type, some damaged; oracle enumerates one value per distinguishable class', "The oracle enumerates one value per class of values that the patterns cannot tell apart; it shares no code with the compiler's usefulness algorithm."),
    p('C06', 'Standard library functions compute what their documentation says',
      "For every instantiation (element type, widths, lengths) and all inputs, the combinational functions and methods of the standard library compute the documented result: conversions between integers, bits, bytes and bools, truncation, sign and zero extension, min/max/abs/order, msb/lsb, Gray code, integer concatenation and interleaving, combinational division, the array functions (map, fold, reduce, zip, unzip, concat, split_at, chunks, sliding_window, interleave, push/shift, reversed, flatten, unfold, all/any), Option and its combinators, default values, and comparison of Gray codes, Options, tuples and arrays.",
      ['instantiations', 'inputs'], 'all instantiations and all inputs',
      'Library code is generic; the tests instantiate few types and compare generated text or run a handful of values.',
      ['spade-compiler/stdlib/conv.spade', 'spade-compiler/stdlib/array.spade', 'spade-compiler/stdlib/option.spade', 'spade-compiler/stdlib/ops.spade', 'spade-compiler/core/ops.spade'],
      [('library functions', 'spade-compiler/stdlib'), ('intrinsics', 'spade-hir-lowering/src/lib.rs')],
      'property-based testing: generated calls with generated instantiations, independent model of each function vs. simulation of the emitted Verilog', SIM),
    p('C07', 'Standard library entities keep their documented behaviour over any history',
      "For every instantiation and every history of inputs and clock edges: an asynchronous fifo delivers exactly the written elements in order, never reports room or data it does not have, and eventually shows what was written; the handshake turns one pulse into one pulse with the same data; sync_wide shows only values that its input had, in order; the dual-port memory reads what was last written; edge detectors, sliding windows, chunking, Option::pmap and two-stage synchronisers produce their documented output in each cycle.",
      ['instantiations', 'histories and interleavings of clock edges'], 'all instantiations and all histories',
      'Clock-domain-crossing code depends on the interleaving of two clocks and on long histories (pointer wrap-around); the tests run none of them.',
      ['spade-compiler/stdlib/cdc.spade', 'spade-compiler/stdlib/mem.spade', 'spade-compiler/stdlib/io.spade', 'spade-compiler/stdlib/array.spade', 'spade-compiler/stdlib/option.spade'],
      [('library entities', 'spade-compiler/stdlib')],
      'stateful property-based testing: generated interleavings and operations, queue/array/delay models vs. simulation of the emitted Verilog', SIM),
    p('C08', 'Generic code means its body with the parameters replaced',
      "For every generic function, type and method (type parameters, #uint, #int and #bool parameters, lambda parameters, where clauses that hold) and every instantiation, whether written with a turbofish or inferred, each instance computes what the body computes with the parameters replaced by their values: type-level arithmetic and comparisons have their mathematical values, `gen if` takes the branch its condition selects in that instance (static recursion included), array repetition and integer parameters used as values have the instance's values, several instances in one program do not disturb each other, lambdas capture the values and parameters of their surroundings; and such a program is accepted.",
      ['programs', 'instantiations', 'inputs'], 'all generic programs, instantiations and inputs',
      'Monomorphisation, type-level constraints and lambda lowering interact per instance; tests sample a few instances and mostly compare text.',
      ['spade-hir-lowering/src/monomorphisation.rs', 'spade-typeinference/src/lib.rs', 'spade-typeinference/src/constraints.rs', 'spade-hir-lowering/src/passes/lower_lambda_defs.rs', 'spade-hir-lowering/src/passes/lower_type_level_if.rs'],
      [('monomorphisation', 'spade-hir-lowering/src/monomorphisation.rs'), ('type-level constraints', 'spade-typeinference/src/constraints.rs')],
      'property-based testing: generated generic programs, reference evaluator with explicit bindings vs. simulation of the emitted Verilog', SIM),
    p('C09', 'A method call runs the implementation selected by the receiver\'s type',
      "For every set of traits (with and without type parameters) and inherent and trait implementations (for concrete, generic and nested types, with bounds and where clauses) and every method call or associated function call, the body that runs is that of the one implementation that fits the type of the receiver (the named type for associated functions), with Self and the impl's parameters bound by that type; inside generic code it is chosen per instance; and such a program is accepted.",
      ['programs', 'receiver types', 'inputs'], 'all sets of traits and implementations, all calls and inputs',
      'Method selection depends on overlap checks, inference order and per-instance re-resolution; tests fix a few traits.',
      ['spade-typeinference/src/method_resolution.rs', 'spade-typeinference/src/requirements.rs', 'spade-ast-lowering/src/impls.rs', 'spade-hir-lowering/src/monomorphisation.rs'],
      [('method resolution', 'spade-typeinference/src/method_resolution.rs'), ('impl blocks', 'spade-ast-lowering/src/impls.rs')],
      'property-based testing: generated traits, impls and calls, reference dispatch vs. simulation of the emitted Verilog', SIM),
    p('C10', 'Every inverted wire is driven exactly once and carries what it was set to',
      "For every accepted program, an inverted wire (inv T), however it is passed around (as parameter, part of tuples, arrays and structs, return value, lambda capture, through core::ports::port or inspect), delivers on its other side exactly the value of the one set statement that drives it; a program that leaves a wire undriven or uses one twice is rejected with an error; and every program that uses each wire exactly once is accepted.",
      ['programs', 'inputs'], 'all programs with inverted wires and all inputs',
      'Whether a wire is used once depends on how parts of compound values are split, renamed and passed on; the tests check single diagnostics and never simulate a backward value.',
      ['spade-hir-lowering/src/linear_check/mod.rs', 'spade-hir-lowering/src/linear_check/linear_state.rs', 'spade-mir/src/passes/deduplicate_mut_wires.rs', 'spade-mir/src/codegen/mod.rs'],
      [('linear checker', 'spade-hir-lowering/src/linear_check/linear_state.rs'), ('backward code generation', 'spade-mir/src/codegen/mod.rs')],
      'property-based testing: generated programs with inverted wires elaborated to a graph, reference values vs. simulation of the emitted Verilog; mutants with a wire left out or used twice must be rejected', SIM),
    p('C11', 'A program that breaks a static rule is rejected with an error',
      "For every program that breaks one of the language's static rules (a value of another type than required, an undefined or twice defined name, member, variant, argument or label, a missing or superfluous argument, a literal that does not fit, an index or slice out of range, a trait or where bound that does not hold, an incomplete or contradictory impl, inst, reg, set or a stage reference where the kind of unit does not allow it, a wrong latency, a use outside of scope, a private item, malformed syntax), at whatever place, the compiler reports at least one ordinary error and produces no output; it neither accepts the program nor panics nor reports an internal error. The same program without that mistake is accepted.",
      ['programs', 'rule and place of the mistake'], 'all programs that break a static rule',
      'Every error test fixes one small program; whether a mistake is found depends on the expression around it, on inference order and on whether an earlier phase panics first.',
      ['spade-typeinference/src/lib.rs', 'spade-typeinference/src/expression.rs', 'spade-ast-lowering/src/lib.rs', 'spade-parser/src/lib.rs', 'spade-parser/src/expression.rs', 'spade-hir/src/symbol_table.rs'],
      [('type inference', 'spade-typeinference/src/lib.rs'), ('name resolution', 'spade-ast-lowering/src/lib.rs'), ('parser', 'spade-parser/src/lib.rs')],
      'property-based testing: generated valid programs with one rule broken at a random place, and generated valid/invalid pairs of programs per rule; oracle: the rule that was broken', "Bodies of generic units are checked where they are instantiated, so the pairs instantiate them."),
    p('C12', 'A pipeline is accepted exactly when every value is ready where it is used, and then computes what it says',
      "For every pipeline (any number of stages, lets, registers, blocks, matches, labels, stage references, values of sub-pipelines that arrive some stages later), the compiler rejects it with an error if a value is used in a stage in which it is not ready, if the values combined in one expression have different delays, if a referenced stage does not exist or if the result is not ready in the last stage, and accepts it otherwise. In an accepted pipeline every use of a name sees the value that belongs to the same input (or, for stage references, to the input that many cycles earlier or later), so that the result for the inputs of each cycle appears exactly the latency later.",
      ['pipelines', 'input histories'], 'all pipelines and all histories',
      'Readiness is a count along the paths through nested expressions; the tests fix a handful of pipelines, and a wrong count shows as data of the wrong cycle.',
      ['spade-hir-lowering/src/pipelines.rs', 'spade-hir-lowering/src/substitution.rs', 'spade-hir-lowering/src/lib.rs', 'spade-ast-lowering/src/pipelines.rs'],
      [('delay computation', 'spade-hir-lowering/src/pipelines.rs'), ('pipelined names', 'spade-hir-lowering/src/substitution.rs')],
      'property-based testing: generated pipelines, own availability computation and token-level reference evaluator vs. verdict and simulation of the emitted Verilog', SIM),
    p('C13', 'Initial values of registers and memories are the values of their constant expressions',
      "For every register with `initial` and every memory with initial content, the value before the first clock edge is exactly the value of the constant expression given (literals of any type and sign, tuples, arrays, array repetition, structs, enum variants, access to members and elements, addition, subtraction and negation, integer parameters of a generic unit per instance), for all types including ones of size zero; from then on register and memory behave as without it; and an expression that the compiler does not evaluate is rejected with an error, never given another value.",
      ['programs', 'constant expressions', 'input histories'], 'all constant initial expressions and all histories',
      'Initial values are computed at compile time by a second evaluator inside the compiler, which has to agree with the hardware that the same expression describes; the tests try a handful of expressions.',
      ['spade-mir/src/eval.rs', 'spade-mir/src/codegen/mod.rs', 'spade-hir-lowering/src/lib.rs'],
      [('constant evaluation', 'spade-mir/src/eval.rs'), ('emission of initial values', 'spade-mir/src/codegen/mod.rs')],
      'property-based testing: generated constant expressions of generated types, reference evaluator vs. simulation of the emitted Verilog; variants that depend on an input must be rejected', SIM),
    p('C14', 'Paths mean the item the module structure says, and only where it is visible',
      "In every program of modules (inline and in files of their own, nested, in one or several libraries) a path in an expression, pattern, type, trait bound, impl or `use` names exactly the item found by walking the modules from where it is written (relative, `lib`, `self`, `super`, library name), following `use` and `type` aliases from the place where those are written; it is accepted exactly when each step exists and is visible from there (`pub`, `pub(lib)`, `pub(super)`, `pub(self)`, private; an alias does not make its target more visible), whatever names local variables and generic parameters have at the place of use and in which order items and files are given; otherwise the program is rejected with an error, not an internal error or panic.",
      ['programs', 'module trees', 'paths'], 'all module structures, aliases, visibilities and paths',
      'Name resolution is the composition of nesting, prefixes, aliases of aliases, libraries and visibility; the tests fix some thirty small structures, and a wrong resolution silently selects other hardware.',
      ['spade-hir/src/symbol_table.rs', 'spade-ast-lowering/src/global_symbols.rs', 'spade-ast-lowering/src/lib.rs', 'spade-compiler/src/lib.rs'],
      [('resolution of paths', 'spade-hir/src/symbol_table.rs'), ('modules and files', 'spade-compiler/src/lib.rs')],
      'property-based testing: generated module trees with aliases and visibilities, reference resolver; uses are compiled and the value of the item reached is compared by simulation; paths that cannot be used must be rejected', SIM),
    p('C15', 'The notation of a program does not change its meaning',
      "Rewriting a program with other blanks, line ends and comments (line, block, nested; with any text in them), with documentation comments before items, with its items in another order, with identifiers written raw (`r#x`), or with integer literals in another radix, with leading zeros and underscores, gives a program that is accepted and has the same behaviour; the value of integer literals of all radixes and suffixes, character and byte string literals with their escapes, and the association of infix calls is what the documentation says.",
      ['programs', 'spellings'], 'all valid programs and all spellings of them',
      'The meaning of the source text is decided by a hand-written parser with special cases for comments, literals and raw identifiers; tests use one spelling only.',
      ['spade-parser/src/lexer.rs', 'spade-parser/src/lib.rs', 'spade-parser/src/expression.rs', 'spade-parser/src/items.rs'],
      [('tokens', 'spade-parser/src/lexer.rs'), ('comments', 'spade-parser/src/lib.rs')],
      'property-based testing: metamorphic respelling of generated programs (functions, registers, pipelines, generics, traits, wires), reference evaluator vs. simulation of the emitted Verilog; generated literals against their values', SIM),
    p('C16', 'Assertions watch exactly the asserted expressions',
      "For every assert statement in a reachable unit (function, method, lambda, block, entity or pipeline; inlined, generic or instantiated several times), the emitted Verilog contains exactly one assertion per instance; it is evaluated whenever its condition changes, it fails exactly when the asserted expression is false, and its message names the file, line and column of the asserted expression and quotes exactly that expression, whatever its layout, its comments or the characters in it and in the file name.",
      ['programs', 'inputs'], 'all placements and spellings of assertions, and all inputs',
      'Assertions are produced per instance after inlining and monomorphisation, and their text goes through two layers of quoting; the tests look at one text each.',
      ['spade-mir/src/codegen/mod.rs', 'spade-mir/src/assertion_codegen.rs', 'spade-hir-lowering/src/lib.rs', 'spade-ast-lowering/src/lib.rs'],
      [('assertion code generation', 'spade-mir/src/codegen/mod.rs'), ('assertion message', 'spade-mir/src/assertion_codegen.rs')],
      'property-based testing: generated units with assertions, reference evaluator vs. assertions of the simulated Verilog and their messages', SIM),
    p('C17', 'Test benches write, read and compare ports as Spade values',
      "For every unit and every history of uses of its simulation interface (built from the dumped compiler state): the bits of a Spade expression for an input or field are the encoding of its value, placed in exactly the bits of that field; a field that goes out is read from exactly its bits; a comparison with a Spade expression holds exactly if the values are equal (undefined bits of the expected value aside); a field is shown as the value it has, with unknown bits reported as such; fields that go the wrong way, both ways or do not exist, and expressions that are not of the field's type, are refused with an error that has no effect on later uses.",
      ['types', 'values', 'operation sequences'], 'all port types, values, expressions of literals, constructors, sums, differences, negations, indexing and blocks, and all sequences of uses',
      'Field ranges depend on nesting and direction of structs, and the interface keeps state between uses; the existing tests need a simulator and cover a handful of fixed ports.',
      ['spade-simulation-ext/src/lib.rs', 'spade-simulation-ext/src/field_ref.rs', 'spade-simulation-ext/src/range.rs', 'spade-mir/src/eval.rs', 'vcd-translate/src/translation.rs', 'spade-compiler/src/compiler_state.rs'],
      [('fields and comparison', 'spade-simulation-ext/src/lib.rs'), ('value display', 'vcd-translate/src/translation.rs'), ('expression evaluation', 'spade-mir/src/eval.rs')],
      'stateful property-based testing: generated units, types and operation sequences on the interface vs. a model of their values and the simulation of the emitted Verilog', SIM),
    p('C18', 'The result of a compilation depends on nothing but the sources',
      "For every set of source files (valid or not), compiling it again in the same process with one thread gives the same Verilog, MIR, item list, simulation wrapper and diagnostics, byte for byte and in the same order; compiling it with any number of threads gives the same verdict, the same set of messages and a design that behaves the same.",
      ['source files', 'schedules of the worker threads'], 'all source files and all numbers of threads',
      'Units are type checked and lowered in parallel and tables are hashed; a dependence on the schedule or on the history of the process shows only with particular programs and timings, and every test compiles its text once.',
      ['spade-compiler/src/lib.rs', 'spade-hir-lowering/src/monomorphisation.rs', 'spade-common/src/id_tracker.rs', 'spade-typeinference/src/lib.rs'],
      [('parallel compilation', 'spade-compiler/src/lib.rs'), ('monomorphisation', 'spade-hir-lowering/src/monomorphisation.rs')],
      'property-based testing: metamorphic relation between repeated compilations of generated programs (also with mistakes and with several files) with 1, 2, 3 and 8 threads; behaviour by reference evaluators', 'Schedules are those the machine happens to produce, they are not enumerated.'),
    p('C19', 'Every text is compiled or rejected with errors, never with a crash',
      "For every source text, the compiler either succeeds, without an error, and emits well-formed Verilog, or it reports at least one error and no output; it never panics and never reports an internal error (a diagnostic of the level `bug`), and every message has a text and points to existing places of the source. Texts that ask for more hardware than fits into memory are left out.",
      ['texts'], 'all texts that are nearly programs',
      'The compiler has hundreds of assertions, unwraps and internal errors behind its checks; whether one can be reached depends on how mistakes combine, and the tests fix one mistake each.',
      ['spade-parser/src/lib.rs', 'spade-parser/src/items.rs', 'spade-parser/src/expression.rs', 'spade-ast-lowering/src/lib.rs', 'spade-ast-lowering/src/impls.rs', 'spade-typeinference/src/lib.rs', 'spade-hir-lowering/src/lib.rs', 'spade-diagnostics/src/emitter.rs'],
      [('parser', 'spade-parser/src/lib.rs'), ('lowering of the syntax tree', 'spade-ast-lowering/src/lib.rs'), ('type inference', 'spade-typeinference/src/lib.rs'), ('lowering to MIR', 'spade-hir-lowering/src/lib.rs')],
      'fuzzing: structured mutations (of tokens and of the syntax) of generated programs of all generators of this harness; invariants on the outcome; failing texts are reduced token by token', 'Texts are programs with one to four changes each.'),
    p('C20', 'Optimisation passes do not change what a design does',
      "For every entity, pipeline and function, every optimisation pass, asked for with --optimize for a whole compilation or with #[optimize(...)] for a unit, in any order and combination: compilation succeeds exactly as without it, and the emitted Verilog shows the same defined values for every history of inputs and clock edges (registers of enums, structs, tuples and arrays, with and without reset and initial values).",
      ['programs', 'sets of passes', 'input histories'], 'all programs, all sets of passes and all histories',
      'A pass rewrites the registers of a design into others; each is checked by a handful of fixed outputs, and no test compares the behaviour of a design with and without it.',
      ['spade-mir/src/passes/auto_clock_gating.rs', 'spade-mir/src/passes/split_compound_regs.rs', 'spade-mir/src/passes/deduplicate_mut_wires.rs', 'spade-hir-lowering/src/lib.rs', 'spade-mir/src/codegen/mod.rs'],
      [('gating', 'spade-mir/src/passes/auto_clock_gating.rs'), ('splitting', 'spade-mir/src/passes/split_compound_regs.rs')],
      'property-based testing: generated entities and pipelines rich in enums and compound registers, compiled with passes; cycle-accurate reference evaluator vs. simulation of the emitted Verilog', SIM),
]

def na(id, title, statement, over, text, why, files, mech, reason):
    d = p(id, title, statement, over, text, why, files, mech, '', '')
    d['reason'] = reason
    return d

NA = []
