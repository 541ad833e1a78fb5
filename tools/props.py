#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json. A property whose check file checks/pNN.py does not exist goes to not_applicable with its reason."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TV = 'symbolic execution of the compiler (LLVM bitcode) and of the assembly it emits; SMT equivalence with a reference semantics'
TVN = ('Bounded translation validation: for each generated program wcc itself runs inside the symbolic executor on the bitcode built from /repo, and Z3 decides that the emitted assembly equals the reference for every argument and every initial value of the globals. '
       'Trusts: the instruction model (validated against native runs on samples), clang -O1 bitcode as C semantics, Z3. Programs are a seeded corpus, so a miscompilation that needs a program shape outside it is not seen.')
SE = 'symbolic execution of the real code (LLVM bitcode) with an SMT solver deciding every branch and assertion'
SEN = 'All paths of the real functions within the stated input bounds are explored with symbolic inputs; assertions and memory safety are decided by Z3, counterexamples are replayed natively. Beyond the bounds nothing is claimed. Trusts the bitcode executor (its paths are re-run natively on samples) and Z3.'
P = []
def p(id, title, statement, over, text, tests, files, mech, level, technique=None, note=None, observe=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech, level=level, technique=technique, note=note, observe=observe, na=na))
IN = ['inputs', 'programs']
p('P01', 'Integer arithmetic, comparison and logic compile to the C result',
  'For every program, the code wcc emits for the integer operators + - * / % & | ^ ~ << >> < <= > >= == != && || ! ?: on char, short, int and long (signed and unsigned) yields the value C89 prescribes, for every value of the operands for which the behaviour is defined. This holds wherever the operands live (parameters, locals, globals, array elements, structure members, constants) and however the result is used.',
  IN, 'all operand values (8 to 64 bits each) of every program; operand placements and constants as generated', 'The tests run each operator on a handful of constants; wrong immediates, strength reductions, register clobbers and sign handling show only for particular values and operand placements.',
  ['parser.c', 'ssa.c', 'instrrules.c', 'instrsel.c', 'codegen.c', 'regalloc.c'], [('arithmetic strength reduction', 'ssa.c optimize_integer_arithmetic_operation'), ('instruction selection rules', 'instrrules.c'), ('operation typing', 'parser.c')], 'translation_validation')
p('P02', 'Integer conversions, promotions and compound assignment are correct',
  'Implicit and explicit conversions between integer types, the integer promotions and usual arithmetic conversions, compound assignments, ++ and --, and sizeof of expressions yield the value and the side effects C89 prescribes for every operand value. The object assigned to, and nothing else, changes.',
  IN, 'all values of the converted operands, all pairs of integer types, all kinds of objects', 'Truncation and extension errors show only for values beyond the narrower type, and in type pairs and object kinds the tests do not combine.',
  ['parser.c', 'types.c', 'instrrules.c', 'codegen.c'], [('usual arithmetic conversions', 'parser.c operation_type, integer_promote'), ('move rules', 'instrrules.c add_move_rules_*')], 'translation_validation')
p('P03', 'Floating point arithmetic, comparison and conversion follow IEEE and C',
  'Code emitted for float, double and long double arithmetic, comparisons (including NaN, infinities and signed zeros), conversions among them and to and from every integer type, and their use as conditions yields the IEEE 754 result C requires for every operand value for which the behaviour is defined.',
  IN, 'all bit patterns of the operands (32, 64 and 80 bits)', 'Tests use a few ordinary values; NaN, unordered comparisons, values at and beyond 2^31, 2^63 and live-register clobbers by conversions are not reached.',
  ['parser.c', 'ssa.c', 'instrrules.c', 'instrsel.c', 'codegen.c'], [('SSE and x87 rules', 'instrrules.c'), ('constant folding', 'ssa.c, constexpr.c')], 'translation_validation')
p('P04', 'Control flow, sequencing and short-circuit evaluation are preserved',
  'if, while, do, for, switch, break, continue, goto, labels, return, the comma operator, ?:, && and || transfer control and order side effects exactly as C89 prescribes, for every value of the conditions. Every path of the source, and no other, is taken.',
  IN, 'all branch decisions and switch values of every program; loops up to the unrolling bound', 'The tests follow a few paths through each construct; combinations of nesting, fall-through, case values of other types and live values across joins are sampled thinly.',
  ['parser.c', 'ir.c', 'ssa.c', 'codegen.c', 'wcc.c'], [('SSA construction', 'ssa.c'), ('switch lowering', 'parser.c parse_switch'), ('jump merging', 'ir.c, ssa.c')], 'translation_validation')
p('P05', 'Pointers, arrays and function pointers address the right object',
  'Indexing, pointer arithmetic and comparison, dereference, address-of, multi-dimensional arrays, pointers to pointers, and calls through function pointers read, write and call exactly the object or function C89 prescribes, for every index within bounds. No other memory is changed.',
  IN, 'all index values and pointer offsets within the objects of every program', 'Wrong scales, signs of indexes and addressing modes show only for particular index types, element sizes and index values.',
  ['parser.c', 'ir.c', 'instrsel.c', 'instrrules.c', 'codegen.c'], [('scaled indirect addressing rules', 'instrrules.c'), ('pointer arithmetic', 'parser.c')], 'translation_validation')
p('P06', 'Structures, unions and bit-fields are stored and copied correctly',
  'Member access, structure and union assignment, nested aggregates, and reads and writes of bit-fields of every width, position and signedness have the values C89 and the System V ABI layout prescribe. A write to a member or bit-field leaves every other member unchanged.',
  IN, 'all member values; widths and positions as generated', 'A bit-field mask or a copy tail that is wrong shows only for particular widths, neighbours and values.',
  ['parser.c', 'types.c', 'memory.c', 'instrrules.c', 'codegen.c', 'ir.c'], [('bit-field load and store', 'parser.c, instrrules.c'), ('aggregate copy', 'ir.c, functions.c')], 'translation_validation')
p('P07', 'Functions are called and return values as the System V x86-64 ABI says',
  'Code emitted by wcc can call, and be called by, code of another ABI-conforming compiler with any mix of integer, pointer, floating point, long double, structure and union parameters and results: every argument and result arrives unchanged. Callee-saved registers, the stack pointer, stack alignment at calls, the x87 stack and the caller\'s memory are preserved.',
  IN, 'all argument and result values; signatures as generated, up to about 14 parameters', 'Tests mostly compile both sides with wcc, so a consistent mistake on both sides, or a clobbered callee-saved register, passes.',
  ['functions.c', 'parser.c', 'codegen.c', 'regalloc.c', 'instrsel.c'], [('parameter classification and allocation', 'functions.c'), ('prologue, epilogue and saved registers', 'codegen.c')], 'translation_validation')
p('P08', 'Variadic functions receive their arguments',
  'A variadic function compiled by wcc obtains with va_arg exactly the promoted values passed, in order, for every sequence of argument types and values, and calls to variadic functions pass arguments (and the number of vector registers) as the System V ABI says.',
  IN, 'all argument values; argument type sequences as generated, up to about 20 arguments', 'Tests print a few short sequences; register save area exhaustion, stack overflow area and struct alignment need particular sequences.',
  ['functions.c', 'parser.c', 'codegen.c', 'include/stdarg.h'], [('va_start and va_arg lowering', 'functions.c'), ('register save area', 'codegen.c')], 'translation_validation')
p('P09', 'Constant expressions equal the run-time value of the same expression',
  'An integer or floating constant expression, wherever one is allowed (initializers of static objects, array sizes, enumerators, case labels, bit-field widths), has the value the same expression has at run time according to C89, including its type. For every operand value.',
  IN, 'all digits of the constants in the source text (symbolic), all operators and suffix combinations as generated', 'Compile-time folding is separate code from run-time lowering; tests fold a few small constants and miss 64-bit, unsigned and mixed types.',
  ['constexpr.c', 'parser.c', 'types.c'], [('constant folding', 'constexpr.c evaluate_const_*'), ('conversion of constants', 'constexpr.c cast_constant_value')], 'translation_validation')
p('P10', 'Static initializers produce the right bytes',
  'Objects with static storage duration start with exactly the bytes C89 prescribes: scalar conversions, arrays, nested and partially braced aggregates, unions, bit-fields, strings, addresses with offsets, implicit zeroes and deduced array sizes. Automatic aggregate initializers give the same values at run time.',
  ['programs', 'inputs'], 'all generated initializers; scalar values symbolic through run-time initializers', 'Brace elision, padding, bit-field packing and partial initialization combine in ways the tests sample thinly.',
  ['parser.c', 'codegen.c', 'types.c', 'constexpr.c'], [('initializer parsing', 'parser.c parse_initializer*'), ('data emission', 'codegen.c output_initializer*')], 'translation_validation')
p('P11', 'Type sizes, alignments and member offsets follow the ABI',
  'sizeof, alignment, member offsets and bit-field placement of every object type (basic types, pointers, arrays, structures, unions, enums, any nesting) equal those of the System V x86-64 ABI, and identical declarations written differently declare the same type.',
  ['programs'], 'all declarations up to the generated nesting depth', 'Layout interacts with every previous member; tests fix a handful of layouts.',
  ['types.c', 'parser.c', 'scopes.c'], [('structure completion', 'types.c, parser.c complete_struct_or_union')], 'translation_validation')
p('P12', 'Literals denote the value and type C89 gives them',
  'Integer, floating, character and string literals (every base, suffix, escape sequence and concatenation) denote the value and type C89 prescribes, whatever their digits and characters. String literals reach the object file byte for byte.',
  ['inputs'], 'every digit and character of the literal, up to the stated lengths', 'A handful of literals are tested; escapes followed by digits, limits of types, and unusual characters are not.',
  ['lexer.c', 'parser.c', 'codegen.c', 'cpp.c'], [('lexing of literals', 'lexer.c'), ('emission of strings', 'codegen.c')], 'model_checking')
p('P13', 'Preprocessor conditions are evaluated correctly',
  '#if, #elif, #ifdef, #ifndef, #else and #endif select exactly the groups C89 prescribes: the controlling expression is evaluated in long arithmetic with C precedence, defined and undefined identifiers as 0, for every value of its constants. Skipped groups have no effect.',
  ['inputs'], 'all digits of constants and all nesting decisions within the bounds', 'Expressions and nestings are unbounded; tests contain fixed ones.',
  ['cpp.c', 'constexpr.c', 'lexer.c'], [('conditional stack', 'cpp.c parse_directive'), ('expression evaluation', 'cpp.c, constexpr.c')], 'model_checking')
p('P14', 'Macro expansion produces the tokens C89 prescribes',
  'Object-like and function-like macros, #, ##, rescanning, nested and recursive macros, arguments with commas and parentheses, redefinition and #undef expand to the token sequence C89 prescribes. Expansion always terminates.',
  ['inputs'], 'all macro bodies, arguments and texts over the stated alphabet and lengths', 'Expansion depends on the combination of body, arguments and rescanning; tests contain a fixed list.',
  ['cpp.c', 'strmap.c', 'strset.c', 'list.c'], [('hide sets', 'cpp.c'), ('argument substitution', 'cpp.c subst')], 'model_checking')
p('P15', 'Tokens, comments, splices and trigraphs are recognised correctly',
  'Source text is divided into the tokens of C89 by maximal munch after trigraph replacement, line splicing and removal of comments, wherever these occur. Preprocessing to text and compiling that text gives the same program as compiling directly.',
  ['inputs'], 'every character of the text over the stated alphabet and lengths', 'Interactions of splices, comments, strings and trigraphs at arbitrary positions are not enumerated by the tests.',
  ['cpp.c', 'lexer.c'], [('translation phases 1 to 3', 'cpp.c'), ('lexer', 'lexer.c')], 'model_checking')
p('P16', 'Register pressure and spilling do not change results',
  'Programs with more live values than registers, values live across calls and loops, and values pinned to particular registers compute the same results as any other program: spilling, coalescing, renaming and phi elimination preserve every live value.',
  IN, 'all values of all variables of every generated program', 'Wrong spill slots, missed interferences and lost copies appear only at particular pressures and shapes of control flow.',
  ['regalloc.c', 'ssa.c', 'instrsel.c', 'codegen.c'], [('interference graph and colouring', 'ssa.c, regalloc.c'), ('spill code', 'instrsel.c add_spill_code')], 'translation_validation')
p('P17', 'Optimization, PIC and debug options do not change behaviour',
  'For every program and input, code compiled with any combination of -fPIC, -g, the -f and -fno- optimization options behaves as the code compiled without them.',
  ['configurations', 'programs', 'inputs'], 'all option combinations of a covering set, all argument values', 'The test suite runs with one set of options; each option replaces a compiler phase.',
  ['main.c', 'wcc.c', 'ssa.c', 'regalloc.c', 'codegen.c', 'instrrules.c'], [('option handling', 'main.c'), ('phases', 'wcc.c')], 'translation_validation')
p('P18', 'The compiler survives any input text',
  'For any sequence of bytes given as source, the compiler ends with success or a diagnostic and a failure status: it never reads or writes outside its objects, dereferences a null or freed pointer, exceeds an array or loops forever.',
  ['inputs'], 'every byte of the text within the stated lengths and contexts', 'Tests contain well-formed programs and a few errors; memory errors on odd text need specific bytes.',
  ['cpp.c', 'lexer.c', 'parser.c', 'constexpr.c', 'types.c', 'scopes.c', 'utils.c', 'error.c'], [('error reporting', 'error.c'), ('buffers', 'cpp.c, utils.c')], 'model_checking')
p('P19', 'Invalid programs are diagnosed and valid ones accepted',
  'A program that violates a C89 constraint or syntax rule the compiler checks (types of operands, assignments, calls, redeclarations, misplaced statements, undeclared names, incomplete types) is rejected with a diagnostic naming its file and line and a failure status, and no output is produced; a valid program is accepted.',
  ['inputs', 'programs'], 'all members of each parametrised family (symbolic operators, types, counts)', 'Each rule is tested on one example; the rules are conditions over types and operators.',
  ['parser.c', 'types.c', 'scopes.c', 'error.c'], [('type checks', 'parser.c check_*')], 'model_checking', na='Acceptance of invalid programs has no executable reference here: the rules are over types and declarations, the only oracle would be the front end of another compiler, whose diagnoses differ from the documented deviations of wcc; defects found on the way are fixed.')
p('P20', 'The container library implements its abstract data types',
  'Maps, sets, lists, stacks, string buffers and graphs used by the compiler behave as the abstract types they implement for every sequence of operations: what was put is found, what was removed is not, iteration yields every element once, growth loses nothing.',
  ['histories', 'inputs'], 'every sequence of operations up to the bound with symbolic keys and values', 'Collisions, deletions, growth and iteration interleave in ways a few fixed sequences do not reach.',
  ['set.c', 'stack.c', 'strmap.c', 'strset.c', 'longmap.c', 'longset.c', 'list.c', 'graph.c', 'utils.c'], [('hash tables', 'strmap.c, longmap.c'), ('growth', 'list.c, stack.c')], 'model_checking', observe=['libwcc API'])
p('P21', 'Dominance, liveness and SSA renaming are correct on every control flow graph',
  'For every control flow graph, the computed dominators, immediate dominators, dominance frontiers and live-out sets satisfy their defining equations. After renaming, every use is reached by exactly its definition, or by a phi function merging the definitions that reach it.',
  ['inputs'], 'every control flow graph up to the stated number of blocks and variables', 'Tests check three textbook graphs.',
  ['ssa.c', 'graph.c', 'set.c', 'longset.c', 'ir.c'], [('dominance', 'ssa.c make_block_dominance'), ('liveness', 'ssa.c make_liveout')], 'model_checking')
p('P22', 'Scope, linkage and storage of identifiers follow C89',
  'Every use of an identifier refers to the declaration C89 scope rules select (block, file, function, prototype, tag, label and member name spaces). Objects have the storage duration and linkage prescribed: static names stay local to the file, external ones are exported once, tentative definitions are merged, local statics persist.',
  ['programs', 'inputs'], 'all nesting and redeclaration decisions of the parametrised families; all values', 'Shadowing and redeclaration combinations are many; tests have a few.',
  ['scopes.c', 'parser.c', 'codegen.c'], [('symbol tables', 'scopes.c'), ('symbol emission', 'codegen.c')], 'translation_validation')
p('P24', 'Compilation is deterministic and files are independent',
  'The output depends only on the source text and the options: compiling or preprocessing the same file again, with other contents of fresh memory, or after other files on the same command line gives the same text.',
  ['programs', 'configurations'], 'all contents of fresh memory, all names and numbers marked symbolic in the pairs of files of the corpus', 'Tests compile each file once.',
  ['wcc.c', 'main.c', 'memory.c', 'utils.c', 'strmap.c', 'longmap.c'], [('initialisation per file', 'wcc.c')], 'model_checking')
p('P25', 'The driver handles its command line and files correctly',
  'For every command line, the driver runs exactly the requested phases in order on the named inputs, writes exactly the requested output, passes options through, reports unknown or incomplete options, and fails when any step fails.',
  ['inputs', 'fault_sequences', 'configurations'], 'all command lines over the option alphabet up to the bound; all success and failure patterns of the called tools and files', 'Tests use a few fixed command lines and no failures.',
  ['main.c', 'wcc.c', 'error.c'], [('option parsing', 'main.c'), ('running the assembler and linker', 'main.c')], 'model_checking')
def main():
    built = {q['id'] for q in P if os.path.exists('%s/checks/%s.py' % (V, q['id'].lower())) and not q['na']}
    with open(V + '/properties.jsonl', 'w') as f:
        for q in P:
            a = {'files': q['files'], 'mechanism': [{'name': n, 'where': w} for n, w in q['mech']], 'observe_at': q['observe'] or (['emitted assembly', 'exit status and diagnostics'] if q['level'] == 'translation_validation' else ['exit status, diagnostics and output of the compiler']), 'hook_needed': None}
            f.write(json.dumps({'id': q['id'], 'title': q['title'], 'statement': q['statement'], 'quantifier': {'over': q['over'], 'text': q['text']}, 'why_tests_cant': q['tests'], 'anchors': a}) + '\n')
    m = {'version': 1, 'setup_cmd': 'make -s -j8 -C engine', 'checks': [], 'not_applicable': []}
    for q in P:
        if q['id'] in built:
            tv = q['level'] == 'translation_validation'
            m['checks'].append({'property': q['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % q['id'], 'thorough_cmd': 'python3 run.py %s --tier thorough' % q['id'], 'technique': q['technique'] or (TV if tv else SE), 'level': q['level'], 'level_note': q['note'] or (TVN if tv else SEN)})
        else: m['not_applicable'].append({'property': q['id'], 'reason': q['na'] or 'No check has been built yet.'})
    json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1); open(V + '/MANIFEST.json', 'a').write('\n')
    print(len(built), 'claimed of', len(P))
main()
