AI = ('static abstract interpretation of the LLVM IR of the current sources (trace-partitioned bit-provenance domain with value ranges), '
      'results compared with an independent Python model of the %s; alarms are re-derived on a singleton abstract input')
prop('C01', 'RISC-V assembler encodes exactly the instruction that was written',
     'Whenever the RISC-V 64 assembler accepts an instruction, the bytes it emits (including the compressed forms it picks by itself) decode, under the RV64GC '
     'specification, to that same operation on those same operands. Operands that the instruction cannot hold are diagnosed, never truncated or wrapped, and '
     'legal operands are not refused.',
     ['inputs'], 'all mnemonics and operand forms, all register numbers, all 64-bit immediates and offsets',
     'The riscv64 target is not built by the tests here, and even where it is, the operand space (registers x 64-bit immediates x automatic compression) cannot be sampled.',
     ['src/as/arch/riscv64/asm_code.c', 'src/as/arch/riscv64/parse_riscv64.c', 'src/as/arch/riscv64/riscv64_code.h', 'src/as/arch/riscv64/inst.h'],
     [('per-opcode encoders and compression choices', 'src/as/arch/riscv64/asm_code.c assemble_inst'),
      ('mnemonic and operand tables', 'src/as/arch/riscv64/parse_riscv64.c'), ('bit layouts', 'src/as/arch/riscv64/riscv64_code.h')],
     'c01_riscv_encoding.py', AI % 'RV64GC instruction set (decoder written from the specification)',
     'Every table row x operand form with symbolic registers and immediates; obligations discharged by bit-level equality, the rest is reported as unproven in the evidence.')
prop('C02', 'AArch64 assembler encodes exactly the instruction that was written',
     'Whenever the AArch64 assembler accepts an instruction, the word it emits decodes, under the A64 specification, to that same operation, operand size, registers '
     '(including the distinction between sp and the zero register), shift or extension, address and immediate. Operands that the instruction cannot hold are diagnosed, never '
     'truncated or masked, and the immediates and offsets of the ordinary encodings are accepted.',
     ['inputs'], 'all mnemonics and operand forms, all registers, all 64-bit immediates, offsets and shift amounts, all index extensions',
     'The aarch64 target is not built by the tests here; its operand space cannot be sampled, and a wrong field shows only for particular registers or offsets.',
     ['src/as/arch/aarch64/asm_code.c', 'src/as/arch/aarch64/parse_aarch64.c', 'src/as/arch/aarch64/aarch64_code.h', 'src/as/arch/aarch64/inst.h'],
     [('per-opcode encoders', 'src/as/arch/aarch64/asm_code.c assemble_inst'), ('mnemonic and operand tables, operand parser', 'src/as/arch/aarch64/parse_aarch64.c'),
      ('bit layouts', 'src/as/arch/aarch64/aarch64_code.h')],
     'c02_aarch64_encoding.py', AI % 'A64 instruction set (decoder written from the specification)',
     'Every table row x operand form with symbolic registers, immediates, offsets and scales (lsl amounts enumerated); operand texts parsed abstractly.')
prop('C03', 'x86-64 assembler encodes exactly the instruction that was written',
     'Whenever the x86-64 assembler accepts an instruction, the bytes it emits decode, under the Intel/AMD encoding rules, to that same operation, operand size, '
     'registers, address and immediate. Operand combinations that have no encoding (out-of-range displacement or immediate, %ah with a REX prefix, bad scale, %rsp index) '
     'are diagnosed rather than encoded as something else.',
     ['inputs'], 'all mnemonics and operand forms, all registers of every size, all addressing modes, all 64-bit displacements, scales and immediates',
     'Tests see only the few hundred register/size/addressing combinations the compiler happened to emit; wrong REX, SIB or displacement bytes for r12/r13/rsp/rbp, high-byte registers or boundary immediates stay invisible.',
     ['src/as/arch/x64/asm_code.c', 'src/as/arch/x64/parse_x64.c', 'src/as/arch/x64/inst.h'],
     [('per-opcode encoders', 'src/as/arch/x64/asm_code.c assemble_inst'), ('operand parser and mnemonic tables', 'src/as/arch/x64/parse_x64.c')],
     'c03_x64_encoding.py', AI % 'x86-64 encoding (an abstract instruction decoder)',
     'Every table row x operand-size/addressing form with symbolic registers, displacement, scale and immediate; form-level enumeration is exhaustive for the tables of the tree under analysis.')
prop('C04', 'Linker stores the psABI relocation value or fails the link',
     'For every object file the toolchain produces and each target, the linker stores at every relocation site exactly the value the processor ABI prescribes for that relocation '
     'type (from symbol address, addend and site address), leaves every other bit of the instruction or data unchanged, and fails the link with a diagnosis when the value does not fit '
     'the field; values that fit are not refused.',
     ['inputs'], 'all relocation types handled for x86-64, AArch64 and RISC-V, all kinds of target symbol, all symbol values, addends and site contents',
     'Tests link a few small x86-64 programs: distances, addends and rounding carries at the edge of a field never occur there, and the other targets are not linked at all.',
     ['src/ld/ld.c', 'src/ld/elfobj.c'],
     [('relocation formulas', 'src/ld/ld.c resolve_rela_elfobj, calc_rela_sym_address'), ('symbol addresses', 'src/ld/ld.c ld_symbol_address')],
     'c04_link_reloc.py', AI % 'psABI relocation formulas',
     'The whole linker is interpreted from main on objects with symbolic symbol values, addends and site bytes; section sizes and positions are those of the scenarios.')
prop('C05', 'Linker binds symbols by ELF precedence and builds a complete loadable image',
     'In every successful link each input section appears exactly once, unchanged except for relocations, at an address aligned as requested, without overlap, inside a loadable segment with '
     'the right permissions whose file offset is congruent to its address; zero-initialised storage lies wholly inside its segment; the entry point and the init/fini array bounds are right; and every '
     'reference is bound to the definition ELF precedence selects (strong over weak or common, first wins, archive members only when needed). Undefined or doubly defined symbols and missing or '
     'foreign inputs fail the link with a non-zero status and no image.',
     ['inputs'], 'all section contents, alignments from 1 to 8192, symbol values and .bss sizes, definition kinds and orders, archive orders',
     'Ordinary programs use one alignment and one definition per name, and page rounding hides segments that are too short.',
     ['src/ld/ld.c', 'src/ld/elfobj.c', 'src/util/archive.c', 'src/util/elfutil.c', 'src/util/table.c'],
     [('layout', 'src/ld/ld.c ld_calc_address, output_exe'), ('symbol resolution', 'src/ld/ld.c resolve_symbols_elfobj'), ('archives', 'src/util/archive.c')],
     'c05_link_layout.py', AI % 'ELF layout and symbol precedence rules',
     'Scenarios enumerate alignments, definition kinds and archive orders; section contents, symbol values and .bss sizes are symbolic.')
prop('C06', 'Assembler resolves or relocates every label reference to the right place',
     'In every object file the assembler writes, each use of a label in an instruction or in data is either a displacement that reaches exactly that label plus its addend, or a '
     'relocation of a suitable type, at the right byte, with a symbol and addend that yield it; short jump forms are chosen only when the distance fits and longer sequences otherwise, '
     'whatever the distance. Labels outside the section or file are always relocated. Numeric expressions, strings, alignment and space directives produce exactly their value, and symbols have '
     'the binding, type, size and section their directives ask for. Lines that have no translation are diagnosed with a non-zero exit status, never dropped.',
     ['inputs'], 'all distances between jump and label, all 64-bit addends and expression operands, every kind of definition of the label, both orders',
     'Jump distances, addends and section placements in test programs are a handful; a short form that just does not reach, or an addend lost in one case, needs exact boundary distances.',
     ['src/as/as.c', 'src/as/parse_asm.c', 'src/as/emit_elf.c', 'src/as/ir_asm.c', 'src/as/arch/x64/ir_asm_x64.c', 'src/as/arch/riscv64/ir_asm_riscv64.c', 'src/as/arch/aarch64/ir_asm_aarch64.c'],
     [('address calculation and relaxation', 'src/as/arch/*/ir_asm_*.c calc_label_address, resolve_relative_address'), ('expressions and directives', 'src/as/parse_asm.c parse_expr, calc_expr, handle_directive'),
      ('object file', 'src/as/emit_elf.c emit_elf_obj')],
     'c06_asm_refs.py', AI % 'ELF relocation model',
     'The whole assembler is interpreted from main on texts whose numbers (gaps, addends, operands) are symbolic; the forms of reference are enumerated.')
prop('C07', 'x86-64 code generator computes what each intermediate operation means',
     'For every intermediate operation (arithmetic, shifts, comparisons and branches, conversions between integers and floats, loads and stores, addresses of locals, globals and stack '
     'arguments, moves of constants, argument and result moves, table jumps), the x86-64 instructions emitted for it leave exactly the value C gives that operation in its result, for all operand values, all '
     'constants and every register assignment the allocator may choose; write memory only where the operation stores; leave every other live register unchanged; use only immediates and '
     'operand forms that exist; and always end at the right successor.',
     ['inputs'], 'all operand values, all constant operands and frame offsets, all sizes and signedness, register assignments including every way of sharing registers',
     'Which registers an operation meets depends on the whole function; a wrong case for one register, one constant near 2^31 or one rounding boundary is not met by test programs.',
     ['src/cc/arch/x64/ir_x64.c', 'src/cc/backend/ir.c', 'src/cc/backend/regalloc.c'],
     [('emitters', 'src/cc/arch/x64/ir_x64.c kEmitIrFuncTable, ei_*'), ('operand legalisation', 'src/cc/arch/x64/ir_x64.c tweak_irs'), ('registers an operation destroys', 'RegAllocSettings.detect_extra_occupied')],
     'c07_x64_codegen.py', AI % 'x86-64 instruction semantics (an abstract machine executing the emitted text)',
     'Every operation x size x signedness x operand form; operands and constants are symbolic, register assignments are a covering sample in quick and larger in thorough; division and floating operations are uninterpreted with identities.')
prop('C08', 'AArch64 code generator computes what each intermediate operation means',
     'For every intermediate operation (arithmetic, shifts, comparisons and branches, conversions between integers and floats, loads and stores, addresses of locals, globals and stack '
     'arguments, moves of constants, argument and result moves, table jumps), the AArch64 instructions emitted for it leave exactly the value C gives that operation in its result, for all operand values, all '
     'constants and every register assignment the allocator may choose; write memory only where the operation stores; leave every other live register unchanged; use only immediates and '
     'operand forms that exist; and always end at the right successor.',
     ['inputs'], 'all operand values, all constant operands and frame offsets, all sizes and signedness, register assignments including every way of sharing registers',
     'The aarch64 target is not built by the tests here; wrong extension, a constant at the edge of 13 or 16 bits or a clobbered register shows only for particular values.',
     ['src/cc/arch/aarch64/ir_aarch64.c', 'src/cc/backend/ir.c', 'src/cc/backend/regalloc.c'],
     [('emitters', 'src/cc/arch/aarch64/ir_aarch64.c kEmitIrFuncTable, ei_*'), ('operand legalisation', 'src/cc/arch/aarch64/ir_aarch64.c tweak_irs'), ('registers an operation destroys', 'RegAllocSettings.detect_extra_occupied')],
     'c08_aarch64_codegen.py', AI % 'A64 instruction semantics (an abstract machine executing the emitted text)',
     'Every operation x size x signedness x operand form; operands and constants are symbolic, register assignments are a covering sample in quick and larger in thorough; division and floating operations are uninterpreted with identities.')
prop('C09', 'RISC-V code generator computes what each intermediate operation means',
     'For every intermediate operation (arithmetic, shifts, comparisons and branches, conversions between integers and floats, loads and stores, addresses of locals, globals and stack '
     'arguments, moves of constants, argument and result moves, table jumps), the RISC-V instructions emitted for it leave exactly the value C gives that operation in its result, for all operand values, all '
     'constants and every register assignment the allocator may choose; write memory only where the operation stores; leave every other live register unchanged; use only immediates and '
     'operand forms that exist; and always end at the right successor. Integers of at most 32 bits stay sign-extended in their registers and floats NaN-boxed, as the following operations assume.',
     ['inputs'], 'all operand values, all constant operands and frame offsets, all sizes and signedness, register assignments including every way of sharing registers',
     'The riscv64 target is not built by the tests here; wrong extension, a constant at the edge of 12 bits or a clobbered register shows only for particular values.',
     ['src/cc/arch/riscv64/ir_riscv64.c', 'src/cc/backend/ir.c', 'src/cc/backend/regalloc.c'],
     [('emitters', 'src/cc/arch/riscv64/ir_riscv64.c kEmitIrFuncTable, ei_*'), ('operand legalisation', 'src/cc/arch/riscv64/ir_riscv64.c tweak_irs'), ('registers an operation destroys', 'RegAllocSettings.detect_extra_occupied')],
     'c09_riscv_codegen.py', AI % 'RISC-V instruction semantics (an abstract machine executing the emitted text)',
     'Every operation x size x signedness x operand form; operands and constants are symbolic, register assignments are a covering sample in quick and larger in thorough; division and floating operations are uninterpreted with identities.')
prop('C10', 'Constant expressions get the value and type C gives them',
     'A constant expression evaluated by the compiler (initialisers, array bounds, enumerators, address constants) has exactly the value and the type the C standard gives it: '
     'literals get the first type of the standard list that holds them, operands are promoted and converted by the usual arithmetic conversions, integer results are '
     'reduced to their type, conversions between integer, _Bool and floating types are exact or correctly rounded, and addresses get the right byte offset, for every value of the numbers involved.',
     ['inputs'], 'all values of all literals (every base and suffix), all operators, all pairs of operand types',
     'Tests fold a few dozen small numbers; wrong signedness, promotion or rounding shows only for values at the edges of a type, for mixed operand types, or in the type of an intermediate result.',
     ['src/cc/frontend/fe_misc.c', 'src/cc/frontend/ast.c', 'src/cc/frontend/parser_expr.c', 'src/cc/frontend/lexer.c', 'src/cc/frontend/initializer.c', 'src/cc/backend/emit_code.c'],
     [('folding of operators', 'src/cc/frontend/fe_misc.c new_expr_*'), ('conversion of constants', 'src/cc/frontend/fe_misc.c make_cast; ast.c wrap_value'), ('types of literals', 'src/cc/frontend/parser_expr.c; lexer.c read_num'),
      ('emission of initialisers', 'src/cc/backend/emit_code.c')],
     'c10_const_eval.py', AI % 'C standard (typing, conversion and evaluation rules)',
     'The whole compiler is interpreted from main on one-line programs whose literals are symbolic 64-bit numbers; forms of expression are enumerated up to depth 3, over the x86-64 target (the evaluator is shared by all targets).')
prop('C11', 'Compiled expressions over variables compute the value C defines',
     'A function whose body evaluates an expression over its parameters (arithmetic, bitwise, shift, relational, logical and conditional operators, casts, compound assignments, '
     'increments, nesting of these, over every integer width and signedness, _Bool, float and double) returns exactly the value the C standard defines, for every value of the parameters for '
     'which it is defined, on x86-64, RISC-V 64 and AArch64, with and without --apply-ssa; and it leaves memory outside its frame, the stack pointer and the registers it must preserve as they were.',
     ['inputs'], 'all values of all parameters and of integer literals; operators x operand types x nesting up to three operators',
     'The test-suite executes x86-64 code on a few operand values; missing extension of a narrow intermediate, a wrong signedness of a compare, or a wrong folding with a literal shows only for particular values, and the RISC-V, AArch64 and --apply-ssa code is not executed at all.',
     ['src/cc/frontend', 'src/cc/backend', 'src/cc/arch'],
     [('typing and conversion', 'src/cc/frontend/fe_misc.c new_expr_bop, make_cast'), ('lowering of expressions', 'src/cc/backend/codegen_expr.c'), ('optimisation', 'src/cc/backend/optimize.c, ssa.c'), ('register allocation', 'src/cc/backend/regalloc.c'),
      ('instruction selection', 'src/cc/arch/*/ir_*.c'), ('prologue and epilogue', 'src/cc/arch/*/emit_*.c')],
     'c11_expr.py', AI % 'C standard and of the three instruction sets: the compiler is interpreted from main on small functions and the assembly it emits is interpreted under the calling convention',
     'About 2000 function bodies on x86-64; half or a third of them for the other targets and for --apply-ssa in the quick tier, all in thorough. Floating operations are uninterpreted functions with identities.')
prop('C12', 'Control flow of compiled functions is that of the C program',
     'Every function the compiler accepts does, for all values of its parameters and of what the functions it calls return, exactly the calls, stores and result of the C program, in the order C requires: '
     'if/else, while, do, for, switch (with fall-through, default anywhere, dense, sparse, negative and 64-bit case values), break, continue, goto, return, && || ! ?: and comma, compound assignment, ++ and --, '
     'in any nesting and in any position (condition, operand, argument), with and without --apply-ssa, for x86-64, riscv64 and aarch64. Variables keep their values across branches, loops and calls; nothing is evaluated twice or skipped.',
     ['inputs', 'histories'], 'all values of parameters and of the results of called functions, loops followed up to the iterations the program bounds',
     'Tests run a program on a few inputs on one target; a basic block dropped, a phi resolved in the wrong order, a case sent to the wrong label or a value lost over a back edge shows for one path and one combination of values only. SSA and the other targets are not run at all.',
     ['src/cc/backend/codegen.c', 'src/cc/backend/codegen_expr.c', 'src/cc/backend/optimize.c', 'src/cc/backend/ssa.c', 'src/cc/backend/ir.c', 'src/cc/backend/regalloc.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/parser.c'],
     [('statements', 'src/cc/backend/codegen.c gen_stmt and gen_switch*'), ('conditions', 'src/cc/backend/codegen_expr.c gen_cond*'), ('SSA construction and phi resolution', 'src/cc/backend/ssa.c'), ('block and instruction clean-up', 'src/cc/backend/optimize.c; ir.c')],
     'c12_control.py', AI % 'C semantics of statements (an interpreter of the source over symbolic values) and instruction semantics',
     'The whole compiler is interpreted from main on each function; the assembly it prints is then executed abstractly on every feasible path, splitting on branch conditions, and calls, stores and result are compared with the oracle path by path. '
     'Functions: hand-made shapes for every statement and operator, and generated functions with nested statements. Loops are those whose trip count the program bounds.')
prop('C13', 'Objects in memory: accesses, copies and initialisers follow the C layout',
     'Reading or writing an object through a variable, pointer, array element (any index type, constant or variable, negative too), structure or union member, nested member, bit-field or several dimensions touches exactly the bytes of that object '
     'with its type\'s width, sign and conversion; assigning a structure copies all its members and nothing beyond it, also when source and destination are the same; the initialiser of a local object sets every member, '
     'designated, nested or flat, and zeroes the rest; bit-field assignment, ++/-- and compound assignment change only the field and have the value of the field; ++, -- and compound assignment compute the address once. For all values and indices, on x86-64, riscv64 and aarch64, with and without --apply-ssa.',
     ['inputs'], 'all values, indices and contents of memory; enumerated types, layouts and forms of access',
     'A wrong scale, a tail of a copy that writes past the object, sign extension of one member type or a field that overwrites its neighbour needs a particular layout and particular bits to show.',
     ['src/cc/frontend/type.c', 'src/cc/frontend/initializer.c', 'src/cc/frontend/fe_misc.c', 'src/cc/frontend/cc_misc.c', 'src/cc/backend/codegen_expr.c', 'src/cc/backend/codegen.c'],
     [('layout', 'src/cc/frontend/type.c calc_struct_size'), ('bit-fields', 'src/cc/frontend/fe_misc.c assign_to_bitfield etc.'), ('copies', 'src/cc/backend/codegen.c gen_memcpy'), ('initialisers of locals', 'src/cc/frontend/initializer.c assign_initial_value')],
     'c13_objects.py', AI % 'C semantics of objects with the layout of the psABI, and instruction semantics',
     'Contents of memory, pointers, values and indices are symbolic. Bit-field layouts are those on which psABI and xcc agree. Contents of padding are not compared; copies of overlapping, non-identical objects are undefined in C and left out.')
prop('C14', 'Arguments, results, live values and frames survive calls',
     'Every parameter, argument and result, in any number and mix of integer, pointer, _Bool, float, double and structure types, arrives where the calling convention puts it, in prototyped, indirect, recursive and variadic calls; '
     'va_arg yields the arguments in order with their values; values that are live over a call or in larger number than there are registers keep their values; registers the callee must preserve and the stack pointer are restored; '
     'the stack is aligned at calls; stores go to the frame or to objects of the program only, for frames of any size. For all values, on x86-64, riscv64 and aarch64, with and without --apply-ssa.',
     ['inputs', 'histories'], 'all values of all arguments; enumerated signatures, numbers of live values and frame sizes',
     'Which register or stack slot a value gets depends on the whole function; wrong moves show only for long mixed signatures, particular pressure or frames beyond an immediate range, and only x86-64 is run by the tests.',
     ['src/cc/backend/regalloc.c', 'src/cc/backend/codegen.c', 'src/cc/backend/codegen_expr.c', 'src/cc/arch/x64/emit_x64.c', 'src/cc/arch/riscv64/emit_riscv64.c', 'src/cc/arch/aarch64/emit_aarch64.c', 'include/stdarg.h'],
     [('arguments', 'src/cc/backend/codegen_expr.c gen_funcall'), ('parameters and frame', 'src/cc/arch/*/emit_*.c emit_defun_body, move_params_to_assigned'), ('register allocation and spilling', 'src/cc/backend/regalloc.c'), ('variadic functions', 'put_vaarg_params; builtins; include/stdarg.h')],
     'c14_calls.py', AI % 'psABI calling conventions and instruction semantics',
     'Structures by value are checked between caller and callee compiled together, not against the psABI classification (xcc passes all structures in memory). On riscv64, xcc passes floating arguments after the eighth on the stack; the psABI difference is a known finding.')
prop('C15', 'Every tool terminates on every input and rejects bad input without crashing',
     'Whatever bytes they are given, the preprocessor, compiler, assembler, linker and archiver end in bounded time, either with output and exit status 0 or with a diagnosis and a non-zero status; they never crash, hang or corrupt memory.',
     ['inputs'], 'all source texts, assembly texts, object files and archives',
     'The tests feed well-formed programs and a few dozen erroneous ones; malformed object files, deep nesting and huge tokens are not fed at all.',
     ['src/cc/frontend/parser.c', 'src/cc/frontend/lexer.c', 'src/cpp/preprocessor.c', 'src/as/parse_asm.c', 'src/ld/elfobj.c'],
     [('parser recursion', 'src/cc/frontend/parser.c'), ('object file reading', 'src/ld/elfobj.c')],
     na='Termination and memory safety of the recursive-descent parsers and token/tree/table data structures depend on the shape and size of unbounded heap structures and on recursion depth; the bit-level domain used here needs concrete heap shapes, and no sound shape analysis without false alarms for this code is in reach.')
prop('C16', 'The self-compiled compiler behaves as the compiler built by the host',
     'Compiling xcc with itself, repeatedly, reaches a fixed point: the second and third generation tools are identical, byte for byte, and produce the same output as the first for every input.',
     ['programs'], 'all programs given to each generation',
     'The tests compare generations on the test programs only.',
     ['Makefile', 'src/cc', 'src/as', 'src/ld', 'libsrc'],
     [('generations', 'Makefile gen2, gen3, diff-gen23')],
     na='The property is about the output of running the compiler on its own 20k lines: there is nothing to decide from the source short of executing it. The code generation steps it rests on are claimed separately (C06-C14).')
prop('C17', 'The C library conforms: formatting and parsing round-trip every value',
     'printf, strtol, strtod, qsort, malloc, string and file functions of the bundled library do what the C standard says, for every argument; a number printed with enough digits reads back as the same number.',
     ['inputs', 'histories'], 'all arguments; all sequences of allocation and stream operations',
     'Tests sample a handful of formats, numbers and allocation patterns.',
     ['libsrc/stdio', 'libsrc/stdlib', 'libsrc/string', 'libsrc/math'],
     [('formatting', 'libsrc/stdio/vfprintf.c'), ('parsing', 'libsrc/stdlib/strtod.c'), ('allocation', 'libsrc/stdlib/malloc.c')],
     na='Correct rounding and round trips quantify over iterated floating-point arithmetic of data-dependent length, and the allocator and streams over unbounded histories; a sound static bound on either is out of reach, and a few sampled values would be a test.')
prop('C18', 'The WebAssembly back end generates valid modules that compute what C defines',
     'Every module written by the wasm compiler and linker validates, and its functions compute what the C program defines, including setjmp, variadic calls and tail calls.',
     ['inputs', 'programs'], 'all programs, all values of their inputs',
     'Tests run a fixed set of programs in one engine.',
     ['src/wcc', 'src/wcc/wasm_linker.c', 'libsrc/_wasm'],
     [('code generation', 'src/wcc/gen_wasm.c'), ('linking and relocation', 'src/wcc/wasm_linker.c')],
     na='Would need a second semantics (structured control, typed operand stack, table and data relocation) beside the three machine models; it was not built, and no partial static rule over this generator decides the statement.')
prop('C19', 'Macro expansion and conditional inclusion follow the C standard',
     'The token stream after preprocessing is the one translation phases 1 to 4 define: rescanning, hiding of macro names, # and ##, variadic arguments, nested conditionals, include search and line numbers.',
     ['inputs'], 'all sequences of directives, macro definitions and uses',
     'Rescanning and name hiding interact over unbounded sequences; tests cover some idioms.',
     ['src/cpp/preprocessor.c', 'src/cpp/macro.c', 'src/cpp/pp_parser.c'],
     [('expansion', 'src/cpp/preprocessor.c, macro.c'), ('conditions', 'src/cpp/pp_parser.c')],
     na='The result is defined by an unbounded rewriting process over token lists; no finite abstraction of the macro table and token lists available here decides equality with the standard rewriting. The arithmetic of the expressions is that of the shared constant evaluator style checked for the compiler in C10, not of the preprocessor.')
