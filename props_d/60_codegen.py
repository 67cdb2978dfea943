from tvob import TV
TVT = "translation validation: the machine code emitted by the compiler built from /repo is executed symbolically and compared with the source semantics by z3, for all argument values; counterexamples are replayed on the real code"
TVA = ["instruction semantics as modelled in lib/tv_x86.py, lib/tv_a64.py, lib/tv_rv.py", "the meaning of the source is that of lib/nat.py, an own parser and evaluator that shares nothing with the compiler",
       "quantified over all inputs of the programs in the corpus, not over all programs", "the cooperative preemption poll at function entry is not taken, or returns with all registers intact"]
CGF = ["src/syntax/parser.c", "src/semantic/infer.c", "src/linear.c", "src/ssa.c", "src/schedule.c", "src/register/linearscan.c", "src/register/allocate.c"]


def KP(id, title, statement, forall, why, files, mech, observe, obs, extra="", assume=()):
    P(id, title, statement, ["inputs", "programs"], forall, why, files, mech, observe,
      "The compiler is built from the current source, the corpus functions are compiled, and each function's machine code is symbolically executed on all arguments at once; z3 decides that result, globals, errors raised and stack discipline equal the source semantics. " + extra,
      obs, TVA + list(assume), level="translation_validation", tech=TVT)


KP("K01", "Compiled integer arithmetic gives the value the language defines",
   "For every integer type and every operand value, compiled addition, subtraction, multiplication, division, remainder, bitwise operations, shifts, negation and comparisons, with variable or constant operands, give the two's-complement result of the operand type, wrapping at its width. "
   "Division and remainder truncate toward zero. Operator precedence and constant folding do not change the result.",
   "all operand values of about 1900 functions: every operator on every integer type with variable, constant and boundary operands, as value and as branch condition, and mixed expressions, on amd64",
   "tests evaluate literals; wrong results appear only for negative, narrow or boundary operand values",
   CGF + ["src/native/amd64.c", "src/lower/amd64.c", "src/binary/encoding/amd64/opcode.c"],
   [("operators to machine code", "src/native/amd64.c"), ("constant folding and immediates", "src/semantic/infer.c, src/lower/amd64.c"), ("instruction encoding", "src/binary/encoding/amd64")],
   ["value returned by the compiled function"],
   [TV("ints_amd64", "ints", bounds="1900 functions, all argument values; division excludes a zero divisor; shift counts below the width")])

KP("K02", "Compiled integer conversions keep exactly the bits the types say",
   "Converting between integer types truncates to the target width or extends by the signedness of the source type, wherever the value comes from. "
   "A value of a narrow type never carries bits beyond its width into a later widening, comparison, division or shift.",
   "all argument values of about 450 functions covering every pair of integer types, applied to parameters, results of arithmetic and intermediate variables, on amd64",
   "needs a value whose upper bits matter, in the right type pair",
   CGF + ["src/native/amd64.c", "src/lower/amd64.c"],
   [("extension and truncation", "src/native/amd64.c amd64_native_sext, amd64_native_zext, amd64_native_trunc")],
   ["value returned by the compiled function"],
   [TV("conv_amd64", "conv", bounds="456 functions, all argument values")])

KP("K03", "Compiled floating-point code follows IEEE 754 for every operand",
   "f32 and f64 arithmetic, comparison (also negated, also as branch condition) and conversion give the IEEE 754 result in the precision of the type for every operand, including zeros, infinities and NaN. "
   "Integer to float conversion rounds to nearest; float to integer conversion truncates when the value fits the target type; constants keep their value and width.",
   "all argument values of about 150 functions, on amd64",
   "NaN, values above 2^63 and double rounding are single points in the input space",
   CGF + ["src/native/amd64.c"],
   [("float comparison", "src/native/amd64.c amd64_native_scc"), ("conversions", "src/native/amd64.c"), ("constant pool", "src/lower/lower.h")],
   ["value returned by the compiled function"],
   [TV("floats_amd64", "floats", bounds="about 155 functions, all argument values; float to int only where the value fits")], 
   "Arithmetic is first abstracted to uninterpreted functions (sound for equality), then decided in the theory of floats if that does not suffice.")

KP("K04", "Compiled control flow takes the branch and runs the loop the source says",
   "If/else chains, match, ternary and logical operators, and counted, conditional and nested loops with break and continue execute exactly the statements the language prescribes, in order, for every input. "
   "Values assigned on different paths are the right ones afterwards.",
   "all argument values of 37 functions; loop trip counts as bounded in each function (up to 8)",
   "which path is taken depends on the input; joins of values from different paths go wrong only on some of them",
   CGF + ["src/cfg.c", "src/native/amd64.c"],
   [("branches and phi resolution", "src/linear.c, src/ssa.c"), ("block layout", "src/cfg.c"), ("short circuit", "src/linear.c")],
   ["value returned by the compiled function"],
   [TV("control_amd64", "control", bounds="37 functions, all argument values, loops up to 8 iterations")])

KP("K05", "Calls, aggregates and globals keep values intact across functions",
   "Every argument reaches its parameter and every result its caller, whatever their number and types; structs, arrays and tuples passed, returned, copied or assigned by value keep all their fields, and copies are independent. "
   "Reads and writes of global variables take effect in source order, also across calls; values live across a call or under register pressure survive.",
   "all argument and initial global values of about 270 functions: up to 14 parameters, 46 struct layouts, nested structs, recursion and side effects in conditions, on amd64",
   "argument shuffles, spills and reordering go wrong only for particular combinations of live values",
   CGF + ["src/lower/amd64_abi.c", "src/native/amd64.c"],
   [("argument and result passing", "src/lower/amd64_abi.c"), ("ordering of memory operations", "src/schedule.c"), ("spilling and parallel moves", "src/register/linearscan.c, src/register/allocate.c")],
   ["value returned by the compiled function", "globals after the call"],
   [TV("calls_amd64", "calls", bounds="33 functions, all argument and global values; recursion depth as bounded in each function"),
    TV("structs_amd64", "structs", bounds="46 struct layouts (sizes 1 to 40 bytes, integer and float fields) made, copied, changed, passed, returned and kept in arrays: 234 functions, all field values")])

KP("K06", "Long functions under register pressure still compute what the source says",
   "A function mixing integer types, branches, loops, calls, globals, structs and casts computes the value the language defines, however many variables are live at once, however long it is and however often a variable is assigned. "
   "Values of different variables, branches and temporaries are never mixed up.",
   "all argument and global values of about 150 programs written by a fixed rule (about 330 in the thorough tier) and 16 large functions: up to 300 assignments, 150 live values, 40 arguments, 20 nested branches, 60 match arms, frames up to 8 KB",
   "allocation and renaming mistakes need a particular combination of live ranges, and show only for some inputs",
   CGF + ["src/cfg.c", "src/register/interval.c", "src/native/amd64.c", "src/lower/amd64.c", "src/peephole/amd64.c"],
   [("variable versions", "src/ssa.c"), ("live ranges, splitting, edge moves", "src/register/interval.c"), ("register choice and spilling", "src/register/allocate.c"), ("instruction fusion", "src/peephole/amd64.c"), ("frame layout", "src/native/amd64.c amd64_native_fn_begin")],
   ["value returned by the compiled function", "globals after the call", "stack discipline at calls and at return"],
   [TV("progs_amd64", "progs", thorough="progs_all", bounds="about 150 programs (thorough 330) of 10 to 17 statements, up to 4 branches, loops of 2 or 3 iterations, all inputs"),
    TV("scale_amd64", "scale", bounds="16 large functions, all inputs"),
    TV("aborts_amd64", "aborts", bounds="3 programs on which the register allocator stops with a failed assertion (known findings)")],
   "The generated programs exclude numbers on which the register allocator fails an assertion (known findings) and ones that take the solver long.")
