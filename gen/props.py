PROPS = [
dict(id='C05', title='The operator call stack is bounded and always unwound',
 statement="A user-defined operator body runs only in a call frame of its own, and a call is refused with an error once the configured maximum number of nested calls is reached. Whether an operator returns normally or stops with an error, every frame it pushed is gone afterwards, so any sequence of failing calls leaves the session able to recurse exactly as deep as before.",
 over=['inputs','histories','fault_sequences'], quant='every program, every point at which an evaluation can fail, every history of failing calls before it',
 why='The tests run each expression once in a fresh context; an unpopped frame or a misplaced limit only shows after a history of failures or at the exact limit.',
 files=['exec/context.go','exec/function.go','value/'], mech=[('frame push and pop','exec/context.go'),('calls of user-defined operators','exec/function.go')],
 technique='abstract interpretation of operator calls over a symbolic variable stack, with deferred calls and panic paths, and typestate analysis of frame push/pop over SSA control flow',
 note='Sound for the push/pop discipline and the guard on the frame count on every path of the analysed functions; assumes panics are the only abnormal exits and that the frame slice is only reached through the context.'),
dict(id='C06', title='Local variables of an operator start undefined on every call',
 statement="Each call of a user-defined operator starts with all of its local variables other than its parameters undefined. Reading a local that this call has not assigned is an error, and never yields a value left by an earlier or an outer call.",
 over=['programs','histories'], quant='every operator, every earlier call that used the same stack storage',
 why='Needs a history of calls that leaves values in reused stack storage; tests reach one or two layouts.',
 files=['exec/context.go','exec/function.go'], mech=[('clearing of exposed slots','exec/context.go'),('lookup of locals','exec/context.go')],
 technique='abstract interpretation of push, slot lookup and slot numbering over a variable stack of symbolic length, capacity and contents',
 note='Decides, for symbolic stack length, capacity and frame size, that every slot of a new frame holds the undefined value whether storage is reused or grown; that slot k of the current frame is what Local(k) returns and lies inside that frame; that slot numbers given to parameters and locals are distinct and counted; and that unassigned slots read as undefined.'),
dict(id='C12', title='Comparisons, boolean operators, min/max and sorting agree on all kinds',
 statement="For scalar operands of every numeric kind the operators == != < <= > >= yield exactly 1 or 0 as the mathematical ordering dictates, and or xor nand nor not follow their truth tables over zero and non-zero, min and max return the smaller and larger operand, sgn the sign. A character never equals a number. The total order behind sorting and set operations agrees with the numeric order across kinds, is antisymmetric, and puts characters before numbers before complex numbers before vectors before matrices.",
 over=['inputs'], quant='all pairs of values of every pair of kinds',
 why='The operators are written once per kind; tests sample a few pairs per operator and cannot cover the ordering, sign and kind combinations.',
 files=['value/binary.go','value/unary.go','value/sort.go','value/eval.go'], mech=[('operator tables','value/binary.go, value/unary.go'),('total order','value/eval.go')],
 technique='abstract interpretation of each operator-table entry over all ordering/sign/zero-ness scenarios',
 note='Exhaustive over orderings and signs of the operands; trusts math/big Cmp/Sign and the promotion of both operands to one kind.'),
dict(id='C01', title='Evaluating an expression never changes its operands',
 statement="No operator, function, assignment or conversion modifies a value it is given: integers, rationals, floats, complex numbers, vectors, matrices and their shapes read the same after being used as an operand, whatever other variable, constant, element or stored result shares them. An indexed assignment to one variable never shows through another variable, and built-in constants such as pi and e never change.",
 over=['inputs','histories'], quant='every operator on every operand, every way two values can share storage',
 why='math/big values and Go slices are updated in place; an aliasing write only shows when the shared operand is read again later, which tests of single expressions do not do.',
 files=['value/','exec/','parse/'], mech=[('in-place math/big and slice writes','value/'),('variable edits','value/context.go')],
 technique='interprocedural ownership (freshness) dataflow over every in-place write',
 note='Every write to a big number, shape, element or field of a value is traced to its allocation through calls, closures, phis and returns; a write whose target can be anything not freshly allocated by the computation, or already handed out, is a violation.'),
dict(id='C25', title='Variables are independent cells that read back what was assigned',
 statement="After x = v, for a local or a global x, reading x yields v until the next assignment to x. Indexed assignments to x are all visible the next time x is read, a plain assignment discards none of itself and all earlier indexed ones, assigning one variable never changes another, a local and a global of the same name are different variables, and reading a name that was never assigned is an error.",
 over=['programs','histories'], quant='every interleaving of plain assignments, indexed assignments and reads of any variables',
 why='Indexed assignments are buffered and flushed on the next read; the flaw needs a particular history of edits, reads and assignments.',
 files=['value/context.go','value/assign.go','exec/context.go','value/expr.go'], mech=[('variable cell with pending edits','value/context.go'),('symbol tables and frames','exec/context.go')],
 technique='typestate analysis by abstract interpretation of the variable methods, with an ownership rule for the cells',
 note='All reachable states of a cell (undefined, scalar, vector, matrix; pending edits or none) times all methods; the editor is trusted to hold the elements written to it (C02).'),
dict(id='C20', title='All session text goes to the configured output and error writers',
 statement="Results, printed values, prompts and listings go to the configured output writer; errors, warnings and traces go to the configured error writer. Library code writes to nothing else, in particular never to the process's own standard output or error behind the writers' back. Setting one writer affects everything written to it afterwards and leaves the other alone.",
 over=['inputs','configurations'], quant='every operation that produces text, every choice of writers',
 why='Tests capture output for a list of expressions; a diagnostic that escapes to the wrong stream only shows when its particular condition occurs under an embedding that redirected the writers.',
 files=['config/config.go','parse/','run/','exec/','value/','scan/'], mech=[('writers','config/config.go'),('printing of results and errors','run/run.go')],
 technique='interprocedural provenance (dataflow) of the writer of every write call and of the text written',
 note='Every fmt/io/os write in the library packages is traced to the configuration field it writes to, and error values or warnings must go to the error writer. Not covered: the mobile and demo packages beyond the writers they configure.'),
dict(id='C23', title="Redefining an operator changes only that operator",
 statement="When the user defines an operator with the name of a built-in, every use of that name and arity in the user's programs, including inside reductions, scans, products and @, runs the user's definition, and nothing else changes: built-in operators defined in terms of one another keep their meaning, unary and binary definitions of one name are independent, and removing a definition brings back the built-in and touches no other definition.",
 over=['programs','histories'], quant='every built-in name of either arity, every set of user definitions',
 why='Needs a user definition that collides with a name some other built-in uses internally; tests define few such names.',
 files=['exec/context.go','value/eval.go','value/complex.go','value/'], mech=[('dispatch','exec/context.go'),('built-ins that call built-ins','value/')],
 technique='provenance of evaluated operator names plus abstract interpretation of dispatch and definition over all definition states',
 note='Names of evaluated operators are traced to program text or to symbols users cannot define; dispatch, Define and Undefine are decided for all 16 combinations of user/built-in unary/binary definitions. That parallel shortcuts are skipped for user operators is decided by C08.'),
dict(id='C24', title='An assignment inside an expression behaves as the value assigned',
 statement="An assignment or print used inside a larger expression, as an operand, element of a vector, index, condition, argument, stored value or operator result, behaves exactly as the plain value assigned or printed would; the only effect of its being an assignment is that a statement consisting of it is not printed.",
 over=['programs'], quant='every place an expression may appear, every kind of value',
 why='The value of an assignment is wrapped; each consumer must unwrap it, and a consumer that forgets behaves differently only for that one combination of construct and kind.',
 files=['value/expr.go','value/assign.go','exec/context.go','value/index.go','value/eval.go','value/vector.go'], mech=[('quiet wrapper','value/value.go'),('unwrapping','exec/context.go, value/expr.go')],
 technique='interprocedural taint analysis: wrapped values must be unwrapped before any use other than returning',
 note='Sources are all constructions of the wrapper and calls that may return one; sinks are kind tests, stores, elements, comparisons and operator calls. Sound up to the call graph.'),
dict(id='C22', title='Mixed operands meet in the smallest kind that holds both',
 statement="When a binary operator gets operands of different kinds, both are converted to the smallest kind that can represent both before the operation runs, and every conversion keeps the value: an integer becomes the equal rational, float, complex number with zero imaginary part or one-element vector. The implementation that runs for an operator is one that exists for the kinds it is given; if there is none, or a value cannot be converted, the result is an error that names the operator, never a wrong value. Unary operators run the implementation for their operand's own kind.",
 over=['inputs'], quant='every operator, every pair of operand kinds',
 why='Eight kinds give 64 pairs per operator and tests reach a fraction of them; a wrong promotion shows only for its own pair.',
 files=['value/binary.go','value/eval.go','value/int.go','value/bigint.go','value/bigrat.go','value/bigfloat.go','value/complex.go','value/vector.go','value/matrix.go','value/char.go'], mech=[('kind promotion','value/binary.go'),('dispatch','value/eval.go'),('toType conversions','value/*.go')],
 technique='abstract interpretation of kind, toType and dispatch over all pairs of kinds, and type-based reachability in every implementation',
 note='Exhaustive over the finite set of kinds. The value carried by a conversion is tracked as a symbolic term; trusts math/big Set functions.'),
dict(id='C16', title='Settings commands change exactly the setting they name',
 statement="A settings command (base, ibase, obase, maxbits, maxdigits, maxstack, origin, prec, seed, prompt, format, timezone, debug) without an argument prints the current value and changes nothing; with an acceptable argument it sets exactly that setting to exactly that value; with an unacceptable one (wrong type, negative, fraction, out of range, malformed) it stops with an error and changes no setting. Special commands, successful or failing, leave the number bases as the user set them, files are read and saved in the user's bases, and on a fresh configuration setting one thing leaves everything else at its default.",
 over=['inputs','histories','configurations'], quant='every settings command, every argument, every prior state of the settings, failure at any point of the command',
 why='Commands run with the bases temporarily changed, and configurations initialise themselves lazily; a leak shows only for a particular command failing at a particular point, or a particular first call on a new configuration.',
 files=['parse/special.go','config/config.go'], mech=[('special commands','parse/special.go'),('settings','config/config.go')],
 technique='abstract interpretation of each command over symbolic settings and all argument regions the code or the documentation distinguishes, with panic paths and deferred calls',
 note='Every getter of the configuration is evaluated before and after. Text following a valid argument on the same line is not covered. The sequence produced by a seed is another property.'),
dict(id='C26', title='Elementwise operations and products pair the right elements',
 statement="A unary operator applied to a vector or matrix elementwise gives, at each position, the operator applied to the element at that position, in the operand's shape. A binary elementwise operator pairs elements at the same position; a scalar, a one-element vector or a one-element matrix pairs with every element, and a vector pairs with the rows of a matrix whose last dimension is the vector's length; any other combination of shapes is an error. Element (i,j) of an outer product x o.f y is x[i] f y[j], in the shape of x followed by that of y. An element of an inner product x f.g y is the right-associative f-reduction of a row of x g a column of y, in the shape of x without its last dimension followed by that of y without its first. Operands keep their sides.",
 over=['inputs'], quant='every operator, every pair of shapes and sizes of the operands',
 why='Index arithmetic is right for the small, often square shapes of tests and wrong for one shape combination or rank; the parallel split adds a size dependence.',
 files=['value/eval.go','value/vector.go','value/matrix.go','exec/context.go'], mech=[('elementwise application','value/eval.go'),('inner and outer products','value/eval.go')],
 technique='scalar-evolution dataflow: every stored element is evaluated to a term over symbolic index polynomials and compared with the specified element for all sizes',
 note='Decided for symbolic lengths and ranks: each Set in the loops is summarised as (index polynomial, element term), with the facts of dominating guards; loops must cover all indexes exactly. Trusts the persistent vector editor (At/Set/Publish). The each operator @ is not covered.'),
dict(id='C13', title='Evaluation is right to left and reductions are right associative',
 statement="An operator's right operand is everything to its right and is evaluated before its left operand; the items of a vector and the indexes of an index expression are evaluated last to first, and what is indexed after its indexes; statements run first to last. A reduction f/ folds from the last element to the first, f(x1, f(x2, ... f(xn-1, xn))), along the last axis (the first for f/%), and element j of a scan is the reduction of the elements up to j; the shortcut of extending the previous result is taken only for built-in operators that are associative, never for an operator the user has defined.",
 over=['programs','inputs'], quant='every operator, every length and shape of operand, every program whose operands have side effects',
 why='The order matters only for operators that are not associative or operands that assign, for particular shapes; each of the reduction, scan, first-axis and parallel forms has its own loop.',
 files=['value/eval.go','value/expr.go','value/index.go','parse/parse.go','exec/context.go'], mech=[('reductions and scans','value/eval.go'),('operand order','value/expr.go, value/index.go'),('grammar','parse/parse.go')],
 technique='scalar-evolution dataflow over fold and scan loops, ordering (dominance) analysis of evaluation sites, and provenance of operands in the parser',
 note='Folds are recognised as loop-carried applications whose start, step and trip count are compared with the specification for symbolic lengths and shapes. That +, *, min, max, or, and, xor and the bit operators are associative is taken as given. Scan of a matrix along the first axis is decided as transpose, scan, transpose, trusting transpose.'),
dict(id='C08', title='Splitting work between goroutines never shows in results',
 statement="Ivy splits large elementwise operations, products, reductions and other array operations between goroutines. Every index is handled by exactly one worker; no two workers store different values to the same element of a result, a worker never reads an element of the result that another may store, and workers share no other storage that any of them changes (package variables, the session and its configuration are changed, and read if workers change them, only under a lock). The operation ends only when all workers have ended, and fails if any worker failed. Operators that are defined by the user or that draw random numbers are never applied by workers, so side effects happen one after the other in a fixed order.",
 over=['schedules','inputs'], quant='every schedule of the workers, every number of processors, every size and shape of operand',
 why='Races, lost workers and uncovered indexes depend on sizes, processor counts and timing that tests do not control; tests run small operands for which no goroutine is ever started.',
 files=['value/eval.go','value/index.go','value/matrix.go','value/binary.go','value/vector.go','value/format.go','config/config.go'], mech=[('parallel loop','value/eval.go:pfor'),('choice of what runs in parallel','value/eval.go:safeBinary, safeUnary'),('shared caches','value/index.go, value/vector.go, value/value.go')],
 technique='static race analysis: symbolic tiling of the ranges (scalar evolution), join analysis of the goroutines, escape/ownership of every store in a worker, locksets for shared state, guard analysis of the operators applied',
 note='Quantities are symbolic: any n, element size and GOMAXPROCS. Which element a store touches is decided by scalar evolution; the two element maps it cannot prove injective (2-d transpose, indexed assignment of one scalar) are recorded as such in the evidence. Which of several failing workers provides the error text is not covered. The Go memory model, the persistent vector editor (Set of distinct indexes by different goroutines) and math/big reading operands concurrently are trusted.'),
dict(id='C03', title='An error is reported once and ends only its own statement',
 statement="When reading, evaluating or printing a line fails with an error of ivy's, a floating-point error included, the error is reported exactly once, with the file and line where it happened, on the error output; nothing more of that line is evaluated, printed or stored in _, and the session goes on with the next line (a file run by )get is abandoned and closed and the session goes on after it; a failure inside the text given to the ivy operator ends the statement using it). Without errors every line is evaluated, each result that is not an assignment is printed once and in order, and _ holds the last one printed. A failure that is not an error of ivy's is never swallowed. Files that get one another endlessly stop with an error, and no number of failures changes how deep later )get commands may nest. A program given as file or argument is reported as failed if and only if it failed.",
 over=['inputs','fault points','histories'], quant='every step of a line failing in every way a panic can arise, in sessions, files, the demo and ivy strings, and every sequence of such failures',
 why='Tests compare the output of programs whose errors happen at a few points; which step fails, with what kind of panic, and what remains afterwards (depth counters, open files, left-over tokens) is not observed by them.',
 files=['run/run.go','parse/special.go','parse/parse.go','scan/scan.go','exec/context.go','ivy.go'], mech=[('session loop','run/run.go:Run, printValues'),('files and demo','parse/special.go:runFromFile, runFromReader, runUntilError, DemoRunner'),('ivy operator','run/run.go:eval'),('dropping the rest of a line','parse/parse.go:readTokensToNewline, scan/scan.go:errorf')],
 technique='abstract interpretation of the run loops over scripts of lines with a failure injected at every step (lines, expressions, values and text are tokens; undetermined branches are taken both ways), plus control-flow analysis of the callers of Run',
 note='Panics are classified by dynamic type: value.Error, big.ErrNaN, any other error, any other value. Scripts have up to three lines of up to five expressions; the loops treat lines alike. What a line parses to and what expressions evaluate to is abstracted.'),
dict(id='C07', title='With a given seed a session always does the same',
 statement="Results do not depend on chance, time or schedule other than through the session's random generator and the documented uses of the clock. Setting the seed puts the generator into a state made from every bit of that seed and nothing else, whatever was set or drawn before, and )seed reports it; ? and rand draw only from that generator, one draw at a time (never from several workers at once) and leave it usable also after errors: ?n of a positive small integer is the origin plus a draw below n, m?n the first m of one permutation of n numbers counted from the origin, rand x a draw scaled to x; operands outside the domain are errors that draw nothing. No random number is drawn anywhere else. Output and results never depend on the order in which a map is visited: the names )var, )op and )save list are sorted. The clock is read only by sys, encode and decode, to choose the first seed, to interpret time zones and to time statements.",
 over=['inputs','schedules','histories'], quant='every sequence of settings before a draw, every bit of the seed, every kind and sign of operand, every iteration order of the maps',
 why="Go's map order, the schedule of workers and the wall clock are not under a test's control: a dependence shows up in some runs only, and the tests that fix a seed compare a handful of draws.",
 files=['config/config.go','value/unary.go','value/binary.go','value/eval.go','value/sys.go','parse/save.go','parse/special.go'], mech=[('seeding','config/config.go:init, SetRandomSeed, makeSeed'),('draws','value/unary.go:?, rand, bigIntRand, bigFloatRand; value/binary.go:?'),('workers','value/eval.go:safeUnary, safeBinary'),('sorted listings','parse/save.go:sortSyms, parse/special.go:)var, )op')],
 technique='abstract interpretation of seeding and drawing over symbolic seeds (which bits reach the state) with a lock typestate, plus call-site and dataflow analysis of map iteration, clock reads and workers',
 note="The generator itself (math/rand/v2) is trusted. What a loop over a map collects must be sorted, or the loop's effect must not depend on the order. The values of rand are decided up to the terms: a draw below a bound, divided by it, times the operand."),
dict(id='C09', title='Integer, rational and complex arithmetic is exact',
 statement="With no limit on the size (maxbits 0), the result of + - * / idiv imod div mod ** & | ^ << >> == != < <= > >= and or xor nand nor min max on two integers or rationals of whatever size, and of + - abs sgn floor ceil / inv ^ not real imag conj on one, is exactly the mathematical one (idiv and imod truncate, div and mod are Euclidean, x mod 0 is x, & | ^ ~ act on two's complement, >> rounds down), in the smallest kind that holds it: a small integer (32 bits) if it fits, a big integer only if it does not, a rational only if it is not an integer. It goes to floating point only for ** with an exponent that is not an integer, and fails only where it is not defined: division by zero (/ idiv imod div), zero to a negative power, shift counts below 0 or above 2147483646, exponents of more than 62 bits; there it always fails. Operands of different kinds are promoted without change. For complex numbers with integer or rational parts, + - * / == != and or on two and + - / conj j real imag on one are those of the parts, a result without imaginary part is real, and only division by zero fails.",
 over=['inputs'], quant='every pair of integers and rationals of every size and sign, in each combination of kinds; every pair of complex numbers with exact parts; every path through promotion, fast paths, big arithmetic and shrinking',
 why='Each operator has separate fast paths and representations, and the errors are at the seams: the smallest negative integer, results that just fit or just do not, negative exact multiples, a zero divisor of the other kind. Tests hold some tens of sums.',
 files=['value/binary.go','value/unary.go','value/eval.go','value/int.go','value/bigint.go','value/bigrat.go','value/complex.go'], mech=[('operators','value/binary.go, value/unary.go: tables of implementations'),('promotion','value/binary.go:binaryArithType, divType, rationalType; toType'),('Euclidean division','value/eval.go:QuoRem'),('smallest kind','value/int.go:maybeBig; value/bigint.go, bigrat.go, complex.go:shrink')],
 technique='abstract interpretation of every implementation over a domain of polynomials and intervals (numbers as polynomials over the operands and trunc, bitlen, exp and the like of them, with the facts each branch establishes); results are compared with the specification as polynomials',
 note="The arithmetic of math/big and of Go's machine integers (with wrap-around) is part of the domain. A result that is not seen to be equal is reported only together with operands that satisfy the conditions of the path and make it differ, so that a rewriting the domain cannot follow does not raise an alarm; on the current tree every obligation is decided without that. Vectors and matrices apply these elementwise (C05). Not included: ! (1!0 is 1, as the tests have it), log, sqrt and other functions to floating point, floor and ceil of complex numbers."),
dict(id='C21', title='Integers stay within maxbits',
 statement="With maxbits set to n > 0, + - * << ** of two integers and ! of one never give an integer (or, for a negative exponent, the reciprocal of one) of more than n bits, or 64 if that is more: they fail with an error instead, and for << ** and ! they do so before the number is computed, so that no expression of these makes ivy compute a number of more than about twice that many bits. They refuse nothing else: with maxbits 0 there is no limit, and otherwise only results whose length may be above n by the estimate: one more than the longer operand for + and -, the sum of the lengths for *, the length plus the count for <<, the length times the exponent for **.",
 over=['inputs'], quant='every pair of integers of every size and sign and every setting of maxbits; every path through the operators',
 why='The limit is what stands between a short expression and all of the memory; it is enforced by separate estimates in each operator, wrong only for particular pairs of lengths (a carry, a power of two, a long operand on the other side) which tests with the default of a million bits do not reach.',
 files=['value/binary.go','value/unary.go','value/bigint.go','value/fac.go'], mech=[('estimates','value/binary.go:+ - * <<, bigIntExp; value/unary.go:!'),('limit','value/bigint.go:mustFit')],
 technique='abstract interpretation of the operators over polynomials and intervals with a symbolic limit: the bit lengths that branches bound must imply that of each number computed and returned',
 note="Not included: results of rational arithmetic that happen to be integers, a!b (which checks its result only), and numbers read from text. Integers of up to half a gigabyte. As in C09, what is not seen to hold is reported only with operands and a limit that contradict it; on the current tree every obligation is decided without that."),
dict(id='C27', title='Sessions in one process are independent',
 statement="A session is a Context with its own Config. Nothing a session does, whether settings, definitions, variables, random numbers, reading files or failing, changes the results of another session in the same process, before, after or at the same time: package-level state is fixed once the program is initialised, or is a cache whose contents depend on no session and that is accessed under a lock; the tables and settings of a new session are its own; and no session changes the state of the process.",
 over=['histories','schedules','configurations'], quant='every interleaving of the actions of any number of sessions with any settings',
 why='Tests look at one session at a time with default settings; leaks need two sessions with different settings or running at the same time.',
 files=['value/','exec/context.go','config/config.go','scan/scan.go','parse/special.go','run/run.go'], mech=[('constants and caches','value/const.go, value/index.go, value/vector.go'),('creation of sessions','exec/context.go, config/config.go')],
 technique='effect analysis of every write to package-level (or initialisation-captured) storage with provenance of what is stored, lock analysis of shared caches, and aliasing of the fields of new sessions',
 note='Every store, map update and call that may write through package-level storage in code that runs in sessions is examined. Package mobile, which offers one session per process by design, and the command itself are outside. In-place changes to shared numbers are decided by C01. A function the program never calls and that takes and returns nothing (the parallelism switch for testing) is not part of a session.'),
dict(id='C11', title='Floating-point results have the configured precision',
 statement="With )prec set to n, every floating-point number that an operation of ivy delivers as a value has been computed by roundings to n bits of precision (or more): none is rounded to a fixed number of bits, to the precision of an operand computed under an earlier setting, or passed through a machine float64 on the way; likewise for the integers and rationals derived from them. The constants used in the computations hold all the digits of the largest precision allowed; a series stops only when its terms no longer change the sum or are below its last bits at that precision; and e and pi have the new precision from the moment it is set, even if the command that set it then fails.",
 over=['inputs','configurations','histories'], quant='every operand, every setting of )prec, every sequence of changes to it, every path through the operators',
 why='At the default precision a rounding to a fixed 256 bits, or to the precision of an operand, gives the same digits as the right one; it shows only under another setting, or with a number that was computed before the setting changed, and in a few trailing digits at that.',
 files=['value/','config/config.go','parse/parse.go','parse/special.go'], mech=[('new numbers','value/const.go, value/bigfloat.go, value/bigrat.go: newFloat, SetPrec'),('series','value/loop.go'),('constants','value/const.go, exec/context.go:SetConstants')],
 technique='dataflow of the precision of every big.Float from where it is made to where it is rounded into (destination precision provenance), with call-graph coverage of the settings that must refresh the constants',
 note='This is about which precision is used at each rounding, not about the error that accumulates (N01). Text for display and measurements of the clock are outside.'),
dict(id='C02', title='Vectors share storage but never show each other’s changes',
 statement="Versions of a vector share most of their storage, and a vector once made never changes: whatever is done afterwards with the editor it came from or with any editor made from it (setting elements, appending, growing, shrinking, making further versions), in any order and number, every element of it stays as it was. An editor changes only storage that it has made itself since its last version; making a version gives up all of it. Elements set by several goroutines at once in one editor, at different positions, are all there afterwards, in vectors of every length.",
 over=['histories','schedules','inputs'], quant='every sequence of operations on any number of editors and versions, every interleaving of concurrent Sets, every length',
 why='A missing copy shows only when an editor goes on being used after making a version, at a particular alignment of the length, or when two goroutines first touch the same node at the same time; the tests make one version per editor and set elements from one goroutine.',
 files=['value/persist/slice.go','value/vector.go'], mech=[('copy on write','value/persist/slice.go:wleaf, wnode, writeTail'),('ownership','value/persist/slice.go:id, Persist, Transient')],
 technique='ownership and typestate analysis of every write in the package: provenance of node pointers with the ownership tests that guard them, must-dataflow of the tail flag, lock and mark through calls, and of compare-and-swap outcomes',
 note="What is decided is who may write what and when; that an index leads to the same place in every operation is left to the tests of the package, except that the tree is tall enough for every length. Reading elements of an editor while others are set is outside (C08 shows that the interpreter does not). The same rules are applied under C01, C25 (sharing) and C08 (concurrency)."),
dict(id='C15', title='An operator definition takes effect completely or not at all',
 statement="Defining an operator with op defines the operator of that name and arity, with the arguments and all the statements of its body in order, on one line or several, as the latest definition, and nothing else changes; while the body is read the operator itself is already defined and its arguments are variables, so it may be recursive. If anything goes wrong, in the head, on any line of the body or because there is no body, there is an error and everything is as it was: an earlier definition of the same name and arity, those of the other arity and of other names, the order of definitions that )op lists and )save writes, and the variables, also one with the value 0 whose name the definition was to take. opdelete removes the definition of that name and arity and nothing else, or fails and removes nothing.",
 over=['inputs','faults','histories'], quant='every definition, every place in it where reading fails, every state of the operators and variables before',
 why='What a failed definition leaves behind shows only later, and only if there was an earlier definition, of one arity or the other, at another place in the order, or a variable of that name; the tests contain a few erroneous definitions and look at the error only.',
 files=['parse/function.go','exec/context.go','parse/parse.go'], mech=[('undo on failure','parse/function.go:functionDefn'),('order of definitions','exec/context.go:Define, Undefine'),('names taken for variables','exec/context.go:Declare, ForgetAll, noVar')],
 technique='abstract interpretation of the parser on every form of a definition, failing at every point, from every combination of earlier definitions, with the tables of the session as tracked heap objects compared before and after; effect analysis of what parsing an expression can reach',
 note="The parsing of the expressions of the body is abstract (it gives statements, none, or fails); a separate rule shows that it changes no table. Appending where there is room is interpreted as changing the shared array, so that a saved list which is not a copy is seen to change."),
dict(id='C17', title='A conditional ends an operator exactly when its condition holds',
 statement="The statements of an operator run in the order written, each once. A statement c : e evaluates c; if that holds, e is evaluated once, its value is the operator's and nothing more of the body runs; if not, e is not evaluated and the body goes on after it. An operator in which no condition holds has the value of the last of its statements that is no conditional, and it is an error if there is none. A condition holds if it is a number or a character other than zero (for complex numbers, if either part is not zero), or a vector or matrix with a single element for which it holds, and does not hold for zero; any other vector or matrix, the empty one included, is an error. A line is read as its statements, separated by ;, in order, each an expression or condition : expression; a line on which one of these is missing or something is left over is an error, and nothing of it is run.",
 over=['inputs'], quant='every body, every combination of conditions that hold, do not hold or are none, conditions of every kind, every line of statements',
 why='The tests contain a few operators with one or two conditionals on integers; what happens after a conditional in the middle of a body, with a fraction, float, complex number, character or an array for a condition, or on a malformed line, depends on cases they do not reach.',
 files=['value/eval.go','value/expr.go','exec/function.go','parse/parse.go'], mech=[('body','value/eval.go:EvalFunctionBody'),('truth','value/eval.go:isTrue'),('statements','parse/parse.go:statementList, expressionList'),('no value','exec/function.go:EvalUnary, EvalBinary')],
 technique='abstract interpretation of the evaluation of operators over all abstract bodies of up to four statements (and some longer ones) and over conditions of every kind, sign and shape, comparing the sequence of evaluations; and of the parser over lists of statements with abstract expressions',
 note="The expressions themselves are abstract; frames and parameters are the matter of C05 and C06. Of bodies longer than four statements only a few are interpreted (of up to 40 statements); that the evaluation does not depend on the place in the body is not shown separately."),
dict(id='C18', title='A name in an operator is local exactly if it is assigned before it is read',
 statement="Within a user-defined operator a name is local to the call, in all its uses there, if evaluating the body assigns it before reading it (the arguments, also those in parentheses, are assigned first of all), and global in all of them otherwise. Before and after are in the order of evaluation: statements first to last, operands and items of vectors right to left, indexes before what is indexed, what is assigned before the names assigned to, the condition of a conditional before its result; an indexed assignment reads the variable. Every local of an operator is a variable of its own.",
 over=['inputs'], quant='every operator: every nesting of assignments, reads, indexes, vectors and conditionals in its body, every form of arguments',
 why='That a variable is taken for the wrong kind shows only in operators that both read and assign a name within one expression, in particular orders, when there is a global of that name or a second call; the tests have few of these.',
 files=['parse/function.go','exec/function.go','value/expr.go'], mech=[('classification','parse/function.go:funcVars'),('order','parse/function.go:walk')],
 technique='abstract interpretation of the classification over all abstract bodies of bounded nesting (about 12000 of them), compared with the order of evaluation that C13 establishes for the evaluator',
 note="Bodies are expressions nested two deep over two names, alone or in pairs. What a call does with the locals is C05, C06 and C25."),
]
NA = [
dict(id='N01', title='Transcendental functions are accurate to the configured precision',
 statement="sin, cos, log, exp, the hyperbolic functions and real powers return results whose error is below one unit in the last place of the configured precision.",
 over=['inputs','configurations'], quant='all arguments and precisions', why='Tests compare a few printed digits.',
 files=['value/sin.go','value/log.go','value/power.go','value/loop.go'], mech=[('series loops','value/loop.go')],
 reason='Convergence and rounding error of series at a runtime-chosen precision are quantities no structural rule over the source bounds; a numeric proof or a runtime comparison would be a different family.'),
dict(id='N02', title='Evaluation of loop-free programs terminates',
 statement="Any expression without user-defined recursion or loops finishes in finite time.",
 over=['inputs'], quant='all expressions', why='Tests only reach terminating samples.',
 files=['value/loop.go','value/prime.go'], mech=[('iteration bound','value/loop.go')],
 reason='Termination depends on numeric convergence and on sizes held in big integers; no sound static bound is in reach.'),
]
