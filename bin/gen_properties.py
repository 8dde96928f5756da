#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
T = "include/bignum/impl/bn_type_impl.h"
ADD = "include/bignum/impl/bn_addition_impl.h"
SUB = "include/bignum/impl/bn_subtraction_impl.h"
MUL = "include/bignum/impl/bn_multiplication_impl.h"
DIV = "include/bignum/impl/bn_division_impl.h"
CMP = "include/bignum/impl/bn_compare_impl.h"
FFT = "include/bignum/impl/fourier_impl.h"
INT = "include/bignum/impl/bn_int_type_impl.h"
LIM = "include/bignum/impl/bn_limits_impl.h"
EXC = "src/bn_except.cpp"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))
NOASSERT = "The shipped tests print results and assert nothing; "
DIG = [("numData", "digits, least significant first", "include/bignum/bn_type.h"),
       ("descriptor", "sign, infinity or NaN", "include/bignum/bn_type.h")]

p("C01", "Addition is exact",
  "For all finite numbers a and b of any sign, length and base, a + b and a += b denote exactly the integer sum, whichever operand is longer or larger and however far a carry travels. This also holds when an operand is stored with leading zero digits, is zero in any of its stored forms, or is the same object as the other operand.",
  ["inputs", "configurations"], "all bases (predefined and user-defined), all signs, all digit strings, all stored forms, self-addition",
  NOASSERT + "they add one fixed pair per base plus one long base-10 pair, and never the native 8/16/32-bit digit types.",
  ["include/bignum/bn_type.h", T, ADD, SUB, CMP],
  [("sign dispatch of +=", T), ("digit-serial carry loop", ADD), ("borrow loop for mixed signs", SUB)], DIG, ["operator+", "operator+="])
p("C02", "Subtraction is exact",
  "For all finite numbers a and b of any sign, length and base, a - b and a -= b denote exactly the integer difference, including results that change sign and borrows that travel any distance. This also holds when an operand is stored with leading zero digits, is zero in any of its stored forms, or is the same object as the other operand.",
  ["inputs", "configurations"], "all bases, all four sign combinations, all digit strings, all stored forms, self-subtraction",
  NOASSERT + "they print one fixed pair per base and its swap, with wrong values for positive minus negative going unnoticed.",
  ["include/bignum/bn_type.h", T, SUB, ADD, CMP],
  [("sign dispatch of -=", T), ("borrow loop and zero trimming", SUB), ("magnitude ordering that selects minuend", CMP)], DIG, ["operator-", "operator-="])
p("C03", "Multiplication is exact at every size and base",
  "For all finite numbers a and b, a * b and a *= b denote exactly the integer product with the correct sign, for every base from 2 up to 32-bit digits and for every combination of operand lengths including empty (zero) operands, leading zero digits and squaring in place. No digit is lost to rounding or overflow however long or extreme the operands are.",
  ["inputs", "configurations"], "all bases, digit strings, operand lengths and signs",
  NOASSERT + "only base 2/8/10/16 with three-digit operands and one long base-10 product are ever computed.",
  ["include/bignum/bn_type.h", T, MUL, FFT],
  [("choice of multiplication routine and sign rule in *=", T), ("convolution, rounding and carry propagation", MUL), ("signal packing and transforms", FFT)], DIG, ["operator*", "operator*="])
p("C04", "Division yields the truncated quotient and terminates",
  "For all finite a and all finite non-zero b, a / b and a /= b terminate and denote the quotient truncated toward zero, in every base and for every relation of lengths and signs, including equal magnitudes, b = 1, dividends smaller than b, leading zero digits, and a divided by itself in place.",
  ["inputs", "configurations"], "all bases, digit strings, signs and stored forms with non-zero divisor",
  NOASSERT + "they divide one pair per small base and never use native 8/16/32-bit digits, equal operands or stored leading zeros with a multi-digit divisor.",
  ["include/bignum/bn_type.h", T, DIV, SUB, ADD, CMP],
  [("special cases and sign rule of /=", T), ("doubling search", DIV), ("magnitude ordering", CMP)], DIG, ["operator/", "operator/="])
p("C05", "Comparisons order finite numbers by value",
  "For all finite a and b, each of ==, !=, <, <=, > and >= returns exactly what the same comparison of the two integers returns, so exactly one of a<b, a==b, a>b holds. Stored form is irrelevant: leading zero digits, the different representations of zero, and a zero carrying a negative sign never change any answer.",
  ["inputs", "configurations"], "all ordered pairs of finite numbers, all bases, signs and stored forms",
  NOASSERT + "two pairs of opposite sign per base are compared, so same-sign ordering is never exercised.",
  ["include/bignum/bn_type.h", T, CMP],
  [("sign dispatch of comparison operators", T), ("magnitude comparison", CMP)], DIG, ["operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>="])
p("C06", "Infinities and NaN propagate and order consistently",
  "Any arithmetic operation with a NaN operand gives NaN; infinity combined with a finite number follows the usual extended-real rules (infinity plus or minus finite is that infinity, infinity times or divided by a non-zero finite number is infinity with the product sign, finite divided by infinity is zero, a non-zero finite number divided by zero in any stored form is infinity with the product sign), and opposite infinities added, equal infinities subtracted, infinity times zero and infinity divided by infinity give NaN. Positive infinity is greater and negative infinity less than every finite number, equal infinities compare equal, and no number is less or greater than a NaN nor equal to it unless it is itself NaN. Infinite and NaN numbers hold no digits, are classified as such by the sign/infinity/NaN queries, and are never mistaken for a finite value.",
  ["inputs", "histories"], "all pairs of values with at least one special operand or a zero divisor, all operators, and chains through special values",
  NOASSERT + "no test uses an infinity, a NaN or a zero divisor.",
  ["include/bignum/bn_type.h", T], [("computability guard at the head of each compound operator", T), ("zero-divisor rule of /=", T), ("setDescriptor clears digits", T)], DIG, ["all operators", "isPositive", "isNegative", "isInfinite", "isNan", "isComputable"])
p("C07", "Arithmetic results are in canonical form",
  "Every finite result of +, -, *, / and their assignment forms applied to operands without leading zero digits has no leading zero digit (zero being held as no digit or a single zero digit), has every digit below the base, and is never a negative zero. This is an invariant of every reachable value, however many operations are chained.",
  ["histories", "inputs", "configurations"], "all operation sequences from constructed values, every intermediate value",
  NOASSERT + "stored form is only visible as printed text that nobody compares.",
  ["include/bignum/bn_type.h", T, SUB, MUL, DIV, ADD], [("trailing-zero trimming", SUB), ("zero trimming of products", MUL), ("sign of zero results", T)], DIG, ["getData", "size", "getDescriptor"])
p("C08", "Operators preserve operands and agree with assignment forms",
  "For every operator, a op b leaves both operands unchanged and equals the value a op= b stores; a op= b leaves b unchanged, returns a reference to a, and a op= a gives the same value as a op b with b a copy of a. Results never share storage with operands: modifying one object never changes another.",
  ["inputs", "histories"], "all operators, all operand pairs including aliased ones and special values",
  NOASSERT + "no test inspects an operand after an operation or aliases operands.",
  ["include/bignum/bn_type.h", T], [("copy-then-compound implementation of binary operators", T), ("temporaries in +=, -= and *=", T)], DIG, ["operators", "getData", "getDescriptor"])
p("C09", "Text output is the exact numeral",
  "Streaming a number writes '-' for negative numbers only, then every stored digit from most to least significant as an unsigned number in the stream's integer format with no separators ('0' if there are no digits), so that for bases up to ten the text is the numeral of the value; infinities and NaN are written +INF, -INF and NaN. Streaming leaves the number unchanged, returns the same stream, and this holds for every predefined base and digit width, including 8-bit digits.",
  ["inputs", "configurations"], "all numbers of all bases, stream formats dec/hex/oct, special values",
  "The tests print values but compare nothing; 8-bit digit types were printed as raw control characters without any test failing.",
  ["include/bignum/bn_type.h", T, INT], [("operator<< for numbers", T), ("operator<< for digits", INT)], DIG, ["operator<<"])
p("C10", "Construction and digit editing behave like a digit sequence",
  "A number constructed from a sign and a most-significant-first digit list has that sign and exactly those digits without leading zeros, and a default-constructed number is positive zero. push_front/pop_front, push_back/pop_back, push/pop at a position, resize and clear act on the digit sequence, index 0 being the least significant digit and the front, exactly as the same operations on an ordinary sequence, leaving all other digits and the sign untouched (clear also resets the sign); setting a sign keeps the digits, while setting infinity or NaN drops them.",
  ["histories", "inputs"], "all sequences of edits up to the bound from all small numbers",
  NOASSERT + "only push_back and the list constructor are used at all.",
  ["include/bignum/bn_type.h", T], [("list constructor", T), ("container forwarding edits", T), ("setDescriptor", T)], DIG, ["getData", "size", "getDescriptor", "operator[]"])
p("C11", "Digit access is checked and diagnostics follow severity",
  "Indexing a digit at a position below the size yields that digit (and, on a mutable number, a reference that changes exactly that digit), while any other index throws the library's error value after writing a message to standard error and leaves the number unchanged. A satisfied runtime assertion prints nothing and has no effect; a failed one writes exactly one line with its severity and message (alerts to standard output, warnings and errors to standard error) and throws only for errors.",
  ["inputs", "histories"], "all numbers and indices, all severities",
  NOASSERT + "no test indexes a number or triggers an assertion.",
  ["include/bignum/bn_except.h", EXC, T], [("bounds assertion in operator[]", T), ("bn_runtime_assert", EXC)], DIG, ["operator[]", "std::cerr", "std::cout", "thrown value"])
p("C12", "Running out of memory never corrupts values",
  "If any single allocation made by an operation fails, the failure reaches the caller as a std::bad_alloc, nothing is leaked, and every object stays destructible and reusable by assignment. The target of a failed compound arithmetic assignment is left as an infinity without digits, never as a partial or wrong finite number; a failed copy assignment or construction, binary operator or digit edit leaves all its operands exactly as they were.",
  ["fault_sequences", "inputs"], "every allocation point of every operation for all operand shapes within the bound",
  "No test injects an allocation failure.",
  ["include/bignum/bn_type.h", T, MUL, DIV, FFT], [("catch blocks of the compound operators", T), ("copy assignment order", T)], DIG, ["thrown exception type", "getData", "getDescriptor", "live allocation count"])
p("C13", "Copies are independent and moves transfer the value",
  "Copy construction and copy assignment (including to itself) produce a number equal in sign and digits whose later modification never affects the source, and vice versa. Move construction and move assignment give the target exactly the source's former sign and digits and leave the source a positive zero that can be reused; swapping exchanges two values.",
  ["histories", "inputs"], "all sequences of copy/move/swap/modify over several objects up to the bound, including special values",
  NOASSERT + "copies and moves happen only implicitly and are never checked.",
  ["include/bignum/bn_type.h", T], [("copy/move constructors and assignments", T)], DIG, ["getData", "getDescriptor"])
p("C14", "Digit integers behave like their underlying integer type",
  "Every operator of the digit-integer wrapper (arithmetic, bitwise, shift, comparison, unary, increment/decrement, assignment and conversion), in each of its wrapper-wrapper, wrapper-integer and integer-wrapper forms, yields exactly the value the underlying unsigned type gives modulo its width, compound forms modify and return their left operand, and nothing else is modified. A digit written to a text stream is written as a number and reads back as the same value.",
  ["inputs", "configurations"], "all operand pairs of every operator and form; 8-bit exhaustively, wider types over boundary alphabets",
  "bn_integer_test prints one pseudo-random pair on the 32-bit type and compares nothing.",
  ["include/bignum/bn_int_type.h", INT, "src/bn_int_type.cpp"], [("operator macros", INT), ("stream operators", INT)], [("num", "wrapped value", "include/bignum/bn_int_type.h")], ["all BNIntType operators"])
p("C15", "Every predefined type counts in its documented base",
  "The binary, octal, decimal and hexadecimal number types count in base 2, 8, 10 and 16 and the low, medium and high precision types in base 2^8, 2^16 and 2^32: starting from any number, repeatedly adding one visits the successive integers, carrying exactly when a digit reaches the base, and repeatedly subtracting one retraces them. Published minimum and maximum limits of every digit type are 0 and base minus one (base squared minus one for the double-width digit types, and the full range for native integers).",
  ["histories", "configurations"], "all predefined types; counter runs through every digit rollover within the bound",
  NOASSERT + "no test counts, and the limits are only used to build operands.",
  ["include/bignum/bignum.h", "include/bignum/bn_limits.h", LIM, "include/bignum/bn_int_type.h", "src/bn_type.cpp"], [("limit specialisations", LIM), ("type instantiations", "include/bignum/bignum.h")], DIG, ["operator+=", "operator-=", "bn_min_limit", "bn_max_limit"])
p("C16", "No sequence of valid operations crashes, hangs or has undefined behaviour",
  "For every sequence of public operations on validly constructed numbers (digits below the base, positions within range), including empty numbers, zero in any stored form, leading zero digits, infinities, NaN, aliased operands and zero divisors, every operation returns: no memory error, undefined behaviour, leak, unbounded recursion, endless loop or unexpected exception.",
  ["histories", "inputs", "configurations"], "all operation sequences up to the bound over small operands, run under address and undefined-behaviour sanitizers",
  "The tests run a handful of operations on non-degenerate operands without sanitizers.",
  ["include/bignum/bn_type.h", T, ADD, SUB, MUL, DIV, CMP, FFT], [("loop bounds in the digit loops", SUB), ("zero handling in /=", T), ("empty-operand handling", MUL)], DIG, ["process exit", "sanitizer reports"])
p("C17", "Concurrent use of distinct numbers is independent",
  "When several threads operate at the same time on numbers of their own, and read (copy, compare, print, use as right operand) numbers they share without modifying them, every thread obtains exactly the result it would obtain alone, under every interleaving.",
  ["schedules"], "all interleavings up to the preemption bound of two threads running pairs of operations on disjoint targets and shared read-only operands",
  "The tests are single-threaded.",
  ["include/bignum/bn_type.h", T, MUL, DIV, FFT], [("absence of mutable shared state in all algorithms", T)], (), ["results per thread"])
p("C18", "Results do not depend on container, build mode or compiler",
  "The same history of operations gives the same values, text and exceptions whether digits are kept in a vector or a deque, whether the library's debug mode is on or off, with gcc or clang, and at any optimisation level; debug-mode underflow checks never fire for valid operations. The same integer computation carried out in two different bases gives the same integer.",
  ["configurations", "histories"], "all operation histories up to the bound in every build configuration and container",
  "The tests run one configuration with one container.",
  ["include/bignum/bn_type.h", T, SUB, MUL, "include/bignum/bn_except.h"], [("container-generic templates", T), ("BN_DEBUG underflow guard", SUB)], DIG, ["getData", "operator<<", "thrown exceptions"])
p("C19", "Radix conversion round-trips",
  "Converting a number to another base by repeatedly dividing by that base and taking remainders (n - (n / d) * d), then rebuilding it by Horner's rule (multiply by the base and add the digit), restores exactly the original number; in particular the shipped byte-string compression scheme (bytes as base-256 digits, halved down to a bit string and rebuilt by doubling) restores the original bytes for every input.",
  ["inputs", "histories"], "all byte strings and numbers within the bound, all source/target base pairs",
  "bn_compress_test performs the round trip on one file and never compares the result with the input.",
  ["tests/compress_test.cpp", "include/bignum/bn_type.h", T, DIV, MUL], [("division", DIV), ("multiplication", MUL), ("sign and carry logic", T)], DIG, ["operator/=", "operator*", "operator+", "getData"])
p("C20", "The Fourier transform pair is a discrete Fourier transform",
  "For every power-of-two length the forward transform computes the discrete Fourier transform of its input and the inverse transform undoes it, up to floating-point rounding, and the packed self-convolution applied to a table built from two digit sequences gives after inversion their integer convolution, exact after rounding while the sums stay small relative to the floating-point mantissa. Lengths of 1 are handled, and the table length is a power of two not smaller than the sum of the lengths.",
  ["inputs"], "all power-of-two lengths within the bound; all basis signals (by linearity all signals); all digit sequences within the bound",
  "Transforms are only reached through two base-10 products whose results are not compared.",
  ["include/bignum/fourier.h", FFT], [("recursive radix-2 transform", FFT), ("table construction", FFT), ("point-wise product of packed spectra", FFT)], (), ["fft_complex", "ifft_complex", "create_fft_table", "convolute_fft"])
p("C21", "Results depend only on operand values, not on history",
  "The outcome of any operation is a function of the values and stored forms of its operands alone: it is the same whether the operands were freshly constructed or are the product of any earlier operations, moves, edits or failures, and whatever other computations of whatever sizes and bases the process carried out before.",
  ["histories"], "all operation sequences up to the bound on live objects compared with the same operation on freshly built equal operands",
  "The tests run one fixed straight-line history.",
  ["include/bignum/bn_type.h", T, MUL, DIV, FFT], [("absence of hidden state; only descriptor and digits are kept", "include/bignum/bn_type.h")], DIG, ["all operators"])

p("C22", "Magnitude routines keep their contracts on plain digit containers",
  "The free functions behind the operators work on any pair of digit containers of a digit system, whether vectors or deques, with or without leading zero digits, empty or not: the five magnitude comparisons order them by value, abs_val_add makes its first argument the sum of both (also when both are the same object), abs_val_sub makes a first argument not smaller than the second the difference without leading zero digits, abs_val_div makes its first argument the truncated quotient by a non-zero second one, and mul_naive and mul_strassen return the product without leading zero digits (mul_strassen as long as its convolution sums stay small relative to a double's mantissa). Arguments taken as constants are never modified.",
  ["inputs", "configurations"], "all pairs of digit sequences of every digit system within the bound, every routine, both containers, every length for which the operators would choose another routine",
  NOASSERT + "the routines are only reached through the operators, which never call mul_naive on long or mul_strassen on short small-base numbers and rarely pass leading zeroes.",
  ["include/bignum/bn_addition.h", "include/bignum/bn_subtraction.h", "include/bignum/bn_compare.h", "include/bignum/bn_multiplication.h", "include/bignum/bn_division.h", ADD, SUB, CMP, MUL, DIV],
  [("carry loop", ADD), ("borrow loop and trimming", SUB), ("digit scan from the most significant digit", CMP), ("column accumulation, rounding and carry propagation", MUL), ("doubling search", DIV)], (), ["abs_val_add", "abs_val_sub", "abs_val_is_eq", "abs_val_is_gt", "abs_val_is_ge", "abs_val_is_lt", "abs_val_is_le", "abs_val_div", "mul_naive", "mul_strassen"])

p("C23", "Numbers work at every point of a program's life",
  "Every operation is usable, without crash, undefined behaviour or a different result, at any point of the process's life and from any thread: in constructors and destructors of objects with static or thread storage duration (before and after main, in any order relative to the library's own translation units), in exit handlers, thread exit handlers and unwinding destructors, in newly started threads and in forked children, no matter in which of these phases the library was used first or last. Numbers may themselves have static or thread storage duration and keep their value through all phases.",
  ["schedules", "histories"], "every selection of the phases of a process's life within the bound, every operation in each selected phase, exit called from either thread",
  "The tests only compute inside main().",
  ["src/bn_type.cpp", "src/bn_except.cpp", "src/bn_limits.cpp", T, DIV, MUL, FFT], [("function-local statics (FFT constants)", FFT), ("diagnostics through standard streams", "src/bn_except.cpp"), ("absence of dynamically initialised state", "src/bn_type.cpp")], DIG, ["all operators", "operator<<", "operator[]"])

p("C24", "Numbers are regular values in standard containers and algorithms",
  "Finite numbers and the two infinities (NaN excluded) behave as regular, strictly weakly ordered values: sorting, stable sorting, heaps, selection, merging, the set algorithms, partitioning, rotating, unique and remove, permutations, searches and minima over any sequence give what the same algorithm gives for the integers the numbers denote, whatever stored form each has. Ordered containers find, count, replace and order by value, also through std::pair, std::tuple and range comparisons. Inserting (also an element of the container itself), erasing, moving, swapping and reallocating in vectors, deques, lists and maps loses, duplicates and alters no number. Folds (sums, differences, products, inner products, partial sums, adjacent differences) give the exact integers.",
  ["inputs", "histories"], "every sequence of numbers, of any length and with any mix of stored forms, every container and algorithm of the standard library that needs a copyable, movable, ordered value",
  "The tests never put a number in a container; an algorithm's result depends on the consistency of all comparisons, copies and moves it makes along a data-dependent path.",
  ["include/bignum/bn_type.h", T, CMP], [("comparison operators", CMP), ("copy and move", T)], DIG, ["operator<", "operator==", "Bignum(const Bignum&)", "Bignum(Bignum&&)", "operator=", "operator+", "operator-", "operator*"])

p("C25", "Debug mode refuses underflow and exceptions keep type and text",
  "With the library's debug mode (BN_DEBUG) on, abs_val_sub throws BNUnderflow exactly when the magnitude of its first argument is smaller than that of the second (leading zero digits do not count), whatever their lengths and containers; it then leaves both arguments exactly as they were and may be called again, and in all other cases it throws nothing and gives the exact difference. No operator on numbers ever lets that exception out, and all results are the same exact integers as without debug mode. The library's exceptions can be copied, moved, assigned, stored, rethrown (also in another thread) and caught as themselves, by value or as std::exception, always keeping their type and their non-empty text.",
  ["inputs", "configurations", "histories"], "all pairs of digit sequences within the bound, every position of the first difference, every script of steps over an exception object",
  "The tests are built without debug mode and never provoke or catch an exception.",
  ["include/bignum/bn_subtraction.h", SUB, CMP, "include/bignum/bn_except.h", EXC], [("BN_DEBUG underflow guard", SUB), ("abs_val_is_lt used by the guard", CMP), ("exception classes", "include/bignum/bn_except.h")], (), ["abs_val_sub", "BNUnderflow", "BNNaN", "what()", "all operators"])

p("C26", "Output and diagnostics survive failing streams",
  "Writing a number or a digit integer to a stream that stops accepting characters at any point (by refusing or by throwing, with any buffering), that has failed before, or that has no buffer delivers a beginning of the right text and nothing else, lets the stream report the loss through its state (an exception comes out only if the stream's exceptions are enabled), returns the same stream and never changes the number; once the stream has recovered, the next output is complete. Reading a digit integer from a stream that ends or holds other text makes the stream fail, and a later read works. A failed error assertion or a refused digit access throws the library's error value even when its message cannot be written, and a failed warning or alert then still throws nothing.",
  ["fault_sequences", "inputs"], "every character position at which the stream can fail, every value",
  "The tests write to working streams only.",
  [T, "include/bignum/bn_int_type.h", INT, EXC], [("operator<<", T), ("digit stream operators", INT), ("bn_runtime_assert", EXC)], DIG, ["operator<<", "operator>>", "rdstate()", "thrown value"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r) + "\n")
