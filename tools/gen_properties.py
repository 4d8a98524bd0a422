#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext},
      "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
        "mechanism": [dict(name=a, where=b) for a, b in mech],
        "observe_at": observe or [], "hook_needed": hook}})

p("C01", "Forward tangents of elementary operations obey the calculus rules",
  "For every elementary operation (add, sub, mul, div, sin, cos, tan, exp, ln, asin, acos, atan, powf), every argument inside the operation's domain of differentiability and every argument tangents, the forward tangent of the result is the exact directional derivative, and it is a finite number rather than NaN. For abs the tangent is the piecewise-linear increment |x + dx| - |x|. A recorded constant has tangent zero.",
  ["inputs"], "all real argument values in the domain, all real tangents, all opcodes, also when both arguments are the same variable",
  "The tests compare 9 unary functions at 10 points in [0,1] with a 1e-5 tolerance (one of them one-sided), never use dx different from 0 or 1, and never differentiate powf with respect to its exponent or at zero/negative bases.",
  ["src/operation.rs", "src/afloat.rs", "src/tape.rs"],
  [("first-order rules", "src/operation.rs first_order_value"), ("tape step", "src/operation.rs Operation::first_order"), ("operator overloading", "src/afloat.rs AFloat::from_op")],
  observe=["AFloat::dvalue", "Tape::first_order_forward", "Operation::first_order"])

p("C02", "Reverse mode is the adjoint of forward mode on every tape",
  "For every smooth tape (no abs operations) and all vectors dx and ybar, the scalar product of ybar with the forward sweep of dx equals the scalar product of the reverse sweep of ybar with dx, at every point where the recorded operations are differentiable. This includes tapes in which an operand is used twice, a variable is reused by many operations, a dependent variable is also an independent or an operand of later operations, or the same variable is listed as dependent several times.",
  ["programs", "inputs"], "all tapes (any operations, wiring, independents, dependents), all values, all dx and ybar",
  "The reverse sweep is tested on one straight-line arithmetic function, one-operation unary tapes and the polar map; none of them repeats a dependent, uses an independent as dependent or has an operation whose result is not used linearly downstream.",
  ["src/tape.rs", "src/operation.rs", "src/acontext.rs"],
  [("adjoint accumulation per operation", "src/operation.rs Operation::first_order_reverse"), ("seeding and sweeping", "src/tape.rs Tape::first_order_reverse"), ("forward sweep", "src/tape.rs Tape::first_order_forward")],
  state=[("vbar", "adjoint of every value on the tape", "src/tape.rs first_order_reverse")],
  observe=["Tape::first_order_reverse", "Tape::first_order_forward"])

p("C03", "Forward and reverse Jacobian drivers return the true Jacobian",
  "For every smooth function and every point, jacobian_forward of the function and jacobian_reverse of its tape are m-by-n matrices whose entry (i, j) is the partial derivative of output i with respect to input j. The two drivers agree with each other, including for functions that ignore inputs, return an input unchanged, return constants or return the same variable in several outputs.",
  ["programs", "inputs"], "all smooth functions, all dimensions n and m, all points",
  "Both drivers are only tested on one 2x2 function (polar coordinates) at a single point, where transposing or mixing up dimensions partly goes unnoticed and no output is repeated, constant or independent of an input.",
  ["src/drivers/jacobian.rs", "src/function.rs", "src/tape.rs"],
  [("column-wise forward driver", "src/drivers/jacobian.rs jacobian_forward"), ("row-wise reverse driver", "src/drivers/jacobian.rs jacobian_reverse")],
  observe=["jacobian_forward", "jacobian_reverse"])

p("C04", "A recorded tape replays bit for bit at any point",
  "The values stored on a freshly recorded tape, its x() and its y() are bit for bit those of the recorded evaluation. Re-evaluating the tape at any other point leaves it in the same state and returns bit for bit the same y() as evaluating the original expression directly at that point, however often and in whatever order points are visited. Derivatives taken afterwards are those at the last evaluated point.",
  ["programs", "inputs", "histories"], "all branch-free programs over the supported operations on double-precision variables (a tape computes in double precision), all recording points, all sequences of replay points including non-finite values",
  "One test replays one 1-input arithmetic function at one new point with a tolerance; nothing replays transcendental operations, several inputs, unused inputs, constants as outputs, or a second time.",
  ["src/tape.rs", "src/operation.rs", "src/acontext.rs", "src/function.rs"],
  [("replay", "src/tape.rs Tape::zero_order"), ("value rules", "src/operation.rs zero_order_value, Operation::zero_order"), ("recording", "src/acontext.rs AContext::record; src/afloat.rs AFloat::from_op")],
  state=[("values", "value of every variable of the tape", "src/acontext.rs AContextTape.vals")],
  observe=["Tape::zero_order", "Tape::x", "Tape::y", "Tape::values"])

p("C05", "Recording produces a well-formed tape that mirrors the program",
  "Whatever sequence of registrations and operations is performed on a context, every operation's result is a fresh variable, its operands were defined before it, every variable is within the tape's value array, and independents and dependents are listed in registration order. Every operation performed on a recorded variable appears exactly once with its own opcode and with its operands in the order written; a plain operand appears as a constant carrying exactly its value, and operations on plain values only are not recorded. Counting queries (numbers of independents, dependents, abs operations, largest id) agree with the listed contents.",
  ["programs", "histories"], "all sequences of context calls and arithmetic on recorded and plain operands in either position",
  "The recording tests look at three fixed one-addition programs; commutativity of addition also hides swapped operands.",
  ["src/acontext.rs", "src/afloat.rs", "src/tape.rs"],
  [("record", "src/acontext.rs AContext::record, set_indep, set_dep, new_indep_vec, set_dep_slice"), ("operand resolution", "src/afloat.rs AFloat::from_op"), ("counting", "src/tape.rs num_indeps, num_deps, num_abs, max_id")],
  state=[("ops/vals/indeps/deps", "the recorded procedure", "src/acontext.rs AContextInner")],
  observe=["AContext::operations", "AContext::values", "AContext::indeps", "AContext::deps", "AContext::tape"])

p("C06", "Contexts are isolated from each other and from what outlives them",
  "Operations are recorded on the context their operands belong to and leave every other live context unchanged; combining variables of two different contexts, or marking a variable of one context as dependent in another, is refused by a panic and never recorded: both contexts stay as they were, and the one that did not refuse keeps recording. A tape taken from a context is unaffected by later recording on it and survives the context; variables that outlive their context keep computing correct values and tangents and are never attached to a context created later. A context can be found by its id exactly as long as it is alive.",
  ["programs", "histories"], "all interleavings of creating, using and dropping several contexts and variables",
  "The tests create contexts one at a time; only the map entry of one context is inspected before and after drop.",
  ["src/acontext.rs", "src/afloat.rs"],
  [("context ids", "src/acontext.rs NEXT_CONTEXT_ID, CONTEXT_MAP, AContext::from_cid, Drop for AContextInner"), ("context check", "src/afloat.rs AFloat::from_op; src/acontext.rs AContext::set_dep")],
  state=[("CONTEXT_MAP", "weak references to live contexts by id", "src/acontext.rs")],
  observe=["AContext::operations", "AContext::from_cid", "AFloat::value"])

p("C07", "AFloat computes exactly the values of the underlying float type",
  "For every operand values, the value part of +, -, *, / (in all operand and assignment forms), of the elementary functions, of comparisons, classification predicates, constants, parsing and numeric conversions is bit for bit what the underlying float type gives. It does not depend on tangents or on whether operands are recorded. Conversions to and from plain numbers and casts between precisions convert both value and tangent without losing more than the target type requires.",
  ["inputs"], "all operand values including zeros, infinities and NaN, all tangents, recorded or not, single and double precision",
  "The unit tests evaluate one arithmetic function at one point; mixed scalar/AFloat forms, assignment forms, comparisons, predicates and conversions are not checked at all.",
  ["src/afloat.rs", "src/operation.rs", "src/scalar.rs"],
  [("binary_op!/assign_op!", "src/afloat.rs"), ("Float/NumCast/ToPrimitive/Zero/One impls", "src/afloat.rs"), ("zero_order_value", "src/operation.rs")],
  observe=["AFloat::value", "AFloat::dvalue", "PartialOrd/PartialEq", "ToPrimitive", "NumCast", "AFloat::cast"])

p("C08", "Derived functions have the right value and derivative",
  "Functions that are not elementary operations (negation, mul_add, recip, powi, sqrt, cbrt, exp2, log, log2, log10, max, min, abs_sub, hypot, sin_cos, and the trait's clamp and copysign) return the value the underlying float type defines (negation, recip and sin_cos bit for bit, the others up to rounding), and the exact derivative wherever that function is differentiable, including derivative zero of powi(0). For max, min and abs_sub, which are built from abs, the tangent is the piecewise-linear increment, as for abs; it is the derivative times the tangent wherever the increment does not cross a kink. This holds equally for plain tangents and through a recorded tape.",
  ["inputs"], "all real arguments in the functions' domains, all tangents, all small integer exponents",
  "sqrt is differentiated at 9 points; max at integers; none of the other derived functions is tested for value or derivative.",
  ["src/afloat.rs", "src/operation.rs"],
  [("derived Float methods", "src/afloat.rs impl Float for AFloat")],
  observe=["AFloat::value", "AFloat::dvalue"])

p("C09", "Tapeless and tape-based forward mode agree bit for bit",
  "For every program, point and direction, the tangents obtained by evaluating the program on variables carrying tangents are bit for bit the ones obtained by a forward sweep over the tape recorded at the same point in the same direction. Recording does not change the tangents carried by the variables.",
  ["programs", "inputs"], "all programs over the supported operations on double-precision variables, all points and directions",
  "No test compares the two forward modes on the same program.",
  ["src/afloat.rs", "src/operation.rs", "src/tape.rs"],
  [("shared tangent rule", "src/operation.rs first_order_value"), ("forward sweep", "src/tape.rs Tape::first_order_forward"), ("tapeless mode", "src/afloat.rs AFloat::from_op")],
  observe=["AFloat::dvalue", "Tape::first_order_forward"])

p("C10", "The abs-normal form reproduces the piecewise-linear model",
  "For every abs-factorable function and base point, solving the switching equations dz = a + Z dx + L |dz| of the computed abs-normal form and evaluating b + J dx + Y |dz| gives the increment of the function's piecewise linearization for every direction dx. For functions built from linear operations and abs only, this is exactly f(x + dx) - f(x) for all dx; L is strictly lower triangular and dz is z(x + dx).",
  ["programs", "inputs"], "all abs-factorable functions, all base points, all directions, including points and directions exactly on kinks",
  "Only the half-pipe function and |x1| + x2 are compared with hand-computed matrices at grid points; no abs-normal form is evaluated away from its base point.",
  ["src/drivers/abs_normal.rs", "src/tape.rs", "src/operation.rs"],
  [("decomposition", "src/drivers/abs_normal.rs AbsNormalTape, anf_matrix!"), ("dense form", "src/drivers/abs_normal.rs abs_normal")],
  state=[("indeps/deps of the abs tape", "x ++ abs results / abs arguments ++ y", "src/drivers/abs_normal.rs AbsNormalTape")],
  observe=["abs_normal", "AbsNormalTape::z"])

p("C11", "Implicit abs-normal matrices multiply like explicit matrices",
  "For each of the four matrices of an abs-normal form, multiplication from the right, multiplication from the left, single rows and single columns all describe one and the same matrix, of the advertised number of rows and columns, and that matrix equals the corresponding dense matrix of abs_normal. Products are linear in the factor and have the dimensions of a matrix product, for every dimension including zero switching variables.",
  ["programs", "inputs"], "all abs-factorable tapes, all left and right factors, all shapes (n, m, s each smaller, equal or larger than the others, s = 0)",
  "mul_left and mul_right are compared only with identity factors on a 2-input, 2-switch, 1-output function; row and column are never called.",
  ["src/drivers/abs_normal.rs"],
  [("mul_right/mul_left/row/column", "src/drivers/abs_normal.rs anf_matrix!"), ("sweep choice by shape", "src/drivers/abs_normal.rs abs_normal")],
  observe=["AbsNormalZ/L/J/Y::{mul_left, mul_right, row, column, nrows, ncols}"])

p("C12", "Generalized Jacobian is the linear piece selected by the direction",
  "For every abs-factorable function, base point x and direction dx, the generalized Jacobian's homogenous part times dx plus its inhomogenous part is the piecewise-linear increment at dx, and the same affine map describes that increment for every direction with the same switching signs. The multiplicity is the number of switching variables that are exactly zero; those and only those take their sign from the supplied bit string, in order, least significant bit first, with missing bits counting as negative.",
  ["programs", "inputs"], "all abs-factorable functions, base points, directions, bit strings of any length",
  "The half-pipe function is compared with a hand-computed reference at non-negative grid points only, always with the bit string [0]; at most two ties occur.",
  ["src/drivers/generalized_jacobian.rs", "src/drivers/abs_normal.rs"],
  [("fixed-point iterations", "src/drivers/generalized_jacobian.rs generalized_jacobian_tape"), ("sign bits", "src/drivers/generalized_jacobian.rs bit_iter")],
  state=[("sigma", "signature of the switching variables", "src/drivers/generalized_jacobian.rs")],
  observe=["generalized_jacobian", "generalized_jacobian_tape"])

p("C13", "Chained generalized Jacobians compose and ignore checkpointing",
  "The generalized Jacobian of a chain of functions equals, in the absence of ties, the generalized Jacobian of the composed function, for every chain (also of a single function or nested chains), base point and direction. The result, including the multiplicity accumulated over all links, is the same for every permitted number of checkpoints and for the default one; passing a successor's Jacobian composes it by the chain rule.",
  ["programs", "inputs", "configurations"], "all chains, points, directions and numbers of checkpoints (at least 2, or default)",
  "One chain of two functions is tested with the default number of checkpoints at grid points.",
  ["src/drivers/generalized_jacobian.rs", "src/function.rs", "src/drivers/checkpointing.rs"],
  [("chain driver", "src/drivers/generalized_jacobian.rs generalized_jacobian_chain"), ("composition", "src/drivers/generalized_jacobian.rs generalized_jacobian_tape with next")],
  observe=["generalized_jacobian_chain", "generalized_jacobian"])

p("C14", "Checkpointed reversal visits every state once, backwards, in bounded memory",
  "For every number of steps and every number of checkpoints of at least two, reversing a sequence terminates without panicking and returns reverse(x0, reverse(x1, ... identity(xn))) where each xk is the k-th forward iterate of the start state. While it runs it never retains more states than the permitted number of checkpoints, besides the one being worked on. If all states fit into the checkpoints, no step is evaluated twice, and the number of forward steps never exceeds that of restarting from the start state for every state. Fewer than two checkpoints are refused by a panic.",
  ["inputs", "configurations"], "all step counts, all checkpoint counts, all step functions and states",
  "One reversal (37 steps, 9 checkpoints) of a commutative sum is tested; a wrong visiting order or too many retained states would not be noticed, and the schedule formulas are sampled at a dozen values.",
  ["src/drivers/checkpointing.rs"],
  [("reversal loop", "src/drivers/checkpointing.rs reverse_sequence"), ("schedule", "src/drivers/checkpointing.rs schedule, next_checkpoint, find_t, beta")],
  state=[("checkpoints", "retained (index, state) pairs", "src/drivers/checkpointing.rs reverse_sequence")],
  observe=["reverse_sequence (calls of the closures, live states)"])

p("C15", "Function objects and chains evaluate what they were built from",
  "A function object, its float evaluation, its tape and the generic function it was defined from agree on every argument, report the declared dimensions (also when given by expressions over extra arguments) and panic when argument or result dimensions do not match. A chain evaluates its links first to last, reports the first link's input and last link's output dimension, refuses links whose dimensions do not fit, and enumerates the links of nested chains in evaluation order. Named-argument functions and vector literals bind their elements in order.",
  ["programs", "inputs"], "all functions, extra arguments, chain shapes (including nested chains) and arguments",
  "The tests use three linear links with all-ones input and a flat chain, so wrong ordering, binding or nesting cannot show.",
  ["src/function.rs", "src/macros.rs"],
  [("SimpleFunction/FunctionChain", "src/function.rs"), ("adv_fn!, adv_fn_obj!, adv_dvec!", "src/macros.rs")],
  observe=["Function::{n, m, eval, eval_float, tape, chain}", "FunctionChain::{iter, len, nth}"])

p("C16", "Concurrent recording and taping never corrupts a tape",
  "When several threads record on the same context, create and drop contexts, or take tapes at the same time, no call blocks forever or panics, every tape taken is closed (operands and dependents it mentions are defined in it and values exist for all of them), and every thread's own operations are recorded once, with their operands and in program order.",
  ["schedules"], "all interleavings of the threads' steps",
  "The tests run contexts from one thread only (the test harness parallelism never shares a context), so no schedule is exercised.",
  ["src/acontext.rs", "src/afloat.rs"],
  [("locking", "src/acontext.rs Mutex<AContextInner>, CONTEXT_MAP"), ("snapshot order", "src/acontext.rs AContext::tape"), ("recording", "src/afloat.rs AFloat::from_op")],
  observe=["AContext::tape", "AContext::operations"])

p("C17", "C and C++ interfaces perform the operation they name",
  "Every function of the C interface and every operator and function of the C++ wrapper performs exactly the Rust operation of the same name on its operands in the written order, for recorded and plain operands and for scalars on either side. Independents and dependents registered through the wrapper appear in the recording in that order.",
  ["inputs", "programs"], "all operand values, scalar or variable operands on either side, recorded or not",
  "The C++ tests only check that the calls do not crash (and two scalar min/max values); they are not part of the Rust test run.",
  ["src/ffi.rs", "src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "include/adv/ADouble.hpp", "include/adv/AContext.hpp"],
  [("C ABI", "src/ffi.rs"), ("operator wrappers", "src/cxx/ADouble.cpp BINARY_OP_IMPL, UNARY_FUNC_IMPL, BINARY_FUNC_IMPL")],
  observe=["adv::ADouble operators and functions", "adv_* C functions"])

p("C18", "C++ wrapper objects own their handles safely",
  "Under every sequence of constructing, copying, moving, assigning (including self-assignment and assignment to and from moved-from objects) and destroying variables and contexts through the C++ wrapper, no freed memory is read or written, nothing is freed twice and, once all objects are gone, nothing is leaked. Copies are independent of the original and carry its value; a moved-from variable is a valid zero.",
  ["histories"], "all sequences of the special member functions over a few objects with arbitrary aliasing",
  "The C++ tests never copy, move or assign a variable explicitly.",
  ["src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "src/ffi.rs"],
  [("special member functions", "src/cxx/ADouble.cpp, src/cxx/AContext.cpp"), ("boxing", "src/ffi.rs")],
  observe=["adv::ADouble, adv::AContext special members"])

p("C19", "Parallel drivers give the same matrix under every work split",
  "The result of the Jacobian drivers and of the abs-normal matrix products does not depend on how the parallel runtime splits, orders or combines the work on columns and rows: for every split and every execution order the result is the same matrix, bit for bit.",
  ["schedules", "inputs"], "all splits, execution orders and reduction trees of the parallel iteration, all inputs",
  "Tests run two or fewer columns on whatever schedule the thread pool happens to choose.",
  ["src/drivers/jacobian.rs", "src/drivers/abs_normal.rs"],
  [("indexed reduction", "src/drivers/jacobian.rs, src/drivers/abs_normal.rs map/reduce")],
  observe=["jacobian_forward", "jacobian_reverse", "AbsNormal*::mul_left/mul_right"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
