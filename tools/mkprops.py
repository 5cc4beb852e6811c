"""Writes properties.jsonl (kept as a script so that the text is easy to review)."""
import json, os

def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    return {"id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
            "anchors": {"files": files,
                        "mechanism": [{"name": n, "where": w} for n, w in mech],
                        "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                        "observe_at": observe, "hook_needed": None}}

CG = "ein/codegen/phi_to_yarr.py"
AI = "ein/codegen/array_indexing.py"
AX = "ein/codegen/axial.py"
AB = "ein/backend/array_backend.py"
NB, TB, JB, NV = ("ein/backend/numpy_backend.py", "ein/backend/torch_backend.py",
                  "ein/backend/jax_backend.py", "ein/backend/naive.py")
ND, CO, FU, LA, ST = ("ein/frontend/ndarray.py", "ein/frontend/comprehension.py",
                      "ein/frontend/functions.py", "ein/frontend/layout.py", "ein/frontend/std.py")
LI, SC, SS, SU = ("ein/midend/lining.py", "ein/midend/size_classes.py", "ein/midend/structs.py",
                  "ein/midend/substitution.py")
PH, TY, VA, TE, SY = ("ein/phi/phi.py", "ein/phi/type_system.py", "ein/value.py", "ein/term.py",
                      "ein/symbols.py")

props = [
P("C01", "A comprehension's element at every position is its body at that position",
  "Evaluating array(f, size=n) on the default backend returns an array of exactly the requested shape whose element at each position equals f at that position, whichever of the indices the body mentions, in whatever order and nesting, and whichever operators, comprehensions, concatenations, selections and sizes it is made of. This holds for every extent, including 0 and 1, and the result has the scalar kind of the body.",
  ["programs", "inputs"], "for all well-typed comprehension programs and all input shapes and contents",
  "Tests sample about a dozen comprehension shapes with one data size each; the compiler picks axes, transpositions, broadcasts and in-place buffers from the structure of the program, so every new combination of indices takes another path.",
  [CG, AX, AI, NB, AB, CO],
  [("axis alignment of operands", AX), ("lowering of comprehensions to whole-array operations", CG),
   ("in-place reuse of temporaries", CG)],
  ["array returned by .eval() / .numpy()"]),
P("C02", "Indexing reads the element at the index, clamped to the array's bounds",
  "a[e] is the element of a at position e clamped to [0, size-1], for every integer expression e: a constant, an index, an index shifted, clipped, reversed or scaled, several indices combined, or a value read from another array, at any axis and in any nesting. How the index expression is written never changes which element is read, and reading from an empty array never fails when the element is not selected.",
  ["programs", "inputs"], "for all index expressions, all target shapes and comprehension sizes, including ones that leave the bounds on either side",
  "Index forms are pattern-matched into slices, pads, takes and gathers; the tests reach a few in-bounds shifts, while the window arithmetic must be right for every relation between shift, clip bounds, comprehension size and array size.",
  [AI, CG, AB, NB],
  [("recognition of clipped shifts", AI), ("slice-and-pad window arithmetic", AI),
   ("clamped take and gather", NB), ("edge padding", NB)],
  ["array returned by .eval() / .numpy()"]),
P("C03", "A fold equals the sequential loop it denotes",
  "fold(init, step, count) equals the value of the loop that starts from init and applies step for 0, 1, ..., count-1 in that order, for every step function (including ones recognised as sums, products of sums, minima or maxima), every accumulator type (scalars, vectors, records) and every count, a count of zero or less returning init. It holds equally for folds nested in folds, inside comprehensions, and for initial values and counts computed at run time.",
  ["programs", "inputs"], "for all step expressions, accumulator types, nestings and counts",
  "The compiler replaces some folds by reductions and tensor contractions after matching their shape; tests exercise the shapes that match, with non-empty data, and not the neighbours that must not match.",
  [CG, AB, NB, CO],
  [("contraction and reduction recognition", CG), ("loop execution", AB), ("accumulator axis choice", CG)],
  ["array returned by .eval() / .numpy()"]),
P("C04", "Reducing with any monoid equals combining the elements left to right",
  "vec.reduce(ident, cat) equals the left-to-right combination of the elements of vec for every associative cat with identity ident, commutative or not, for every length including 0 and 1, and returns ident for an empty vector. This holds for scalar, vector and record elements, for several reductions in one program, and for reductions inside comprehensions and folds.",
  ["programs", "inputs"], "for all monoids, element types, lengths and surrounding comprehensions",
  "The reduction proceeds as a tree over halves whose shape depends on every bit of the length; tests use a handful of lengths and mostly commutative operators.",
  [AB, CG, SS, NV],
  [("pairwise tree reduction", AB), ("batch axis placement", CG), ("splitting of records", SS)],
  ["array returned by .eval()"]),
P("C05", "All backends compute the same result",
  "For every program and input, the reference interpreter, NumPy, PyTorch and JAX return arrays of the same shape, scalar kind and, up to floating-point rounding, the same values. JAX may instead refuse a program whose array sizes are not known when it is traced, but it never returns a different result.",
  ["programs", "inputs", "configurations"], "for all programs, inputs and pairs of backends",
  "Most tests compare only naive and NumPy; PyTorch and JAX implement every array operation separately and are tested on the case studies.",
  [NV, NB, TB, JB, AB],
  [("per-backend array operations", AB), ("reference interpreter", NV), ("operator tables", TB)],
  ["arrays returned by .eval(backend=...) and by function(...).numpy/.torch/.jax"]),
P("C06", "Records behave as independent bundles of their fields",
  "A program over tuples, lists, dictionaries or dataclasses, in any nesting with vectors, folds, reductions, selections and concatenations, gives for every field the value that the same program written on that field alone would give. Taking an element of a vector of records, or the accumulator of a fold, yields back a record of the same kind (a list comes back as a tuple) with every field under its own name or position. A whole vector of records is observed through its elements' fields.",
  ["programs", "inputs"], "for all record shapes up to nesting and all constructs over them",
  "Records are rewritten into parallel arrays; the tests use a few two- and three-field records and one nesting level.",
  [SS, LA, ND, CG],
  [("rewriting of arrays of records", SS), ("layout construction and projection", LA)],
  ["fields of records returned by indexing, folds and reductions, then evaluated"]),
P("C07", "An inferred size equals the size of the array being indexed",
  "When a size or count is omitted, the result is that of the same program with the size given explicitly as the extent of the axis that the index directly selects; when no array indexed directly by it gives the extent outside the comprehension, construction fails with ValueError rather than guessing. An explicitly given size is always used as given. Where several arrays are indexed directly by the same index, their extents must agree; what happens when they do not is not specified.",
  ["programs", "inputs"], "for all placements of an index in the body and all distinct input extents",
  "Inference picks a candidate among all uses of the index in the body; tests mostly use inputs where all candidates coincide.",
  [CO, SC, ND],
  [("candidate search and scope check", CO), ("size of an expression along an axis", SC)],
  ["shape of the result; exception at construction"]),
P("C08", "Well-typed programs return the declared type; ill-typed ones are rejected",
  "Every program that is accepted evaluates to an array whose rank and scalar kind are those its type says, with no implicit promotion between bool, int and float. Every program that applies an operator, index, size, fold, reduction, selection or concatenation to operands of the wrong type is rejected with a TypeError while it is being constructed, before anything is evaluated; a method that the operand does not have at all is Python's AttributeError. Comparing whole vectors with == is Python's identity and operators on host tuples and dictionaries are Python's own: these are outside of the property.",
  ["programs", "inputs"], "for all operators and constructs and all combinations of operand types",
  "There are hundreds of operator/type combinations, and the compiled program relies on buffers having exactly the declared kind; tests check a few rejections.",
  [TY, PH, ND, CG, NB],
  [("operator signatures", TY), ("typing rules of the constructs", PH)],
  ["exception at construction; dtype and rank of results"]),
P("C09", "Evaluation has no side effects and can be repeated",
  "Evaluating a program never changes its input arrays, the arrays wrapped in it, the environment passed to it, or any array returned earlier, and never changes what another evaluation returns. Evaluating the same expression again, on any backend, after any sequence of other evaluations, printing or failed evaluations, gives the same result.",
  ["histories", "programs"], "for all sequences of evaluations, prints and failures over shared expressions and buffers",
  "The NumPy backend writes into buffers it believes to be temporary; whether one aliases an input, a constant or an earlier result depends on the program and on the history of calls.",
  [CG, NB, AB, VA, ND],
  [("in-place reuse of temporaries", CG), ("copying of bound views", NB), ("scoped bindings in the environment", AB)],
  ["input, constant and result buffers before and after each step"]),
P("C10", "A decorated function's calls are independent of its call history",
  "Each call of an @function returns what evaluating the function body on those arguments alone would return, whatever types, shapes, backends, exceptions and other functions were used in earlier calls; the arguments are bound in the order they are given. A function with a declared signature raises TypeError on every call whose argument types differ from it.",
  ["histories", "inputs"], "for all sequences of calls with arguments of different types, shapes and backends",
  "Compiled programs are cached across calls; a key that is too coarse, or a size baked in at the first call, shows only for particular sequences.",
  [FU, JB, TB, NB, VA],
  [("cache of compiled programs", FU), ("argument binding", FU), ("argument binding under JAX", JB)],
  ["return value or exception of every call in the sequence"],
  [("cache", "compiled program per argument types and backend", FU)]),
P("C11", "Compiler options do not change results",
  "The result of a program is the same under every combination of the compiler's optimisation options: recognising slices, takes, reductions and contractions, eliding slices, and cancelling shape and tuple operations only affect speed.",
  ["configurations", "programs"], "for all combinations of the options and all programs",
  "Tests always run with the default options; the generic paths that optimised ones must agree with are reached only where no optimisation applies.",
  [CG, AI], [("optional rewriting passes", CG), ("optional indexing strategies", AI)],
  ["array computed by a program compiled under each option set"]),
P("C12", "Shared and loop-invariant work is evaluated once",
  "A subexpression that appears several times in a program is evaluated at most once per iteration of the loops it depends on, and one that does not depend on a loop is evaluated outside of it, so the cost of evaluating a program grows with the number of its distinct subexpressions rather than with the number of paths to them. A subexpression is never evaluated with a loop variable of another iteration. Compiling a program takes time polynomial in the number of its distinct subexpressions for a bounded nesting of folds.",
  ["programs"], "for all sharing structures and loop nests up to the bound",
  "Tests check results; duplicated work is invisible to them except as slowness.",
  [LI, TE, AB, CG],
  [("common subexpression binding", LI), ("loop-invariant code motion", LI)],
  ["number of times an external function is called during one evaluation"]),
P("C13", "Concurrent and re-entrant evaluations do not disturb each other",
  "Building, compiling and evaluating programs from several threads, sharing expressions and decorated functions, or from within an external function called during another evaluation, gives every caller the result it would get alone. An exception in one evaluation leaves the others, and later ones, unaffected.",
  ["schedules", "fault_sequences"], "for all interleavings of the threads' steps up to the preemption bound and all points at which an external call fails or re-enters",
  "Tests are single-threaded; caches and environments are mutable objects whose sharing shows only under particular interleavings.",
  [FU, AB, NV, AI, SY, NB],
  [("per-call environments", FU), ("scoped bindings in the environment", AB), ("process-wide caches", AI)],
  ["result or exception of every thread's call"]),
P("C14", "Scalar operators mean what they mean in Python",
  "Every arithmetic, comparison, logical, conversion and elementary-function operator on Ein scalars, in direct and reflected position and with Python literals on either side, gives the value Python gives for the same operator on the same values, up to floating-point rounding, including negative operands of remainder, zero and negative integer powers, and arguments of large magnitude. The accuracy of tanh is absolute, that of a rounding of 1.0. Operators and operand kinds that Ein does not support raise TypeError, or NotImplementedError, instead of returning a value.",
  ["inputs", "programs"], "for all operators and all operand values of the boundary grid, alone and composed",
  "Several operators are derived from others (division from reciprocal, powers by squaring, tanh from exponentials, reflected forms by swapping), and tests use a few generic values.",
  [ND, PH, TY, NB, TB, JB],
  [("operator overloads and derived operators", ND), ("operator tables", "ein/codegen/yarr.py")],
  ["value of the evaluated scalar and of the same operator inside a comprehension"]),
P("C15", "Distinct constants are never confused and equal ones never conflict",
  "A program that embeds several constant arrays or literals reads each of them at its own place, even when they have equal bytes but different shapes, kinds or widths, equal values of different sign or type, not-a-number entries, or are views of one buffer. Constants given as tensors of the backend in use behave as their NumPy counterparts.",
  ["inputs", "programs"], "for all pairs and triples of constants from the confusable set and all programs using them",
  "Constants are compared by content to share work; tests never put two nearly-equal constants in one program.",
  [VA, PH, TE, LI], [("content equality and hashing of constants", VA), ("structural equality of terms", TE)],
  ["array returned by .eval()"]),
P("C16", "Gradients through evaluated programs are the true derivatives",
  "Differentiating, with PyTorch or JAX, through the evaluation of a program at a point where every operation it evaluates is differentiable gives the derivative of the function the program denotes, with respect to every floating-point input. Compilation never detaches an input from the result, adds a dependency, or changes the gradient.",
  ["programs", "inputs"], "for all differentiable programs up to the bound and all inputs",
  "Tests differentiate a few programs and compare with hand-written code.",
  [TB, JB, FU, CG], [("differentiable lowering", TB), ("argument passing without conversion", FU)],
  ["gradients of the inputs after backward() / jax.grad"]),
P("C17", "Library combinators equal their definitions",
  "The selection, concatenation, minimum/maximum, or-empty, and sum/minimum/maximum/argmin folds and reductions of the standard library equal their textbook definitions on every input, including empty and singleton axes, ties, repeated values and infinities; argmin returns the first position of the minimum. The fold and reduce variants of each agree.",
  ["inputs", "programs"], "for all combinators, lengths and value patterns, over scalars, vectors and records",
  "Tests use them on random data, where ties, empty axes and infinities do not occur.",
  [ST, ND, CO, LA], [("monoids and combinators", ST)], ["array returned by .eval()"]),
P("C18", "External functions are applied pointwise with the right arguments",
  "An external function applied inside comprehensions receives its arguments in the order given, aligned so that the element of its result at each position is the function of the arguments' elements at that position; vector arguments keep their own axes last. (An external function is a function of whole arrays that broadcasts its arguments, and depends on each of them.) A declared signature is enforced with TypeError, and an exception raised by the function reaches the caller unchanged.",
  ["programs", "inputs"], "for all placements of an external call, argument ranks and index subsets",
  "Tests apply one binary function to u[i], v[j] and one unary reduction.",
  [CG, AX, ND, NV], [("alignment of operands without left padding", AX), ("external call lowering", CG)],
  ["array returned by .eval(); exception seen by the caller"]),
P("C19", "Rewriting a program by substitution of equals does not change it",
  "Naming a subexpression, duplicating it, moving it out of or into a loop, swapping the order of independent definitions, building it from freshly constructed but equal parts, or evaluating it first and wrapping the result all give the same value for the whole program. Indices and bound variables of different comprehensions never capture one another.",
  ["programs", "inputs"], "for all programs up to the bound and all single rewrites of them",
  "The compiler identifies equal subterms, binds and moves them; tests do not compare different writings of one program.",
  [LI, SU, SC, TE, SS], [("inlining and outlining", LI), ("capture-avoiding substitution", SU)],
  ["arrays returned for the two writings"]),
P("C20", "Results depend only on the logical contents of the inputs",
  "Two inputs with the same shape, scalar kind and elements give the same result however they are stored: C or Fortran order, strided, reversed, offset or broadcast views, read-only buffers, borrowed memory, or, as long as the values computed fit it and up to its rounding, a narrower integer or floating-point width that represents the same values. JAX may refuse loops that mix widths. Repeating a dimension's size in another dimension, or changing an unrelated dimension, never changes elements other than through the program itself.",
  ["inputs", "configurations"], "for all storage variants of the inputs and all programs",
  "Tests build inputs with numpy.random and arange, always contiguous and 64-bit.",
  [NB, AB, CG, FU, VA], [("copying of bound views", NB), ("in-place reuse of temporaries", CG)],
  ["array returned for each storage variant"]),
]

for p in props:
    assert len(p["title"]) <= 80, p["title"]
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
