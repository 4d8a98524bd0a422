#!/usr/bin/env python3
"""writes DESIGN.md from its parts, the tasks and the planted changes"""
import glob, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from sxlib import tasks
P=[json.loads(l) for l in open(V + '/properties.jsonl')]
N={
"C01":("AFloat operators and functions (afloat.rs), tape rules (operation.rs)","the calculus rule of the operation written in the harness (`tangent` in prog.rs), over the reals; abs: |x+dx|-|x|","one pass over all operations for any argument is exactly what examples cannot give: kinks, exponents, aliased operands"),
"C02":("Tape::first_order_forward / first_order_reverse","<ybar, F dx> = <F^T ybar, dx>; both sides from the code, plus the harness' own tangents","repeated dependents, aliased operands at any position; the defect 2b690eb was found here"),
"C03":("jacobian_forward, jacobian_reverse","tangents of the program by calculus, column by column","compares the drivers with a specification, not with each other"),
"C04":("Tape::zero_order and the derivative sweeps after it","direct evaluation of the same program, bit for bit","any bit pattern incl. NaN and signed zeros, state after several points"),
"C05":("AContext, record, OwnedTape accessors, ops_iter","a shadow list of what the history did","every history within bounds; each plain/recorded combination"),
"C06":("AContext maps and ids, tape(), from_cid, mixing","shadow model per context; mixing must panic","orders of drop and creation"),
"C07":("AFloat: operators, Float/FloatConst/NumCast/FromPrimitive/ToPrimitive/Num impls","the same operation on f64/f32, bit for bit","every bit pattern; tests sample a few values"),
"C08":("AFloat: derived functions; tape of them","the mathematical definition over the reals (sqrt by its axiom, powi as product, ...)","all arguments, both branches, through the tape"),
"C09":("AFloat tangents vs Tape::first_order_forward","bit equality of both","any program within bounds"),
"C10":("abs_normal, AbsNormalTape","the coefficients of the general piecewise-linear function; tangents by calculus for mixed programs","coefficients symbolic"),
"C11":("AbsNormalZ/L/J/Y: mul_left, mul_right, row, column","dense products of the coefficients","shapes incl. zero switches, narrow, wide"),
"C12":("generalized_jacobian, generalized_jacobian_tape","the linear piece of the signs at x+dx, evaluated at any v; ties from the bit string","ties and sign patterns are measure-zero events for tests"),
"C13":("generalized_jacobian_chain, `next`","composition of the functions; one link after the other; other checkpoint counts","all points of chains, nested chains"),
"C14":("reverse_sequence and its schedule (checkpointing.rs)","instrumented step closures: order, retained states, number of steps","all (n, c) up to the bounds; the step is uninterpreted, so one run per (n, c) covers every sequence. The schedule depends on (n, c) only, so here forks over sizes do the work and the solver decides little"),
"C15":("SimpleFunction, FunctionChain, macros adv_fn!, adv_fn_obj!, adv_dvec! ...","direct evaluation; declared dimensions; panics","values symbolic, sizes and groupings forked"),
"C16":("AContextInner's locks and atomics, CONTEXT_MAP, AContext::tape","tapes closed, own operations in order, no deadlock, no data race","every schedule within the preemption bound"),
"C17":("src/ffi.rs, include/adv/*.hpp, src/cxx/*.cpp","the Rust operation of the same name; same recorded operation","every function of the interface, bits of arguments symbolic, C++ executed from clang's IR"),
"C18":("ADouble.cpp, AContext.cpp, ffi.rs ownership","the engine's heap checks; a shadow of values","every sequence of actions within bounds; leaks measured by live objects and bytes"),
"C19":("rayon use in the drivers","the matrix with sequential splits; bit equality","split depth, stealing and order of both sides of each join forked; threads interleaved for small sizes"),
}
out = []
for p in P:
    i=p['id']; t=tasks.TASKS[i]; n=N[i]
    mode=sorted(set(x['mode'] for x in t['quick']))
    out.append("### %s %s\n"%(i,p['title']))
    out.append("* Code: %s. Entries: %s (%s)."%(n[0],", ".join("`%s`"%e for e in sorted(set(x['entry'] for x in t['quick']))),"/".join(mode)))
    out.append("* Oracle: %s."%n[1])
    out.append("* Bounds: %s."%t['bounds'])
    out.append("* Why beyond tests: %s.\n"%n[2])

rows = ["| change | property | needs | caught by |", "|---|---|---|---|"]
missed = json.load(open(V + "/tools/missed.json"))
for f in sorted(glob.glob(V + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    rows.append("| %s: %s | %s | %s | %s |" % (i, d["what_it_breaks"], d["property"], d["needs"], missed.get(i, d["property"] + " quick")))
ref = open(V + "/tools/refactorings.md").read().strip()
tail = open(V + "/tools/design_tail.md").read().replace("@TABLE@", "\n".join(rows)).replace("@REFACTOR@", ref)
head = open(V + "/tools/design_head.md").read()
open(V + "/DESIGN.md", "w").write(head + "\n".join(out) + "\n" + tail)
