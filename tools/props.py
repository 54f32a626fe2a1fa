"""Source of properties.jsonl and MANIFEST.json: run `python3 tools/props.py` after editing."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, qtext, why, files, mech, technique, note, level="exploration"):
    assert len(title) <= 80, (pid, len(title))
    P.append((dict(id=pid, title=title, statement=statement, quantifier=dict(over=over, text=qtext),
                   why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])),
              technique, level, note))


prop("C01", "Generated scalar C evaluates to the symbolic expressions it was generated from",
     "For every list of real symbolic expressions and every supported combination of code-generation options (common-subexpression elimination and its preprocessing, output naming, precision, post-processing substitutions), the generated C statements compile and each assigned variable equals the value of its expression to within the rounding error of the chosen precision. No option changes the value, drops an output or leaves a temporary undeclared.",
     ["inputs", "configurations"], "all expression lists over supported functions, all option combinations, all finite inputs where the expression is well conditioned",
     "Doctests compare the generated text of a handful of expressions with one option set; no generated statement is ever compiled and evaluated against the mathematics.",
     ["nrpy/c_codegen.py", "nrpy/helpers/cse_preprocess_postprocess.py", "nrpy/helpers/custom_c_codegen_functions.py"],
     [("C code generation", "nrpy/c_codegen.py"), ("CSE preprocessing / postprocessing", "nrpy/helpers/cse_preprocess_postprocess.py")],
     "differential runtime oracle: sanitizer-built generated C vs. interval-tracked mpmath evaluation",
     "random typed expression grammar x option space; every generated kernel is compiled with ASan+UBSan, executed and compared with a high-precision evaluation with propagated error bounds")
prop("C02", "Vectorised generated C equals the symbolic expressions in every SIMD lane",
     "For every expression list in the vectorisable subset, the generated SIMD statements compile and, in every lane and on every instruction-set back end shipped with the intrinsics header, give the value of the expression to within rounding error. Every rational or integer constant the statements use is declared, with the right value.",
     ["inputs", "configurations"], "all vectorisable expression lists and options, all lanes, scalar-emulation / SSE2 / AVX2+FMA / AVX512 back ends",
     "Tests only compare the text of a few SIMD kernels; lane results, constants and FMA rewriting are never executed.",
     ["nrpy/helpers/simd.py", "nrpy/helpers/simd_intrinsics.h", "nrpy/c_codegen.py", "nrpy/helpers/cse_preprocess_postprocess.py"],
     [("expression to SIMD translation", "nrpy/helpers/simd.py"), ("intrinsics header", "nrpy/helpers/simd_intrinsics.h")],
     "differential runtime oracle per lane over four instruction-set back ends, sanitizer builds",
     "random expressions from the SIMD grammar executed in all lanes with distinct inputs on the scalar-emulated, SSE2, AVX2 and AVX512 back ends and compared with mpmath")
prop("C03", "Finite-difference kernels compute the declared derivative to the declared order",
     "For every even accuracy order and every kind of derivative (first, second, mixed, upwinded, dissipation, fully one-sided shifts) of any set of grid functions in any infrastructure's memory layout, the generated kernel reads only points inside its stencil and is exact on all polynomials up to the declared order, at every grid point and with or without SIMD and separate finite-difference functions. Kernels combining many derivatives equal the symbolic expression with each derivative replaced by its stencil.",
     ["inputs", "configurations"], "orders 2..12, all derivative operators, random expressions over several grid functions, all kernel options, all interior points",
     "Tests compare kernel text for a few derivatives at one order; the values, the reads and the combination of options are never run.",
     ["nrpy/finite_difference.py", "nrpy/c_codegen.py", "nrpy/grid.py"],
     [("stencil coefficients", "nrpy/finite_difference.py"), ("kernel assembly", "nrpy/c_codegen.py"), ("memory access strings", "nrpy/grid.py")],
     "runtime oracle: sanitizer-built kernels on exactly sized arrays vs. independently derived stencils",
     "generated kernels run on exactly-sized heap arrays under ASan; results compared with Fornberg weights computed independently in exact rational arithmetic")
prop("C04", "Generated loop nests visit every requested grid point exactly once",
     "For every loop depth, bounds, strides, tile sizes, region choice and OpenMP option, the generated loop executes its body exactly once for each requested grid point, never outside the requested region, with coordinates that belong to that point, independently of thread count.",
     ["inputs", "configurations", "schedules"], "all loop parameters, grid sizes, thread counts",
     "Only the text of a few loops is compared; the set of visited points is never observed.",
     ["nrpy/helpers/loop.py", "nrpy/infrastructures/BHaH/simple_loop.py", "nrpy/infrastructures/ETLegacy/simple_loop.py", "nrpy/infrastructures/CarpetX/simple_loop.py"],
     [("generic loop generator", "nrpy/helpers/loop.py"), ("infrastructure loops", "nrpy/infrastructures/BHaH/simple_loop.py")],
     "visit-count monitor compiled into the generated loops (exactly-once trace checker), ASan, several thread counts",
     "loop bodies are replaced by atomic visit counters; the recorded visit set is compared with the requested index set")
prop("C05", "A generated time step is the Runge-Kutta step of its method and order",
     "For every offered time-integration method, number of grids, number of evolved and auxiliary fields and right-hand side, one generated step advances every grid by exactly the explicit Runge-Kutta step of that method: each stage is evaluated once per grid, at the method's stage time, on boundary-filled stage data, and time and iteration number advance consistently. The coefficients satisfy all order conditions of the method's order, and allocation, stepping and freeing are memory-clean.",
     ["inputs", "configurations", "histories"], "15 methods, any grids/fields/right-hand sides/start iteration, several consecutive steps",
     "Tests compare the text of RK4 only (other methods are hashed or never generated); no step is ever executed, and the convergence test covers one ODE.",
     ["nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py", "nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py"],
     [("step generation", "nrpy/infrastructures/BHaH/MoLtimestepping/MoL.py"), ("Butcher tables", "nrpy/infrastructures/BHaH/MoLtimestepping/RK_Butcher_Table_Dictionary.py")],
     "trace + state oracle: sanitizer-built time steppers vs. a textbook Runge-Kutta interpreter; rooted-tree order conditions",
     "each method is generated, built with ASan/UBSan/LSan and stepped on nonlinear time-dependent right-hand sides with ghost coupling; stage trace and every state value compared with a reference interpreter")

exec(open(os.path.join(ROOT, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(ROOT, "tools", "props_more.py")) else None

NA = []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p, *_ in P:
        f.write(json.dumps(p) + "\n")
json.dump(dict(
    version=1, setup_cmd="true",
    checks=[dict(property=p["id"], quick_cmd=f"./run.sh {p['id'].lower()}",
                 thorough_cmd=f"VERIF_TIER=thorough ./run.sh {p['id'].lower()}",
                 technique=t, level=l, level_note=n) for p, t, l, n in P if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py"))],
    not_applicable=NA), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
