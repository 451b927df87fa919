#!/usr/bin/env python3
"""Automatic mutation survey (development only; no check reads it): random single-token changes and deleted statements of the library's headers, each run against the
quick checks of the properties the file is behind, until one catches it.  automut.py COUNT SEED [file substring]"""
import sys, os, re, random, tempfile, shutil, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import plant
import concurrent.futures as cf
B = "include/ode_num_int/"
F = {
 "ode/OdeSolverExplicitEmbeddedRK.h": "C05 C02 C03 C06 C01 C04 C18", "ode/OdeSolverExplicitRK.h": "C05 C03 C06 C01 C18", "ode/OdeSolverExtrapolator.h": "C03 C02 C06 C01 C05 C04",
 "ode/OdeSolverGragg.h": "C03 C05 C06 C01 C18", "ode/OdeSolverImplicitEuler.h": "C05 C03 C06 C01 C14 C09", "ode/OdeSolverRosenbrock_W_base.h": "C03 C06 C02 C01 C05 C04",
 "ode/OdeSolverRosenbrock_W1.h": "C03 C02 C05 C06 C01 C04", "ode/OdeSolverRosenbrock_SW2_4.h": "C03 C02 C05 C06 C01 C04", "ode/LinearOdeEventController.h": "C05 C06 C01",
 "ode/OdeStepMappingEuler.h": "C03 C06", "ode/OdeStepSizeSimpleController.h": "C04 C11", "ode/ode_solver_output.h": "C12 C13 C15", "ode/OdeSolverConfiguration.h": "C15 C11 C12", "ode/ExplicitRKHelper.h": "C03 C05",
 "ode/SpecifiedOdeInitState.h": "C11 C15", "ode/test_models/BouncingBall.h": "C21 C11", "ode/test_models/SlidingPoint.h": "C21 C11", "ode/test_models/CoupledNonlinearOscillators.h": "C21 C11", "ode/test_models/StiffOde1D.h": "C21 C11",
 "ode/test_models/Oscillator.h": "C21 C11", "ode/util/RichardsonErrorCalculator.h": "C16", "util/ErrorStats.h": "C16", "ode/interfaces/OdeSolver.h": "C02 C14 C05 C11 C06", "ode/interfaces/OdeRhsVectorMapping.h": "C03 C19 C05",
 "ode/OdeVarNameGenerator.h": "C12", "ode/ErrorInfNormCalculator.h": "C04 C02", "ode/interfaces/OdeNewtonSolver.h": "C14 C05", "ode/interfaces/OdeEventController.h": "C05", "ode/interfaces/OdeSolverJacobianTrimmer.h": "C03 C14 C06",
 "alg/NewtonSolver.h": "C09 C14", "alg/NewtonIterationPerformerImpl.h": "C09 C19 C01", "alg/SimpleErrorEstimator.h": "C09 C11 C12", "alg/SimpleNewtonLinearSearch.h": "C09 C14", "alg/SparseJacobianCalculator.h": "C19",
 "alg/JacobianBroydenUpdateNewtonDescentDirection.h": "C19 C09", "alg/JacobianFakeBroydenUpdateNewtonDescentDirection.h": "C19 C09", "alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h": "C19 C09 C11",
 "alg/JacobianHartUpdateNewtonDescentDirection.h": "C19 C09", "alg/SimpleNewtonDescentDirection.h": "C19 C09", "alg/ConstJacobianNewtonDescentDirection.h": "C19 C09", "alg/SparseJacobianProvider.h": "C19 C09", "alg/DefaultJacobianProvider.h": "C19 C09",
 "alg/JacobianThresholdBasedTrimmer.h": "C19 C11", "alg/JacobianWidthBasedTrimmer.h": "C19 C11", "alg/computeJacobian.h": "C19 C20", "alg/VectorNarrowingMapping.h": "C20", "alg/VectorReorderingMapping.h": "C20 C05", "alg/MappingNormalizer.h": "C20",
 "alg/DiagonalMapping.h": "C20", "lu/LUFactorizer.h": "C10 C19", "lu/util.h": "C19", "infra/cxx_observers.h": "C14 C08", "infra/ComponentConfiguration.h": "C11", "infra/OptionalParameters.h": "C11", "infra/Factory.h": "C17 C11 C07", "infra/def_prop_class.h": "C14 C07",
 "infra/def_prop_vd_template_class.h": "C14", "infra/cxx_exception.h": "C18 C11", "infra/PerTypeStorage.h": "C17 C07 C11", "infra/cxx_zeroinit.h": "C17 C03 C06 C10", "infra/cxx_mock_ptr.h": "C22", "util/sys_time.h": "C08", "util/cxx_str_fmt_num.h": "C11 C15 C12", "util/m_inline.h": "C12 C22 C19", "timing/TimingStats.h": "C08", "timing/OpaqueTickCounter.h": "C08", "src/TimerCalibrator.cpp": "C08", "src/OpaqueTickCounter.cpp": "C08", "src/PerTypeStorage.cpp": "C17 C07 C11",
 "util/lex_idnum.h": "C11", "alg/interfaces/NewtonIterationPerformer.h": "C23 C14 C09", "alg/interfaces/NewtonSolverInterface.h": "C23 C14 C09", "la/SparseMatrixTemplate.h": "C22", "la/VectorTemplate.h": "C22",
}
OPS = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r"\+= ", "-= "), (r"-= ", "+= "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
       (r" && ", " || "), (r" \|\| ", " && "), (r"(?<=[( =])0(?=[ ,;)])", "1"), (r"(?<=[( =])1(?=[ ,;)])", "2"), (r"if\( !", "if( "), (r"if\( (?=[a-z_]+[ .(-])", "if( !"), (r"\+\+", "--"), (r" \* ", " / "), (r" / ", " * "), (r"std::max\(", "std::min("), (r"\.swap\(", ".operator=("), (r"continue;", "break;"), (r"break;", "")]
def path(f): return f if f.startswith("src/") else B + f
def mutants(f):
    s = open("/repo/" + path(f)).read().split("\n"); out = []
    for i, l in enumerate(s):
        t = l.strip()
        if not t or t.startswith(("//", "/*", "*", "#", "using", "template", "typedef", "namespace", "result[", "class", "ASSERT")) or "help" in l.lower() or 'return "' in l: continue
        code = l.split("//")[0]
        for a, b in OPS:
            for m in re.finditer(a, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                if a in (r" < ", r" > ") and "template" in code: continue
                out.append((f, i, code[:m.start()] + b + code[m.end():]))
        if code.rstrip().endswith(";") and not re.match(r"\s*(return|auto|const|bool|int|unsigned|real_type|V |typename|virtual|throw|break|continue|static|std::|public|explicit|friend|double|mutable|T |cxx)", code) and "=" not in code.split("(")[0].replace("==", "") + ("" if "(" in code else "=") or re.match(r"\s*(this->|m_|[a-z]\w*)(\.|->)?\w* [+*-]?= ", code):
            out.append((f, i, "/* deleted */" + (";" if True else "")))
    return s, out
def run(x):
    f, i, new = x; tmp = tempfile.mkdtemp(prefix="amut_"); r = os.path.join(tmp, "r")
    try:
        plant.copy(r); p = os.path.join(r, path(f)); s = open(p).read().split("\n"); old = s[i]; s[i] = new; open(p, "w").write("\n".join(s)); res = []; caught = False
        for c in F[f].split():
            t = time.time()
            rc, out = plant.sh("python3 check.py " + c, plant.HERE, {"VERIF_REPO": r, "VERIF_OUT": os.path.join(tmp, "out"), "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": os.path.join(tmp, "ev")})
            if rc not in (0, 1): return "INVALID %s:%d | %s -> %s" % (f, i+1, old.strip(), new.strip())
            k = [l.strip() for l in out.splitlines() if l.startswith("  ")]
            res.append("%s:%s(%ds)" % (c, "CAUGHT " + (k or [""])[0][:80] if rc == 1 else "missed", time.time() - t))
            if rc == 1: caught = True; break
        return "%s %s:%d | %s -> %s || %s" % ("CAUGHT" if caught else "MISSED", f, i+1, old.strip(), new.strip(), " ".join(res))
    finally:
        shutil.rmtree(tmp)
if __name__ == "__main__":
    n, seed = int(sys.argv[1]), int(sys.argv[2]); sub = sys.argv[3] if len(sys.argv) > 3 else ""
    rnd = random.Random(seed); files = [f for f in F if sub in f and os.path.exists("/repo/" + path(f))]
    for f in F:
        if not os.path.exists("/repo/" + path(f)): print("no file", f)
    ms = {f: mutants(f)[1] for f in files}; files = [f for f in files if ms[f]]
    if n == 0:
        for f in files: print(f, len(ms[f]))
        sys.exit()
    w = [len(ms[f]) ** 0.5 for f in files]; sel = []
    while len(sel) < n and any(ms.values()):
        f = rnd.choices(files, w)[0]
        if ms[f]: sel.append(ms[f].pop(rnd.randrange(len(ms[f]))))
    with cf.ThreadPoolExecutor(2) as ex:
        for l in ex.map(run, sel): print(l, flush=True)
