#!/usr/bin/env python3
"""Mutation survey (development only; no check reads it): each entry is (name, properties whose checks should notice, [(file, old, new)]).
mutants.py [names...]: runs the quick checks of the listed properties against a scratch copy with the change."""
import sys, os, tempfile, shutil, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import plant
import concurrent.futures as cf
O = "include/ode_num_int/"
M = []
def m(name, props, *edits): M.append((name, props.split(), [(O + f if not f.startswith("src/") else f, a, b) for f, a, b in edits]))

ERK, EX, GR, IE, RW, SW, EC = "ode/OdeSolverExplicitEmbeddedRK.h", "ode/OdeSolverExtrapolator.h", "ode/OdeSolverGragg.h", "ode/OdeSolverImplicitEuler.h", "ode/OdeSolverRosenbrock_W_base.h", "ode/OdeSolverRosenbrock_SW2_4.h", "ode/LinearOdeEventController.h"
OUT, CFG, NIP, EE, LS, NS, LU = "ode/ode_solver_output.h", "ode/OdeSolverConfiguration.h", "alg/NewtonIterationPerformerImpl.h", "alg/SimpleErrorEstimator.h", "alg/SimpleNewtonLinearSearch.h", "alg/NewtonSolver.h", "lu/LUFactorizer.h"
LAZY, HART, SJC = "alg/JacobianLazyFakeBroydenUpdateNewtonDescentDirection.h", "alg/JacobianHartUpdateNewtonDescentDirection.h", "alg/SparseJacobianCalculator.h"
OBS, CC, OP = "infra/cxx_observers.h", "infra/ComponentConfiguration.h", "infra/OptionalParameters.h"

m("erk-swap-before-atend", "C01 C05", (ERK, "                if( scResult.acceptStep ) {\n                    if( ec ) {", "                if( scResult.acceptStep ) {\n                    m_initialTime = nextTime;\n                    if( ec ) {"))
m("erk-hafter-ignored-when-changed", "C02 C06", (ERK, "if( stepTruncated   &&   m_h_after_switch > 0", "if( stepTruncated   &&   !scResult.changeStepSize   &&   m_h_after_switch > 0"))
m("erk-cleanup-keeps-output", "C06", (ERK, "            m_output = Output();\n", "            if( m_output.empty() || m_initialState.size() != m_output.buf.size() )\n                m_output = Output();\n"))
m("erk-reset-only-hard", "C06", (ERK, "bool /*soft*/ = false )\n            {\n            m_initialTime = initialTime;", "bool soft = false )\n            {\n            if( !soft && m_initialTime == initialTime && m_initialState.size() == initialState.size() ) {\n                m_initialState = initialState;\n                return;\n                }\n            m_initialTime = initialTime;"))
m("ex-order-low", "C02 C04", (EX, "controlStepSize( m_h, errorNorm, lowOrder() )", "controlStepSize( m_h, errorNorm, order() )"))
m("ex-soft-hard", "C01 C06", (EX, "if( !soft   &&   m_referenceSolver )", "if( !soft   &&   m_referenceSolver   &&   m_T.empty() )"))
m("gr-running-after-trunc", "C05 C03", (GR, "m_stepsRunning = !stepTruncated;", "m_stepsRunning = true;"))
m("gr-fbuf-direct", "C01", (GR, "rhs->rhs( m_nextFbuf, m_initialTime + h2, m_nextV );", "rhs->rhs( m_fbuf, m_initialTime + h2, m_nextV );\n            m_nextFbuf = m_fbuf;"))
m("gr-stepsize-keeps-running", "C03 C06", (GR, "OdeSolver<VD>::setInitialStepSize( initialStepSize );\n            m_stepsRunning = false;", "OdeSolver<VD>::setInitialStepSize( initialStepSize );"))
m("ie-hardreset-cleared-early", "C01 C06", (IE, "            auto status = newton->run();", "            m_hardResetRequested = false;\n            auto status = newton->run();"))
m("ie-ddir-reset-soft", "C05 C19 C03", (IE, "newtonDescentDirection()->reset( true );", "newtonDescentDirection()->reset( false );"))
m("ie-h-late", "C03", (IE, "            m_mapping4Newton->setTimeStep( h );\n", "            if( m_mapping4Newton->timeStep() < h )\n                m_mapping4Newton->setTimeStep( h );\n"))
m("ie-predictor-steps", "C03 C01", (IE, "setInitialStepSize( h/m_predictorSteps )", "setInitialStepSize( h )"))
m("sm-alpha-f0valid", "C03", ("ode/OdeStepMappingEuler.h", "            m_x0 = initialState;\n            m_t0 = initialTime;\n            m_f0scaledValid = false;", "            if( m_t0 != initialTime   ||   m_x0.size() != initialState.size() )\n                m_f0scaledValid = false;\n            m_x0 = initialState;\n            m_t0 = initialTime;"))
m("sm-timestep-valid", "C03", ("ode/OdeStepMappingEuler.h", "            m_h = timeStep;\n            m_f0scaledValid = false;", "            if( m_h != timeStep ) {\n                m_h = timeStep;\n                m_f0scaledValid = m_f0scaledValid && m_alpha == 1;\n                }"))
m("rw-cache-not-cleared", "C06 C03", (RW, "            m_W_LU_cache.clear();\n            m_W_LU = nullptr;\n            m_hd4W = 0;", "            m_W_LU = nullptr;\n            m_hd4W = 0;"))
m("rw-hd-not-reset", "C06 C03", (RW, "            m_W_LU = nullptr;\n            m_hd4W = 0;", "            m_W_LU = nullptr;"))
m("rw-cache-float-key", "C03 C02", (RW, "typedef std::map< double, LUFactorizer<real_type> > W_LU_map;", "typedef std::map< float, LUFactorizer<real_type> > W_LU_map;"))
m("rw-J-dx-restore", "C03 C19", (RW, "x[i] = initialState[i];", "x[i] -= dx;"))
m("sw-rhs-valid-after-trunc", "C05 C03", (SW, "m_initialOdeRhsValid = false;   // Compute ODE RHS", "m_initialOdeRhsValid = m_initialOdeRhsValid && izfTrunc == ~0u;   // Compute ODE RHS"))
m("sw-truncatestep-only", "C05 C03", (SW, "                    if( stepTruncated ) {\n                        m_initialOdeRhsValid", "                    if( stepTruncated   &&   izfTrunc != ~0u ) {\n                        m_initialOdeRhsValid"))
m("sw-mintoo-late", "C04 C02", (SW, "if( m_h <= this->stepSizeMinThreshold() )", "if( m_h < this->stepSizeMinThreshold() )"))
m("ec-no-clear-transitions", "C05", (EC, "            std::fill( m_transitions.begin(), m_transitions.end(), 0 );\n", ""))
m("ec-recompute-only-itmin", "C05", (EC, "bool recompute = (zff & OdeRhs<VD>::RecomputeAfterSwitch) != 0;", "bool recompute = (zff & OdeRhs<VD>::RecomputeAfterSwitch) != 0   &&   (i == itmin || nx > 1);"))
m("ec-tmin-ge", "C05", (EC, "itmin == ~0u   ||   tmin > t )", "itmin == ~0u   ||   tmin >= t )"))
m("ec-zf1-not-swapped-state", "C05", (EC, "                m_zf1.swap( m_zf2 );\n                return false;", "                m_zf1.swap( m_zf2 );\n                m_t1 = t2;\n                return false;"))
m("ec-clean-early", "C01 C05", (EC, "            auto rhs = this->odeRhs();\n            auto nz = rhs->zeroFuncCount();", "            auto rhs = this->odeRhs();\n            m_clean = false;\n            auto nz = rhs->zeroFuncCount();"))
m("ec-interp-other", "C05", (EC, "zf = zf*( 1. - tmin ) + m_zf2[i]*tmin;", "zf = m_zf2[i];"))
m("ns-terminated-late", "C09", (NS, "                    if( this->iterationObservers( iterationNumber + iterationNumberBias, this ) )\n                        return BaseClass::Terminated;\n                    switch", "                    bool stop = this->iterationObservers( iterationNumber + iterationNumberBias, this );\n                    if( stop   &&   status != ErrorEstimator<VD>::Converged )\n                        return BaseClass::Terminated;\n                    switch"))
m("ns-second-guess", "C09", (NS, "                    setInitialGuess( x0, true );", "                    setInitialGuess( currentSolution(), true );"))
m("ns-report-success", "C09 C19", (NS, "                            ddir->reportSuccess( false );\n                            if( !hardResetTried", "                            if( !hardResetTried"))
m("ee-relerr-first", "C09", (EE, "            m_currentSolution = solution;\n            m_absError = residual.infNorm();", "            if( residual.infNorm() > m_absError )\n                m_currentSolution = solution;\n            m_absError = residual.infNorm();"))
m("ls-residual-not-best", "C09", (LS, "                alpha = alphaBest = -1;\n                for( itrunc=0; itrunc < m_maxStepTruncations; ++itrunc, alpha*=0.5 ) {\n                    real_type fNorm2 = rhsNormSquare( alpha );\n                    real_type f_f0 = fNorm2 / f0Norm2;\n                    if( f_f0Best > f_f0 ) {\n                        f_f0Best = f_f0;\n                        alphaBest = alpha;\n                        if( residual )\n                            *residual = f;", "                alpha = alphaBest = -1;\n                for( itrunc=0; itrunc < m_maxStepTruncations; ++itrunc, alpha*=0.5 ) {\n                    real_type fNorm2 = rhsNormSquare( alpha );\n                    real_type f_f0 = fNorm2 / f0Norm2;\n                    if( residual )\n                        *residual = f;\n                    if( f_f0Best > f_f0 ) {\n                        f_f0Best = f_f0;\n                        alphaBest = alpha;"))
m("lazy-dj-kept", "C19", (LAZY, "                J += m_dJ;\n                m_dJ.makeZero();", "                J += m_dJ;"))
m("lazy-leave", "C19", (LAZY, "m_lastIterationNumber+1 <= m_lazyIterations", "m_lastIterationNumber <= m_lazyIterations"))
m("lazy-haveprev", "C19", (LAZY, "                m_jacobianAction = RecomputeJacobian;\n                }\n            m_havePrev = false;", "                m_jacobianAction = RecomputeJacobian;\n                m_havePrev = false;\n                }"))
m("hart-haveprev", "C19", (HART, "                m_lu = decltype(m_lu)();\n                }\n            m_havePrev = false;", "                m_lu = decltype(m_lu)();\n                m_havePrev = false;\n                }"))
m("sjc-no-addrows", "C19", (SJC, "                        multicolData.push_back( C2R( col2, colRows[col2] ) );\n                        addRows( affectedRows, col2 );", "                        multicolData.push_back( C2R( col2, colRows[col2] ) );\n                        if( multicolData.size() < 3 )\n                            addRows( affectedRows, col2 );"))
m("lu-fast-n", "C10", (LU, "            if( n != size() )\n                // Fall", "            if( n > size() )\n                // Fall"))
m("lu-fast-fill", "C10", (LU, "            std::fill( m_u.begin(), m_u.end(), 0 );\n#ifdef", "            if( m_factorized )\n                std::fill( m_u.begin(), m_u.end(), 0 );\n#ifdef"))
m("lu-s", "C10", (LU, "                for( unsigned int r=q[c]; r<=c; ++r )\n                    setMax( s[r], c );", "                for( unsigned int r=q[c]; r<=c; r+=std::max(1u, c-q[c]) )\n                    setMax( s[r], c );"))
m("obs-upper", "C14", (OBS, "it = m_elements.upper_bound( id );", "it = m_elements.find( id );\n                if( it == m_elements.end() )\n                    break;\n                ++it;"))
m("obs-term-short", "C14", (OBS, "result = cb( a... ) || result;", "result = result || cb( a... );"))
m("obs-newid", "C14", (OBS, "int result = m_elements.rbegin()->first + 1;", "int result = static_cast<int>( m_elements.size() ) + 1;\n                while( m_elements.count( result ) )\n                    ++result;"))
m("op-nested-order", "C11", (OP, "            m_nestedParameters = std::make_shared<Parameters>( op->parameters() );", "            { auto p = op->parameters(); if( !p.empty() ) m_nestedParameters = std::make_shared<Parameters>( p ); }"))
m("op-bool", "C11", (OP, 'm_value == "1" || m_value == "true" )', 'm_value == "1" || m_value == "true" || m_value == "yes" )'))
m("cc-known", "C11", (CC, "            m_parameterProvider = parameterProvider;\n            m_parametersKnown = false;", "            m_parameterProvider = parameterProvider;"))
m("out-rejected-stat", "C13", (OUT, "                if( arg.stepAccepted() )\n                    stepSizeSum += arg.stepSize();", "                stepSizeSum += arg.stepSize();"))
m("out-trunc-stat", "C13", (OUT, "                if( arg.stepTruncated() )\n                    ++nTruncatedSteps;", "                if( arg.izfTrunc() != ~0u )\n                    ++nTruncatedSteps;"))
m("out-j-count", "C13", (OUT, "            cxx::ScopedIdentifiedElement< typename math::JacobianRefreshObservers::cb_type > m_cbJRefresh;\n\n            sys::TimingStats odeRhsTimingStats;\n            OpaqueTickCounter odeRhsTimer;\n            unsigned int odeRhsInvocationCount4J = 0;", "            cxx::ScopedIdentifiedElement< typename math::JacobianRefreshObservers::cb_type > m_cbJRefresh;\n\n            sys::TimingStats odeRhsTimingStats;\n            OpaqueTickCounter odeRhsTimer;\n            unsigned char odeRhsInvocationCount4J = 0;"))
m("out-general-accepted", "C12", (OUT, "if( !this->outputNow( currentTime, arg.stepTruncated() ) )", "if( !this->outputNow( currentTime, arg.izfTrunc() != ~0u ) )"))
m("out-sol-rejected", "C12", (OUT, "if( arg.stepAccepted()   &&   this->outputNow( currentTime ) )", "if( this->outputNow( currentTime )   &&   arg.stepAccepted() )"))
m("out-col-limit", "C12", (OUT, "                if( m_columns.size() >= m_maxSteps )\n                    return;\n                auto currentTime = m_solver->initialTime();\n                if( !this->outputNow( currentTime ) )\n                    return;", "                auto currentTime = m_solver->initialTime();\n                if( !this->outputNow( currentTime ) )\n                    return;\n                if( m_columns.size() > m_maxSteps )\n                    return;"))
m("out-half-lim", "C12", (OUT, "if( i == sizeHalfLimit && n > 2*sizeHalfLimit ) {", "if( i == sizeHalfLimit && n >= 2*sizeHalfLimit ) {"))
m("out-col-accepted", "C12", (OUT, "                if( arg.stepAccepted() )\n                    accum();", "                if( arg.stepAccepted()   &&   !arg.stepTruncated() )\n                    accum();"))
m("cfg-order", "C15", (CFG, "        collectOutputOption( paramProvider->stepConsoleOutput() );\n        collectOutputOption( paramProvider->stepFileOutput() );", "        collectOutputOption( paramProvider->stepFileOutput() );\n        collectOutputOption( paramProvider->stepConsoleOutput() );"))
m("cfg-endtime", "C15", (CFG, "        while( currentTime < endTime );", "        while( currentTime + solver->initialStepSize()/2 < endTime );"))
m("cfg-refstate", "C15", (CFG, "            configureSolver( rs );", "            if( rs   &&   rs->odeRhs() != odeRhs )\n                configureSolver( rs );"))
m("rich-x", "C16", ("ode/util/RichardsonErrorCalculator.h", "                x = x1;", "                x = skipStep ? x2 : x1;"))
m("rich-skip", "C16", ("ode/util/RichardsonErrorCalculator.h", "                auto x1 = solver->initialState();\n", "                auto x1 = solver->initialState();\n                skipStep = false;\n"))
m("stats-max", "C16", ("util/ErrorStats.h", "            m_errorMax = std::max( m_errorMax, that.m_errorMax );", "            if( that.m_sampleCount > m_sampleCount )\n                m_errorMax = std::max( m_errorMax, that.m_errorMax );"))
m("timing-max", "C08", ("timing/TimingStats.h", "", ""))
exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutants2.py")).read()) if os.path.exists(os.path.join(os.path.dirname(os.path.abspath(__file__)), "mutants2.py")) else None


def run(x):
    name, props, edits = x
    tmp = tempfile.mkdtemp(prefix="mut_"); r = os.path.join(tmp, "r")
    try:
        plant.copy(r)
        for f, a, b in edits:
            if not a: return "%s: skipped" % name
            s = open(os.path.join(r, f)).read()
            if s.count(a) != 1: return "%s: PATTERN %d times" % (name, s.count(a))
            open(os.path.join(r, f), "w").write(s.replace(a, b))
        res = []
        for p in props:
            t = time.time()
            rc, out = plant.sh("python3 check.py " + p, plant.HERE, {"VERIF_REPO": r, "VERIF_OUT": os.path.join(tmp, "out"), "VERIF_SEED": "1", "VERIF_TIER": "quick", "VERIF_EVIDENCE": os.path.join(tmp, "ev")})
            k = [l.strip() for l in out.splitlines() if l.startswith("  ")]
            res.append("%s:%s(%ds) %s" % (p, "CAUGHT" if rc == 1 and "VIOLATION property=" + p in out else "missed" if rc == 0 else "rc=%d %s" % (rc, out[-300:]), time.time() - t, (k or [""])[0][:110]))
        return "%s: %s" % (name, " | ".join(res))
    finally:
        shutil.rmtree(tmp)

if __name__ == "__main__":
    sel = [x for x in M if not sys.argv[1:] or x[0] in sys.argv[1:]]
    with cf.ThreadPoolExecutor(2) as ex:
        for l in ex.map(run, sel): print(l, flush=True)
