From da082114216c00a0c1156b25697f6624d995cd77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:24 +0000
Subject: [PATCH 01/60] fix: LUFactorizer: account for fill-in beyond the last
 original nonzero of a row

---
 include/ode_num_int/lu/LUFactorizer.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index afd1744..0d06045 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -73,7 +73,6 @@ class LUFactorizer
                 auto c = it->first.second;
                 setMin( m_p[r], c );
                 setMin( m_q[c], r );
-                setMax( m_s[r], c );
                 }
 
             // Verify m_p and m_q
@@ -84,6 +83,11 @@ class LUFactorizer
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
 
+            // Compute m_s; take into account the fill-in inside the envelope (rows m_q[c]..c of each column c of U)
+            for( unsigned int c=0; c<n; ++c )
+                for( unsigned int r=m_q[c]; r<=c; ++r )
+                    setMax( m_s[r], c );
+
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
                     std::vector<real_type>& m,
-- 
2.43.0


From 111aed729015f0bdf77f177d9621878a0bde2cae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:03 +0000
Subject: [PATCH 02/60] fix: LUFactorizer: an invalid stencil leaves the
 factorizer unchanged

---
 include/ode_num_int/lu/LUFactorizer.h | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 0d06045..7561849 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -52,7 +52,7 @@ class LUFactorizer
                 return nr;
                 }();
 
-            // Allocate and initialize storage for m_p, m_q, m_s
+            // Compute m_p, m_q
             auto fill = []( std::vector<unsigned int>& v, unsigned int size, unsigned int value ) {
                 v.resize( size );
                 std::fill( v.begin(), v.end(), value );
@@ -65,23 +65,26 @@ class LUFactorizer
                 if( acc < value )
                     acc = value;
                 };
-            fill( m_p, n, n );
-            fill( m_q, n, n );
-            fill( m_s, n, 0 );
+            std::vector<unsigned int> p, q;
+            fill( p, n, n );
+            fill( q, n, n );
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
                 auto r = it->first.first;
                 auto c = it->first.second;
-                setMin( m_p[r], c );
-                setMin( m_q[c], r );
+                setMin( p[r], c );
+                setMin( q[c], r );
                 }
 
-            // Verify m_p and m_q
+            // Verify p and q; up to this point, the factorizer is not changed
             for( unsigned int i=0; i<n; ++i ) {
-                if( m_p[i] >= n   ||   m_q[i] >= n )
+                if( p[i] >= n   ||   q[i] >= n )
                     throw cxx::exception("Invalid matrix stencil: the stencil is incomplete");
-                if( m_p[i] > i   ||   m_q[i] > i )
+                if( p[i] > i   ||   q[i] > i )
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
+            m_p.swap( p );
+            m_q.swap( q );
+            fill( m_s, n, 0 );
 
             // Compute m_s; take into account the fill-in inside the envelope (rows m_q[c]..c of each column c of U)
             for( unsigned int c=0; c<n; ++c )
-- 
2.43.0


From 370f28af6d93bbf18fdfbbef5a8b7e89669d8384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:43:55 +0000
Subject: [PATCH 03/60] fix: LUFactorizer::setMatrixFast: follow a change of
 the matrix size

---
 include/ode_num_int/lu/LUFactorizer.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 7561849..94fae13 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -141,17 +141,21 @@ class LUFactorizer
             for( auto it=matrixBegin; it!=matrixEnd; ++it, ++fc )
                 **fc = it->second;
 #else // CTM_MATH_LU_USE_MX_FAST_CACHE
-            auto elementsSet = 0;
+            m_factorized = false;
+            unsigned int n = 0;
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
-                ++elementsSet;
                 auto r = it->first.first;
                 auto c = it->first.second;
-                if (!setLU(r, c, it->second)) {
+                n = std::max( n, std::max( r, c ) + 1 );
+                if( n > size()   ||   !setLU(r, c, it->second) ) {
                     // Fall back to setMatrix because the sparsity layout has changed
                     setMatrix(matrixBegin, matrixEnd);
                     return;
                     }
                 }
+            if( n != size() )
+                // Fall back to setMatrix because the matrix size has changed
+                setMatrix(matrixBegin, matrixEnd);
 #endif // CTM_MATH_LU_USE_MX_FAST_CACHE
             m_factorized = false;
             }
-- 
2.43.0


From 3e2454d23435932e05b3522250b192aaa2d61cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:28 +0000
Subject: [PATCH 04/60] fix: LinearOdeEventController: handle a step that ends
 exactly at, or starts beyond, a zero

---
 include/ode_num_int/ode/LinearOdeEventController.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 9405d31..29f3f68 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -76,8 +76,13 @@ class LinearOdeEventController :
                 auto zf1 = m_zf1[i];
                 auto zf2 = m_zf2[i];
                 real_type t = zf1 / ( zf1 - zf2 );
-                ASSERT (t >= 0);
-                if( tmin > t ) {
+                // Keep t in the range [0, 1]: zf1 may have a wrong sign after a switch due to a round-off error,
+                // and zf1 - zf2 may be zero
+                if( !( t >= 0 ) )
+                    t = 0;
+                else if( t > 1 )
+                    t = 1;
+                if( itmin == ~0u   ||   tmin > t ) {
                     tmin = t;
                     itmin = i;
                     }
@@ -93,6 +98,9 @@ class LinearOdeEventController :
             // Switch state
             std::fill( m_transitions.begin(), m_transitions.end(), 0 );
             auto currentTransitionType = s( m_zf2[itmin] );
+            if( currentTransitionType == 0 )
+                // The step has ended exactly at the zero of the function
+                currentTransitionType = -m_state[itmin];
             m_transitions[itmin] = currentTransitionType;
             // m_state[itmin] = ( m_zfflags[itmin] & OdeRhs<VD>::BothDirections ) == OdeRhs<VD>::BothDirections ?   m_transitions[itmin] :   0;
             rhs->switchPhaseState( m_transitions.data(), t2, x2 );
-- 
2.43.0


From d9697942385c75871041d03a66925544498821c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:45 +0000
Subject: [PATCH 05/60] fix: LinearOdeEventController: initialize again if
 event functions have thrown at the first step start

---
 include/ode_num_int/ode/LinearOdeEventController.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/LinearOdeEventController.h b/include/ode_num_int/ode/LinearOdeEventController.h
index 29f3f68..f72aa4d 100644
--- a/include/ode_num_int/ode/LinearOdeEventController.h
+++ b/include/ode_num_int/ode/LinearOdeEventController.h
@@ -39,6 +39,8 @@ class LinearOdeEventController :
                     for (typename V::size_type i=0; i<m_zf1.size(); ++i)
                         m_state[i] = s(m_zf1[i], m_zfflags[i]);
                     }
+                // Initialization is complete only if the above code has not thrown
+                m_clean = false;
                 }
             }
 
@@ -151,7 +153,6 @@ class LinearOdeEventController :
             {
             if( !m_clean )
                 return false;
-            m_clean = false;
             auto rhs = this->odeRhs();
             auto nz = rhs->zeroFuncCount();
             m_haveZf = nz > 0;
-- 
2.43.0


From f62a62be0a7996b674d8f85a5eaa92a933e786e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:06 +0000
Subject: [PATCH 06/60] fix: NaN error must not be taken for a zero error;
 reject a step with NaN error

---
 include/ode_num_int/la/VectorTemplate.h               | 8 ++++++--
 include/ode_num_int/ode/OdeStepSizeSimpleController.h | 3 ++-
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/la/VectorTemplate.h b/include/ode_num_int/la/VectorTemplate.h
index 3d39666..994a05f 100644
--- a/include/ode_num_int/la/VectorTemplate.h
+++ b/include/ode_num_int/la/VectorTemplate.h
@@ -399,8 +399,12 @@ class VectorTemplate : public D
         value_type infNorm() const
             {
             value_type result = value_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v ) );
+            for( const auto& v : *this ) {
+                value_type a = std::fabs( v );
+                if( a != a )
+                    return a;   // A vector containing NaN has the NaN norm
+                result = std::max( result, a );
+                }
             return result;
             }
 
diff --git a/include/ode_num_int/ode/OdeStepSizeSimpleController.h b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
index bf30ee9..9395b74 100644
--- a/include/ode_num_int/ode/OdeStepSizeSimpleController.h
+++ b/include/ode_num_int/ode/OdeStepSizeSimpleController.h
@@ -36,7 +36,8 @@ class OdeStepSizeSimpleController :
             {
             if( errorNorm == 0 )
                 return Result( currentStepSize, true, false );
-            real_type p = std::pow( m_tolerance/errorNorm, 1./(methodOrder+1) );
+            // If the error norm is NaN, reject the step and decrease the step size as much as possible
+            real_type p = errorNorm == errorNorm ?   std::pow( m_tolerance/errorNorm, 1./(methodOrder+1) ) :   0;
             real_type pd = p * m_insuranceCoefficient;
             if( p >= 1 ) {
                 if( m_maxThreshold > 0   &&   pd*currentStepSize > m_maxThreshold ) {
-- 
2.43.0


From 9940acd58c537876a618eff4c4d7e81025d6ba69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:53 +0000
Subject: [PATCH 07/60] fix: report the actual step size to pre-step observers
 at the first step after (re)initialization

---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 2 +-
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 2 +-
 include/ode_num_int/ode/OdeSolverExtrapolator.h       | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 6c71ee0..1ac787a 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -74,12 +74,12 @@ class OdeSolverExplicitEmbeddedRK :
         void doStep()
             {
             while( true ) {
+                initStep();
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index c98e824..fd759bc 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -49,12 +49,12 @@ class OdeSolverExplicitRK :
 
         void doStep()
             {
+            initStep();
             this->odeSolverPreObservers( m_h, this );
 
             OpaqueTickCounter timer;    // deBUG
 
             timer.Start();
-            initStep();
 
             auto rhs = this->odeRhs();
 
diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index ef3c540..dce62bd 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -89,12 +89,12 @@ class OdeSolverExtrapolator :
         void doStep()
             {
             while( true ) {
+                initStep();
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();
 
                 auto rhs = this->odeRhs().get();
 
-- 
2.43.0


From 89a8efff6069b1b86a30249a21e8b17a237fd350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:53 +0000
Subject: [PATCH 08/60] fix: OdeSolverExtrapolator: report the size of the step
 made, not of the next one, to post-step observers

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index dce62bd..d898f76 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -194,7 +194,7 @@ class OdeSolverExtrapolator :
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
-                    m_h, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
+                    hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
                 this->tstat4.add( timer.Lap() );
 
-- 
2.43.0


From 006c852c97616a605190c3efcb243f1ed4a98b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:21 +0000
Subject: [PATCH 09/60] fix: OdeSolverExtrapolator: check the number of stages
 and follow its change; allow initial state before reference solver

---
 .../ode_num_int/ode/OdeSolverExtrapolator.h   | 32 +++++++++----------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index d898f76..9dfdfe4 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -32,7 +32,8 @@ class OdeSolverExtrapolator :
             OdeSolverErrorNormCalculator<VD>( *this, "inf" ),
             m_symmetric( false ),
             m_disable_error_check( false ),
-            m_max_stages( 4 )
+            m_max_stages( 4 ),
+            m_initialTime( 0 )
             {
             this->onOdeRhsChanged( getSyncOdeRhs() );
             }
@@ -81,7 +82,7 @@ class OdeSolverExtrapolator :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
-            if( !soft )
+            if( !soft   &&   m_referenceSolver )
                 m_referenceSolver->setInitialState( initialTime, initialState, false );
             cleanupStep();
             }
@@ -256,13 +257,21 @@ class OdeSolverExtrapolator :
 
         void initStep()
             {
-            if( !m_T.empty() )
-                return;
-
             if( !m_referenceSolver )
                 throw cxx::exception( "Reference solver is not set" );
             if( !stepSequence() )
                 throw cxx::exception( "Step sequence is not set" );
+            if( m_max_stages < ( m_disable_error_check? 1u: 2u ) )
+                throw cxx::exception( "Too few extrapolation stages" );
+
+            // Note: the number of stages could have changed since previous step
+            if( m_n.size() < m_max_stages )
+                m_n.resize( m_max_stages );
+            if( !m_T.empty() ) {
+                if( m_T.size() < m_max_stages )
+                    m_T.resize( m_max_stages );
+                return;
+                }
 
             auto rhs = this->odeRhs();
             auto n = rhs->varCount();
@@ -272,8 +281,7 @@ class OdeSolverExtrapolator :
 
             // Allocate memory
             m_h = this->initialStepSize();
-            m_T = VV( computeTsize(), V(n) );
-            m_n.resize( m_T.size() );
+            m_T = VV( m_max_stages, V(n) );
             }
 
         void cleanupStep()
@@ -283,16 +291,6 @@ class OdeSolverExtrapolator :
             m_T.clear();
             }
 
-        unsigned int computeTsize() const
-            {
-            auto ss = stepSequence();
-            ASSERT( ss );
-            ss->reset();
-            for( unsigned int i=0; i+1<m_max_stages; ++i )
-                ss->next();
-            return ss->next();
-            }
-
         void syncOdeRhs()
             {
             if( m_referenceSolver )
-- 
2.43.0


From 50373b563fd895170c56338fa7b6f3a0898faf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 10/60] fix: do not let reference and predictor solvers process
 events: this is up to the outer solver

---
 include/ode_num_int/ode/OdeSolverExtrapolator.h          | 8 +++++---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h         | 2 ++
 .../ode/interfaces/OdeSolverEventController.h            | 9 +++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExtrapolator.h b/include/ode_num_int/ode/OdeSolverExtrapolator.h
index 9dfdfe4..ca378d8 100644
--- a/include/ode_num_int/ode/OdeSolverExtrapolator.h
+++ b/include/ode_num_int/ode/OdeSolverExtrapolator.h
@@ -67,6 +67,8 @@ class OdeSolverExtrapolator :
         void setReferenceSolver( const std::shared_ptr< OdeSolver<VD> >& referenceSolver )
             {
             m_referenceSolver = referenceSolver;
+            if( m_referenceSolver )
+                disableEventControl( *m_referenceSolver );
             syncOdeRhs();
             }
 
@@ -225,9 +227,9 @@ class OdeSolverExtrapolator :
             this->maybeSetParameter(
                         parameters, "step_sequence",
                         std::bind( &OdeSolverExtrapolator<VD>::setStepSequence, this, std::placeholders::_1 ) );
-            this->maybeLoadParameter( parameters, "reference_solver", m_referenceSolver );
-
-            syncOdeRhs();
+            this->maybeSetParameter(
+                        parameters, "reference_solver",
+                        std::bind( &OdeSolverExtrapolator<VD>::setReferenceSolver, this, std::placeholders::_1 ) );
             }
 
         Parameters helpOnParameters() const
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bfb01c5..d19bad1 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -189,6 +189,8 @@ class OdeSolverImplicitEuler :
                         parameters, "alpha",
                         std::bind( &OdeStepMappingEuler<VD>::setImplicitnessParameter, m_mapping4Newton.get(), std::placeholders::_1 ) );
             OptionalParameters::maybeLoadParameter( parameters, "predictor", m_predictor );
+            if( m_predictor )
+                disableEventControl( *m_predictor );
             OptionalParameters::maybeLoadParameter( parameters, "predictor_steps", m_predictorSteps );
             OptionalParameters::maybeSetParameter(
                         parameters, "reorder",
diff --git a/include/ode_num_int/ode/interfaces/OdeSolverEventController.h b/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
index fe6a9b8..5a51acf 100644
--- a/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
+++ b/include/ode_num_int/ode/interfaces/OdeSolverEventController.h
@@ -51,6 +51,15 @@ class OdeSolverEventController :
             }
     };
 
+// Disables event control in the specified solver (if it supports event control at all).
+// This is for solvers used as a part of another solver: it is the outer solver who processes events.
+template< class VD >
+inline void disableEventControl( OdeSolver<VD>& solver )
+    {
+    if( auto ech = dynamic_cast< OdeSolverEventController<VD>* >( &solver ) )
+        ech->setEventController( std::shared_ptr< OdeEventController<VD> >() );
+    }
+
 } // end namespace math
 } // end namespace ctm
 
-- 
2.43.0


From b53531bc16031dc362c3178664c0d45c459be985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 11/60] fix: OdeSolverImplicitEuler: do not leak the Newton
 iteration performer due to a shared pointer cycle

---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index d19bad1..07b9f69 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -40,8 +40,10 @@ class OdeSolverImplicitEuler :
                cxx::forwardObservers( newton->iterationObservers, this->iterationObservers );
                 if( auto itperf = newton->iterationPerformer() ) {
                     // Forward jacobian refresh observers
-                    auto setupDdir = [this, itperf] {
-                        if( auto ddir = itperf->newtonDescentDirection() )
+                    // Note: capture plain pointer, because the callback is owned by itperf
+                    auto pitperf = itperf.get();
+                    auto setupDdir = [this, pitperf] {
+                        if( auto ddir = pitperf->newtonDescentDirection() )
                             cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
                         };
                     itperf->onNewtonDescentDirectionChanged( setupDdir );
-- 
2.43.0


From 0dfe7af1ad396b736de991e4753ebb7f6130b15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 12/60] fix: reset event controller when initial state is set
 (Gragg, implicit Euler, Rosenbrock solvers)

---
 include/ode_num_int/ode/OdeSolverGragg.h            | 2 ++
 include/ode_num_int/ode/OdeSolverImplicitEuler.h    | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 2 ++
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 2 ++
 4 files changed, 8 insertions(+)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index 3607889..ee1b4ff 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -59,6 +59,8 @@ class OdeSolverGragg :
             m_initialTime = initialTime;
             m_initialU = initialState;
             m_stepsRunning = false;
+            if( auto ec = this->eventController() )
+                ec->reset();
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 07b9f69..bbb88d9 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -73,6 +73,8 @@ class OdeSolverImplicitEuler :
         void setInitialState( real_type initialTime, const V& initialState, bool soft = false )
             {
             m_mapping4Newton->setInitialState( initialTime, initialState );
+            if( auto ec = this->eventController() )
+                ec->reset();
             if( !soft )
                 m_hardResetRequested = true;
             }
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 7a5c16a..b639c86 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -56,6 +56,8 @@ class OdeSolverRosenbrock_SW2_4 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( soft )
                 // Compute ODE RHS at the beginning of the step
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index c80a6f0..f273027 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -49,6 +49,8 @@ class OdeSolverRosenbrock_W1 :
             {
             m_initialTime = initialTime;
             m_initialState = initialState;
+            if( auto ec = this->eventController() )
+                ec->reset();
 
             if( !soft )
                 cleanupStep();
-- 
2.43.0


From ae761d6463289b3d5d73fb7a18c09e5d77a545c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 13/60] fix: NewtonIterationPerformerImpl: do not reuse a stale
 residual after line search has thrown

---
 include/ode_num_int/alg/NewtonIterationPerformerImpl.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index 4f4be14..9c94892 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -44,8 +44,10 @@ class NewtonIterationPerformerImpl :
             auto f0 = currentResidual();
             auto ddir = this->newtonDescentDirection();
             auto dir = ddir->computeDescentDirection( m_x, f0, iterationNumber );
+            m_f_valid = false;  // Because line search may throw with m_f already overwritten
             m_currentStepRatio = this->newtonLinearSearch()->lineSearch( dir, m_x, f0, &m_f );
             m_x += dir.scaled( m_currentStepRatio );
+            m_f_valid = true;
             this->errorEstimator()->setCurrentSolution( m_x, m_f );
             auto result = this->errorEstimator()->currentStatus();
             if( m_currentStepRatio == 0   &&   result == ErrorEstimator<VD>::ContinueIterations )
-- 
2.43.0


From d882ff5fa45a0bf5c8999711babd539628b45fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 14/60] fix: NewtonSolver: report Diverged rather than
 IterationCountLimitExceeded when hard reset cannot help

---
 include/ode_num_int/alg/NewtonSolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonSolver.h b/include/ode_num_int/alg/NewtonSolver.h
index c0aff89..db74aa3 100644
--- a/include/ode_num_int/alg/NewtonSolver.h
+++ b/include/ode_num_int/alg/NewtonSolver.h
@@ -73,7 +73,7 @@ class NewtonSolver :
                             if( maybeAdjustRegularizationParameter() )
                                 break;
                             ddir->reportSuccess( false );
-                            if( !hardResetTried ) {
+                            if( !hardResetTried   &&   ddir->hardResetMayHelp() ) {
                                 breakLoop = true;
                                 break;
                                 }
-- 
2.43.0


From 0be4676ef42b1055c2fca98f71d0818e19ee5e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:11 +0000
Subject: [PATCH 15/60] fix: DefaultJacobianProvider: drop the Jacobian on hard
 reset

---
 include/ode_num_int/alg/DefaultJacobianProvider.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/ode_num_int/alg/DefaultJacobianProvider.h b/include/ode_num_int/alg/DefaultJacobianProvider.h
index f48e696..53f9b09 100644
--- a/include/ode_num_int/alg/DefaultJacobianProvider.h
+++ b/include/ode_num_int/alg/DefaultJacobianProvider.h
@@ -19,6 +19,10 @@ class DefaultJacobianProvider :
         typedef typename VD::value_type real_type;
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
+        void hardReset() {
+            m_J = FastSparseMatrix();
+            }
+
         void computeJacobian( const V& x0 )
             {
             if( auto jt = this->jacobianTrimmer() )
-- 
2.43.0


From 25c853f486bd76d635882be45f3396fc9179f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:36 +0000
Subject: [PATCH 16/60] fix: VectorNarrowingMapping::map: narrow output using
 disabled output indices

---
 include/ode_num_int/alg/VectorNarrowingMapping.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/VectorNarrowingMapping.h b/include/ode_num_int/alg/VectorNarrowingMapping.h
index 2f1e7f2..38bf1a4 100644
--- a/include/ode_num_int/alg/VectorNarrowingMapping.h
+++ b/include/ode_num_int/alg/VectorNarrowingMapping.h
@@ -114,7 +114,7 @@ class VectorNarrowingMapping :
             this->mapping()->map( *pdst, *px );
 
             if( !m_disabledOutputIndices.empty() )
-                reduce( dst, dsts, m_disabledInputIndices );
+                reduce( dst, dsts, m_disabledOutputIndices );
             }
 
         std::vector<unsigned int> inputIds() const {
-- 
2.43.0


From 660550fdcbabf22708fc7b0bce3c83675423e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:05 +0000
Subject: [PATCH 17/60] fix: SparseJacobianProvider: rebuild the calculator
 when the Jacobian has been replaced

---
 include/ode_num_int/alg/SparseJacobianProvider.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/alg/SparseJacobianProvider.h b/include/ode_num_int/alg/SparseJacobianProvider.h
index 5d67cf1..ed21d37 100644
--- a/include/ode_num_int/alg/SparseJacobianProvider.h
+++ b/include/ode_num_int/alg/SparseJacobianProvider.h
@@ -21,13 +21,15 @@ class SparseJacobianProvider :
         typedef sparse::SparseMatrixTemplate< sparse::SparseMatrixFastData<real_type> > FastSparseMatrix;
 
         SparseJacobianProvider() :
-            m_Jcalc( &m_J )
+            m_Jcalc( &m_J ),
+            m_JcalcValid( false )
             {}
 
         SparseJacobianProvider( const SparseJacobianProvider<VD>& ) = delete;
         SparseJacobianProvider<VD>& operator=( const SparseJacobianProvider<VD>& ) = delete;
 
         void hardReset() {
+            m_JcalcValid = false;
             m_J = FastSparseMatrix();
         }
 
@@ -37,11 +39,15 @@ class SparseJacobianProvider :
 
         void computeJacobian( const V& x0 )
             {
-            if( auto jt = this->jacobianTrimmer() )
+            if( auto jt = this->jacobianTrimmer() ) {
+                m_JcalcValid = false;
                 m_J = jt->trimJacobian( math::computeJacobian( *this->mapping(), x0 ) );
-            else if( m_J.empty() ) {
+                }
+            else if( m_J.empty()   ||   !m_JcalcValid ) {
+                m_JcalcValid = false;
                 m_J = math::computeJacobian( *this->mapping(), x0 );
                 m_Jcalc = SparseJacobianCalculator<VD>( &m_J );
+                m_JcalcValid = true;
                 }
             else
                 m_Jcalc.calculate( *this->mapping(), x0, 1e-6 );
@@ -54,6 +60,7 @@ class SparseJacobianProvider :
     private:
         FastSparseMatrix m_J;
         SparseJacobianCalculator< VD > m_Jcalc;
+        bool m_JcalcValid;  // True if m_Jcalc refers to elements of current m_J
     };
 
 } // end namespace math
-- 
2.43.0


From 470174861a368f302b3262155c001ca2c9e4914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:42 +0000
Subject: [PATCH 18/60] fix: JacobianBroydenUpdateNewtonDescentDirection: allow
 update to add new elements to a sparse Jacobian

---
 .../alg/JacobianBroydenUpdateNewtonDescentDirection.h         | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 19689cd..2032031 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -56,12 +56,14 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                 left *= 1 / dx.euclideanNormSquare();
                 unsigned int n = x0.size();
                 ASSERT( J.size() == sparse::SparseMatrixCommonTypes::Index(n, n) );
+                sparse::SparseMatrix<real_type> updatedJ( J );  // Allows to add new elements, in contrast to J
                 for( unsigned int i=0; i<n; ++i )
                     for( unsigned int j=0; j<n; ++j ) {
                         real_type x = left[i] * dx[j];
                         if( x != 0 )
-                            J.at( i, j ) += x;
+                            updatedJ.at( i, j ) += x;
                         }
+                J = updatedJ;
                 }
             m_xprev = x0;
             m_fprev = f0;
-- 
2.43.0


From b90731037846427c77bdf8d4efcb0b526fd18a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 19/60] fix: Rosenbrock solvers: compute all columns of the
 Jacobian in presence of second order variables

---
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index f656cc7..5afe60b 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -115,7 +115,7 @@ class OdeSolverRosenbrock_W_base :
                 SparseMatrix Jm( m_n2+m_n1, m_n2+m_n1 );
                 V x = initialState;
                 V f( m_n );
-                for( unsigned int i=istart; i<isize; ++i ) {
+                for( unsigned int i=istart; i<istart+isize; ++i ) {
                     x[i] += dx;
                     rhs->rhs( f, initialTime, x );
                     x[i] = initialState[i];
-- 
2.43.0


From f297d52ee899524b4da569b3620498aec5f840c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 20/60] fix: Rosenbrock solvers: repeat initialization if it
 has been interrupted by an exception

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h  | 4 +++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h     | 4 +++-
 include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index b639c86..8ad123d 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -238,7 +238,6 @@ class OdeSolverRosenbrock_SW2_4 :
                 // Allocate memory
                 m_initialOdeRhs.resize( n );
                 m_nextOdeRhs.resize( n );
-                m_k1.resize( n );
                 m_k2.resize( n );
                 m_k3.resize( n );
                 m_k4.resize( n );
@@ -252,6 +251,9 @@ class OdeSolverRosenbrock_SW2_4 :
 
             OdeSolverRosenbrock_W_base<VD>::initStep(
                 hard, m_initialTime, m_initialState, m_initialOdeRhs, m_h * m_d );
+
+            // Initialization is complete only if the above code has not thrown
+            m_k1.resize( m_initialState.size() );
             }
 
         void cleanupStep() {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index f273027..8485d44 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -151,7 +151,6 @@ class OdeSolverRosenbrock_W1 :
 
                 // Allocate memory
                 m_initialOdeRhs.resize( n );
-                m_k1.resize( n );
                 m_nextState.resize( n );
                 }
 
@@ -160,6 +159,9 @@ class OdeSolverRosenbrock_W1 :
 
             OdeSolverRosenbrock_W_base<VD>::initStep(
                 hard, m_initialTime, m_initialState, m_initialOdeRhs, m_h * m_d );
+
+            // Initialization is complete only if the above code has not thrown
+            m_k1.resize( m_initialState.size() );
             }
 
         void cleanupStep() {
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
index 5afe60b..201217d 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W_base.h
@@ -151,7 +151,7 @@ class OdeSolverRosenbrock_W_base :
             {
             ASSERT( hd != 0 ); // Required for cache to work
             if( m_hd4W != hd ) {
-                m_hd4W = hd;
+                m_hd4W = 0;     // Nothing is valid until the update is complete
                 auto it = m_W_LU_cache.find( hd );
                 if( it != m_W_LU_cache.end() )
                     m_W_LU = &it->second;
@@ -167,6 +167,7 @@ class OdeSolverRosenbrock_W_base :
                     ASSERT( itbool.second );
                     m_W_LU = &itbool.first->second;
                     }
+                m_hd4W = hd;
                 }
             }
     };
-- 
2.43.0


From 96f403f2dcbe9350541ee7fe994ff21c78987a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 21/60] fix: OdeSolverRosenbrock_SW2_4: update the W matrix
 when the step size decreases after a rejected step

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 8ad123d..c275854 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -68,18 +68,13 @@ class OdeSolverRosenbrock_SW2_4 :
 
         void doStep()
             {
-            bool needInitStep = true;
-
             while( true ) {
                 this->odeSolverPreObservers( m_h, this );
 
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                if( needInitStep ) {
-                    needInitStep = false;
-                    initStep();
-                    }
+                initStep();     // Note: step size could have changed since previous attempt
 
                 auto rhs = this->odeRhs();
 
-- 
2.43.0


From 1f4b2d2b51db8e49bfbecaada34ae2b83aa989d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 22/60] fix: Rosenbrock solvers: start with the initial step
 size by default and after the initial state has been set

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 6 ++++--
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index c275854..cdd6383 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -31,7 +31,7 @@ class OdeSolverRosenbrock_SW2_4 :
             m_d( 1 ),
             m_disable_error_check( false ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
@@ -62,8 +62,10 @@ class OdeSolverRosenbrock_SW2_4 :
             if( soft )
                 // Compute ODE RHS at the beginning of the step
                 this->odeRhs()->rhs( m_initialOdeRhs, m_initialTime, m_initialState );
-            else
+            else {
+                m_h = this->initialStepSize();
                 cleanupStep();
+                }
             }
 
         void doStep()
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 8485d44..841b59f 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -24,7 +24,7 @@ class OdeSolverRosenbrock_W1 :
             OdeSolverEventController<VD>( *this, "linear" ),
             m_d( 1 ),
             m_initialTime( 0 ),
-            m_h( 0 )
+            m_h( this->initialStepSize() )
             {}
 
         void setInitialStepSize( real_type initialStepSize )
@@ -52,8 +52,10 @@ class OdeSolverRosenbrock_W1 :
             if( auto ec = this->eventController() )
                 ec->reset();
 
-            if( !soft )
+            if( !soft ) {
+                m_h = this->initialStepSize();
                 cleanupStep();
+                }
             }
 
         void doStep()
-- 
2.43.0


From ac988c3c1ae0f0fe688161b211d667bf52f157ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 23/60] fix: OdeSolverRosenbrock_SW2_4: do not continue with a
 stale ODE RHS if its evaluation after a switch has thrown

---
 .../ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h  | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index cdd6383..6a73186 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -31,6 +31,7 @@ class OdeSolverRosenbrock_SW2_4 :
             m_d( 1 ),
             m_disable_error_check( false ),
             m_initialTime( 0 ),
+            m_initialOdeRhsValid( false ),
             m_h( this->initialStepSize() )
             {}
 
@@ -59,10 +60,10 @@ class OdeSolverRosenbrock_SW2_4 :
             if( auto ec = this->eventController() )
                 ec->reset();
 
-            if( soft )
-                // Compute ODE RHS at the beginning of the step
-                this->odeRhs()->rhs( m_initialOdeRhs, m_initialTime, m_initialState );
-            else {
+            // Compute ODE RHS at the beginning of the step
+            m_initialOdeRhsValid = false;
+
+            if( !soft ) {
                 m_h = this->initialStepSize();
                 cleanupStep();
                 }
@@ -161,7 +162,7 @@ class OdeSolverRosenbrock_SW2_4 :
                     m_initialTime = nextTime;
                     m_initialState.swap( m_nextState );
                     if( stepTruncated ) {
-                        this->odeRhs()->rhs( m_initialOdeRhs, m_initialTime, m_initialState );
+                        m_initialOdeRhsValid = false;   // Compute ODE RHS at the beginning of the next step
                         // buildJacobian();
                         }
                     else
@@ -212,6 +213,7 @@ class OdeSolverRosenbrock_SW2_4 :
 
         real_type m_initialTime;        // Initial time
         V m_initialState;               // Initial state
+        bool m_initialOdeRhsValid;      // True if m_initialOdeRhs corresponds to the initial state
 
         real_type m_h;                  // Current step size
         V m_initialOdeRhs;              // ODE RHS corresp. to the initial state
@@ -241,9 +243,13 @@ class OdeSolverRosenbrock_SW2_4 :
                 m_nextState.resize( n );
                 m_buf.resize( n );
                 m_buf2.resize( n );
+                }
 
+            if( hard   ||   !m_initialOdeRhsValid ) {
                 // Compute ODE RHS at the beginning of the step
+                m_initialOdeRhsValid = false;
                 this->odeRhs()->rhs( m_initialOdeRhs, m_initialTime, m_initialState );
+                m_initialOdeRhsValid = true;
                 }
 
             OdeSolverRosenbrock_W_base<VD>::initStep(
-- 
2.43.0


From b50eac20648827a94bfc76610faa1cf5177da976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 24/60] fix: OdeSolverGragg: keep the state unchanged if a step
 has thrown

---
 include/ode_num_int/ode/OdeSolverGragg.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverGragg.h b/include/ode_num_int/ode/OdeSolverGragg.h
index ee1b4ff..c19baac 100644
--- a/include/ode_num_int/ode/OdeSolverGragg.h
+++ b/include/ode_num_int/ode/OdeSolverGragg.h
@@ -73,6 +73,7 @@ class OdeSolverGragg :
             {
                 auto nv = m_initialU.size();
                 m_fbuf.resize( nv );
+                m_nextFbuf.resize( nv );
                 m_nextU.resize( nv );
             }
 
@@ -86,15 +87,18 @@ class OdeSolverGragg :
             this->tstat0.add( timer.Lap() );
 
             if( !m_stepsRunning ) {
-                m_initialV = m_initialU;
                 rhs->rhs( m_fbuf, m_initialTime, m_initialU );
+                m_initialV = m_initialU;
                 }
-            m_initialV += m_fbuf.scaled( h2 );
-            rhs->rhs( m_fbuf, m_initialTime + h2, m_initialV );
+            // Note: m_initialV and m_fbuf must stay unchanged until the end of the step,
+            // because the code below may throw
+            m_nextV = m_initialV;
+            m_nextV += m_fbuf.scaled( h2 );
+            rhs->rhs( m_nextFbuf, m_initialTime + h2, m_nextV );
             m_nextU = m_initialU;
-            m_nextU += m_fbuf.scaled( h );
-            rhs->rhs( m_fbuf, m_initialTime + h, m_nextU );
-            m_initialV += m_fbuf.scaled( h2 );
+            m_nextU += m_nextFbuf.scaled( h );
+            rhs->rhs( m_nextFbuf, m_initialTime + h, m_nextU );
+            m_nextV += m_nextFbuf.scaled( h2 );
 
             this->tstat1.add( timer.Lap() );
 
@@ -109,6 +113,8 @@ class OdeSolverGragg :
                 }
             m_initialTime = nextTime;
             m_initialU.swap( m_nextU );
+            m_initialV.swap( m_nextV );
+            m_fbuf.swap( m_nextFbuf );
             m_stepsRunning = !stepTruncated;
 
             this->tstat2.add( timer.Lap() );
@@ -153,6 +159,8 @@ class OdeSolverGragg :
         V m_initialV;
         V m_fbuf;
         V m_nextU;
+        V m_nextV;
+        V m_nextFbuf;
         cxx::bool0 m_stepsRunning;
     };
 
-- 
2.43.0


From ee2ee5e2b7ef3b34a70d27a2946d71cfc23af5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:25 +0000
Subject: [PATCH 25/60] fix: OdeSolverImplicitEuler: keep hard reset requested
 until the algebraic solver has succeeded

---
 include/ode_num_int/ode/OdeSolverImplicitEuler.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index bbb88d9..9a0c55a 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -103,16 +103,13 @@ class OdeSolverImplicitEuler :
                 if( m_reorder )
                     m_eqnbuf = m_reorder->orderInput( m_eqnbuf );
                 newton->setInitialGuess( m_eqnbuf, m_hardResetRequested );
-                m_hardResetRequested = false;
                 }
             else if( m_reorder ) {
                 m_reorder->orderInput( m_eqnbuf, m_mapping4Newton->eqnInitialState() );
                 newton->setInitialGuess( m_eqnbuf, m_hardResetRequested );
-                m_hardResetRequested = false;
                 }
             else {
                 newton->setInitialGuess( m_mapping4Newton->eqnInitialState(), m_hardResetRequested );
-                m_hardResetRequested = false;
                 }
 
             this->tstat0.add( timer.Lap() );
@@ -125,6 +122,7 @@ class OdeSolverImplicitEuler :
             auto status = newton->run();
             if( status != NewtonSolverInterface<VD>::Converged )
                 throw cxx::exception(std::string("Algebraic solver failed: ") + newton->statusText( status ) );
+            m_hardResetRequested = false;
             if( m_reorder ) {
                 m_reorder->unorderInput( m_eqnbuf, newton->currentSolution() );
                 m_mapping4Newton->computeOdeState( m_buf, m_eqnbuf );
-- 
2.43.0


From 65f7f1baefd8d53244915b64bb091ec5ae08b8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 26/60] fix: Observers: allow callbacks to add and remove
 callbacks

---
 include/ode_num_int/infra/cxx_observers.h | 24 +++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/infra/cxx_observers.h b/include/ode_num_int/infra/cxx_observers.h
index b8d2ab9..6aa380d 100644
--- a/include/ode_num_int/infra/cxx_observers.h
+++ b/include/ode_num_int/infra/cxx_observers.h
@@ -70,6 +70,20 @@ class IdentifiedElements
             return m_elements.empty();
             }
 
+    protected:
+        /// \brief Invokes \a f for a copy of each element of the sequence, from first to last.
+        /// \note Function \a f is allowed to add or remove elements, including the one it is invoked for.
+        template< class F >
+        void forEach( F f ) const
+            {
+            for( auto it=m_elements.begin(); it!=m_elements.end(); ) {
+                auto id = it->first;
+                T element = it->second;
+                f( element );
+                it = m_elements.upper_bound( id );
+                }
+            }
+
     private:
         std::map< int, T > m_elements;
         int newId() const
@@ -202,8 +216,9 @@ class Observers : public IdentifiedElements< std::function<void(args ...)> >
 
         /// \brief Invokes all callbacks in the sequence, from first to last.
         void operator()( args... a ) const {
-            for( const auto& idAndObserver : *this )
-                idAndObserver.second( a... );
+            this->forEach( [&]( const cb_type& cb ) {
+                cb( a... );
+                } );
             }
     };
 
@@ -228,8 +243,9 @@ class TerminatingObservers : public IdentifiedElements< std::function<bool(args
         /// the method returns false.
         bool operator()( args... a ) const {
             bool result = false;
-            for( const auto& idAndObserver : *this )
-                result = idAndObserver.second( a... ) || result;
+            this->forEach( [&]( const cb_type& cb ) {
+                result = cb( a... ) || result;
+                } );
             return result;
             }
     };
-- 
2.43.0


From 0b2b4e4fb5fc97355b51a14a30657da5a393cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 27/60] fix: ComponentConfiguration::setValue: forget a value
 not accepted by the parameter provider

---
 include/ode_num_int/infra/ComponentConfiguration.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/infra/ComponentConfiguration.h b/include/ode_num_int/infra/ComponentConfiguration.h
index a210da4..f112144 100644
--- a/include/ode_num_int/infra/ComponentConfiguration.h
+++ b/include/ode_num_int/infra/ComponentConfiguration.h
@@ -110,9 +110,10 @@ class ComponentConfiguration
             {
             valuePriv( path ) = value;
 
-            // Always reload auto setting, in particular, to load nested parameters
-            parameterProvider()->setParameters( m_parameters );
+            // Always reload auto setting, in particular, to load nested parameters.
+            // Note: reload also if the parameter provider has not accepted the value and has thrown.
             m_parametersKnown = false;
+            parameterProvider()->setParameters( m_parameters );
             }
 
         template< class PathType >
-- 
2.43.0


From 6a51185c46b9fa47d381b0bd128ac66f87d24c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 28/60] fix: OptionalParameters::Value: restore the same
 floating-point value as the one stored

---
 include/ode_num_int/infra/OptionalParameters.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index bbf3438..eca0dce 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -10,6 +10,7 @@
 #include <map>
 #include <sstream>
 #include <iomanip>
+#include <cstdlib>
 #include <tuple>
 #include <type_traits>
 
@@ -85,6 +86,11 @@ class OptionalParameters
                     {
                     std::ostringstream s;
                     s << std::setprecision(16) << x;
+                    if( std::strtod( s.str().c_str(), nullptr ) != x ) {
+                        // Make sure the value can be exactly restored
+                        s.str( std::string() );
+                        s << std::setprecision(17) << x;
+                        }
                     m_value = s.str();
                     }
 
-- 
2.43.0


From 042a84d315fa06d7d52e2edc0cc6bef0436b7de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 29/60] fix: OptionalParameters::Value: do not convert negative
 and too large numbers to unsigned integer

---
 include/ode_num_int/infra/OptionalParameters.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index eca0dce..88a1dce 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -172,7 +172,10 @@ class OptionalParameters
                     {
                     if( !lang::IsIntegerNumber( m_value.c_str() ) )
                         throw cxx::exception( std::string("Not an integer number: '") + m_value + "'");
-                    dst = static_cast<unsigned int>( std::stoul( m_value ) );
+                    auto x = std::stoull( m_value );
+                    if( m_value[0] == '-'   ||   x > ~0u )
+                        throw cxx::exception( std::string("Integer number is out of range: '") + m_value + "'");
+                    dst = static_cast<unsigned int>( x );
                     }
 
                 void toType( bool& dst ) const
-- 
2.43.0


From a1beecd5aca987d5ade821a880249291c222eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 30/60] fix: OptionalParameters: an empty item in the middle of
 a path is an error rather than the end of the path

---
 include/ode_num_int/infra/OptionalParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 88a1dce..70c0535 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -389,7 +389,7 @@ class OptionalParameters
                 if( nd == std::string::npos )
                     nd = formattedPath.size();
                 if( nd == n )
-                    break;
+                    throw cxx::exception( std::string("Invalid path ") + formattedPath + ": empty item" );
                 result.push_back( formattedPath.substr( n, nd-n ) );
                 n = nd + 1;
                 }
-- 
2.43.0


From 3cea96f724a8c4bdc8887da19ad4d6010b7c3cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 31/60] fix: TimerCalibrator: zero timer interval is not a
 reason to abort, time in milliseconds is just not available

---
 src/TimerCalibrator.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/TimerCalibrator.cpp b/src/TimerCalibrator.cpp
index efc0f47..87e4221 100644
--- a/src/TimerCalibrator.cpp
+++ b/src/TimerCalibrator.cpp
@@ -20,7 +20,6 @@ void TimerCalibrator::stop()
     {
     ASSERT( !m_stopped );
     m_timerInterval = m_timer.Stop();
-    ASSERT( m_timerInterval > 0 );
     m_msecInterval = sys::GetClockTimeMsec() - m_msecInterval;
     m_stopped = true;
     }
@@ -36,7 +35,7 @@ bool TimerCalibrator::stopped() const {
 double TimerCalibrator::toMsec( OpaqueTickType interval ) const
     {
     ASSERT( m_stopped );
-    if( m_msecInterval < MsecIntervalThreshold )
+    if( !toMsecAvailable() )
         throw cxx::exception( "TimerCalibrator::toMsec() failed: measurement interval is too short" );
     return static_cast<double>(interval) * m_msecInterval / m_timerInterval;
     }
-- 
2.43.0


From 0cfe063acd85222dd7730f0fc454212e17d3f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 32/60] fix: SparseMatrixTemplate: element access by row and
 column in blocks and transposed matrices, sizes of non-square transposed
 matrix and vector-by-matrix product

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 52c865f..5218d51 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -340,7 +340,7 @@ class Block : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -548,7 +548,7 @@ class Transpose : public SparseMatrixTypes< typename D::element_type >
             }
 
         element_type get( unsigned int r, unsigned int c ) const {
-            return m_source.get( r, c );
+            return get( Index( r, c ) );
             }
 
         element_type operator[]( const Index& index ) const {
@@ -998,7 +998,7 @@ class SparseMatrixTemplate : public D
             {
             return SparseMatrixTemplate< SparseMatrixProxy::Transpose< D > >(
                         SparseMatrixProxy::Transpose< D >( *this ),
-                        m_size );
+                        Index( m_size.second, m_size.first ) );
             }
 
         SparseMatrixTemplate<matrix_data_type> clone() const {
@@ -1075,7 +1075,7 @@ template< class DM, class DV >
 inline VectorTemplate<typename DV::vector_data_type> operator*( const VectorTemplate<DV>& v, const SparseMatrixTemplate<DM>& m )
     {
     ASSERT( v.size() == m.size().first );
-    VectorTemplate<typename DV::vector_data_type> result( m.size().first );
+    VectorTemplate<typename DV::vector_data_type> result( m.size().second );
     m.mulVectLeft( v.begin(), result.begin() );
     return result;
     }
-- 
2.43.0


From 5ad3f6f189a59b267f1b1113aa16a93447e82701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 33/60] fix: OdeSolverStepSolutionConsoleOutput: take the
 output of initial state into account in output timing

---
 include/ode_num_int/ode/ode_solver_output.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index 5c366fa..a216414 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -373,6 +373,7 @@ class OdeSolverStepSolutionConsoleOutput :
                 solverConfig, solverComponents, m_sizeHalfLimit, this->fileName() ) );
             auto s = solverComponents->solver().get();
             m_d->writeHeaders( s );
+            m_d->outputNow( s->initialTime(), true );   // Record the time of initial state output
             m_d->write( s );
             }
 
-- 
2.43.0


From 7a2641b6d77a3b93bb573eabb48da8267399b93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 34/60] fix: ODE solver output: report errors writing to output
 files

---
 include/ode_num_int/ode/ode_solver_output.h | 30 ++++++++++++++++-----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index a216414..7439a9b 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -88,6 +88,14 @@ class OdeSolverStreamOutputOption :
                         }
                     }
 
+                // Reports output errors, e.g., full disk
+                void finish()
+                    {
+                    m_os.flush();
+                    if( m_outputFile   &&   m_outputFile->fail() )
+                        throw cxx::exception( "Failed to write to output file" );
+                    }
+
                 std::ostream& os() {
                     return m_os;
                     }
@@ -130,8 +138,11 @@ class OdeSolverStatisticsOutput :
 
         void afterSolve()
             {
-            m_d->printStats();
-            m_d.reset();
+            auto d = std::move( m_d );
+            if( d ) {
+                d->printStats();
+                d->finish();
+                }
             }
 
     private:
@@ -285,7 +296,9 @@ class OdeSolverStepGeneralConsoleOutput :
 
         void afterSolve()
             {
-            m_d.reset();
+            auto d = std::move( m_d );
+            if( d )
+                d->finish();
             }
 
     private:
@@ -379,7 +392,9 @@ class OdeSolverStepSolutionConsoleOutput :
 
         void afterSolve()
             {
-            m_d.reset();
+            auto d = std::move( m_d );
+            if( d )
+                d->finish();
             }
 
         Parameters parameters() const
@@ -508,8 +523,11 @@ class OdeSolverStepSolutionColumnwiseOutput :
 
         void afterSolve()
             {
-            m_d->write();
-            m_d.reset();
+            auto d = std::move( m_d );
+            if( d ) {
+                d->write();
+                d->finish();
+                }
             }
 
         Parameters parameters() const
-- 
2.43.0


From 9eaeda2c713261a332957a8f5784caea56e0625b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 35/60] fix: solveOde: finalize outputs and detach them from
 the solver if the solution is aborted by an exception

---
 .../ode_num_int/ode/OdeSolverConfiguration.h  | 62 ++++++++++++++-----
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverConfiguration.h b/include/ode_num_int/ode/OdeSolverConfiguration.h
index ae5d5ad..2564504 100644
--- a/include/ode_num_int/ode/OdeSolverConfiguration.h
+++ b/include/ode_num_int/ode/OdeSolverConfiguration.h
@@ -9,6 +9,7 @@
 #include "../alg/MappingNormalizer.h"
 #include "../alg/VectorNarrowingMapping.h"
 #include "../alg/VectorReorderingMapping.h"
+#include <exception>
 #include <set>
 
 namespace ctm {
@@ -306,6 +307,25 @@ class OdeSolverOutputOption :
         virtual void afterSolve() = 0;
     };
 
+template< class VD >
+inline void finalizeOdeOutput(
+        const std::vector< OdeSolverOutputOption<VD>* >& outputOptions )
+    {
+    // Finalize all outputs, even if some of them throw
+    std::exception_ptr e;
+    for( auto oo : outputOptions ) {
+        try {
+            oo->afterSolve();
+            }
+        catch( ... ) {
+            if( !e )
+                e = std::current_exception();
+            }
+        }
+    if( e )
+        std::rethrow_exception( e );
+    }
+
 template< class VD >
 inline std::vector< OdeSolverOutputOption<VD>* > initOdeOutput(
         const OdeSolverConfiguration<VD> *config,
@@ -319,20 +339,22 @@ inline std::vector< OdeSolverOutputOption<VD>* > initOdeOutput(
             oo->beforeFirstStep( config, components );
             }
         };
-    collectOutputOption( paramProvider->statisticsOutput() );
-    collectOutputOption( paramProvider->stepConsoleOutput() );
-    collectOutputOption( paramProvider->stepFileOutput() );
+    try {
+        collectOutputOption( paramProvider->statisticsOutput() );
+        collectOutputOption( paramProvider->stepConsoleOutput() );
+        collectOutputOption( paramProvider->stepFileOutput() );
+        }
+    catch( ... ) {
+        // Detach the outputs already initialized
+        try {
+            finalizeOdeOutput( outputOptions );
+            }
+        catch( ... ) {}
+        throw;
+        }
     return outputOptions;
     }
 
-template< class VD >
-inline void finalizeOdeOutput(
-        const std::vector< OdeSolverOutputOption<VD>* >& outputOptions )
-    {
-    for( auto oo : outputOptions )
-        oo->afterSolve();
-    }
-
 template< class VD >
 inline void solveOde(
         const OdeSolverConfiguration<VD> *config,
@@ -349,11 +371,21 @@ inline void solveOde(
     auto startTime = solver->initialTime();
     auto endTime = startTime + paramProvider->odeSolverDuration();
     auto currentTime = startTime;
-    do {
-        solver->doStep();
-        currentTime = solver->initialTime();
+    try {
+        do {
+            solver->doStep();
+            currentTime = solver->initialTime();
+            }
+        while( currentTime < endTime );
+        }
+    catch( ... ) {
+        // Write what we have, and detach outputs from the solver
+        try {
+            finalizeOdeOutput( outputOptions );
+            }
+        catch( ... ) {}
+        throw;
         }
-    while( currentTime < endTime );
     finalizeOdeOutput( outputOptions );
     }
 
-- 
2.43.0


From 5f13fb758acfe81ffa70725aec50b72c70b498bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:03 +0000
Subject: [PATCH 36/60] fix: SpecifiedOdeInitState: do not write out of bounds
 when the size of the state decreases

---
 include/ode_num_int/ode/SpecifiedOdeInitState.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/ode/SpecifiedOdeInitState.h b/include/ode_num_int/ode/SpecifiedOdeInitState.h
index e3fe7ca..5eeb1fa 100644
--- a/include/ode_num_int/ode/SpecifiedOdeInitState.h
+++ b/include/ode_num_int/ode/SpecifiedOdeInitState.h
@@ -58,7 +58,8 @@ class SpecifiedOdeInitState :
             int n0 = m_initialState.size();
             if( n != n0 ) {
                 m_initialState.resize( n );
-                std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
+                if( n > n0 )
+                    std::fill( m_initialState.begin() + n0, m_initialState.end(), real_type(0) );
                 }
             }
 
-- 
2.43.0


From 6e0d855f107e7fd6bdacffcbbc1430ab8487fbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:48 +0000
Subject: [PATCH 37/60] fix: embedded Runge-Kutta: apply h_after_switch before
 notifying observers

If a post-step observer threw an exception after a truncated step, the
step size limit to be applied after the switch was lost.
---
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 1ac787a..5286657 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -132,16 +132,16 @@ class OdeSolverExplicitEmbeddedRK :
                         throw cxx::exception( "Step size has decreased to the minimum or below" );
                     }
 
+                // Reduce step size, if step is accepted, a switch has occurred, and m_h_after_switch is nonzero and less than new step size.
+                if( stepTruncated   &&   m_h_after_switch > 0   &&   m_h > m_h_after_switch )
+                    m_h = m_h_after_switch;
+
                 this->tstat3.add( timer.Lap() );
 
                 // Invoke observers
                 this->odeSolverPostObservers( OdeSolverPostObserverArg<VD>(
                     hcur, scResult.acceptStep, scResult.changeStepSize, stepTruncated, errorNorm, izfTrunc, transitionType, this ) );
 
-                // Reduce step size, if step is accepted, a switch has occurred, and m_h_after_switch is nonzero and less than new step size.
-                if( stepTruncated   &&   m_h_after_switch > 0   &&   m_h > m_h_after_switch )
-                    m_h = m_h_after_switch;
-
                 this->tstat4.add( timer.Lap() );
 
                 // Stop the loop if the step is accepted
-- 
2.43.0


From b35972973591417d2726999e1e88e87f8a0781fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:46 +0000
Subject: [PATCH 38/60] fix: JacobianBroydenUpdateNewtonDescentDirection: tell
 the Jacobian provider that the Jacobian is replaced

---
 .../alg/JacobianBroydenUpdateNewtonDescentDirection.h            | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
index 2032031..d4cd06f 100644
--- a/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
+++ b/include/ode_num_int/alg/JacobianBroydenUpdateNewtonDescentDirection.h
@@ -63,6 +63,7 @@ class JacobianBroydenUpdateNewtonDescentDirection :
                         if( x != 0 )
                             updatedJ.at( i, j ) += x;
                         }
+                jp->hardReset();    // Because elements of J are about to be replaced
                 J = updatedJ;
                 }
             m_xprev = x0;
-- 
2.43.0


From 7695e62f265b45ae874241f3f17492af501a49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:04 +0000
Subject: [PATCH 39/60] fix: LUFactorizer::setMatrix: an allocation failure
 leaves the factorizer unchanged

---
 include/ode_num_int/lu/LUFactorizer.h | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 94fae13..9a338f3 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -65,7 +65,8 @@ class LUFactorizer
                 if( acc < value )
                     acc = value;
                 };
-            std::vector<unsigned int> p, q;
+            std::vector<unsigned int> p, q, s, al, au;
+            std::vector<real_type> l, u;
             fill( p, n, n );
             fill( q, n, n );
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
@@ -75,21 +76,19 @@ class LUFactorizer
                 setMin( q[c], r );
                 }
 
-            // Verify p and q; up to this point, the factorizer is not changed
+            // Verify p and q
             for( unsigned int i=0; i<n; ++i ) {
                 if( p[i] >= n   ||   q[i] >= n )
                     throw cxx::exception("Invalid matrix stencil: the stencil is incomplete");
                 if( p[i] > i   ||   q[i] > i )
                     throw cxx::exception("Invalid matrix stencil: the stencil does not cover the diagonal");
                 }
-            m_p.swap( p );
-            m_q.swap( q );
-            fill( m_s, n, 0 );
+            fill( s, n, 0 );
 
             // Compute m_s; take into account the fill-in inside the envelope (rows m_q[c]..c of each column c of U)
             for( unsigned int c=0; c<n; ++c )
-                for( unsigned int r=m_q[c]; r<=c; ++r )
-                    setMax( m_s[r], c );
+                for( unsigned int r=q[c]; r<=c; ++r )
+                    setMax( s[r], c );
 
             // Compute address sequences for triangular matrices m_l, m_u
             auto initTriangularMatrix = [n](
@@ -105,8 +104,17 @@ class LUFactorizer
                 m.resize( a[n] );
                 std::fill( m.begin(), m.end(), real_type() );
                 };
-            initTriangularMatrix( m_l, m_al, m_p, false );
-            initTriangularMatrix( m_u, m_au, m_q, true );
+            initTriangularMatrix( l, al, p, false );
+            initTriangularMatrix( u, au, q, true );
+
+            // Up to this point, the factorizer is not changed; from now on, nothing is going to throw
+            m_p.swap( p );
+            m_q.swap( q );
+            m_s.swap( s );
+            m_al.swap( al );
+            m_au.swap( au );
+            m_l.swap( l );
+            m_u.swap( u );
 
             // Fill matrices m_al, m_au with the contents of A
             for( auto it=matrixBegin; it!=matrixEnd; ++it ) {
-- 
2.43.0


From 9032c4d0fe5565e0ef8355886fe8546b1a4bc6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:59 +0000
Subject: [PATCH 40/60] fix: NewtonIterationPerformerImpl: do not add a
 non-finite direction with zero step ratio to the solution

---
 include/ode_num_int/alg/NewtonIterationPerformerImpl.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
index 9c94892..631b101 100644
--- a/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
+++ b/include/ode_num_int/alg/NewtonIterationPerformerImpl.h
@@ -46,7 +46,8 @@ class NewtonIterationPerformerImpl :
             auto dir = ddir->computeDescentDirection( m_x, f0, iterationNumber );
             m_f_valid = false;  // Because line search may throw with m_f already overwritten
             m_currentStepRatio = this->newtonLinearSearch()->lineSearch( dir, m_x, f0, &m_f );
-            m_x += dir.scaled( m_currentStepRatio );
+            if( m_currentStepRatio != 0 )
+                m_x += dir.scaled( m_currentStepRatio );
             m_f_valid = true;
             this->errorEstimator()->setCurrentSolution( m_x, m_f );
             auto result = this->errorEstimator()->currentStatus();
-- 
2.43.0


From 34f99f544f741ceecde06bf16f76c82100bc75f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:19 +0000
Subject: [PATCH 41/60] fix: LUFactorizer::secantUpdateHart: a row that cannot
 satisfy the secant condition is left as is

---
 include/ode_num_int/lu/LUFactorizer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 9a338f3..73f8990 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -281,7 +281,8 @@ class LUFactorizer
                         }
                 auto& ri = m_r[i];
                 ri = 0;
-                if( beta == 0 ) {
+                if( beta == 0   ||   !(aa > 0) ) {
+                    // Nothing to update (or, if aa is zero, no update of the row satisfies the secant condition);
                     // Just compute r[i]
                     for( unsigned int k=i; k<=umaxcol; ++k )
                         if( i >= m_q[k] )
@@ -289,7 +290,6 @@ class LUFactorizer
                     }
                 else {
                     // Update L, U; compute r[i]
-                    ASSERT( aa > 0 );
                     auto factor = beta/aa;
                     for( unsigned int k=m_p[i]; k<i; ++k )
                         L(i,k) += m_r[k] * factor;
-- 
2.43.0


From 7357bac829a98c47d123645a895167f4aa8b87aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:40 +0000
Subject: [PATCH 42/60] fix: SparseMatrixTemplate: construction of a fast
 matrix from another kind of matrix

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 5218d51..200ff92 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -845,10 +845,8 @@ class SparseMatrixTemplate : public D
             D( data ), m_size( size ) {}
 
         template< class ThatD >
-        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() )
-            {
-            for( auto v : that )
-                this->at( v.first ) = v.second;
+        SparseMatrixTemplate( const SparseMatrixTemplate< ThatD >& that ) : m_size( that.size() ) {
+            doAssign( that );
             }
 
         template< class ThatD >
-- 
2.43.0


From 013dddae97f7c5df153ab5ea3e9bbfd0bc609e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:43 +0000
Subject: [PATCH 43/60] fix: OptionalParameters::Value: a number is silently
 lost if memory allocation fails while it is formatted

---
 include/ode_num_int/infra/OptionalParameters.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/infra/OptionalParameters.h b/include/ode_num_int/infra/OptionalParameters.h
index 70c0535..c40366c 100644
--- a/include/ode_num_int/infra/OptionalParameters.h
+++ b/include/ode_num_int/infra/OptionalParameters.h
@@ -85,6 +85,7 @@ class OptionalParameters
                 Value( double x )
                     {
                     std::ostringstream s;
+                    s.exceptions( std::ios::badbit );   // Do not lose the value silently if memory allocation fails
                     s << std::setprecision(16) << x;
                     if( std::strtod( s.str().c_str(), nullptr ) != x ) {
                         // Make sure the value can be exactly restored
-- 
2.43.0


From 51778b9a281e3a6d92aeecb9a106e19517482e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:03 +0000
Subject: [PATCH 44/60] fix: ODE solver output: report errors that show up when
 the output file is closed

---
 include/ode_num_int/ode/ode_solver_output.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/ode_solver_output.h b/include/ode_num_int/ode/ode_solver_output.h
index 7439a9b..e63a7c5 100644
--- a/include/ode_num_int/ode/ode_solver_output.h
+++ b/include/ode_num_int/ode/ode_solver_output.h
@@ -92,8 +92,11 @@ class OdeSolverStreamOutputOption :
                 void finish()
                     {
                     m_os.flush();
-                    if( m_outputFile   &&   m_outputFile->fail() )
-                        throw cxx::exception( "Failed to write to output file" );
+                    if( m_outputFile ) {
+                        m_outputFile->close();  // Some errors are reported on close only
+                        if( m_outputFile->fail() )
+                            throw cxx::exception( "Failed to write to output file" );
+                        }
                     }
 
                 std::ostream& os() {
-- 
2.43.0


From 9ec579dcc4430615d75a2e18e14827b64655d7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:09 +0000
Subject: [PATCH 45/60] fix: explicit Runge-Kutta solvers: an allocation
 failure in the first step leaves work arrays and step size half-initialized

---
 include/ode_num_int/ode/ExplicitRKHelper.h            | 5 +++++
 include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h | 3 ++-
 include/ode_num_int/ode/OdeSolverExplicitRK.h         | 3 ++-
 3 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/ode/ExplicitRKHelper.h b/include/ode_num_int/ode/ExplicitRKHelper.h
index 61f05e7..3c65106 100644
--- a/include/ode_num_int/ode/ExplicitRKHelper.h
+++ b/include/ode_num_int/ode/ExplicitRKHelper.h
@@ -55,6 +55,11 @@ class ExplicitRKHelper
                 bool empty() const {
                     return k.empty();
                     }
+                void swap( Output& that ) {
+                    k.swap( that.k );
+                    x2.swap( that.x2 );
+                    buf.swap( that.buf );
+                    }
             };
 
         static void compute( Output& o, const Coefficients& c, const OdeRhs<VD> *rhs, const V& x1, real_type t1, real_type h )
diff --git a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
index 5286657..7036df1 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitEmbeddedRK.h
@@ -210,7 +210,8 @@ class OdeSolverExplicitEmbeddedRK :
 
             // Allocate memory
             auto stages = m_coefficients.c.size() + 1;
-            m_output = Output( stages, n, 2 );
+            Output output( stages, n, 2 );
+            m_output.swap( output );    // Does not throw
 
             m_h = this->initialStepSize();
             }
diff --git a/include/ode_num_int/ode/OdeSolverExplicitRK.h b/include/ode_num_int/ode/OdeSolverExplicitRK.h
index fd759bc..c15f786 100644
--- a/include/ode_num_int/ode/OdeSolverExplicitRK.h
+++ b/include/ode_num_int/ode/OdeSolverExplicitRK.h
@@ -126,7 +126,8 @@ class OdeSolverExplicitRK :
 
             // Allocate memory
             auto stages = m_coefficients.c.size() + 1;
-            m_output = Output( stages, n, 1 );
+            Output output( stages, n, 1 );
+            m_output.swap( output );    // Does not throw
 
             m_h = this->initialStepSize();
             }
-- 
2.43.0


From 0761926763a88e8951965758938cd33836bb4f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:07 +0000
Subject: [PATCH 46/60] fix: SimpleErrorEstimator: a part of the status message
 is silently lost if memory allocation fails

---
 include/ode_num_int/alg/SimpleErrorEstimator.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/ode_num_int/alg/SimpleErrorEstimator.h b/include/ode_num_int/alg/SimpleErrorEstimator.h
index 13522e0..15bf0ec 100644
--- a/include/ode_num_int/alg/SimpleErrorEstimator.h
+++ b/include/ode_num_int/alg/SimpleErrorEstimator.h
@@ -95,6 +95,7 @@ class SimpleErrorEstimator :
                 };
 
             std::ostringstream s;
+            s.exceptions( std::ios::badbit );   // Do not lose a part of the message silently if memory allocation fails
             s << "Satus: " << statusText(currentStatus()) << ", abs. error: " << m_absError << ", rel. error: " << m_relError;
             return s.str();
             }
-- 
2.43.0


From 2973e60213610622ea508316a3b92b046ae76389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 47/60] fix: cxx::exception: the program is terminated if there
 is no memory for the text of an exception

---
 include/ode_num_int/infra/cxx_exception.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/infra/cxx_exception.h b/include/ode_num_int/infra/cxx_exception.h
index fc6a0a8..0f3fed9 100644
--- a/include/ode_num_int/infra/cxx_exception.h
+++ b/include/ode_num_int/infra/cxx_exception.h
@@ -73,7 +73,7 @@ class exception : public std::exception
         ~exception() throw() {}
 
         /// Constructor that accepts a text string that contains a description of the exception
-        exception( const std::string& reason_ ) throw() : reason( reason_ ) {}
+        exception( const std::string& reason_ ) : reason( reason_ ) {}
 
         /// Returns a text string that contains a description of the exception
         const char *what() const throw() { return reason.c_str(); }
@@ -96,7 +96,7 @@ class nameEx : public nameBaseEx\
     public:\
         nameEx() throw() {}\
         ~nameEx() throw() {}\
-        nameEx( const ::std::string& reason_ ) throw() : nameBaseEx( reason_ ) {}\
+        nameEx( const ::std::string& reason_ ) : nameBaseEx( reason_ ) {}\
     };
 //@}
 
-- 
2.43.0


From 43dbf09bf974cc8eaab0bd525544cc06461688bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 48/60] fix: Rosenbrock solvers: call beforeStep() before the
 evaluations of the step, as other solvers do

---
 include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h | 6 +++---
 include/ode_num_int/ode/OdeSolverRosenbrock_W1.h    | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
index 6a73186..ce0604d 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_SW2_4.h
@@ -77,12 +77,12 @@ class OdeSolverRosenbrock_SW2_4 :
                 OpaqueTickCounter timer;    // deBUG
 
                 timer.Start();
-                initStep();     // Note: step size could have changed since previous attempt
-
                 auto rhs = this->odeRhs();
+                rhs->beforeStep( m_initialTime, m_initialState );
+
+                initStep();     // Note: step size could have changed since previous attempt
 
                 this->tstat0.add( timer.Lap() );
-                rhs->beforeStep( m_initialTime, m_initialState );
                 rhs->beforeStep2( m_initialOdeRhs );
 
                 auto ec = this->eventController();
diff --git a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
index 841b59f..cfcfb32 100644
--- a/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
+++ b/include/ode_num_int/ode/OdeSolverRosenbrock_W1.h
@@ -65,12 +65,12 @@ class OdeSolverRosenbrock_W1 :
             OpaqueTickCounter timer;    // deBUG
 
             timer.Start();
-            initStep();
-
             auto rhs = this->odeRhs();
+            rhs->beforeStep( m_initialTime, m_initialState );
+
+            initStep();
 
             this->tstat0.add( timer.Lap() );
-            rhs->beforeStep( m_initialTime, m_initialState );
             rhs->beforeStep2( m_initialOdeRhs );
 
             auto ec = this->eventController();
-- 
2.43.0


From 01b9f509f779137676b86e5bac85ab9df0010eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 49/60] fix: SparseMatrixFastData: a matrix assigned from a
 transposed one loses its elements, as they are not sorted

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 200ff92..3088ea9 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -301,11 +301,19 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             auto end = that.end();
             m_data.resize( std::distance( begin, end ) );
             std::copy( begin, end, m_data.begin() );
+
+            // Elements are searched for by bisection, but some matrices (e.g., a transposed one) list them in a different order
+            if( !std::is_sorted( m_data.begin(), m_data.end(), &matrix_data_type::less ) )
+                std::sort( m_data.begin(), m_data.end(), &matrix_data_type::less );
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
             return l.first < r;
             }
+
+        static bool less( const data_element_type& l, const data_element_type& r ) {
+            return l.first < r.first;
+            }
     };
 
 namespace SparseMatrixProxy {
-- 
2.43.0


From 1c7531e93c40dcbbb6b35ee37097290f99c23ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:02 +0000
Subject: [PATCH 50/60] fix: SparseMatrixTemplate: infNorm() ignores elements
 that are not a number

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 3088ea9..511ff05 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -1014,8 +1014,12 @@ class SparseMatrixTemplate : public D
         element_type infNorm() const
             {
             element_type result = element_type ();
-            for( const auto& v : *this )
-                result = std::max( result, std::fabs( v.second ) );
+            for( const auto& v : *this ) {
+                element_type a = std::fabs( v.second );
+                if( a != a )
+                    return a;   // A matrix containing NaN has the NaN norm
+                result = std::max( result, a );
+                }
             return result;
             }
 
-- 
2.43.0


From e8f6a72e0180ea28c6a74c8691d01e97e84ac3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:12 +0000
Subject: [PATCH 51/60] fix: SparseMatrixTemplate: assignment of a view of the
 same matrix loses elements; a failed assignment leaves elements beyond the
 size

---
 include/ode_num_int/la/SparseMatrixTemplate.h | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/ode_num_int/la/SparseMatrixTemplate.h b/include/ode_num_int/la/SparseMatrixTemplate.h
index 511ff05..92d12e7 100644
--- a/include/ode_num_int/la/SparseMatrixTemplate.h
+++ b/include/ode_num_int/la/SparseMatrixTemplate.h
@@ -65,13 +65,13 @@ class SparseMatrixData : public SparseMatrixTypes< ElementType >
 
         SparseMatrixData& operator=( const SparseMatrixData& that ) {
             if( this != &that )
-                priv::copyFrom( *this, that );
+                assign( that );
             return *this;
             }
 
         template< class That >
         SparseMatrixData& operator=( const That& that ) {
-            priv::copyFrom( *this, that );
+            assign( that );
             return *this;
             }
 
@@ -165,6 +165,14 @@ class SparseMatrixData : public SparseMatrixTypes< ElementType >
 
     private:
         Data m_data;
+
+        // Note: that may be a view of this matrix (e.g., a transposed one)
+        template< class That >
+        void assign( const That& that ) {
+            SparseMatrixData data;
+            priv::copyFrom( data, that );
+            m_data.swap( data.m_data );
+            }
     };
 
 template< class ElementType >
@@ -299,12 +307,13 @@ class SparseMatrixFastData : public SparseMatrixTypes< ElementType >
             {
             auto begin = that.begin();
             auto end = that.end();
-            m_data.resize( std::distance( begin, end ) );
-            std::copy( begin, end, m_data.begin() );
+            Data data( std::distance( begin, end ) );   // Note: that may be a view of this matrix
+            std::copy( begin, end, data.begin() );
 
             // Elements are searched for by bisection, but some matrices (e.g., a transposed one) list them in a different order
-            if( !std::is_sorted( m_data.begin(), m_data.end(), &matrix_data_type::less ) )
-                std::sort( m_data.begin(), m_data.end(), &matrix_data_type::less );
+            if( !std::is_sorted( data.begin(), data.end(), &matrix_data_type::less ) )
+                std::sort( data.begin(), data.end(), &matrix_data_type::less );
+            m_data.swap( data );
             }
 
         static bool compare( const data_element_type& l, const Index& r ) {
@@ -1063,9 +1072,10 @@ class SparseMatrixTemplate : public D
         template< class ThatD >
         ThisClass& doAssign( const SparseMatrixTemplate< ThatD >& that )
             {
-            m_size = that.size();
+            auto size = that.size();
             D& d = *this;
             d = that;
+            m_size = size;
             return *this;
             }
     };
-- 
2.43.0


From 8f33fde571b27f1176902f985225c58a80dce08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:25 +0000
Subject: [PATCH 52/60] fix: ErrorStats: statistics of numbers start with
 uninitialized values

---
 include/ode_num_int/util/ErrorStats.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index 02c9921..fe64788 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -14,7 +14,12 @@ class ErrorStats
     public:
         typedef X value_type;
 
-        ErrorStats() : m_sampleCount( 0 ) {}
+        ErrorStats() :
+            m_errorMax(),
+            m_errorSum(),
+            m_errorSquareSum(),
+            m_sampleCount( 0 )
+            {}
 
         ErrorStats( const ErrorStats& ) = default;
 
-- 
2.43.0


From 32782332b7c66e2511fbd5e9a67846a2e064d8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:25 +0000
Subject: [PATCH 53/60] fix: ErrorStats: mean square deviation is not that of
 the samples

---
 include/ode_num_int/util/ErrorStats.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ode_num_int/util/ErrorStats.h b/include/ode_num_int/util/ErrorStats.h
index fe64788..4964cfc 100644
--- a/include/ode_num_int/util/ErrorStats.h
+++ b/include/ode_num_int/util/ErrorStats.h
@@ -65,9 +65,10 @@ class ErrorStats
         X errorMeanSqareDev() const
             {
             ASSERT( m_sampleCount > 0 );
-            X result = ( math::sqr( m_errorSum ) + m_errorSquareSum );
+            X result = m_errorSquareSum;
             result *= 1. / m_sampleCount;
-            return std::sqrt( result );
+            result -= math::sqr( errorMeanValue() );
+            return std::sqrt( std::fabs( result ) );    // The variance may be slightly negative due to rounding
             }
 
         unsigned int sampleCount() const {
-- 
2.43.0


From 43f733a87d1fcdc06b2e53ee3f19986ac452b3f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:56 +0000
Subject: [PATCH 54/60] fix: LUFactorizer: proportional secant update does not
 satisfy the secant condition

---
 include/ode_num_int/lu/LUFactorizer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/lu/LUFactorizer.h b/include/ode_num_int/lu/LUFactorizer.h
index 73f8990..6f4c6cb 100644
--- a/include/ode_num_int/lu/LUFactorizer.h
+++ b/include/ode_num_int/lu/LUFactorizer.h
@@ -311,7 +311,6 @@ class LUFactorizer
             unsigned int n = m_p.size();
             m_r.resize( n );
             for( unsigned int i=0; i<n; ++i ) {
-                real_type beta = y[i];
                 real_type cl = 0;
                 for( unsigned int k=m_p[i]; k<i; ++k )
                     cl += L(i,k)*m_r[k];
@@ -321,6 +320,7 @@ class LUFactorizer
                     if( i >= m_q[k] )
                         cu += U(i,k)*s[k];
                 real_type c = cl + cu;
+                real_type beta = y[i] - c;
                 if( beta == 0 )
                     // Just compute r[i]
                     m_r[i] = cu;
-- 
2.43.0


From ec1bf76867f6ee076e61ea001df8aee6012f81af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:23 +0000
Subject: [PATCH 55/60] fix: Factory::registerType: a type without a generator
 remains if memory allocation fails

---
 include/ode_num_int/infra/Factory.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/Factory.h b/include/ode_num_int/infra/Factory.h
index 5b95653..edd1b7e 100644
--- a/include/ode_num_int/infra/Factory.h
+++ b/include/ode_num_int/infra/Factory.h
@@ -100,7 +100,7 @@ class Factory : public FactoryBase
             {
             auto& r = registry();
             ASSERT( r.count(typeId) == 0 );
-            r[typeId] = generator;
+            r.emplace( typeId, generator );   // Note: does not leave a type without generator if memory allocation fails
             }
 
         /// \brief Creates and returns new instance of specified type.
-- 
2.43.0


From 0916247d40ffcdefe1419353662e261051e8ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:23 +0000
Subject: [PATCH 56/60] fix: FactoryMixin::Registrator: a type is registered
 without knowing its identifier if memory allocation fails

---
 include/ode_num_int/infra/Factory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/Factory.h b/include/ode_num_int/infra/Factory.h
index edd1b7e..a45cf8f 100644
--- a/include/ode_num_int/infra/Factory.h
+++ b/include/ode_num_int/infra/Factory.h
@@ -191,8 +191,10 @@ class FactoryMixin : public TypeIdGetter< Interface >
                 ///
                 /// Calls Factory::registerType(), passing newInstance() as generator and \a typeId as the type identifier.
                 explicit Registrator( typename Factory<Interface>::TypeId typeId ) {
+                    // Note: the type must be either registered and know its identifier, or neither, so nothing may throw after registerType()
+                    auto& staticTypeId = PerTypeStorage::value< FactoryMixin<Type, Interface>, typename Factory<Interface>::TypeId >();
                     Factory<Interface>::registerType( typeId, &FactoryMixin<Type, Interface>::newInstance );
-                    PerTypeStorage::value< FactoryMixin<Type, Interface>, typename Factory<Interface>::TypeId >() = typeId;
+                    staticTypeId.swap( typeId );
                     }
             };
 
-- 
2.43.0


From fc5fa4e2bc48eb2b1b63e004cb67b93c991673b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:13 +0000
Subject: [PATCH 57/60] fix: IdentifiedElements::add: an empty callback remains
 in the sequence if memory allocation fails

---
 include/ode_num_int/infra/cxx_observers.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ode_num_int/infra/cxx_observers.h b/include/ode_num_int/infra/cxx_observers.h
index 6aa380d..e6a87f9 100644
--- a/include/ode_num_int/infra/cxx_observers.h
+++ b/include/ode_num_int/infra/cxx_observers.h
@@ -42,7 +42,7 @@ class IdentifiedElements
         int add( T element )
             {
             int id = newId();
-            m_elements[id] = element;
+            m_elements.emplace( id, std::move( element ) );
             return id;
             }
 
-- 
2.43.0


From 3f9a986c37b1b1da4611a63c59ab49eff4d829a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:13 +0000
Subject: [PATCH 58/60] fix: NewtonSolverInterface: replacing the iteration
 performer or the descent direction loses the mapping and other components

---
 .../alg/interfaces/NewtonSolverInterface.h    | 50 +++++++++++++------
 1 file changed, 36 insertions(+), 14 deletions(-)

diff --git a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
index e3659da..fd83197 100644
--- a/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
+++ b/include/ode_num_int/alg/interfaces/NewtonSolverInterface.h
@@ -54,9 +54,28 @@ class NewtonSolverInterface :
 
         NewtonSolverInterface<VD>& setComponent( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf )
             {
+            // Components missing in the new iteration performer are those of the old one
+            auto oldItperf = this->iterationPerformer();
+            if( oldItperf   &&   itperf   &&   itperf != oldItperf ) {
+                if( !itperf->errorEstimator() )
+                    itperf->setErrorEstimator( oldItperf->errorEstimator() );
+                auto ddir = itperf->newtonDescentDirection();
+                if( !ddir )
+                    itperf->setNewtonDescentDirection( oldItperf->newtonDescentDirection() );
+                else if( !ddir->jacobianProvider()   &&   oldItperf->newtonDescentDirection() )
+                    ddir->setJacobianProvider( oldItperf->newtonDescentDirection()->jacobianProvider() );
+                if( !itperf->newtonLinearSearch() )
+                    itperf->setNewtonLinearSearch( oldItperf->newtonLinearSearch() );
+                if( !itperf->mapping() )
+                    itperf->setMapping( oldItperf->mapping() );
+                if( auto ddir = itperf->newtonDescentDirection() )
+                    ddir->setMapping( itperf->mapping() );
+                if( auto linearSearch = itperf->newtonLinearSearch() )
+                    linearSearch->setMapping( itperf->mapping() );
+                }
             this->setIterationPerformer( itperf );
             auto rs = this->regularizationStrategy();
-            if( rs ) {
+            if( rs   &&   itperf ) {
                 rs->setErrorEstimator( itperf->errorEstimator() );
                 rs->setNewtonDescentDirection( itperf->newtonDescentDirection() );
                 }
@@ -89,7 +108,13 @@ class NewtonSolverInterface :
             {
             auto itperf = this->iterationPerformer();
             if( itperf ) {
-                ddir->setMapping( itperf->mapping() );
+                if( ddir ) {
+                    // Keep the Jacobian provider, unless the new descent direction has got its own one
+                    auto oldDdir = itperf->newtonDescentDirection();
+                    if( oldDdir   &&   !ddir->jacobianProvider() )
+                        ddir->setJacobianProvider( oldDdir->jacobianProvider() );
+                    ddir->setMapping( itperf->mapping() );
+                    }
                 itperf->setNewtonDescentDirection( ddir );
                 }
             auto rs = this->regularizationStrategy();
@@ -154,8 +179,9 @@ class NewtonSolverInterface :
                 auto ddir = itperf->newtonDescentDirection();
                 result["ddir"] = ddir;
                 if( ddir ) {
-                    result["jacobian"] = ddir->jacobianProvider();
-                    result["jtrim"] = ddir->jacobianProvider()->jacobianTrimmer();
+                    auto jp = ddir->jacobianProvider();
+                    result["jacobian"] = jp;
+                    result["jtrim"] = jp ?   jp->jacobianTrimmer() :   std::shared_ptr< JacobianTrimmer<VD> >();
                     }
                 result["linsearch"] = itperf->newtonLinearSearch();
                 result["err"] = itperf->errorEstimator();
@@ -167,7 +193,9 @@ class NewtonSolverInterface :
             {
             OptionalParameters::maybeSetParameter(
                         parameters, "itperf",
-                        std::bind( &NewtonSolverInterface<VD>::setIterationPerformer, this, std::placeholders::_1 ) );
+                        [this]( const std::shared_ptr< NewtonIterationPerformer<VD> >& itperf ) {
+                            this->setComponent( itperf );
+                            } );
             auto itperf = this->iterationPerformer();
             OptionalParameters::maybeSetParameter(
                         parameters, "regularizer",
@@ -185,15 +213,9 @@ class NewtonSolverInterface :
             if( itperf ) {
                 OptionalParameters::maybeSetParameter(
                             parameters, "ddir",
-                            [this, itperf]( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir )
-                            {
-                            if( ddir )
-                                ddir->setMapping( itperf->mapping() );
-                            itperf->setNewtonDescentDirection( ddir );
-                            auto rs = this->regularizationStrategy();
-                            if( rs )
-                                rs->setNewtonDescentDirection( ddir );
-                            } );
+                            [this]( const std::shared_ptr< NewtonDescentDirection<VD> >& ddir ) {
+                                this->setComponent( ddir );
+                                } );
                 auto ddir = itperf->newtonDescentDirection();
                 if( ddir ) {
                     OptionalParameters::maybeSetParameter(
-- 
2.43.0


From a1628180f31faf55eac3d7a3d1e9cd416231d87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:53:13 +0000
Subject: [PATCH 59/60] fix: OdeSolverImplicitEuler: notifications are doubled,
 lost, or sent to a destroyed solver when components of the Newton solver are
 replaced

---
 .../ode_num_int/ode/OdeSolverImplicitEuler.h  | 63 +++++++++++++++----
 1 file changed, 50 insertions(+), 13 deletions(-)

diff --git a/include/ode_num_int/ode/OdeSolverImplicitEuler.h b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
index 9a0c55a..0300e89 100644
--- a/include/ode_num_int/ode/OdeSolverImplicitEuler.h
+++ b/include/ode_num_int/ode/OdeSolverImplicitEuler.h
@@ -31,24 +31,12 @@ class OdeSolverImplicitEuler :
             m_hardResetRequested( true )
             {
             auto setupNewtonSolver = [this]() {
-                auto newton = this->newtonSolver();
                 // Set vector mapping for the Newton's solver
                 if( m_reorder )
                     this->newtonSolver()->setComponent( m_reorder );
                 else
                     this->newtonSolver()->setComponent( m_mapping4Newton );
-               cxx::forwardObservers( newton->iterationObservers, this->iterationObservers );
-                if( auto itperf = newton->iterationPerformer() ) {
-                    // Forward jacobian refresh observers
-                    // Note: capture plain pointer, because the callback is owned by itperf
-                    auto pitperf = itperf.get();
-                    auto setupDdir = [this, pitperf] {
-                        if( auto ddir = pitperf->newtonDescentDirection() )
-                            cxx::forwardObservers( ddir->jacobianRefreshObservers, this->jacobianRefreshObservers );
-                        };
-                    itperf->onNewtonDescentDirectionChanged( setupDdir );
-                    setupDdir();
-                    }
+                observeNewtonSolver();
                 };
             setupNewtonSolver();
             this->onNewtonSolverChanged( setupNewtonSolver );
@@ -224,6 +212,55 @@ class OdeSolverImplicitEuler :
         V m_buf;
         V m_eqnbuf;
         bool m_hardResetRequested;
+
+        // Notifications of the Newton solver, its iteration performer and descent direction are forwarded
+        // only as long as the corresponding connection exists: it is replaced together with the component.
+        // Note: the components may outlive this object; they are not owned by callbacks.
+        typedef std::shared_ptr<int> Connection;
+        Connection m_newtonConnection;
+        Connection m_itperfConnection;
+        Connection m_ddirConnection;
+
+        void observeNewtonSolver()
+            {
+            m_newtonConnection = std::make_shared<int>();
+            std::weak_ptr<int> connection = m_newtonConnection;
+            auto newton = this->newtonSolver();
+            newton->iterationObservers.add( [this, connection]( unsigned int iterationNumber, const NewtonSolverInterface<VD> *solver ) -> bool {
+                return !connection.expired()   &&   this->iterationObservers( iterationNumber, solver );
+                } );
+            newton->onNewtonIterationPerformerChanged( [this, connection] {
+                if( !connection.expired() )
+                    observeIterationPerformer();
+                } );
+            observeIterationPerformer();
+            }
+
+        void observeIterationPerformer()
+            {
+            m_itperfConnection = std::make_shared<int>();
+            std::weak_ptr<int> connection = m_itperfConnection;
+            auto itperf = this->newtonSolver()->iterationPerformer();
+            if( itperf )
+                itperf->onNewtonDescentDirectionChanged( [this, connection] {
+                    if( !connection.expired() )
+                        observeDescentDirection();
+                    } );
+            observeDescentDirection();
+            }
+
+        void observeDescentDirection()
+            {
+            m_ddirConnection = std::make_shared<int>();
+            std::weak_ptr<int> connection = m_ddirConnection;
+            auto itperf = this->newtonSolver()->iterationPerformer();
+            auto ddir = itperf ?   itperf->newtonDescentDirection() :   std::shared_ptr< NewtonDescentDirection<VD> >();
+            if( ddir )
+                ddir->jacobianRefreshObservers.add( [this, connection]( bool start ) {
+                    if( !connection.expired() )
+                        this->jacobianRefreshObservers( start );
+                    } );
+            }
     };
 
 
-- 
2.43.0


From 4c4d04dac8e90f3c821ec44700ce109daa3cb4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:35 +0000
Subject: [PATCH 60/60] fix: SimpleErrorEstimator: an infinite solution is
 reported as converged when the iterations start from zero

---
 include/ode_num_int/alg/SimpleErrorEstimator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ode_num_int/alg/SimpleErrorEstimator.h b/include/ode_num_int/alg/SimpleErrorEstimator.h
index 15bf0ec..ab0fa86 100644
--- a/include/ode_num_int/alg/SimpleErrorEstimator.h
+++ b/include/ode_num_int/alg/SimpleErrorEstimator.h
@@ -5,6 +5,8 @@
 
 #include "./interfaces/ErrorEstimator.h"
 
+#include <cmath>
+#include <limits>
 #include <sstream>
 
 namespace ctm {
@@ -40,7 +42,11 @@ class SimpleErrorEstimator :
             {
             V dx = solution - m_currentSolution;
             real_type xnorm = m_currentSolution.infNorm();
-            m_relError = xnorm > 0 ?   dx.infNorm() / xnorm :   0;
+            real_type dxnorm = dx.infNorm();
+            if( xnorm > 0 )
+                m_relError = dxnorm / xnorm;
+            else    // An infinite solution is not a converged one, whatever it has started from
+                m_relError = std::isfinite( dxnorm ) ?   0 :   std::numeric_limits<real_type>::infinity();
             m_currentSolution = solution;
             m_absError = residual.infNorm();
             this->errorObservers( solution, residual, this );
-- 
2.43.0

