From ffe955d5a569b6c477c99af9a4393dcecc8fd06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 01/38] fix: release the slack bounds when soft constraints are
 requested

The bounds of the slack variable were pinned to zero when the controller was
built and never released again, NLParameters::hard_constraints=false had no
effect.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 19453fc..4ad6670 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -181,6 +181,12 @@ namespace mpc
                 lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
                 ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
             }
+            else
+            {
+                // in case of soft constraints the slack variable can assume any positive value
+                lb[((ph() * nx()) + (nu() * ch()) + 1) - 1] = 0;
+                ub[((ph() * nx()) + (nu() * ch()) + 1) - 1] = std::numeric_limits<float>::infinity();
+            }
 
             enable_warm_start = nl_param->enable_warm_start;
 
-- 
2.43.0


From 2cef87b15868e1b4564067f767092986ef7ad1c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 02/38] fix: apply the time limit of the latest parameters

A time limit set once could not be removed any more: parameters without a time
limit left the previous one in the solver.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 4ad6670..9546468 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -136,10 +136,8 @@ namespace mpc
 
             innerOpt->set_x_weights(1.0);
 
-            if (nl_param->time_limit > 0)
-            {
-                innerOpt->set_maxtime(nl_param->time_limit);
-            }
+            // a limit which is not positive means no time limit
+            innerOpt->set_maxtime(nl_param->time_limit);
 
             innerOpt->set_maxeval(nl_param->maximum_iteration);
 
-- 
2.43.0


From 06b1dba702e7129be7160930ce764fa0cc8cd51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 03/38] fix: size the equality tolerances with the run-time
 dimension

Size(Teq) is -1 for a controller with dynamic dimensions, registering user
equality constraints aborted.
---
 include/mpc/NLMPC.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index 5bbd177..d4e12d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -251,7 +251,7 @@ namespace mpc
             const typename IDimensionable<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)>::EConFunHandle handle, const float tol = 1e-10)
         {
             cvec<Teq> tol_vec;
-            tol_vec = cvec<Teq>::Ones(Size(Teq));
+            tol_vec = cvec<Teq>::Ones(eq());
 
             auto res = conF->setEqConstraints(handle, tol);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-- 
2.43.0


From cd47db249941b83ccb0fe8891a8a04b37dcd8111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 04/38] fix: accept every slice inside the horizon and no other

Slices not starting at the beginning of the horizon were refused whenever
start + end exceeded the horizon, slices with a negative start were accepted
and led to out of bounds accesses.
---
 include/mpc/IMPC.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index 071beb9..b485572 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -255,7 +255,7 @@ namespace mpc
          */
         bool isPredictionHorizonSliceValid(const HorizonSlice& slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ph() || slice.end > (int)ph() || slice.start + slice.end > (int)ph())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ph())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The prediction horizon slice is out of bounds" << std::endl;
                 return false;
@@ -273,7 +273,7 @@ namespace mpc
          */
         bool isControlHorizonSliceValid(const HorizonSlice &slice)
         {
-            if (slice.start >= slice.end || slice.start > (int)ch() || slice.end > (int)ch() || slice.start + slice.end > (int)ch())
+            if (slice.start < 0 || slice.start >= slice.end || slice.end > (int)ch())
             {
                 Logger::instance().log(Logger::log_type::ERROR) << "The control horizon slice is out of bounds" << std::endl;
                 return false;
-- 
2.43.0


From b7ff3d7c174aebbfdb058b1d3d6a2eb9afff115e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 05/38] fix: measure the solution time with a monotonic clock

high_resolution_clock is the system clock with libstdc++, adjustments of the
wall clock during a step produced wrong or negative durations.
---
 include/mpc/Profiler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index ff3e867..c0d394c 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -123,7 +123,7 @@ namespace mpc
      * \class Profiler
      * \brief Class for measuring solution execution time and collecting statistics.
      *
-     * The Profiler class measures the execution time of a solution using a high-resolution clock.
+     * The Profiler class measures the execution time of a solution using a monotonic clock.
      * It keeps track of the minimum, maximum, average, and standard deviation of the solution time,
      * as well as the number of solutions and the total time.
      */
@@ -153,7 +153,7 @@ namespace mpc
          */
         void solutionStart()
         {
-            startTime = std::chrono::high_resolution_clock::now();
+            startTime = std::chrono::steady_clock::now();
         }
 
         /**
@@ -166,7 +166,7 @@ namespace mpc
         template <int Tnu>
         std::chrono::duration<double> solutionEnd(const Result<Tnu> &result)
         {
-            auto stopTime = std::chrono::high_resolution_clock::now();
+            auto stopTime = std::chrono::steady_clock::now();
             auto elapsedTime = std::chrono::duration<double>(stopTime - startTime);
 
             // update the statistics about the result type
@@ -228,7 +228,7 @@ namespace mpc
             }
         }
 
-        std::chrono::time_point<std::chrono::high_resolution_clock> startTime;
+        std::chrono::time_point<std::chrono::steady_clock> startTime;
         SolutionStats stats;
     };
 }
\ No newline at end of file
-- 
2.43.0


From 70089da02d2debf2799fb2c6449f4e6410c3cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 06/38] fix: compute the standard deviation of the solution
 times

The update mixed an integer division with the residual from the new average
only, the result was not the standard deviation of the recorded times.
---
 include/mpc/Profiler.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index c0d394c..7543f01 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -213,6 +213,7 @@ namespace mpc
 
             if (stats.numberOfSolutions > 0)
             {
+                double delta_old = time.count() - stats.averageSolutionTime.count();
                 stats.averageSolutionTime = (1.0 / stats.numberOfSolutions) * (time + (stats.numberOfSolutions - 1) * stats.averageSolutionTime);
 
                 if(stats.numberOfSolutions == 1)
@@ -221,9 +222,10 @@ namespace mpc
                 }
                 else
                 {
-                    double residual = (stats.numberOfSolutions/(stats.numberOfSolutions - 1)) * (pow(time.count() - stats.averageSolutionTime.count(), 2));
-                    double stdDev_old = (stats.numberOfSolutions - 2) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((stdDev_old + residual) / (stats.numberOfSolutions - 1));
+                    // running update of the sum of the squared residuals
+                    double residual = delta_old * (time.count() - stats.averageSolutionTime.count());
+                    double residuals_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
+                    stats.standardDeviation = sqrt((residuals_old + residual) / stats.numberOfSolutions);
                 }
             }
         }
-- 
2.43.0


From 2c607190ee52d573b76d454ed7cf7d8c6ed862e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 07/38] fix: do not scale the measured initial state

Only the optimization variables are scaled, the measured state is given in
physical units: scaling it too made the predictions start somewhere else.
---
 include/mpc/NLMPC/Mapping.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/NLMPC/Mapping.hpp b/include/mpc/NLMPC/Mapping.hpp
index 600ab01..c001fda 100644
--- a/include/mpc/NLMPC/Mapping.hpp
+++ b/include/mpc/NLMPC/Mapping.hpp
@@ -202,9 +202,10 @@ namespace mpc
                 Xmat.row(i) = x.middleRows(((i - 1) * nx()), nx()).transpose();
             }
 
+            // the initial condition is already expressed in physical units
             for (int i = 0; i < Xmat.cols(); i++)
             {
-                Xmat.col(i) /= 1.0 / state_scaling(i);
+                Xmat.col(i).tail(ph()) /= 1.0 / state_scaling(i);
             }
 
             // TODO add disturbaces manipulated vars
-- 
2.43.0


From ff076476be9a48338fdb259614c64b430fda6e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 08/38] fix: scale the gradient of the objective with respect
 to the states

The derivative with respect to a scaled state is the derivative with respect to
the physical one times its scaling, as for the constraints.
---
 include/mpc/NLMPC/Objective.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index d982d3d..131824f 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -102,11 +102,6 @@ namespace mpc
             {
                 computeJacobian(Xmat, Umat, c.value, e);
 
-                for (int i = 0; i < Xmat.cols(); i++)
-                {
-                    Xmat.col(i) /= 1.0 / mapping->StateScaling()(i);
-                }
-
                 int counter = 0;
 
                 // #pragma omp parallel for
@@ -114,7 +109,7 @@ namespace mpc
                 {
                     for (int i = 0; i < (int)Jx.rows(); i++)
                     {
-                        c.grad(counter++) = Jx(i, j);
+                        c.grad(counter++) = Jx(i, j) * mapping->StateScaling()(i);
                     }
                 }
 
-- 
2.43.0


From 6bb01369de9d6c67ba6a1c76d6815bd485989ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 09/38] fix: express the bounds in the scaled variables of the
 solver

The bounds given by the user are in physical units, they were handed to the
solver as they are even if its variables are scaled.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 9546468..0d366e0 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -100,6 +100,9 @@ namespace mpc
 
             mapping = map;
             model = sysModel;
+
+            // the scaling could have been changed
+            updateBounds();
         }
 
         /**
@@ -632,6 +635,23 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Get the scaling factor of an optimization variable
+         *
+         * @param i index of the variable in the optimization vector
+         * @return double scaling factor (physical units over solver units)
+         */
+        double variableScaling(size_t i)
+        {
+            if (!mapping || i >= (ph() * nx()) + (nu() * ch()))
+            {
+                // the slack variable is never scaled
+                return 1.0;
+            }
+
+            return i < (ph() * nx()) ? mapping->StateScaling()(i % nx()) : mapping->InputScaling()((i - (ph() * nx())) % nu());
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -641,6 +661,13 @@ namespace mpc
             std::vector<double> lb_vec(lb.data(), lb.data() + lb.rows() * lb.cols());
             std::vector<double> ub_vec(ub.data(), ub.data() + ub.rows() * ub.cols());
 
+            // the bounds are given in physical units while the solver works on scaled variables
+            for (size_t i = 0; i < lb_vec.size(); i++)
+            {
+                lb_vec[i] /= variableScaling(i);
+                ub_vec[i] /= variableScaling(i);
+            }
+
             innerOpt->set_lower_bounds(lb_vec);
             innerOpt->set_upper_bounds(ub_vec);
 
-- 
2.43.0


From fe32752eda4731e97042461a962e42d7c3bd23d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 10/38] fix: express the starting guess in the scaled variables
 of the solver

The guess was built from the measured state and the last input in physical
units, and a previous solution was reused even if the scaling had been changed
since.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 0d366e0..f50a798 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -72,6 +72,9 @@ namespace mpc
             COND_RESIZE_CVEC(sizer,opt_vector, ((ph() * nx()) + (nu() * ch()) + 1));
             opt_vector.setZero();
 
+            COND_RESIZE_CVEC(sizer,opt_scaling, ((ph() * nx()) + (nu() * ch()) + 1));
+            opt_scaling.setOnes();
+
             setParameters(NLParameters());
 
             COND_RESIZE_CVEC(sizer,result.cmd, nu());
@@ -433,7 +436,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j);
+                        opt_vector[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
                     }
                 }
 
@@ -441,11 +444,24 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j);
+                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
             }
-            
+            else
+            {
+                // the scaling could be different from the one used to compute the previous solution
+                for (size_t i = 0; i < (size_t)opt_vector.size(); i++)
+                {
+                    opt_vector[i] *= opt_scaling[i] / variableScaling(i);
+                }
+            }
+
+            for (size_t i = 0; i < (size_t)opt_vector.size(); i++)
+            {
+                opt_scaling[i] = variableScaling(i);
+            }
+
             // fill the remaining elements with the previous state starting from
             // the third element of the prediction horizon 
             // (we shift the sequence to the left by one step)
@@ -886,7 +902,7 @@ namespace mpc
         std::shared_ptr<Model<sizer>> model;
 
         cvec<(sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1>  lb, ub;
-        cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> opt_vector;
+        cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> opt_vector, opt_scaling;
         bool is_first_iteration = true;
         bool enable_warm_start = false;
     };
-- 
2.43.0


From d572d03b6501a198e8a930dfb8ec5a35825ba03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:16 +0000
Subject: [PATCH 11/38] fix: bring the starting guess within the bounds

A measured state, a last input or a previous solution outside of the bounds
made the solver refuse the starting point, every such step failed.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index f50a798..38d13db 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -517,6 +517,21 @@ namespace mpc
             // put the slack variable in the optimization vector
             optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
 
+            // the solver refuses to start from outside of the bounds
+            std::vector<double> lb_solver = innerOpt->get_lower_bounds();
+            std::vector<double> ub_solver = innerOpt->get_upper_bounds();
+            for (size_t i = 0; i < optX0.size(); i++)
+            {
+                if (optX0[i] < lb_solver[i])
+                {
+                    optX0[i] = lb_solver[i];
+                }
+                else if (optX0[i] > ub_solver[i])
+                {
+                    optX0[i] = ub_solver[i];
+                }
+            }
+
             // let's start the optimization
             bool optimizationSuccess = false;
 
-- 
2.43.0


From 75ecc28a40fdf048b73ef6544a857c11c8148a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 12/38] fix: keep the previous solution until the next
 successful step

The starting guess of a step was written over the solution kept for the warm
start, also when the step failed, and a cold start inherited the slack of the
previous step.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 32 +++++++++++++++++++------------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 38d13db..79c4d97 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -427,6 +427,18 @@ namespace mpc
             std::vector<double> optX0;
             optX0.assign(((ph() * nx()) + (nu() * ch()) + 1),0.0);
 
+            // the previous solution is kept until the next successful step
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> guess;
+            COND_RESIZE_CVEC(sizer,guess, ((ph() * nx()) + (nu() * ch()) + 1));
+            guess.setZero();
+
+            cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> scaling;
+            COND_RESIZE_CVEC(sizer,scaling, ((ph() * nx()) + (nu() * ch()) + 1));
+            for (size_t i = 0; i < (size_t)scaling.size(); i++)
+            {
+                scaling[i] = variableScaling(i);
+            }
+
             if(is_first_iteration || !enable_warm_start)
             {
                 // the whole optimization vector is initialized with the initial state x0
@@ -436,7 +448,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        opt_vector[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
+                        guess[(i * nx()) + j] = x0(j) / mapping->StateScaling()(j);
                     }
                 }
 
@@ -444,7 +456,7 @@ namespace mpc
                 {
                     for (size_t j = 0; j < nu(); j++)
                     {
-                        opt_vector[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
+                        guess[(ph() * nx()) + (i * nu()) + j] = u0(j) / mapping->InputScaling()(j);
                     }
                 }
             }
@@ -453,15 +465,10 @@ namespace mpc
                 // the scaling could be different from the one used to compute the previous solution
                 for (size_t i = 0; i < (size_t)opt_vector.size(); i++)
                 {
-                    opt_vector[i] *= opt_scaling[i] / variableScaling(i);
+                    guess[i] = opt_vector[i] * (opt_scaling[i] / scaling[i]);
                 }
             }
 
-            for (size_t i = 0; i < (size_t)opt_vector.size(); i++)
-            {
-                opt_scaling[i] = variableScaling(i);
-            }
-
             // fill the remaining elements with the previous state starting from
             // the third element of the prediction horizon 
             // (we shift the sequence to the left by one step)
@@ -471,10 +478,10 @@ namespace mpc
                 {
                     if(i == ph() - 1)
                     {
-                        optX0[(i * nx()) + j] = opt_vector[(i * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[(i * nx()) + j];
                     }
                     else{
-                        optX0[(i * nx()) + j] = opt_vector[((i+1) * nx()) + j];
+                        optX0[(i * nx()) + j] = guess[((i+1) * nx()) + j];
                     }
                 }
             }
@@ -485,7 +492,7 @@ namespace mpc
             // convert from the optimized vector to the vectorized manipulated variable
             // using the mapping matrix Iz2u
             cvec<(sizer.ph * sizer.nu)> tmp_mult;
-            tmp_mult = mapping->Iz2u() * opt_vector.middleRows((ph() * nx()), (nu() * ch()));
+            tmp_mult = mapping->Iz2u() * guess.middleRows((ph() * nx()), (nu() * ch()));
 
             // fill the remaining elements with the previous control action starting from
             // the third element of the control horizon
@@ -515,7 +522,7 @@ namespace mpc
             }
 
             // put the slack variable in the optimization vector
-            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = currentSlack;
+            optX0[((ph() * nx()) + (nu() * ch()) + 1) - 1] = guess[((ph() * nx()) + (nu() * ch()) + 1) - 1];
 
             // the solver refuses to start from outside of the bounds
             std::vector<double> lb_solver = innerOpt->get_lower_bounds();
@@ -541,6 +548,7 @@ namespace mpc
                 // convert from std vector to eigen vector by copying the data
                 Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
                 optimizationSuccess = true;
+                opt_scaling = scaling;
                 is_first_iteration = false;
 
                 // check if the solution vector is feasible or not
-- 
2.43.0


From ed163c924f99bf4c294be6de92fc79b0006e7a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 13/38] fix: report every failed step as an error

Exceptions of user functions evaluated after the search, or not derived from
std::exception, escaped from optimize(), and solutions which are not finite
were returned and used by the next warm start.
---
 include/mpc/NLMPC/NLOptimizer.hpp | 64 ++++++++++++++++++++++++-------
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 79c4d97..40eb04a 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -542,19 +542,28 @@ namespace mpc
             // let's start the optimization
             bool optimizationSuccess = false;
 
+            mat<(sizer.ph + 1), sizer.nx> Xmat;
+            COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
+
+            mat<(sizer.ph + 1), sizer.nu> Umat;
+            COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
+
+            mat<(sizer.ph + 1), sizer.ny> Ymat;
+            COND_RESIZE_MAT(sizer,Ymat,(ph() + 1), ny());
+
+            double slack = 0;
+
             try
             {
                 std::vector<double> opt_v = innerOpt->optimize(optX0);
                 // convert from std vector to eigen vector by copying the data
-                Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size()).swap(opt_vector);
-                optimizationSuccess = true;
-                opt_scaling = scaling;
-                is_first_iteration = false;
+                cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> solution;
+                solution = Eigen::Map<cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)>>(opt_v.data(), opt_v.size());
 
                 // check if the solution vector is feasible or not
-                r.is_feasible = conFunc->isFeasible(opt_vector);
+                bool is_feasible = conFunc->isFeasible(solution);
 
-                if (r.is_feasible)
+                if (is_feasible)
                 {
                     Logger::instance().log(Logger::log_type::DETAIL)
                         << "Optimal solution found"
@@ -566,6 +575,29 @@ namespace mpc
                         << "Optimal solution found but not feasible"
                         << std::endl;
                 }
+
+                mapping->unwrapVector(solution, x0, Xmat, Umat, slack);
+                Ymat = model->getOutput(Xmat, Umat);
+
+                if (std::isfinite(innerOpt->last_optimum_value()) &&
+                    solution.allFinite() && Xmat.allFinite() && Umat.allFinite() && Ymat.allFinite())
+                {
+                    optimizationSuccess = true;
+                    r.is_feasible = is_feasible;
+
+                    // this is the solution used by the next warm start
+                    opt_scaling = scaling;
+                    opt_vector = solution;
+                    is_first_iteration = false;
+                }
+                else
+                {
+                    Logger::instance().log(Logger::log_type::DETAIL)
+                        << "No optimal solution found: the solution is not finite"
+                        << std::endl;
+
+                    r.solver_status_msg = "The solution is not finite";
+                }
             }
             catch (nlopt::roundoff_limited &e)
             {
@@ -589,6 +621,16 @@ namespace mpc
                 optimizationSuccess = false;
                 r.solver_status_msg = "Internal solver error: " + std::string(e.what());
             }
+            catch (...)
+            {
+                Logger::instance().log(Logger::log_type::DETAIL)
+                    << "No optimal solution found: unknown exception"
+                    << std::endl;
+
+                // something which is not a standard exception has been thrown by the user functions
+                optimizationSuccess = false;
+                r.solver_status_msg = "Internal solver error: unknown exception";
+            }
 
             if (optimizationSuccess)
             {
@@ -613,13 +655,7 @@ namespace mpc
                     << r.cost
                     << std::endl;
 
-                mat<(sizer.ph + 1), sizer.nx> Xmat;
-                COND_RESIZE_MAT(sizer,Xmat,(ph() + 1), nx());
-
-                mat<(sizer.ph + 1), sizer.nu> Umat;
-                COND_RESIZE_MAT(sizer,Umat,(ph() + 1), nu());
-
-                mapping->unwrapVector(opt_vector, x0, Xmat, Umat, currentSlack);
+                currentSlack = slack;
 
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Optimal predicted state vector\n"
@@ -634,7 +670,7 @@ namespace mpc
 
                 sequence.state = Xmat.block(0, 0, ph()+1, nx());
                 sequence.input = Umat.block(0, 0, ph()+1, nu());
-                sequence.output = model->getOutput(Xmat, Umat).block(0, 0, ph()+1, ny());
+                sequence.output = Ymat.block(0, 0, ph()+1, ny());
             }
             else
             {
-- 
2.43.0


From 7780b3585d046a48d90b557c6fe5a2fe8eccae70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 14/38] fix: constraints which are not a number are not
 feasible

---
 include/mpc/NLMPC/Constraints.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 6aa4b44..8234348 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -161,7 +161,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all inequality constraints are satisfied (<= 0)
-                if ((cineq_user.array() > ieq_tolerance).any())
+                if (!(cineq_user.array() <= ieq_tolerance).all())
                 {
                     return false;
                 }
@@ -180,7 +180,7 @@ namespace mpc
                     << std::endl;
 
                 // Check if all equality constraints are satisfied (== 0)
-                if (ceq_user.array().abs().maxCoeff() > eq_tolerance)
+                if (!(ceq_user.array().abs() <= eq_tolerance).all())
                 {
                     return false;
                 }
-- 
2.43.0


From 86615157b894177253740de64ad7ff352ccd7369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 15/38] fix: differentiate the inequalities through the last
 input of the horizon

The last row of the input sequence repeats the previous one, the derivative of
the inequality constraints ignored it.
---
 include/mpc/NLMPC/Constraints.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 8234348..355988e 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -688,6 +688,11 @@ namespace mpc
                 {
                     double du = dv * Ua.array()(j);
                     u0(i, j) += du;
+                    if (i == ph() - 1)
+                    {
+                        // the last input of the horizon is the same as the previous one
+                        u0(ph(), j) += du;
+                    }
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
                     COND_RESIZE_CVEC(sizer, f_minus, ineq());
@@ -696,10 +701,18 @@ namespace mpc
                     ieqUser(f_plus, x0, y0_plus, u0, e0);
 
                     u0(i, j) -= 2 * du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) -= 2 * du;
+                    }
                     mat<(sizer.ph + 1), sizer.ny> y0_minus = model->getOutput(x0, u0);
                     ieqUser(f_minus, x0, y0_minus, u0, e0);
 
                     u0(i, j) += du;
+                    if (i == ph() - 1)
+                    {
+                        u0(ph(), j) += du;
+                    }
 
                     cvec<sizer.ineq> df = (f_plus - f_minus) / (2 * du);
                     Jconmv.middleCols(i * nu(), nu()).col(j) = df;
-- 
2.43.0


From 696c91ae7163e68fa6d54bf95f478e9f4813a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 16/38] fix: use a meaningful step for the derivatives with
 respect to the slack

With a slack close to zero the step was below the floating point resolution of
the functions (about 1e-16 and 1e-12), the derivatives were noise.
---
 include/mpc/NLMPC/Constraints.hpp | 2 +-
 include/mpc/NLMPC/Objective.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 355988e..11d77ef 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -719,7 +719,7 @@ namespace mpc
                 }
             }
 
-            double ea = fmax(dv, fabs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             cvec<sizer.ineq> f1, f2;
             COND_RESIZE_CVEC(sizer, f1, ineq());
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 131824f..7f1c5fc 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -244,7 +244,7 @@ namespace mpc
                 Jmv(j, (ph() - 1)) = df;
             }
 
-            double ea = fmax(1e-6, abs(e0));
+            double ea = fmax(1.0, fabs(e0));
             double de = ea * dv;
             double f1 = fuser(x0, model->getOutput(x0, u0), u0, e0 + de);
             double f2 = fuser(x0, model->getOutput(x0, u0), u0, e0 - de);
-- 
2.43.0


From 1a4971e7160307b216e35016e6ed61ec46826a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:40 +0000
Subject: [PATCH 17/38] fix: replace a constraint which is registered again

Registering a model or a user constraint again added a second copy of it to the
solver with its own tolerances (or was refused once the solver had too many
equality constraints).
---
 include/mpc/NLMPC/NLOptimizer.hpp | 84 ++++++++++++++++++++++++-------
 1 file changed, 66 insertions(+), 18 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 40eb04a..d68ee31 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -241,14 +241,15 @@ namespace mpc
         {
             checkOrQuit();
 
+            auto previous = state_eq;
+
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                state_eq.handle = NLOptimizer::nloptEqConFunWrapper;
+                state_eq.tolerances = std::vector<double>(
+                    tol.data(),
+                    tol.data() + tol.rows() * tol.cols());
+                registerConstraints();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding state defined equality constraints"
                     << std::endl;
@@ -260,6 +261,9 @@ namespace mpc
                     << "Unable to bind constraints function\n"
                     << e.what()
                     << '\n';
+                // keep the constraints already registered
+                state_eq = previous;
+                registerConstraints();
                 return false;
             }
         }
@@ -278,14 +282,15 @@ namespace mpc
         {
             checkOrQuit();
 
+            auto previous = user_ineq;
+
             try
             {
-                innerOpt->add_inequality_mconstraint(
-                    NLOptimizer::nloptUserIneqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                user_ineq.handle = NLOptimizer::nloptUserIneqConFunWrapper;
+                user_ineq.tolerances = std::vector<double>(
+                    tol.data(),
+                    tol.data() + tol.rows() * tol.cols());
+                registerConstraints();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user inequality constraints"
                     << std::endl;
@@ -297,6 +302,9 @@ namespace mpc
                     << "Unable to bind constraints function\n"
                     << e.what()
                     << '\n';
+                // keep the constraints already registered
+                user_ineq = previous;
+                registerConstraints();
                 return false;
             }
         }
@@ -316,14 +324,15 @@ namespace mpc
         {
             checkOrQuit();
 
+            auto previous = user_eq;
+
             try
             {
-                innerOpt->add_equality_mconstraint(
-                    NLOptimizer::nloptUserEqConFunWrapper,
-                    conFunc.get(),
-                    std::vector<double>(
-                        tol.data(),
-                        tol.data() + tol.rows() * tol.cols()));
+                user_eq.handle = NLOptimizer::nloptUserEqConFunWrapper;
+                user_eq.tolerances = std::vector<double>(
+                    tol.data(),
+                    tol.data() + tol.rows() * tol.cols());
+                registerConstraints();
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Adding user equality constraints"
                     << std::endl;
@@ -335,6 +344,9 @@ namespace mpc
                     << "Unable to bind constraints function\n"
                     << e.what()
                     << '\n';
+                // keep the constraints already registered
+                user_eq = previous;
+                registerConstraints();
                 return false;
             }
         }
@@ -727,6 +739,31 @@ namespace mpc
             return i < (ph() * nx()) ? mapping->StateScaling()(i % nx()) : mapping->InputScaling()((i - (ph() * nx())) % nu());
         }
 
+        /**
+         * @brief Hand all the registered constraints to the internal solver, those registered
+         * before are replaced
+         */
+        void registerConstraints()
+        {
+            innerOpt->remove_inequality_constraints();
+            innerOpt->remove_equality_constraints();
+
+            if (!state_eq.tolerances.empty())
+            {
+                innerOpt->add_equality_mconstraint(state_eq.handle, conFunc.get(), state_eq.tolerances);
+            }
+
+            if (!user_ineq.tolerances.empty())
+            {
+                innerOpt->add_inequality_mconstraint(user_ineq.handle, conFunc.get(), user_ineq.tolerances);
+            }
+
+            if (!user_eq.tolerances.empty())
+            {
+                innerOpt->add_equality_mconstraint(user_eq.handle, conFunc.get(), user_eq.tolerances);
+            }
+        }
+
         /**
          * @brief Update the bounds for the internal solver
          */
@@ -962,6 +999,17 @@ namespace mpc
 
         cvec<(sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1>  lb, ub;
         cvec<((sizer.ph * sizer.nx) + (sizer.nu * sizer.ch) + 1)> opt_vector, opt_scaling;
+
+        /**
+         * @brief Constraints registered in the internal solver
+         */
+        struct RegisteredConstraints
+        {
+            nlopt::mfunc handle = nullptr;
+            std::vector<double> tolerances;
+        };
+        RegisteredConstraints state_eq, user_ineq, user_eq;
+
         bool is_first_iteration = true;
         bool enable_warm_start = false;
     };
-- 
2.43.0


From 5a0b8bc44df601be85929c5d408712303943819a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 18/38] fix: report the functions refused by the solver

The setters of the objective and of the constraints returned true even when the
solver refused the function, which was then used by the feasibility check only.
---
 include/mpc/NLMPC.hpp | 30 +++++++++++++++++-------------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index d4e12d4..a7b409f 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -148,7 +148,7 @@ namespace mpc
                 << "Binding objective function handle"
                 << std::endl;
 
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindObjective();
+            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindObjective();
             return res;
         }
 
@@ -173,6 +173,16 @@ namespace mpc
             COND_RESIZE_CVEC(MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq), eq_tol_vec, (ph() * nx()));
             eq_tol_vec.setOnes();
 
+            Logger::instance().log(Logger::log_type::DETAIL)
+                << "Binding state space constraints"
+                << std::endl;
+
+            // a refused tolerance leaves the previous model in force
+            if (!((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindEq(constraints_type::EQ, eq_tol_vec * eq_tol))
+            {
+                return false;
+            }
+
             Logger::instance().log(Logger::log_type::DETAIL)
                 << "Setting state space function handle"
                 << std::endl;
@@ -183,12 +193,6 @@ namespace mpc
             conF->setModel(model, mapping);
             ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->setModel(model, mapping);
 
-            Logger::instance().log(Logger::log_type::DETAIL)
-                << "Binding state space constraints"
-                << std::endl;
-
-            res = res & ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindEq(constraints_type::EQ, eq_tol_vec * eq_tol);
-
             return res;
         }
 
@@ -231,9 +235,9 @@ namespace mpc
             cvec<Tineq> tol_vec;
             tol_vec = cvec<Tineq>::Ones(ineq());
 
-            auto res = conF->setIneqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
-            return res;
+            // a refused tolerance leaves the previous constraints in force
+            bool res = ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserIneq(constraints_type::UINEQ, tol_vec * tol);
+            return res && conF->setIneqConstraints(handle, tol);
         }
 
         /**
@@ -253,9 +257,9 @@ namespace mpc
             cvec<Teq> tol_vec;
             tol_vec = cvec<Teq>::Ones(eq());
 
-            auto res = conF->setEqConstraints(handle, tol);
-            ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
-            return res;
+            // a refused tolerance leaves the previous constraints in force
+            bool res = ((NLOptimizer<MPCSize(Tnx, Tnu, 0, Tny, Tph, Tch, Tineq, Teq)> *)optPtr)->bindUserEq(constraints_type::UEQ, tol_vec * tol);
+            return res && conF->setEqConstraints(handle, tol);
         }
 
         /**
-- 
2.43.0


From 1c3680c7c1a72aa225e280b76738d58bd1c23b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:45 +0000
Subject: [PATCH 19/38] fix: take over the solution of a step only once nothing
 can fail anymore

---
 include/mpc/NLMPC/NLOptimizer.hpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index d68ee31..7428f7b 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -597,10 +597,7 @@ namespace mpc
                     optimizationSuccess = true;
                     r.is_feasible = is_feasible;
 
-                    // this is the solution used by the next warm start
-                    opt_scaling = scaling;
-                    opt_vector = solution;
-                    is_first_iteration = false;
+                    guess = solution;
                 }
                 else
                 {
@@ -667,8 +664,6 @@ namespace mpc
                     << r.cost
                     << std::endl;
 
-                currentSlack = slack;
-
                 Logger::instance().log(Logger::log_type::DETAIL)
                     << "Optimal predicted state vector\n"
                     << Xmat
@@ -680,9 +675,17 @@ namespace mpc
 
                 r.cmd = Umat.row(0);
 
-                sequence.state = Xmat.block(0, 0, ph()+1, nx());
-                sequence.input = Umat.block(0, 0, ph()+1, nu());
-                sequence.output = Ymat.block(0, 0, ph()+1, ny());
+                // from here on nothing can fail: the step is either completed or it left no trace
+                currentSlack = slack;
+
+                sequence.state.swap(Xmat);
+                sequence.input.swap(Umat);
+                sequence.output.swap(Ymat);
+
+                // this is the solution used by the next warm start
+                opt_scaling.swap(scaling);
+                opt_vector.swap(guess);
+                is_first_iteration = false;
             }
             else
             {
@@ -698,7 +701,7 @@ namespace mpc
             }
 
             // update the result
-            result = r;
+            result = std::move(r);
         }
 
         /**
-- 
2.43.0


From 649e01f0feb94e3f855c0579ccc379f6cb4d71e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 20/38] fix: set the constraints of a single step of the linear
 controller

LMPC::setConstraints called a function of the problem builder that does
not exist, so any program using it failed to compile.
---
 include/mpc/LMPC.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 16f0ff7..68e2ada 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -336,7 +336,9 @@ namespace mpc
             }
 
             Logger::instance().log(Logger::log_type::DETAIL) << "Setting constraints for the step " << index << std::endl;
-            return builder.setConstraints(index, XMin, UMin, YMin, XMax, UMax, YMax);
+            return builder.setStateBounds(index, XMin, XMax) &&
+                   builder.setInputBounds(index, UMin, UMax) &&
+                   builder.setOutputBounds(index, YMin, YMax);
         }
 
         /**
-- 
2.43.0


From f8fb1a3600d18bfc4f50cb178b760ac9765f60ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 21/38] fix: accept measured disturbances on the whole
 prediction horizon

The slice of setExogenousInputs addresses the prediction horizon, but it
was checked against the control horizon.
---
 include/mpc/LMPC.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 68e2ada..2462720 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -553,7 +553,7 @@ namespace mpc
             const cvec<Tndu> &uMeas,
             const HorizonSlice& slice)
         {
-            // Replicate all along the control horizon
+            // Replicate all along the prediction horizon
             if (isSliceUnset(slice))
             {
                 mat<Tndu, Tph> uMeasMat;
@@ -569,8 +569,8 @@ namespace mpc
             }
             else
             {
-                // Replicate on segment of the control horizon
-                if(isControlHorizonSliceValid(slice))
+                // Replicate on segment of the prediction horizon
+                if(isPredictionHorizonSliceValid(slice))
                 {
                     bool ret = true;
 
-- 
2.43.0


From ee0a919cedfbf1e9c216eebfbe7beb985646a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 22/38] fix: hold the last input bounds after the end of the
 control horizon

The remaining steps were filled from a column which does not exist, with
a block of a different size.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 1f3af24..319c562 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -405,8 +405,8 @@ namespace mpc
             // then the last bounds of the control horizon are used to fill the remaining part of the prediction horizon
             if (ch() < ph())
             {
-                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch());
-                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch());
+                minU.block(0, ch(), nu(), ph() - ch()) = UMinMat.col(ch() - 1).replicate(1, ph() - ch());
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMaxMat.col(ch() - 1).replicate(1, ph() - ch());
             }
 
             return buildTimeInvariantTems();
-- 
2.43.0


From 4d8aa79311b6235b088fc040f083615cf42d3093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 23/38] fix: apply the input bounds of a step to the input of
 that step

The extended state holds at the step i the input applied at the step
i - 1, so the bounds of each step were applied to the input of the
previous one, and the bounds of the first step never reached the first
command. The bounds given to the last step of the control horizon hold on
the rest of the prediction horizon whichever overload sets them.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 319c562..0dc6261 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -473,6 +473,13 @@ namespace mpc
             minU.block(0, index, nu(), 1) = UMin;
             maxU.block(0, index, nu(), 1) = UMax;
 
+            // the last bounds of the control horizon hold on the remaining part of the prediction horizon
+            if (index + 1 == ch() && ch() < ph())
+            {
+                minU.block(0, ch(), nu(), ph() - ch()) = UMin.replicate(1, ph() - ch());
+                maxU.block(0, ch(), nu(), ph() - ch()) = UMax.replicate(1, ph() - ch());
+            }
+
             return buildTimeInvariantTems();
         }
 
@@ -734,7 +741,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph() + 1; i++)
             {
-                if (i == ph())
+                // the entry i of the extended state is the command applied at the step i - 1
+                if (i > 0)
                 {
                     tmpMinU = minU.col(i - 1);
                     tmpMaxU = maxU.col(i - 1);
-- 
2.43.0


From e593a734bbf8cebfc59c4ace42166f86eb850919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 24/38] fix: hold the input from the end of the control horizon

The first increment after the last step of the control horizon was left
free.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 0dc6261..a7a68e9 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -789,8 +789,8 @@ namespace mpc
 
             for (size_t i = 0; i < ph(); i++)
             {
-                minDeltaU = (i > ch()) ? 0.0 : -inf;
-                maxDeltaU = (i > ch()) ? 0.0 : inf;
+                minDeltaU = (i >= ch()) ? 0.0 : -inf;
+                maxDeltaU = (i >= ch()) ? 0.0 : inf;
 
                 lineq.middleRows(
                     (((ph() + 1) * (nu() + nx())) + ((ph() + 1) * ny())) + (i * nu()),
-- 
2.43.0


From a862eb35c29d74615e9d2e38c94c1bb28c31d26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 25/38] fix: pair state and input of the same step in the
 scalar constraint

The extended state holds the input of the previous step, so the scalar
constraint combined each state with the input of the step before, and
the first row constrained the last applied input.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index a7a68e9..214a891 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -326,10 +326,7 @@ namespace mpc
                 sMax(0) = max;
             }
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
+            setScalarMultiplier(X, U);
 
             return buildTimeInvariantTems();
         }
@@ -356,10 +353,7 @@ namespace mpc
             sMax.segment(1, ph()) = MaxMat;
             sMax(0) = MaxMat(0);
 
-            for (size_t i = 0; i < ph() + 1; i++)
-            {
-                sMultiplier.block(i, i * (nx() + nu()), 1, nx() + nu()) << X.transpose(), U.transpose();
-            }
+            setScalarMultiplier(X, U);
 
             return buildTimeInvariantTems();
         }
@@ -640,6 +634,25 @@ namespace mpc
         }
 
     private:
+        /**
+         * @brief Set the terms multiplied by the scalar constraint
+         *
+         * @param X the constant term multiplied to the state
+         * @param U the constant term multiplied to the input
+         */
+        void setScalarMultiplier(const cvec<sizer.nx> &X, const cvec<sizer.nu> &U)
+        {
+            sMultiplier.setZero();
+            for (size_t i = 0; i < ph() + 1; i++)
+            {
+                // the extended state holds at the step i + 1 the command of the step i,
+                // the last command is held at the end of the prediction horizon
+                const size_t k = (i < ph()) ? i + 1 : i;
+                sMultiplier.block(i, i * (nx() + nu()), 1, nx()) = X.transpose();
+                sMultiplier.block(i, k * (nx() + nu()) + nx(), 1, nu()) = U.transpose();
+            }
+        }
+
         /**
          * @brief Build the time invariant optimal control problem terms
          *
-- 
2.43.0


From 9c8782cd53fb18e68ffb6a0356a179872c617288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 26/38] fix: use the input increment reference of the same step

The increment of the step i was compared with the reference of the step
i - 1, and the reference of the last step was never used.
---
 include/mpc/LMPC/ProblemBuilder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 214a891..13e28f1 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -566,14 +566,12 @@ namespace mpc
                 {
                     yRef_ex = yRef.col(0);
                     uRef_ex = uRef.col(0);
-                    deltaURef_ex = deltaURef.col(0);
                     uMeas_ex = uMeas.col(0);
                 }
                 else
                 {
                     yRef_ex = yRef.col(i - 1);
                     uRef_ex = uRef.col(i - 1);
-                    deltaURef_ex = deltaURef.col(i - 1);
                     uMeas_ex = uMeas.col(i - 1);
                 }
 
@@ -590,6 +588,7 @@ namespace mpc
                 // the command increments stop at the last prediction horizon step
                 if (i < ph())
                 {
+                    deltaURef_ex = deltaURef.col(i);
                     mpcProblem.q.middleRows(
                         ((ph() + 1) * (nu() + nx())) + (i * nu()),
                         nu()) = -(wDeltaU.col(i).asDiagonal() * deltaURef_ex);
-- 
2.43.0


From 213c7a64521aa192bc15cb3f209285f16c6b807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:57 +0000
Subject: [PATCH 27/38] fix: use the measured disturbance of the same step in
 the output

The output is y(k) = C x(k) + Dd d(k), but the disturbance of the step
k - 1 was used in the objective, in the output bounds and in the optimal
sequence.
---
 include/mpc/LMPC/LOptimizer.hpp     | 11 ++---------
 include/mpc/LMPC/ProblemBuilder.hpp |  7 +++++--
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 820d2b2..5c066ec 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -326,15 +326,8 @@ namespace mpc
                         }
                     }
 
-                    // this just the state mapping together with the optional exogeneous input
-                    if (i == 0)
-                    {
-                        sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(0));
-                    }
-                    else
-                    {
-                        sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(i - 1));
-                    }
+                    // this just the state mapping together with the optional exogeneous input of the same step
+                    sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(i < ph() ? i : ph() - 1));
                 }
 
                 // the optimal command is the first control input in the sequence
diff --git a/include/mpc/LMPC/ProblemBuilder.hpp b/include/mpc/LMPC/ProblemBuilder.hpp
index 13e28f1..7ce471f 100644
--- a/include/mpc/LMPC/ProblemBuilder.hpp
+++ b/include/mpc/LMPC/ProblemBuilder.hpp
@@ -562,6 +562,9 @@ namespace mpc
                 cvec<sizer.nu> deltaURef_ex;
                 cvec<sizer.ndu> uMeas_ex;
 
+                // the output is affected by the exogenous inputs of the same step
+                const cvec<sizer.ndu> uMeas_out = uMeas.col(i < ph() ? i : ph() - 1);
+
                 if (i == 0)
                 {
                     yRef_ex = yRef.col(0);
@@ -583,7 +586,7 @@ namespace mpc
                     nu(), nu()) = wU.col(i).asDiagonal();
 
                 mpcProblem.q.middleRows(
-                    i * (nx() + nu()), nx() + nu()) = ssC.transpose() * wExtendedState * (-eRef + (ssDv * uMeas_ex));
+                    i * (nx() + nu()), nx() + nu()) = ssC.transpose() * wExtendedState * (-eRef + (ssDv * uMeas_out));
 
                 // the command increments stop at the last prediction horizon step
                 if (i < ph())
@@ -604,7 +607,7 @@ namespace mpc
                 // any contribution of the exogenous inputs on the output function
                 ineq_offset.middleRows(
                     (i * ny()) + ((ph() + 1) * (nu() + nx())),
-                    ny()) = -ssDv.block(0, 0, ny(), ndu()) * uMeas_ex;
+                    ny()) = -ssDv.block(0, 0, ny(), ndu()) * uMeas_out;
             }
 
             // state evolution depends on the initial condition and
-- 
2.43.0


From 082125bb88937dcd07632b4ff8fa46831fd1f49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 28/38] fix: release the resources of the linear controller
 exactly once

The optimizer of the linear controller was never deleted, and its solver
data was uninitialised before the first step and dangling after each
step, so deleting it would have released garbage.
---
 include/mpc/LMPC.hpp            |  5 ++++-
 include/mpc/LMPC/LOptimizer.hpp | 25 ++++++++++++++++++-------
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index 2462720..cd59182 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,7 +60,10 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC() = default;
+        ~LMPC()
+        {
+            delete optPtr;
+        }
 
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 5c066ec..c31dfe5 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -47,7 +47,6 @@ namespace mpc
 
         ~LOptimizer()
         {
-            checkOrQuit();
             clearData();
         }
 
@@ -475,7 +474,11 @@ namespace mpc
          */
         void clearData()
         {
-            osqp_cleanup(work);
+            if (work)
+            {
+                osqp_cleanup(work);
+                work = nullptr;
+            }
 
             if (data)
             {
@@ -488,11 +491,13 @@ namespace mpc
                     csc_spfree(data->P);
                 }
                 c_free(data);
+                data = nullptr;
             }
 
             if (settings)
             {
                 c_free(settings);
+                settings = nullptr;
             }
         }
 
@@ -501,16 +506,22 @@ namespace mpc
          */
         void initData()
         {
+            // release what a step interrupted by an exception left behind
+            clearData();
+
             settings = (OSQPSettings *)c_malloc(sizeof(OSQPSettings));
             data = (OSQPData *)c_malloc(sizeof(OSQPData));
 
-            data->P = nullptr;
-            data->A = nullptr;
+            if (data)
+            {
+                data->P = nullptr;
+                data->A = nullptr;
+            }
         }
 
-        OSQPWorkspace *work;
-        OSQPSettings *settings;
-        OSQPData *data;
+        OSQPWorkspace *work = nullptr;
+        OSQPSettings *settings = nullptr;
+        OSQPData *data = nullptr;
         c_int exitflag = 0;
 
         mat<sizer.ny, sizer.ph> outSysRef;
-- 
2.43.0


From 7dc7b6b85e1bebbad81d12fbaca05932e848e65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 29/38] fix: report a failed set-up or solve of the linear
 solver as error

After a failed allocation or set-up (for example with a lower bound above
its upper bound) the solver work space was used all the same. The step
now ends as documented for a step without a solution.
---
 include/mpc/LMPC/LOptimizer.hpp | 38 ++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index c31dfe5..003db34 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -216,6 +216,9 @@ namespace mpc
             // clear and create the problem data struct
             initData();
 
+            // the problem can be handed to the solver only if it has been entirely created
+            bool ready = data && settings;
+
             if (data)
             {
                 data->n = numVars;
@@ -224,6 +227,7 @@ namespace mpc
                 if (!createOsqpSparseMatrix(P, data->P))
                 {
                     Logger::instance().log(Logger::log_type::ERROR) << "Unable to create the P matrix" << std::endl;
+                    ready = false;
                 }
 
                 data->q = (c_float *)mpcProblem.q.data();
@@ -231,6 +235,7 @@ namespace mpc
                 if (!createOsqpSparseMatrix(A, data->A))
                 {
                     Logger::instance().log(Logger::log_type::ERROR) << "Unable to create the A matrix" << std::endl;
+                    ready = false;
                 }
 
                 data->l = (c_float *)mpcProblem.l.data();
@@ -257,14 +262,22 @@ namespace mpc
             }
 
             // setup workspace
-            exitflag = osqp_setup(&work, data, settings);
-            if (exitflag > 0)
+            if (ready)
             {
-                Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
+                exitflag = osqp_setup(&work, data, settings);
+                if (exitflag != 0)
+                {
+                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to setup " << exitflag << std::endl;
+                    ready = false;
+                }
             }
 
             // warm starting the solver
-            if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+            if (!ready)
+            {
+                // there is nothing to solve
+            }
+            else if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
             {
                 exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
                 if (exitflag > 0)
@@ -280,15 +293,19 @@ namespace mpc
             }
 
             // solve problem
-            exitflag = osqp_solve(work);
-            if (exitflag > 0)
+            if (ready)
             {
-                Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                exitflag = osqp_solve(work);
+                if (exitflag != 0)
+                {
+                    Logger::instance().log(Logger::log_type::ERROR) << "Unable to solve " << exitflag << std::endl;
+                    ready = false;
+                }
             }
 
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (work->solution->x != NULL)
+            if (ready && work->solution->x != NULL)
             {
                 // storing the previous optimal primal and dual solution to warm start
                 optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
@@ -343,6 +360,7 @@ namespace mpc
                 // and we set the return code to -1
                 r.cost = mpc::inf;
                 r.cmd = result.cmd;
+                r.is_feasible = false;
                 r.solver_status = -1;
                 r.status = ResultStatus::ERROR;
 
@@ -437,6 +455,10 @@ namespace mpc
 
             // instantiate csc matrix
             osqpSparseMatrix = csc_spalloc(rows, cols, numberOfNonZeroCoeff, 1, 0);
+            if (osqpSparseMatrix == nullptr)
+            {
+                return false;
+            }
 
             int innerOsqpPosition = 0;
             for (int k = 0; k < cols; k++)
-- 
2.43.0


From 42777447403e8439c85299db8b1e5420b6af5b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 30/38] fix: keep the last command when the linear solver has
 no solution

When the problem has no solution the solver fills the solution with NaN
instead of leaving the pointer empty: the NaN were returned as command
and warm started every following step.
---
 include/mpc/LMPC/LOptimizer.hpp | 43 +++++++++++++++++++++++++++++----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 003db34..3916955 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -305,11 +305,14 @@ namespace mpc
 
             // if the solution is valid update the solution otherwise
             // keep the last feasible solution
-            if (ready && work->solution->x != NULL)
+            if (ready && isSolutionValid(numVars))
             {
                 // storing the previous optimal primal and dual solution to warm start
-                optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
-                optimal_prev_y = std::vector<double>(work->solution->y, work->solution->y + numConstraints);
+                if (Eigen::Map<const Eigen::VectorXd>(work->solution->y, numConstraints).allFinite())
+                {
+                    optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
+                    optimal_prev_y = std::vector<double>(work->solution->y, work->solution->y + numConstraints);
+                }
 
                 Logger::instance().log(Logger::log_type::DETAIL) << "Optimal vector: " << std::endl;
                 for (size_t i = 0; i < (size_t)P.rows(); i++)
@@ -357,12 +360,16 @@ namespace mpc
             else
             {
                 // if the solution is not valid we keep the previous solution
-                // and we set the return code to -1
+                // and we set the return code to the one of the solver (-1 if it didn't run)
                 r.cost = mpc::inf;
                 r.cmd = result.cmd;
                 r.is_feasible = false;
-                r.solver_status = -1;
+                r.solver_status = ready ? work->info->status_val : -1;
                 r.status = ResultStatus::ERROR;
+                if (ready && convertToResultStatus(r.solver_status) == ResultStatus::INFEASIBLE)
+                {
+                    r.status = ResultStatus::INFEASIBLE;
+                }
 
                 // in case of invalid solution we ouput all the sequences to zero
                 sequence.state.setZero();
@@ -382,6 +389,32 @@ namespace mpc
         std::vector<double> optimal_prev_x, optimal_prev_y;
 
     private:
+        /**
+         * @brief Check if the solver came to a solution which can be used
+         *
+         * @param numVars number of optimization variables
+         * @return true
+         * @return false
+         */
+        bool isSolutionValid(int numVars)
+        {
+            switch (work->info->status_val)
+            {
+            case OSQP_SOLVED:
+            case OSQP_SOLVED_INACCURATE:
+            case OSQP_MAX_ITER_REACHED:
+            case OSQP_TIME_LIMIT_REACHED:
+                break;
+            default:
+                return false;
+            }
+
+            // without a solution the solver fills the vector with NaN
+            return work->solution->x != NULL &&
+                   Eigen::Map<const Eigen::VectorXd>(work->solution->x, numVars).allFinite() &&
+                   std::isfinite(work->info->obj_val);
+        }
+
         /**
          * @brief Converts an integer value representing the possible statuses to the corresponding ResultStatus enum value.
          *
-- 
2.43.0


From 4779cb67dc8c0dc456de9a52fa9c1799e3f0413a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 31/38] fix: report infeasibility and time limit of the linear
 solver as documented

An inaccurate certificate of infeasibility was reported as a success, and
the time limit as unknown instead of MAX_ITERATION.
---
 include/mpc/LMPC/LOptimizer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 3916955..e569074 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -441,13 +441,13 @@ namespace mpc
             case OSQP_SOLVED_INACCURATE:
                 return ResultStatus::SUCCESS;
             case OSQP_PRIMAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_DUAL_INFEASIBLE_INACCURATE:
-                return ResultStatus::SUCCESS;
+                return ResultStatus::INFEASIBLE;
             case OSQP_SIGINT:
                 return ResultStatus::ERROR;
             case OSQP_TIME_LIMIT_REACHED:
-                return ResultStatus::UNKNOWN;
+                return ResultStatus::MAX_ITERATION;
             case OSQP_NON_CVX:
                 return ResultStatus::ERROR;
             case OSQP_UNSOLVED:
-- 
2.43.0


From 606f9854cb610d9fa1aad64a41e48f918f5b7a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 32/38] fix: do not warm start the linear solver with vectors
 of the wrong size

The solver reads as many entries as the problem has, whatever the size of
the vectors given by the user.
---
 include/mpc/LMPC/LOptimizer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index e569074..446129b 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -277,7 +277,8 @@ namespace mpc
             {
                 // there is nothing to solve
             }
-            else if (settings->warm_start && optimal_prev_x.size() > 0 && optimal_prev_y.size() > 0)
+            else if (settings->warm_start &&
+                     optimal_prev_x.size() == (size_t)numVars && optimal_prev_y.size() == (size_t)numConstraints)
             {
                 exitflag = osqp_warm_start(work, optimal_prev_x.data(), optimal_prev_y.data());
                 if (exitflag > 0)
-- 
2.43.0


From f7e76ecbd88b966a1667de29577692224080065e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:46 +0000
Subject: [PATCH 33/38] fix: take over the solution of a linear step only once
 nothing can fail anymore

An exception in the middle of the step left a sequence and a warm start
which belong to different steps.
---
 include/mpc/LMPC/LOptimizer.hpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 446129b..0efe60a 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -309,12 +309,16 @@ namespace mpc
             if (ready && isSolutionValid(numVars))
             {
                 // storing the previous optimal primal and dual solution to warm start
+                std::vector<double> prev_x, prev_y;
                 if (Eigen::Map<const Eigen::VectorXd>(work->solution->y, numConstraints).allFinite())
                 {
-                    optimal_prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
-                    optimal_prev_y = std::vector<double>(work->solution->y, work->solution->y + numConstraints);
+                    prev_x = std::vector<double>(work->solution->x, work->solution->x + numVars);
+                    prev_y = std::vector<double>(work->solution->y, work->solution->y + numConstraints);
                 }
 
+                // the sequence is replaced only once it is complete
+                auto seq = sequence;
+
                 Logger::instance().log(Logger::log_type::DETAIL) << "Optimal vector: " << std::endl;
                 for (size_t i = 0; i < (size_t)P.rows(); i++)
                 {
@@ -328,7 +332,7 @@ namespace mpc
                     // to get the optimal sequence of system state
                     for (size_t j = 0; j < nx(); j++)
                     {
-                        sequence.state.row(i)[j] = work->solution->x[i * (nx() + nu()) + j];
+                        seq.state.row(i)[j] = work->solution->x[i * (nx() + nu()) + j];
                     }
 
                     // and similarly we take the nu entries to have the optimal sequence of system
@@ -338,25 +342,33 @@ namespace mpc
                         // if we are at the end of the horizon we have to
                         if (i + 1 < ph() + 1)
                         {
-                            sequence.input.row(i)[j - nx()] = work->solution->x[(i + 1) * (nx() + nu()) + j];
+                            seq.input.row(i)[j - nx()] = work->solution->x[(i + 1) * (nx() + nu()) + j];
                         }
                         else
                         {
-                            sequence.input.row(i)[j - nx()] = work->solution->x[i * (nx() + nu()) + j];
+                            seq.input.row(i)[j - nx()] = work->solution->x[i * (nx() + nu()) + j];
                         }
                     }
 
                     // this just the state mapping together with the optional exogeneous input of the same step
-                    sequence.output.row(i) = builder->mapToOutput(sequence.state.row(i), extInputMeas.col(i < ph() ? i : ph() - 1));
+                    seq.output.row(i) = builder->mapToOutput(seq.state.row(i), extInputMeas.col(i < ph() ? i : ph() - 1));
                 }
 
                 // the optimal command is the first control input in the sequence
-                r.cmd = sequence.input.row(0);
+                r.cmd = seq.input.row(0);
                 r.solver_status = work->info->status_val;
                 r.cost = work->info->obj_val;
                 r.is_feasible = work->info->status_val == OSQP_SOLVED || work->info->status_val == OSQP_SOLVED_INACCURATE || work->info->status_val == OSQP_MAX_ITER_REACHED;
                 // convert the return code from the optimizer to the result status
                 r.status = convertToResultStatus(r.solver_status);
+
+                // from here on nothing can fail anymore
+                sequence = seq;
+                if (!prev_x.empty())
+                {
+                    optimal_prev_x.swap(prev_x);
+                    optimal_prev_y.swap(prev_y);
+                }
             }
             else
             {
-- 
2.43.0


From 22f949e48abd2a9354dd55af97852b43839af0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:16 +0000
Subject: [PATCH 34/38] fix: do not copy the sparse matrices given to the
 linear solver

The copy constructor of the sparse matrices leaks the column pointers when
a later allocation fails, and the copy is not needed: smat is stored by
columns.
---
 include/mpc/LMPC/LOptimizer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/mpc/LMPC/LOptimizer.hpp b/include/mpc/LMPC/LOptimizer.hpp
index 0efe60a..8004cae 100644
--- a/include/mpc/LMPC/LOptimizer.hpp
+++ b/include/mpc/LMPC/LOptimizer.hpp
@@ -480,10 +480,10 @@ namespace mpc
          */
         bool createOsqpSparseMatrix(const smat &eigenSparseMatrix, csc *&osqpSparseMatrix)
         {
-            // Copying into a new sparse matrix to be sure to use a CSC matrix
-            // this may perform memory allocation, but this is already the case
-            // for allocating the osqpSparseMatrix
-            smat colMajorCopy = eigenSparseMatrix;
+            // the sparse matrix is already in the CSC format, copying it would leak
+            // when running out of memory since the copy constructor of eigen throws
+            // without releasing what it has already allocated
+            const smat &colMajorCopy = eigenSparseMatrix;
 
             // get number of row, columns and nonZeros from Eigen SparseMatrix
             c_int rows = colMajorCopy.rows();
-- 
2.43.0


From fea73540686c40b461d8c228ad0ddf15a3ddaf93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:33 +0000
Subject: [PATCH 35/38] fix: scale the finite difference steps by the perturbed
 element

The step used for an element of the trajectory was scaled by the
magnitude of another element, so the gradients were wrong when the
elements of a trajectory differ by orders of magnitude.
---
 include/mpc/NLMPC/Constraints.hpp | 6 +++---
 include/mpc/NLMPC/Objective.hpp   | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/mpc/NLMPC/Constraints.hpp b/include/mpc/NLMPC/Constraints.hpp
index 11d77ef..5323835 100644
--- a/include/mpc/NLMPC/Constraints.hpp
+++ b/include/mpc/NLMPC/Constraints.hpp
@@ -659,7 +659,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) += dx;
                     cvec<sizer.ineq> f_plus, f_minus;
                     COND_RESIZE_CVEC(sizer, f_plus, ineq());
@@ -686,7 +686,7 @@ namespace mpc
             {
                 for (size_t j = 0; j < nu(); j++)
                 {
-                    double du = dv * Ua.array()(j);
+                    double du = dv * Ua(i, j);
                     u0(i, j) += du;
                     if (i == ph() - 1)
                     {
@@ -791,7 +791,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     // Calculate perturbation
-                    double du = dv * Ua(ph() - 1, j);
+                    double du = dv * Ua(i, j);
                     // Forward perturbation
                     u0(i, j) += du;
                     cvec<sizer.eq> f_plus;
diff --git a/include/mpc/NLMPC/Objective.hpp b/include/mpc/NLMPC/Objective.hpp
index 7f1c5fc..b3409e7 100644
--- a/include/mpc/NLMPC/Objective.hpp
+++ b/include/mpc/NLMPC/Objective.hpp
@@ -200,7 +200,7 @@ namespace mpc
                 for (size_t j = 0; j < nx(); j++)
                 {
                     int ix = i + 1;
-                    double dx = dv * Xa.array()(j);
+                    double dx = dv * Xa(ix, j);
                     x0(ix, j) = x0(ix, j) + dx;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     x0(ix, j) = x0(ix, j) - dx;
@@ -220,7 +220,7 @@ namespace mpc
                 for (size_t j = 0; j < nu(); j++)
                 {
                     int k = j;
-                    double du = dv * Ua.array()(k);
+                    double du = dv * Ua(i, k);
                     u0(i, k) = u0(i, k) + du;
                     double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
                     u0(i, k) = u0(i, k) - du;
@@ -234,7 +234,7 @@ namespace mpc
             for (size_t j = 0; j < nu(); j++)
             {
                 int k = j;
-                double du = dv * Ua.array()(k);
+                double du = dv * Ua(ph() - 1, k);
                 u0((ph() - 1), k) = u0((ph() - 1), k) + du;
                 u0(ph(), k) = u0(ph(), k) + du;
                 double f = fuser(x0, model->getOutput(x0, u0), u0, e0);
-- 
2.43.0


From 25e9c3401a908ec0c5cc117dfe1753283047f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:21 +0000
Subject: [PATCH 36/38] fix: keep the type of the message being logged apart
 for each thread

---
 include/mpc/Logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/Logger.hpp b/include/mpc/Logger.hpp
index aa0cd4c..762237b 100644
--- a/include/mpc/Logger.hpp
+++ b/include/mpc/Logger.hpp
@@ -169,7 +169,8 @@ namespace mpc
         std::ostream *os;
         std::string prefix;
         log_level thresholdLevel;
-        log_type currentType;
+        // the message being written belongs to the thread which is writing it
+        inline static thread_local log_type currentType = log_type::DETAIL;
     };
 
 } // namespace mpc
\ No newline at end of file
-- 
2.43.0


From 2221d45caeb325577eb67804a49eb680df226fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:19 +0000
Subject: [PATCH 37/38] fix: the standard deviation of equal solution times is
 not a number

---
 include/mpc/Profiler.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/mpc/Profiler.hpp b/include/mpc/Profiler.hpp
index 7543f01..73750a5 100644
--- a/include/mpc/Profiler.hpp
+++ b/include/mpc/Profiler.hpp
@@ -225,7 +225,8 @@ namespace mpc
                     // running update of the sum of the squared residuals
                     double residual = delta_old * (time.count() - stats.averageSolutionTime.count());
                     double residuals_old = (stats.numberOfSolutions - 1) * pow(stats.standardDeviation, 2);
-                    stats.standardDeviation = sqrt((residuals_old + residual) / stats.numberOfSolutions);
+                    // equal times: the rounding of the average can turn the sum slightly negative
+                    stats.standardDeviation = sqrt(std::max(0.0, (residuals_old + residual) / stats.numberOfSolutions));
                 }
             }
         }
-- 
2.43.0


From 5328591bc1c9947de8ec893bc6b89f4932ab2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:51 +0000
Subject: [PATCH 38/38] fix: release the optimizer when the construction of a
 controller fails

---
 include/mpc/IMPC.hpp              | 11 ++++++++++-
 include/mpc/LMPC.hpp              |  5 -----
 include/mpc/NLMPC.hpp             |  5 -----
 include/mpc/NLMPC/NLOptimizer.hpp |  2 +-
 4 files changed, 11 insertions(+), 12 deletions(-)

diff --git a/include/mpc/IMPC.hpp b/include/mpc/IMPC.hpp
index b485572..9b13837 100644
--- a/include/mpc/IMPC.hpp
+++ b/include/mpc/IMPC.hpp
@@ -36,6 +36,15 @@ namespace mpc
         using IDimensionable<sizer>::eq;
 
     public:
+        /**
+         * @brief Release the optimizer, also when the construction of the
+         * interface fails after the optimizer has been allocated
+         */
+        virtual ~IMPC()
+        {
+            delete optPtr;
+        }
+
         /**
          * @brief Set the discretization time step to use for numerical integration
          *
@@ -292,7 +301,7 @@ namespace mpc
          */
         virtual void onModelUpdate(const cvec<sizer.nx>) = 0;
 
-        IOptimizer<sizer> *optPtr;
+        IOptimizer<sizer> *optPtr = nullptr;
         Profiler profiler;
     };
 }
\ No newline at end of file
diff --git a/include/mpc/LMPC.hpp b/include/mpc/LMPC.hpp
index cd59182..7b887fd 100644
--- a/include/mpc/LMPC.hpp
+++ b/include/mpc/LMPC.hpp
@@ -60,11 +60,6 @@ namespace mpc
             setDimension(nx, nu, ndu, ny, ph, ch);
         }
 
-        ~LMPC()
-        {
-            delete optPtr;
-        }
-
         /**
          * @brief (NOT AVAILABLE) Set the discretization time step to use for numerical integration
          */
diff --git a/include/mpc/NLMPC.hpp b/include/mpc/NLMPC.hpp
index a7b409f..7f815d4 100644
--- a/include/mpc/NLMPC.hpp
+++ b/include/mpc/NLMPC.hpp
@@ -65,11 +65,6 @@ namespace mpc
             setDimension(nx, nu, 0, ny, ph, ch, ineq, eq);
         }
 
-        ~NLMPC()
-        {
-            delete optPtr;
-        }
-
         /**
          * @brief Set the discretization time step to use for numerical integration
          *
diff --git a/include/mpc/NLMPC/NLOptimizer.hpp b/include/mpc/NLMPC/NLOptimizer.hpp
index 7428f7b..4ec44e3 100644
--- a/include/mpc/NLMPC/NLOptimizer.hpp
+++ b/include/mpc/NLMPC/NLOptimizer.hpp
@@ -993,7 +993,7 @@ namespace mpc
             }
         }
 
-        nlopt::opt *innerOpt;
+        nlopt::opt *innerOpt = nullptr;
 
         std::shared_ptr<Objective<sizer>> objFunc;
         std::shared_ptr<Constraints<sizer>> conFunc;
-- 
2.43.0

