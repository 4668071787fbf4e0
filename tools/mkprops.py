#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),
        state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],
        observe_at=list(observe),hook_needed=hook)))

p("C01","Concurrent fits on a shared model behave as if run alone",
 "A built model can be shared by reference between threads, and whatever the interleaving of threads that build models, fit them and query their fits, every call returns what the same call sequence returns when its thread runs alone. No thread can observe, delay forever, or corrupt another thread's regularizer, iteration, cached statistic or data.",
 ["schedules","programs","histories"],
 "every interleaving, at basic-block granularity, of 2-4 client threads each running its own sequence of builds, fits (all families, with and without L1/L2) and statistic queries against shared and private models",
 "All existing tests are single-threaded; a process-wide scratch buffer, memo or regularizer state breaks only under an interleaving that lands inside a fit.",
 ["src/model.rs","src/irls.rs","src/regularization.rs","src/fit.rs","src/data.rs"],
 [("Model/Dataset hold plain owned data without interior mutability (auto Send+Sync)","src/model.rs:18"),("per-fit boxed regularizer and history","src/irls.rs:58"),("caches live in the Fit, not in the Model","src/fit.rs:62")],
 [("Irls.reg","ADMM dual / residual / penalty state of one running fit","src/irls.rs:38"),("Fit OnceCell caches","lazily computed statistics of one fit","src/fit.rs:62")],
 ["Model::fit","Fit::*"])
p("C02","Statistics do not depend on which queries ran before",
 "For a given fit, the value of every statistic is the same whatever queries were made before it, in whatever order, how often, with whatever arguments, and whatever other models and fits were created, used and dropped in the meantime. Queries never change the fit's public fields (result, history, n_iter, model_like, options).",
 ["histories","programs"],
 "every sequence of statistic queries on one fit, interleaved with building, fitting, querying and dropping other models and fits (including models of equal shape, equal design or reused memory)",
 "Tests query each statistic once or twice in one fixed order on one fit; caches can be stale, poisoned, keyed too coarsely or overwritten only under particular orders.",
 ["src/fit.rs","src/data.rs"],
 [("OnceCell get_or_init caches of phi, deviance terms, Pearson residuals, covariance, fisher inverses, hat, null model","src/fit.rs:62")],
 [("covariance/fisher_inv/hat/null_model","cached results","src/fit.rs:69")],
 ["Fit::covariance","Fit::hat","Fit::fisher","Fit::null_like","Fit::loo_exact"])
p("C03","A failed query is reported and leaves no trace",
 "If a linear-algebra routine fails or a user-supplied link function panics while a model is being fitted or a statistic is being computed, that call either returns an error (or propagates the panic) or still returns exactly what it returns without the failure; it never returns a different value. Every later call on the same fit, model and thread then returns what it would have returned had the failing call never been made.",
 ["fault_sequences","crash_points","histories"],
 "a failure of any individual LAPACK call or link callback at any point of any fit or query, repeated, followed by any further calls",
 "No test makes a factorization fail after a fit succeeded, or unwinds out of a callback; partially initialised caches and swallowed errors are invisible without injecting the failure.",
 ["src/fit.rs","src/irls.rs","src/glm.rs","src/regularization.rs","src/error.rs"],
 [("? propagation of LinalgError through get_or_try_init","src/fit.rs:171"),("solveh_into(rhs)? in the IRLS step","src/regularization.rs:52"),("fallback to a zero initial guess when the least-squares start fails","src/glm.rs:147")],
 [("Fit OnceCell caches","must stay empty when the initialiser fails","src/fit.rs:62")],
 ["RegressionError::LinalgError"])
p("C04","An iteration-limited fit stops at the budget and can be resumed",
 "A fit given a budget of k iterations either finishes exactly as the unlimited fit does, if that needs at most k iterations, or returns MaxIter reporting k together with the coefficients and likelihoods visited so far, which are the first entries of the unlimited fit's history and are expressed in the same coefficients (those of the input data) as a successful fit's history. Passing any entry of either history back as initial guess, any number of times and after any interruptions, reaches the same optimum as the uninterrupted fit given the iterations to get there.",
 ["crash_points","histories","inputs"],
 "every cut point k from 0 to the full iteration count, chains of interrupt/resume, all families, weights, standardization and regularization settings",
 "Tests exercise one generous budget; the error path's history and the resume path are not compared with anything at each cut point.",
 ["src/irls.rs","src/glm.rs","src/fit.rs","src/error.rs","src/fit/options.rs","src/data.rs"],
 [("n_iter > max_iter check and MaxIter{n_iter,history}","src/irls.rs:93"),("init_guess mapped external->internal","src/glm.rs:169"),("history mapped internal->external","src/fit.rs:522")],
 [("Irls.history","visited (guess, likelihood) pairs on the internal scale","src/irls.rs:52")],
 ["RegressionError::MaxIter","Fit::history","FitOptions::init_guess"])
p("C05","Bad steps are never accepted and the fit recovers from them",
 "Without L1 regularization, however wrong the search direction or step length computed in some iterations is (too long, too short, or pointing downhill), the regularized log-likelihood reported along the history strictly increases from the initial guess on and the returned result is never worse than the start. Once steps are computed correctly again the fit reaches the same optimum as an undisturbed fit, within the default iteration limit for canonical links (with other links, whose scoring steps may converge slowly, within a larger limit). Where a disturbance threw the fit so far out that the likelihood overflowed there, an error may be returned instead, never a point short of the optimum.",
 ["fault_sequences","histories"],
 "any sequence of inaccurate IRLS steps (scaled by factors from -10 to 10) injected at any iterations, over families and ridge penalties with concave likelihood",
 "The step-halving path is, by the code's own comment, under-tested and hard to engage; it only matters when a step misbehaves.",
 ["src/irls.rs","src/glm.rs"],
 [("strict-improvement test, golden-section back-tracking and single reverse probe","src/irls.rs:252"),("best-of-history selection","src/glm.rs:182")],
 [("Irls.last_like_data","data likelihood of the current guess","src/irls.rs:44")],
 ["Fit::history","Fit::model_like"])
p("C06","Success is never reported for a point that is not the optimum",
 "Whenever a fit of a concave problem returns Ok with the default tolerance, the returned coefficients satisfy the first-order optimality conditions of the penalised likelihood (including the subgradient condition under L1), whatever factorization failures or non-finite intermediate values occurred on the way. If the failures keep the optimum from being reached, an error is returned.",
 ["fault_sequences","inputs"],
 "any number and placement of failing or transiently non-finite solves, likelihoods, means and derivatives during the initial guess and the iterations",
 "Tests only fit healthy problems or problems that fail immediately; whether a failure mid-iteration is silently turned into an early 'converged' is not observable there.",
 ["src/irls.rs","src/glm.rs","src/regularization.rs"],
 [("solve errors propagate out of the iteration","src/irls.rs:198"),("termination tests","src/irls.rs:219"),("fallback initial guess","src/glm.rs:147")],
 (),["Model::fit","Fit::score"])
p("C07","Being unable to print a warning changes nothing",
 "When the library's diagnostic output cannot be written (closed pipe, full disk, interrupted or short writes), every build, fit and query still behaves and returns exactly as if the output had been written. Warnings are advisory: they never become panics, errors or different numbers.",
 ["fault_sequences"],
 "every stderr write of every build/fit/query failing with any of EPIPE, ENOSPC, EIO, EAGAIN, EINTR or short counts, on under-constrained data, negative penalties and singular starting problems",
 "Test harnesses capture or inherit a working stderr; no test closes it.",
 ["src/model.rs","src/irls.rs","src/glm.rs"],
 [("diagnostics for under-constrained data, negative penalties and failed initial guess","src/model.rs:209")],
 (),["ModelBuilderData::build","Model::fit"])
p("C08","Statistics built on nested refits are all-or-nothing and exact",
 "Leave-one-out coefficients, drop-one p-values and null-model statistics equal what independent fits of the corresponding reduced problems (same weights, offsets, penalty and standardization convention) give, to fit accuracy. If any nested refit fails, the call reports failure rather than returning a mixture of refitted, approximate or default values, and the parent fit still answers every query as before.",
 ["fault_sequences","crash_points","histories","configurations"],
 "a failure injected into any solve of any nested refit, iteration budgets that starve one of them, and all combinations of family, weights, offset, intercept, standardization and ridge penalty",
 "Tests compare a few fault-free data sets with R output; nested-fit failure paths and most configuration combinations are not reached.",
 ["src/fit.rs","src/data.rs","src/model.rs"],
 [("loo_exact refits with zero frequency","src/fit.rs:401"),("dev_without_covariate","src/fit.rs:1001"),("null_model_fit","src/fit.rs:568")],
 [("null_model","cached null likelihood and parameters","src/fit.rs:82")],
 ["Fit::loo_exact","Fit::pvalue_exact","Fit::null_like","Fit::lr_test","Fit::score_test","Fit::wald_test"])
p("C09","Results survive arithmetic that is not reproducible",
 "When the BLAS underneath sums in a different order on every call (as multi-threaded or dynamically dispatched BLAS do), every fit of a well-conditioned problem that terminates within the iteration limit with ordinary sums still does, and reaches the same coefficients and statistics up to rounding.",
 ["schedules","fault_sequences"],
 "any per-call permutation and blocking of the reductions performed by matrix-vector, matrix-matrix and dot products, for every family and penalty",
 "The tests pin one BLAS thread so the same sums happen in the same order every run; termination tests comparing floats exactly are only stressed when rounding changes between iterations.",
 ["src/irls.rs","src/data.rs","src/fit.rs"],
 [("tolerance-based termination alongside the exact-equality and strict-improvement tests","src/irls.rs:219")],
 (),["Model::fit","Fit::n_iter"])
p("C10","A model depends on what was specified, not on the order",
 "The model produced by the builder is determined by the set of options given, independent of the order of the calls, of repeated switches, and of other builders being used at the same time. Specifying offsets, frequency weights or variance weights twice, or giving inconsistent lengths or invalid responses, always makes build() return an error, wherever in the call sequence it happened, and never leaves an effect on later builds.",
 ["histories","schedules","fault_sequences"],
 "every permutation and repetition of builder calls, interleaved between threads and with misuse (duplicates, wrong lengths, invalid responses) injected at any position",
 "Tests use one call order and no test specifies anything twice.",
 ["src/model.rs","src/data.rs"],
 [("sticky error field checked in build()","src/model.rs:123"),("standardization deferred to build","src/model.rs:238")],
 [("ModelBuilderData.error","first misuse seen","src/model.rs:120")],
 ["ModelBuilderData::build"])
p("C11","Starting point and earlier fits do not change the answer",
 "For a problem with a unique optimum, the coefficients, likelihood and every statistic of a fit are the same, to fit accuracy, from whatever starting point and after whatever sequence of other fits on the same model: cold start, warm start along a penalty path, restart from the solution or from a perturbed solution. A start so far out that the likelihood overflows or the scoring steps converge too slowly may end in an error, never in a different answer. In particular no penalty, tolerance, dual variable or iteration state of one fit shows in another, and statistics of an L1 fit do not depend on how its solver got there.",
 ["histories","inputs"],
 "every sequence of fits with changing L1/L2 penalties, tolerances and initial guesses on one model",
 "Tests fit each model once from the default start; path dependence needs two routes to the same optimum.",
 ["src/irls.rs","src/regularization.rs","src/glm.rs","src/fit.rs","src/fit/options.rs"],
 [("get_reg builds a fresh regularizer per fit","src/irls.rs:305"),("Lasso/ElasticNet adaptive penalty","src/regularization.rs:135")],
 [("Lasso.rho / dual / cum_res","ADMM state","src/regularization.rs:105")],
 ["FitOptions::init_guess","Fit::fisher","Fit::covariance","Fit::result"])
p("C12","Results do not depend on memory contents, clock or entropy",
 "Every build, fit and query is a function of the data and options given to it: the outcome is the same whatever stale bytes fresh memory contains, whatever addresses are reused, whatever the clocks say or however they jump, and whatever randomness the system supplies. Buffers the caller lends to the library are not modified and not needed after the call that borrowed them returns.",
 ["fault_sequences","histories","configurations"],
 "any fill pattern and reuse policy of the allocator (poisoned, zeroed, immediate or delayed reuse), any clock readings, any entropy, at every allocation, read or draw made by the library",
 "The test process sees zeroed fresh pages, one allocator policy and a steady clock.",
 ["src/data.rs","src/fit.rs","src/irls.rs","src/model.rs"],
 [("safe construction of every array from data","src/data.rs:70"),("builder views are copied in build()","src/model.rs:214")],
 (),["Model::fit","Fit::*"])
p("C13","The reported trace tells the truth",
 "On every path (normal, warm-started, interrupted, disturbed by bad steps) the history holds exactly one entry per counted iteration, each entry's likelihood is the penalised log-likelihood of that entry's coefficients for the user's data, no more iterations are taken than allowed, and the returned result and likelihood are the best entry of the history (or the initial guess when no iteration was taken).",
 ["histories","fault_sequences","crash_points"],
 "every fit in every simulated session, including fits disturbed by scaled or reversed steps, budgets of any size, L1 paths and any initial guess",
 "Tests look at the final result; nothing recomputes the likelihood of intermediate entries from the raw data.",
 ["src/irls.rs","src/glm.rs","src/fit.rs","src/regularization.rs"],
 [("step_with pushes history and counts","src/irls.rs:81"),("max_by over total_cmp","src/glm.rs:182"),("history back-transform","src/fit.rs:522")],
 [("Fit.history / n_iter / model_like","public trace","src/fit.rs:52")],
 ["Fit::history","Fit::n_iter","Fit::model_like","RegressionError::MaxIter"])
p("C14","Every answer in a client session matches a reference model",
 "In any session of builds, fits and statistic queries by any number of clients, with failures injected anywhere, every answer that is returned as a success equals the one given by a small reference model which knows only the raw data and the documented definitions (penalised maximum likelihood with weights as replication/precision; documented formulas for each statistic). Internal standardization, caching, weights bookkeeping and iteration are invisible to the clients.",
 ["histories","schedules","fault_sequences","configurations"],
 "random multi-client sessions over all response families, links, frequency and variance weights, offsets, intercept and standardization settings, penalties, with random interleavings and faults",
 "Tests cover each feature mostly in isolation on fixed data sets; sessions combining features, interleavings and faults are unbounded.",
 ["src/fit.rs","src/glm.rs","src/irls.rs","src/data.rs","src/model.rs","src/regularization.rs","src/link.rs","src/response/"],
 [("statistics defined in terms of the internal standardized data and mapped back","src/fit.rs:84"),("Standardizer","src/data.rs:240")],
 (),["Model::fit","Fit::*"])
# ------- properties this technique cannot decide (see MANIFEST not_applicable)
p("C20","Invalid responses are rejected",
 "build() returns InvalidY exactly when some response lies outside the family's domain (negative or zero for gamma-like families, outside [0,1] for logistic) and accepts every valid response.",
 ["inputs"],"every response value of every supported type",
 "Only a few sample values are tried.",["src/response/","src/model.rs"],[("Yval::into_float","src/response.rs:23")])
p("C21","Link functions are mutually inverse and differentiate correctly",
 "For every provided link, func and func_inv are inverse on the domain, nat_param equals the canonical link of the mean, and d_nat_param is its derivative.",
 ["inputs"],"every value of the linear predictor and the mean",
 "Tests check a handful of points.",["src/link.rs","src/response/"],[("TestLink assertions","src/link.rs:205")])
p("C22","Memory layout of the inputs is irrelevant",
 "Row-major, column-major, strided, reversed or sliced views of the same numbers give the same model.",
 ["inputs","configurations"],"every layout of x and y",
 "Tests use owned row-major arrays.",["src/model.rs"],[("to_shape(Order::F)","src/model.rs:214")])
p("C23","Accuracy holds at extreme scales and in single precision",
 "Fits of data with features of very different magnitude, large offsets, or f32 elements reach the optimum to the precision the type allows.",
 ["inputs"],"every data set, scale and float type",
 "A few scales are sampled.",["src/data.rs","src/irls.rs","src/num.rs"],[("Standardizer","src/data.rs:240")])
p("C24","p-values and residual transforms stay in range",
 "Every p-value lies in [0,1], leverages of unpenalised fits lie in [0,1] and sum to the rank, and quantile residuals are finite for responses inside the support.",
 ["inputs"],"every data set",
 "Tests check individual values.",["src/fit.rs"],[("pvalue_*","src/fit.rs:1075")])
p("C25","Documented feature flags and backends give the same library",
 "With and without the stats feature and with any of the BLAS back ends the shared API compiles and gives the same results.",
 ["configurations"],"every feature combination",
 "Only openblas-system is built.",["Cargo.toml","src/fit.rs"],[("cfg(feature)","Cargo.toml:13")])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
print(len(P),"properties")
