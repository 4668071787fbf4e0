#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T="deterministic simulation with fault injection: "
trust=(" Trusts the reference model, the simulator's seams (one scheduled thread at a time, libc/allocator/BLAS/LAPACK "
       "interposition) and the installed OpenBLAS; says nothing about runs it did not draw.")
C={
"C01":("seeded preemptive schedules of 2-4 clients, each compared with its solo run","Seeded search over interleavings at basic-block granularity of the library's own code (SanitizerCoverage edges), LAPACK/BLAS/link calls, and futex waits. Exact comparison."),
"C02":("seeded query histories with unrelated models and fits in between, each answer compared with a fresh process","Seeded search over query histories; each answer compared bit for bit with the shortest history that asks for it, in a fresh process."),
"C03":("failing LAPACK calls and panicking link callbacks at any point, later calls compared with the fault-free session","Seeded search over fault placements among all calls counted by a fault-free probe. Exact comparison of everything after the failure."),
"C04":("interruption at seeded iteration budgets and chains of resumes","Seeded search over cut points and resume chains; prefixes compared with the uncut fit, optima with the first-order conditions."),
"C05":("IRLS steps scaled or reversed at seeded iterations through the link's derivative","Seeded search over windows of disturbed steps; monotonicity and truth of the history recomputed from raw data, recovery against an undisturbed fit."),
"C06":("failing factorisations and non-finite link values at seeded points of a fit","Seeded search over failures; every Ok checked against the reference model's first-order conditions."),
"C07":("failing, short and interrupted writes to stderr","Every write to stderr of a session may fail in six ways; outcomes compared exactly with the session in which they succeed."),
"C08":("failures inside nested refits, answers compared with independent refits","Seeded search over configurations and failures in nested refits; each answer compared with fits by the reference model."),
"C09":("reductions in a freshly drawn order and rounding jitter on each BLAS/LAPACK call","Seeded search over summation orders; termination, optimality and statistics checked against the reference model."),
"C10":("shuffled, repeated and interleaved builder calls with injected misuse","Seeded search over call sequences and interleavings; build outcomes against the specification, answers against the canonical order."),
"C11":("seeded sequences of fits and starting points on one model","Seeded search over fit histories; each fit compared with a fresh model and every optimum with the first-order conditions."),
"C12":("poisoned allocations, address reuse, clock jumps and entropy","The same session under several memory, clock and entropy environments; exact comparison."),
"C13":("budgets, warm starts, disturbed steps and failures; traces recomputed from raw data","Seeded search; every history entry, count and result recomputed by the reference model."),
"C14":("random multi-client sessions with faults against a reference model","Seeded search over sessions; every successful answer recomputed by the reference model."),
}
checks=[dict(property=k,quick_cmd=f"./check {k} quick",thorough_cmd=f"./check {k} thorough",technique=T+t,level="exploration",level_note=n+trust) for k,(t,n) in C.items()]
na=[("C20","A pure function of one response value: no schedule, fault, clock, I/O or history can change it, so simulation has nothing to decide; invalid responses occur in C10's sessions only as injected misuse."),
("C21","Pure scalar functions of one argument: no nondeterminism, state or fault for a simulator to control."),
("C22","A property of the input's memory layout alone; no schedule, fault or history is involved. (The simulator's builds use row-major views.)"),
("C23","A property of the numbers of the input alone (conditioning, element type); deciding it is numerical analysis or input generation, not simulation."),
("C24","A range property of single pure evaluations; what the simulated sessions compare is equality with the reference model (C14), not the range over all inputs."),
("C25","A property of the build configuration; only the openblas-system back end can be built here and a build is not a simulated execution.")]
m=dict(version=1,setup_cmd="./check --build",checks=checks,not_applicable=[dict(property=a,reason=b) for a,b in na],
 notes="No hooks in /repo: every seam is at the allocator, libc, BLAS/LAPACK, link-trait and compiler-instrumentation level. ./check --replay FILE reproduces a reported violation. Seeds come from VERIF_SEED.")
json.dump(m,open(os.path.join(root,"MANIFEST.json"),"w"),indent=1); print(len(checks),"checks")
