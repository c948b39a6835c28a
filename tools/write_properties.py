#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the text stays reviewable)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": ["src/opinf/" + f for f in files],
                "mechanism": [{"name": n, "where": "src/opinf/" + w} for n, w in mechanism],
                "state": [
                    {"name": n, "meaning": m, "where": "src/opinf/" + w} for n, m, w in state
                ],
                "observe_at": observe,
                "hook_needed": None,
            },
        }
    )


prop(
    "P01",
    "What was saved is what loads",
    "Every transformer, basis, operator, solver, model or operator posterior that can be written to a file "
    "reads back as an object with the same settings, names and trained data, which answers every query as the "
    "original did when it was saved. This holds whatever happened to the object before (untrained, trained, "
    "retrained on other data, reconfigured, itself loaded or copied), for any number of members in a container, "
    "for nested groups of an open file, and however often the target was overwritten. Not part of a file are "
    "a model's least-squares solver, a basis's SVD driver, and coefficient functions, which the caller passes again.",
    ["histories", "inputs", "configurations"],
    "all histories of construct / configure / fit / refit / copy / save / overwrite / load, all object kinds and "
    "their nestings, all storage layouts (own file, group of an open file)",
    "Tests save one small instance of each class once and compare a few attributes; they do not combine states, "
    "container sizes, entry formats, repeated overwrites and reloads.",
    ["utils/_hdf5.py", "operators/_base.py", "operators/_affine.py", "operators/_interpolate.py",
     "operators/_polynomial_operator.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py",
     "basis/_linear.py", "basis/_pod.py", "basis/_multi.py", "pre/_base.py", "pre/_multi.py",
     "pre/_shiftscale.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "lstsq/_total.py",
     "roms/_bayes.py"],
    [("hdf5 save and load handles", "utils/_hdf5.py"), ("save()/load() pairs", "operators/_base.py"),
     ("member groups of containers", "pre/_multi.py")],
    ["return values of all queries of the loaded object", "string form and attributes of the loaded object"],
)
prop(
    "P02",
    "A failed or interrupted save keeps the old file",
    "When a save with permission to overwrite fails with an I/O error, is interrupted, or its process dies at any "
    "moment, the target afterwards is the complete previous file or the complete new one, and a target that did not "
    "exist before never loads as anything but the object that was being saved. A save that returns normally has "
    "written the complete new file, a failing one raises. Once the fault is gone the same save succeeds.",
    ["crash_points", "fault_sequences", "histories"],
    "every write, truncate, flush, rename and every line at which an error, interrupt or process death can fall, "
    "every savable object, existing or new target",
    "Tests never make an operation on the disk fail and never kill the process: they see only saves that complete.",
    ["utils/_hdf5.py", "operators/_base.py", "models/mono/_nonparametric.py", "basis/_pod.py", "pre/_multi.py",
     "lstsq/_base.py"],
    [("temporary file moved over the target when complete", "utils/_hdf5.py")],
    ["bytes of the target file", "what the target loads as in a new process"],
    [("target file", "the durable state", "utils/_hdf5.py")],
)
prop(
    "P03",
    "No overwriting without permission, no stray handles",
    "Saving to an existing path without permission to overwrite raises and leaves that file unchanged byte for byte. "
    "Saving into or loading from an open handle or group touches nothing outside it and leaves it open and usable, "
    "also when the operation fails. A file that the library itself opened is closed when the call returns or raises, "
    "so it can be opened, overwritten or removed at once.",
    ["histories", "fault_sequences"],
    "all sequences of saves and loads over shared paths, handles and groups, with errors raised in any of them",
    "Tests check one existing file with one object, and do not look at handles after failures.",
    ["utils/_hdf5.py", "operators/_base.py", "pre/_multi.py", "basis/_multi.py", "models/mono/_base.py"],
    [("hdf5_savehandle / hdf5_loadhandle", "utils/_hdf5.py")],
    ["bytes of the files", "open HDF5 handles of the process", "contents of sibling groups"],
)
prop(
    "P04",
    "A failed load raises and leaves no trace",
    "Loading from a missing, truncated or non-HDF5 file, or one whose reading fails with an I/O error or is "
    "interrupted at any point, raises instead of returning an object with wrong or missing parts. It leaves the file "
    "unchanged byte for byte and keeps no handle on it. The same load gives the complete object once the fault is gone.",
    ["fault_sequences", "crash_points", "histories"],
    "every read at which an error or interrupt can fall, every prefix of a file, every loadable object",
    "Tests read complete files from a disk that works.",
    ["utils/_hdf5.py", "operators/_base.py", "operators/_interpolate.py", "operators/_affine.py",
     "models/mono/_nonparametric.py", "models/mono/_parametric.py", "basis/_linear.py", "basis/_pod.py",
     "basis/_multi.py", "pre/_multi.py", "pre/_shiftscale.py", "lstsq/_base.py", "lstsq/_tikhonov.py"],
    [("hdf5_loadhandle", "utils/_hdf5.py")],
    ["exception or object returned by load()", "bytes of the file", "open HDF5 handles of the process"],
)
prop(
    "H01",
    "Solver answers belong to the data and regularization shown",
    "At any time a least-squares solver either raises or returns the minimiser (and residuals, condition numbers and "
    "posterior) of the regression defined by the data matrices, regularization and options it currently exposes. This "
    "holds after any history of fits, resets, changes of regularization or options, copies and solves, including ones "
    "that were rejected or failed halfway; a solver that was fitted anew answers as a newly made one would. A regularizer "
    "built for a list of operators gives every column of an operator that operator's weight.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of valid and invalid fits, setting changes, resets and solves, with numerical failures and "
    "interrupts at any point in them",
    "Tests fit a solver once or twice with valid data; stale factorisations, and what remains after a rejected "
    "setting or a failed fit, need longer histories with failures in them.",
    ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "lstsq/_total.py"],
    [("cached factorisations refreshed by fit()", "lstsq/_tikhonov.py"),
     ("data discarded when a calibration fails", "lstsq/_base.py")],
    ["solve()", "residual()", "regresidual()", "cond()", "regcond()", "posterior()", "data_matrix", "regularizer", "get_operator_regularizer()"],
    [("cached SVD / normal equations", "derived from data and regularization", "lstsq/_tikhonov.py")],
)
prop(
    "H02",
    "A model's operators come from its latest training data only",
    "After a successful fit or refit, a model's inferred operators are the least-squares solution for exactly the data "
    "of the latest fit and the current settings of its solver, with known operators kept and subtracted, and its right-"
    "hand side is the sum of its operators. A model that was fitted before, or whose fit failed or was interrupted "
    "anywhere, ends up after the next successful fit as a newly built model would, and so does a copy of an untrained model. "
    "The Galerkin projection of a model has the projected operators and, where operators remain to be inferred, the "
    "solver of the original. Later changes of the caller's states and inputs do not change a fitted model.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of fits on data of varying size, dimension and parameters, with rejected data, numerical failures "
    "and interrupts at any point, for nonparametric, affine and interpolatory models",
    "Tests fit fresh models with good data; leftovers of earlier or failed fits show only in histories.",
    ["models/mono/_base.py", "models/mono/_nonparametric.py", "models/mono/_parametric.py",
     "operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py"],
    [("fit() clears inferred entries and dimensions", "models/mono/_base.py"), ("refit()", "models/mono/_base.py")],
    ["entries of the operators", "rhs() and predict()", "dimensions"],
    [("operator entries, dimensions, solver data", "what a fit leaves behind", "models/mono/_nonparametric.py")],
)
prop(
    "H03",
    "Preprocessing reflects the latest fit and can be undone",
    "After a successful fit, a transformer's statistics and output are determined by the data of the latest fit and "
    "its settings alone, mapping back undoes mapping forward (also on selected locations), and derivatives are mapped "
    "consistently with states. Pipelines and multi-variable transformers equal their members applied in order or "
    "variable by variable, and shift() and scale() apply what they learned from their first data to other data. A "
    "transformer whose fit failed or was interrupted ends up, after the next successful fit, as a newly made one would.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of fits, transforms, setting changes and failures for every transformer and nesting",
    "Tests fit each transformer on one data set; the histories and the failing fits are not sampled.",
    ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py"],
    [("fit_transform()", "pre/_shiftscale.py"), ("member-wise application", "pre/_multi.py")],
    ["transform()", "inverse_transform()", "transform_ddts()", "learned statistics"],
)
prop(
    "H04",
    "A basis reflects its latest fit",
    "After a successful fit, a basis, its singular values and its dimension are determined by the data of the latest "
    "fit and its settings alone: a POD basis consists of the leading left singular vectors, orthonormal in the chosen "
    "weights, with the number chosen by the active criterion, and compressing what was decompressed is the identity. "
    "Changing the dimension or a criterion takes effect as if the basis had been made that way. A basis whose fit or "
    "setting failed ends up, after the next successful one, as a newly made one would. The functions that choose a "
    "dimension for given singular values apply the same criteria.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of fits, dimension changes and failures for every kind of basis and weight",
    "Tests fit a basis on one data set and do not continue after a failure.",
    ["basis/_base.py", "basis/_linear.py", "basis/_pod.py", "basis/_multi.py"],
    [("fit()", "basis/_pod.py"), ("dimension selection", "basis/_pod.py")],
    ["entries, svdvals, rightvecs, shape", "compress()", "decompress()", "project()", "projection_error()"],
)
prop(
    "H05",
    "A reduced-order model is its parts put together",
    "A reduced-order model encodes by lifting, transforming and compressing, decodes by the inverse steps in reverse "
    "order, trains its parts on the data as processed by the parts before, and predicts by encoding, solving its model "
    "and decoding. What it answers after a successful fit depends on that fit's data and the settings only (and on "
    "parts the caller asked to keep), not on earlier, failed or interrupted fits.",
    ["histories", "fault_sequences", "configurations"],
    "all combinations of lifter, transformer, basis, derivative estimator and model, all histories of fits with "
    "failures at any point",
    "Tests fit each combination once; no test lets a fit fail in the middle and goes on.",
    ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
    [("encode()/decode()", "roms/_base.py"), ("fit()", "roms/_base.py")],
    ["encode(), decode(), project(), predict()", "state of the parts"],
)
prop(
    "H06",
    "An operator answers from the entries it holds",
    "At any time, what an operator answers (application to one or many states, Jacobian, data block, evaluation at a "
    "parameter value, Galerkin and Petrov-Galerkin projection, dimensions) is that of the polynomial, affine expansion "
    "or interpolant which the entries it currently exposes define. Redundant forms of the entries are reduced to an "
    "equivalent one, invalid entries are rejected and change nothing. This holds after any history of setting, "
    "clearing, copying, projecting and evaluating, including ones that were rejected, failed or interrupted.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of setting entries of any size and format, invalid ones, copies and queries, with failures and "
    "interrupts at any point, for nonparametric, affine and interpolatory operators",
    "Tests set the entries of an operator once and evaluate it; data derived from earlier entries, or left over from "
    "a failed change, shows only in histories.",
    ["operators/_base.py", "operators/_nonparametric.py", "operators/_polynomial_operator.py", "operators/_affine.py",
     "operators/_interpolate.py"],
    [("set_entries()", "operators/_nonparametric.py"), ("evaluate()", "operators/_affine.py"),
     ("set_interpolator()", "operators/_interpolate.py"), ("galerkin()", "operators/_base.py")],
    ["apply()", "jacobian()", "datablock()", "evaluate()", "galerkin()", "entries"],
    [("cached index masks and Jacobian tensors", "derived from the entries", "operators/_nonparametric.py")],
)
prop(
    "H07",
    "Queries change nothing",
    "Asking an object for something (predicting, evaluating, applying, differentiating, transforming out of place, "
    "compressing, solving, computing errors, printing, comparing, copying, saving) changes neither the object nor the "
    "arrays the caller passed in, whether the query succeeds, is rejected, or fails inside a numerical routine or a "
    "user callback. Asked again it gives the same answer, in any order with other queries, and answers already given "
    "do not change afterwards. Remembering the last solver report and the dimension of a first parameter is allowed.",
    ["histories", "fault_sequences", "inputs"],
    "all sequences of valid, invalid and failing queries on every kind of object",
    "Tests call each query once with valid arguments and look at the result, not at what it left behind.",
    ["operators/_nonparametric.py", "operators/_affine.py", "operators/_interpolate.py",
     "models/mono/_nonparametric.py", "models/mono/_parametric.py", "pre/_shiftscale.py", "pre/_multi.py",
     "basis/_linear.py", "basis/_multi.py", "roms/_base.py", "lstsq/_base.py", "ddt/_base.py", "lift/_polynomial.py",
     "post/_errors.py"],
    [("queries work on copies of what they are given", "pre/_shiftscale.py")],
    ["all observable state before and after", "caller's arrays", "results held by the caller"],
)
prop(
    "H08",
    "Verifying an object leaves it and the file system as they were",
    "Self-verification of an operator, solver, transformer, basis, derivative estimator or lifter leaves the "
    "object's settings and trained state as they were, also when it reports an error or fails inside. It neither "
    "writes nor removes files of the user.",
    ["histories", "fault_sequences"],
    "every object in every state, with failures at any numerical or file operation of the verification",
    "Tests call verification on fresh objects and do not compare the state before and after.",
    ["operators/_base.py", "lstsq/_base.py", "pre/_base.py", "basis/_base.py", "ddt/_base.py", "lift/_base.py"],
    [("verify()", "operators/_base.py"), ("time domain restored", "ddt/_base.py")],
    ["all observable state before and after", "directory contents"],
)
prop(
    "H09",
    "Derivative estimates belong to the time domain and scheme shown",
    "At any point of a history (other estimates, misaligned data, failing interpolators, interruptions, verification) a "
    "derivative estimator's estimates and masks are those of the time domain, scheme and options it shows: exact for the "
    "polynomials of the scheme's order, aligned column by column with the returned states and inputs, whatever the layout "
    "or type of the data. Misaligned data is refused where the time domain is checked, arguments are not changed, and "
    "verify() reports the scheme's own errors and restores the time domain.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of estimates, masks, verifications and refused data with failures and interrupts in them, all schemes, "
    "time domains, layouts and numbers of snapshots",
    "Tests estimate smooth functions once on one grid; leftovers of a failed verification, short data, other layouts and "
    "the alignment of inputs are not reached.",
    ["ddt/_base.py", "ddt/_finite_difference.py", "ddt/_interpolation.py"],
    [("difference stencils", "ddt/_finite_difference.py"), ("verify() replaces the time domain for a while", "ddt/_base.py")],
    ["estimate()", "mask()", "verify()", "time_domain", "ddt() and the difference functions"],
)
prop(
    "H10",
    "Lifting follows the orders shown and can be undone",
    "After any history of accepted and refused orders, failing and interrupted operations, a lifting map's lifted states "
    "are the powers of the states that it shows, its lifted derivatives are their derivatives by the chain rule, and "
    "unlifting returns the states where the map is invertible. Arguments are not changed, and refused orders leave the "
    "map as it was.",
    ["histories", "fault_sequences", "inputs"],
    "all histories of settings and operations with failures and interrupts in them, all orders and layouts",
    "Tests lift random states with a few maps made for the purpose; changed orders, refused ones, special orders and "
    "zero states are not reached.",
    ["lift/_base.py", "lift/_polynomial.py"],
    [("lift(), lift_ddts(), unlift()", "lift/_polynomial.py"), ("orders", "lift/_polynomial.py")],
    ["lift()", "lift_ddts()", "unlift()", "orders", "num_variables"],
)
prop(
    "H11",
    "Objects that compare equal answer the same",
    "For operators, models, bases, shift-scale and multivariable transformers and posteriors, after any history: a == b "
    "is the same as b == a and as not (a != b), never raises (also not with objects of other kinds, to which nothing is "
    "equal), and changes neither object. If it is true, both answer every query the same (up to rounding); an object "
    "equals its copy and what is loaded from its file.",
    ["histories", "fault_sequences", "inputs"],
    "all pairs of objects reached by histories of fits, changes of single entries or settings, interrupted steps, copies "
    "and reloads of both or one of them, for all representations (dense, sparse) of entries and weights",
    "Tests compare a few dense objects; asymmetric states, sparse data and differences in one place are not reached.",
    ["operators/_base.py", "operators/_interpolate.py", "operators/_polynomial_operator.py", "models/mono/_base.py",
     "basis/_linear.py", "basis/_multi.py", "pre/_shiftscale.py", "pre/_multi.py", "roms/_bayes.py"],
    [("__eq__() of operators and models", "operators/_base.py"), ("__eq__() of bases", "basis/_linear.py")],
    ["==", "!=", "answers of equal objects", "copy()", "load()"],
)
prop(
    "C01",
    "Concurrent queries equal sequential ones",
    "When several threads query the same trained object at the same time (predict, evaluate, apply, transform out of "
    "place, compress, encode, decode, solve, save to separate files, load the same file), each gets what it would have "
    "got alone and the object is afterwards as before, under every interleaving.",
    ["schedules", "inputs"],
    "all interleavings of queries of two or more threads on a shared object",
    "No test uses threads, and a test could not choose the interleaving.",
    ["operators/_nonparametric.py", "operators/_interpolate.py", "operators/_affine.py",
     "models/mono/_nonparametric.py", "models/mono/_parametric.py", "pre/_shiftscale.py", "pre/_multi.py",
     "basis/_linear.py", "basis/_pod.py", "roms/_base.py", "lstsq/_base.py", "lstsq/_tikhonov.py", "utils/_hdf5.py"],
    [("queries keep their work in local variables", "models/mono/_nonparametric.py")],
    ["results of each thread", "observable state afterwards"],
)
prop(
    "C02",
    "Separate objects never influence each other",
    "Objects that were constructed separately, copied, or loaded share no state: fitting, reconfiguring, saving, "
    "failing or being collected on one of them never changes what another one answers. This holds for work interleaved "
    "in one thread and for work on separate objects in several threads, and equally for files at separate paths.",
    ["schedules", "histories", "fault_sequences"],
    "all interleavings of histories of two or more objects, in one or several threads, with failures in any of them",
    "Tests look at one object at a time.",
    ["operators/_base.py", "operators/_interpolate.py", "models/mono/_base.py", "models/mono/_parametric.py",
     "lstsq/_base.py", "lstsq/_tikhonov.py", "pre/_base.py", "pre/_multi.py", "basis/_base.py", "basis/_pod.py",
     "utils/_hdf5.py"],
    [("copy()", "operators/_base.py"), ("copies of solvers per parameter", "models/mono/_parametric.py")],
    ["answers of the untouched object", "files at other paths"],
)
prop(
    "G01",
    "A parameter search is never worse than its best candidate",
    "The value returned by the hyperparameter search has an objective no larger than that of every candidate, and "
    "restricted to the grid it is a best candidate, whatever mixture of finite, infinite and undefined objective values "
    "occurs and wherever the follow-up optimisation fails. If no candidate has a usable objective it raises an error. "
    "An exception of the objective reaches the caller, and the caller's candidates are left unchanged.",
    ["inputs", "fault_sequences"],
    "all candidate lists, all objectives including ones that are infinite, undefined or raise at any call, all "
    "outcomes of the optimiser",
    "Tests use one smooth objective on a fixed grid.",
    ["utils/_gridsearch.py"],
    [("fall back on the grid winner", "utils/_gridsearch.py")],
    ["return value, exceptions, warnings, calls of the objective"],
)
prop(
    "G02",
    "Regularization selection ends at the best stable candidate",
    "After a regularization selection, a reduced-order model is exactly what a direct fit with the selected "
    "regularization gives, the selected candidate is stable on all training problems and test cases and has the "
    "smallest training error among the candidates, and nothing of the rejected candidates or of an earlier fit remains. "
    "If every candidate is unstable or cannot be fitted the selection raises an error, and a failure during the search "
    "does not spoil the next one.",
    ["histories", "fault_sequences", "inputs"],
    "all candidate sets, training data and test cases, histories of selections, with failures in any candidate's "
    "regression, integration or test case",
    "Tests run the selection once on benign data and check that it returns.",
    ["roms/_base.py", "roms/_bayes.py", "utils/_gridsearch.py", "models/mono/_base.py"],
    [("fit_regselect_continuous / fit_regselect_discrete", "roms/_base.py")],
    ["operators and regularization after the selection", "predictions", "exceptions"],
)
prop(
    "T01",
    "Time limits fire in time, once, and only inside their block",
    "A timed block with a limit raises a timeout when its body runs longer than the limit in wall time and not "
    "otherwise, whatever else the process waits for. After the block, however it ended, no alarm of it arrives later, "
    "and the alarm and handler that were set before are in force again with their remaining time. Nested blocks each "
    "keep their own limit.",
    ["schedules", "fault_sequences", "histories"],
    "all durations, nestings, exceptions and clock steps, with alarms of other code pending",
    "Tests sleep for real for one second once; nesting, exceptions near the limit, clock steps and pending alarms of "
    "others are not reached.",
    ["utils/_timer.py"],
    [("TimedBlock enter and exit", "utils/_timer.py")],
    ["exceptions", "pending alarm and handler of the process"],
    [("SIGALRM timer and handler", "process-wide", "utils/_timer.py")],
)
prop(
    "T02",
    "A timed block reports exactly once and hides nothing",
    "A timed block measures the wall time of its body, reports the outcome exactly once on standard output and in each "
    "log file that was added, and lets every exception of the body through unchanged in kind or as the documented "
    "report of it. Standard output is afterwards what it was before, however the block ended and however blocks are "
    "nested or reused.",
    ["histories", "fault_sequences", "schedules"],
    "all sequences and nestings of blocks with returns, errors, interrupts and timeouts, and all clock behaviours",
    "Tests run a single block and look at its attribute.",
    ["utils/_timer.py"],
    [("TimedBlock enter and exit", "utils/_timer.py"), ("add_logfile()", "utils/_timer.py")],
    ["standard output", "log files", "elapsed attribute"],
)
prop(
    "R01",
    "Results are reproducible",
    "Given the same data, settings and random seeds, every fit, selection, draw and prediction gives the same result in "
    "every run of the process, whatever other objects did before and whatever the hash seed. Operations that are not "
    "documented as random neither consume nor reseed the global random number generators, and randomised ones use "
    "only the seed or global generator they document.",
    ["schedules", "histories", "configurations"],
    "all histories in one process or several, hash seeds and other users of the global generators",
    "Tests do not repeat a computation in another process or watch the global generators.",
    ["basis/_pod.py", "roms/_bayes.py", "roms/_base.py", "models/mono/_nonparametric.py", "operators/_interpolate.py",
     "lstsq/_tikhonov.py"],
    [("deterministic drivers by default", "basis/_pod.py")],
    ["results", "state of the global generators"],
)

# Properties that no schedule, clock, fault or history can influence: not_applicable.
prop(
    "N04",
    "Error measures are the documented norms",
    "Absolute and relative errors equal the documented norms of the difference and are zero only for equal data.",
    ["inputs"],
    "all arrays",
    "Tests sample a few arrays.",
    ["post/_errors.py"],
    [("norm computations", "post/_errors.py")],
    ["return values"],
)
prop(
    "N06",
    "Numerical accuracy of time integration",
    "Predictions of a continuous model approximate the solution of its differential equation to the requested "
    "tolerance.",
    ["inputs"],
    "all models and tolerances",
    "Tests compare loosely.",
    ["models/mono/_nonparametric.py"],
    [("scipy.integrate", "models/mono/_nonparametric.py")],
    ["return values"],
)

NA = {"N04", "N06"}

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")
