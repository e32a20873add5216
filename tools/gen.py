#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
TECH = "symbolic execution of the real Python/ATen code, SMT (z3) equivalence with the specification"
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    P.append((id, title, statement, over, qtext, why, files, mech, observe, note, na))


SHAPES = ("for every value of data, targets, parameters and vectors, and every model, loss, reduction, batching, "
          "parameter selection and input format within the configuration bounds")
WHYNUM = ("Tests compare a few random seeds with functorch on a handful of architectures and tolerate small errors; they "
          "cannot cover every batch split, data count, reduction, output layout, parameter order and value.")

prop("C01", "Hessian operator is the Hessian of the empirical risk",
     "For every model, loss, reduction, data source, total data count and choice and order of parameters, multiplying the "
     "Hessian operator onto a vector or matrix (single tensor or tensor list) returns the Hessian of the normalised empirical "
     "risk with respect to those parameters times the input. With parameter block sizes it returns the block-diagonal part "
     "for exactly those consecutive blocks, and block sizes that do not partition the parameters are rejected with an error.",
     ["inputs", "configurations"], SHAPES, WHYNUM,
     ["curvlinops/hessian.py", "curvlinops/_torch_base.py"],
     [("per-batch Hessian-vector product over blocks and columns", "HessianLinearOperator._matmat_batch"),
      ("scaled accumulation over mini-batches", "CurvatureLinearOperator._matmat"),
      ("mini-batch normalisation", "CurvatureLinearOperator._get_normalization_factor")],
     ["result of op @ x"])
prop("C02", "GGN operator is the generalized Gauss-Newton matrix of the risk",
     "For every model, convex loss, reduction, data source, total data count and choice and order of parameters, multiplying "
     "the GGN operator onto a vector or matrix (single tensor or tensor list) returns the normalised sum over data of the "
     "network Jacobian transposed times the loss Hessian times the network Jacobian, times the input.",
     ["inputs", "configurations"], SHAPES, WHYNUM,
     ["curvlinops/ggn.py", "curvlinops/_torch_base.py"],
     [("per-batch GGN-vector product", "GGNLinearOperator._matmat_batch"),
      ("scaled accumulation over mini-batches", "CurvatureLinearOperator._matmat")],
     ["result of op @ x"])
prop("C03", "Empirical Fisher operator is the uncentered per-datum gradient covariance",
     "For MSE, cross-entropy and binary cross-entropy losses, either reduction and every data source, multiplying the "
     "empirical Fisher operator onto a vector or matrix returns the normalised sum over data (and over additional output "
     "dimensions) of the outer product of the individual loss-term gradients, times the input. The normalisation is that of "
     "the loss: one for summed losses and the inverse number of averaged loss terms otherwise.",
     ["inputs", "configurations"], SHAPES, WHYNUM,
     ["curvlinops/gradient_moments.py", "curvlinops/_torch_base.py"],
     [("per-batch EF-vector product through a pseudo loss", "EFLinearOperator._matmat_batch")],
     ["result of op @ x"])
prop("C04", "Monte-Carlo Fisher: defined by its draws, reproducible, unbiased",
     "For given random draws of the would-be labels, the Monte-Carlo Fisher operator multiplies with the normalised average "
     "over samples of outer products of would-be gradients, where the labels follow the likelihood the loss implies "
     "(unit-variance-per-output Gaussian scaled as the squared loss implies, categorical, Bernoulli). Its expectation over the draws is the "
     "generalized Gauss-Newton matrix. A fixed operator is one deterministic matrix: every product and every column sees the "
     "same draws, determined by its seed alone.",
     ["inputs", "configurations", "histories"], SHAPES + ", and every outcome of the random draws",
     "Tests average thousands of samples and accept large tolerances, on few seeds; a wrong variance, a draw shared across "
     "data or a generator that is not re-seeded in some call order can stay within them.",
     ["curvlinops/fisher.py", "curvlinops/_torch_base.py", "curvlinops/kfac_utils.py"],
     [("seeding per product", "FisherMCLinearOperator._matmat"), ("would-be gradients", "FisherMCLinearOperator.sample_grad_output")],
     ["result of op @ x", "draws requested from the random generator"])
prop("C05", "Jacobian and transposed Jacobian operators are exact and mutually adjoint",
     "The Jacobian operator maps a parameter-space vector or matrix to the directional derivatives of the stacked model "
     "outputs of all data in data order, and the transposed Jacobian operator maps output-space vectors to the sum of "
     "back-propagated gradients. Their shapes are (number of data times flattened outputs, number of parameters) and its transpose, and "
     "taking the adjoint of one gives the other.",
     ["inputs", "configurations"], SHAPES, WHYNUM,
     ["curvlinops/jacobian.py", "curvlinops/_torch_base.py"],
     [("jvp per batch, concatenated", "JacobianLinearOperator._matmat"),
      ("vjp per batch, accumulated", "TransposedJacobianLinearOperator._matmat")],
     ["result of op @ x", "result of op.adjoint() @ x", "op.shape"])
prop("C06", "gradient_and_loss equals the normalised risk and its gradient",
     "For every model, loss, reduction, data source and total data count, the gradient and loss reported by a curvature "
     "operator are the gradient and value of exactly the normalised empirical risk that defines the operator. They are "
     "detached from any computation graph and repeated calls return the same values.",
     ["inputs", "configurations"], SHAPES, WHYNUM,
     ["curvlinops/_torch_base.py", "curvlinops/kfac.py"],
     [("accumulation with normalisation factor", "CurvatureLinearOperator.gradient_and_loss")],
     ["returned gradient list and loss"])
prop("C07", "Activation Hessian equals the Hessian w.r.t. the chosen activation",
     "The activation Hessian operator multiplies with the Hessian of the batch loss with respect to the output (or a chosen "
     "input that depends on the parameters) of the named module, evaluated at the current data and parameters, for any vector or matrix in any accepted "
     "format. Repeated products agree and leave no hook behind on the model.",
     ["inputs", "configurations", "histories"], SHAPES, WHYNUM,
     ["curvlinops/experimental/activation_hessian.py", "curvlinops/_torch_base.py"],
     [("forward hook storing the activation", "store_activation"), ("Hessian-vector product", "ActivationHessianLinearOperator._matmat")],
     ["result of op @ x", "hooks registered on the model"])
prop("C08", "Operator products agree across input formats; malformed inputs are rejected",
     "For every operator, multiplying onto a matrix equals multiplying onto each of its columns, and the tensor-list format "
     "returns the same numbers as the flattened single-tensor format, in the list, shape, dtype and vector/matrix form of the "
     "operator's output space. Inputs whose number, shapes or column counts do not match the operator's input "
     "space are rejected with a ValueError and never broadcast, truncated or reordered.",
     ["inputs", "configurations"], "for all vector and matrix values, formats, and malformed variants within the bounds",
     "Tests use matching random inputs; the space of mismatching lists, ranks and column counts is unexplored.",
     ["curvlinops/_torch_base.py"],
     [("format check", "PyTorchLinearOperator._check_input_and_preprocess"), ("output formatting", "PyTorchLinearOperator._postprocess")],
     ["result or exception of op @ x"])
prop("C09", "SciPy export computes the same matrix in NumPy types",
     "The SciPy linear operator exported from an operator has its shape, and its matvec, matmat and adjoint products on real NumPy "
     "arrays equal the operator's and its adjoint's matrix applied to them. The result keeps the dtype of a floating-point input, is "
     "never truncated, and the exported dtype is the requested one or NumPy's default.",
     ["inputs", "configurations"], "all array values, float32/float64/integer inputs, symmetric and rectangular operators",
     "Tests export a few operators with one dtype and compare on random arrays.",
     ["curvlinops/_torch_base.py"],
     [("array conversion", "PyTorchLinearOperator.to_scipy"), ("NumPy wrapper", "PyTorchLinearOperator._scipy_compatible")],
     ["scipy operator products, shape and dtype"])
prop("C10", "KFAC factors are the documented Kronecker factors",
     "For every supported layer, loss, Fisher type, weight-sharing treatment (expand or reduce), bias treatment and data "
     "source, the KFAC operator multiplies with the block-diagonal matrix whose blocks are the documented Kronecker products: "
     "the averaged (bias-augmented) input covariance and the output-gradient covariance implied by the loss and Fisher type. "
     "In cases where KFAC is exact (one datum or a deep linear network under MSE), it equals the corresponding curvature matrix.",
     ["inputs", "configurations"], "all data, targets, parameters, draws and vectors; layer kinds, losses, batchings, parameter "
     "orders and options within the bounds",
     "Tests compare against the GGN only in exact cases with random data; factor scaling errors that cancel there, or depend "
     "on batching, parameter order or shared/unshared bias, are not settled.",
     ["curvlinops/kfac.py", "curvlinops/kfac_utils.py"],
     [("input covariance hook", "KFACLinearOperator._hook_accumulate_input_covariance"),
      ("gradient covariance hook", "KFACLinearOperator._register_tensor_hook_on_output_to_accumulate_gradient_covariance"),
      ("product with the Kronecker blocks", "KFACLinearOperator._matmat")],
     ["result of op @ x"])
prop("C11", "KFAC trace, determinant, log-determinant and norm fit its own matrix",
     "The trace, determinant, log-determinant and Frobenius norm a KFAC operator reports are those of the matrix it multiplies "
     "with, for every set of layers, with or without bias and any parameter treatment. Repeated or interleaved queries and products "
     "return the same answers.",
     ["inputs", "configurations", "histories"], "all factor values within the bounds, query orders",
     "Tests evaluate a few random factors; dimension exponents and caching errors depend on configuration and call order.",
     ["curvlinops/kfac.py"],
     [("closed forms over Kronecker factors", "KFACLinearOperator.trace/det/logdet/frobenius_norm")],
     ["op.trace, op.det, op.logdet, op.frobenius_norm, op @ x"])
prop("C12", "Damped KFAC inverse multiplies with the inverse of the damped factors",
     "Every block of the inverse KFAC operator multiplies with the inverse of the Kronecker product of the damped factors: both "
     "factors shifted by the given damping (scalar or pair), by the trace-balanced heuristic split, or by exact damping of the "
     "whole Kronecker product through the eigendecomposition. Factors absent because a block is one-sided are treated as the "
     "documented identity, and a singular factor raises an error unless retrying in double precision resolves it.",
     ["inputs", "configurations"], "all symmetric positive (semi-)definite factor values within the bounds",
     "Tests check random well-conditioned factors with a fixed damping.",
     ["curvlinops/inverse.py"],
     [("damping and Cholesky inverse", "KFACInverseLinearOperator._compute_inverse_factors"),
      ("inverse product", "KFACInverseLinearOperator._matmat")],
     ["result of inv @ x, exceptions"])
prop("C13", "Saved KFAC and inverse-KFAC state restores the same operator",
     "An operator whose state is loaded into a freshly constructed operator of the same configuration, or created from a state "
     "dict, multiplies with the same matrix as the one saved, before or after its factors were computed, and loading into a "
     "mismatching configuration or from incomplete state is rejected. Saving does not change the source operator.",
     ["inputs", "configurations", "histories"], "all factor values; save/load orders within the bounds",
     "Tests round-trip one computed operator; mismatches, partial states and orders of calls are not explored.",
     ["curvlinops/kfac.py", "curvlinops/inverse.py"],
     [("state dict", "KFACLinearOperator.state_dict/load_state_dict/from_state_dict"),
      ("state dict of the inverse", "KFACInverseLinearOperator.state_dict/load_state_dict/from_state_dict")],
     ["state dicts, products after loading, exceptions"])
prop("C14", "Determinism check accepts deterministic problems and rejects others",
     "Constructing a curvature operator with its determinism check enabled succeeds whenever two passes over the data agree on "
     "the total loss, total gradient and matrix-vector product up to the tolerance, and raises a RuntimeError otherwise. The order, "
     "grouping and number of mini-batches alone do not matter, except for operators that need a fixed data order (MC-Fisher, "
     "Jacobians): these are rejected if inputs, targets or predictions of corresponding mini-batches differ.",
     ["inputs", "schedules", "configurations"], "all values of per-pass losses, gradients and products; batch orders",
     "Tests use one dropout or batch-norm model; which of the compared quantities differs, and in which batch, varies freely.",
     ["curvlinops/_torch_base.py", "curvlinops/utils.py"],
     [("two-pass comparison", "CurvatureLinearOperator._check_deterministic")],
     ["exception or success of the constructor"])
prop("C15", "Submatrix operator is exactly the selected rows and columns",
     "A submatrix operator built from row and column index lists multiplies with exactly the selected entries of the "
     "underlying matrix in the given order, and its adjoint with their conjugate transpose. Indices that are "
     "non-integer, duplicated or out of range are rejected, and changing the indices later redefines the operator consistently.",
     ["inputs", "configurations", "histories"], "all matrices and vectors within the bounds; all index lists of the bounded sizes",
     "Tests sample a few random index lists.",
     ["curvlinops/submatrix.py"],
     [("embedding and selection", "SubmatrixLinearOperator._matmat"), ("index check", "SubmatrixLinearOperator.set_submatrix")],
     ["sub @ x, sub.adjoint() @ x, sub.shape, exceptions"])
prop("C16", "Neumann inverse applies the truncated, scaled Neumann series",
     "The Neumann inverse operator multiplies with scale times the sum of the powers 0..K of (I - scale * A), for every matrix, "
     "vector, number of terms and scale, including after these hyper-parameters are changed. With NaN checking on, a "
     "series that produces NaNs raises a ValueError.",
     ["inputs", "configurations", "histories"], "all matrix and vector values, number of terms within the bounds, any scale",
     "Tests use one small matrix for which the series converges.",
     ["curvlinops/inverse.py"],
     [("series recursion", "NeumannInverseLinearOperator._matvec")],
     ["inv @ x, exceptions"])
prop("C17", "CG and LSMR inverse operators solve the linear system they stand for",
     "Multiplying a CG or LSMR inverse operator onto a vector or matrix hands the underlying operator and exactly that right-"
     "hand side (each column separately) to the SciPy solver with the configured hyper-parameters, and returns the solution unchanged. "
     "With default hyper-parameters a well-conditioned small system is solved to the solver's documented accuracy.",
     ["inputs", "configurations", "histories"], "all small systems and right-hand sides within the bounds",
     "Tests solve one random system with hand-picked tolerances, never the default ones.",
     ["curvlinops/inverse.py"],
     [("CG", "CGInverseLinearOperator._matvec"), ("LSMR", "LSMRInverseLinearOperator._matvec")],
     ["inv @ x", "arguments seen by the solver"])
prop("C18", "Stochastic trace, diagonal and norm estimators are exactly unbiased",
     "For every matrix and every allowed number of samples and probe distribution, each estimate returned by the Hutchinson trace, "
     "Hutchinson diagonal, Hutch++ trace and squared Frobenius norm estimators has expectation equal to the true trace, diagonal or "
     "squared norm over the distribution of its random draws. Repeated "
     "estimates are independent of each other, and unsupported distributions, non-square operators and too large bases are rejected.",
     ["inputs", "configurations"], "all matrices up to the size bound and all outcomes of the draws",
     "Tests average many random samples and accept coarse tolerances; a small bias or dependence between draws is invisible.",
     ["curvlinops/trace/hutchinson.py", "curvlinops/trace/meyer2020hutch.py", "curvlinops/diagonal/hutchinson.py",
      "curvlinops/norm/hutchinson.py", "curvlinops/sampling.py"],
     [("sampling", "curvlinops.sampling.random_vector"), ("Hutch++ projection", "HutchPPTraceEstimator.sample")],
     ["values returned by sample()"])
prop("C19", "Spectral density approximation follows the normalised Lanczos recipe",
     "Approximate spectral densities are averages over the requested number of Lanczos runs of Gaussian-broadened Ritz values with "
     "their quadrature weights, on a grid covering the given (or estimated, padded) spectrum bounds, computed for the operator "
     "affinely normalised to [-1, 1] and mapped back. The density "
     "returned on the log scale is the change of variables of the same recipe, and computed results are cached without being mixed up.",
     ["inputs", "configurations", "histories"], "all Ritz values/vectors and bounds within the size bounds",
     "Tests compare plots of random matrices with loose tolerances.",
     ["curvlinops/papyan2020traces/spectrum.py"],
     [("density of a Lanczos run", "lanczos_approximate_spectrum"), ("cache", "LanczosApproximateSpectrumCached")],
     ["grids and densities returned"])
prop("C20", "The fast Lanczos recurrence tridiagonalises exactly",
     "For every symmetric matrix and start vector, the diagonal and off-diagonal returned by the fast Lanczos routine are "
     "those of the three-term Lanczos recurrence, so that the eigen-decomposition it returns is that of the Krylov-space projection.",
     ["inputs", "configurations"], "all symmetric matrices and start vectors within the size bound",
     "Tests check one random matrix per run.",
     ["curvlinops/papyan2020traces/spectrum.py"],
     [("recurrence", "fast_lanczos")],
     ["returned Ritz values and vectors"])
prop("C21", "Operators leave inputs, model, data and gradients as they were",
     "No product, query, construction or failure of an operator changes the vectors passed in, the parameters or their .grad, "
     "the data, or the modes and hooks of model and loss; products and queries leave the global random states alone (only the determinism check draws a probing vector); results do not alias inputs. "
     "After an exception in the middle of a pass (in data, model or loss) a retry gives the same result as a fresh operator.",
     ["inputs", "configurations", "histories", "fault_sequences"], "all values; faults at every batch of a pass; call orders within the bounds",
     "Tests never compare inputs before and after, nor inject faults.",
     ["curvlinops/_torch_base.py", "curvlinops/kfac.py", "curvlinops/inverse.py", "curvlinops/fisher.py", "curvlinops/jacobian.py"],
     [("cloning of inputs", "PyTorchLinearOperator._matmat callers"), ("hook removal", "KFACLinearOperator._compute_kfac")],
     ["inputs, model and data before and after", "hooks", "results of a retry"])
prop("C22", "Convolution patches reproduce the convolution",
     "For every kernel size, stride, padding (numeric or string), dilation and group count, the extracted input patches (averaged "
     "for weight sharing 'reduce') arranged as documented satisfy: weight matrix times patch equals the convolution output at "
     "that location, and the reduced patch is the mean over locations.",
     ["inputs", "configurations"], "all inputs and weights; convolution hyper-parameters within the bounds",
     "Tests sample few hyper-parameter combinations.",
     ["curvlinops/kfac_utils.py"],
     [("patch extraction", "extract_patches"), ("averaged patches", "extract_averaged_patches")],
     ["returned patches"])
prop("C23", "Loss Hessian square roots square to the loss Hessian",
     "For every prediction and label, the square root of the loss Hessian returned for squared, cross-entropy and binary "
     "cross-entropy losses, multiplied by its transpose, is exactly the Hessian of the loss, for either reduction. Unsupported "
     "losses, reductions or output shapes are rejected.",
     ["inputs", "configurations"], "all predictions and labels with up to the bounded number of outputs",
     "Tests draw random predictions.",
     ["curvlinops/kfac_utils.py"],
     [("square roots", "loss_hessian_matrix_sqrt")],
     ["returned matrix"])
prop("C24", "Outer-product and projector operators are what they are named",
     "The outer-product operator multiplies with the weighted sum of outer products of the given columns, and the projector "
     "keeps exactly the components along the given orthonormal basis and removes all others. Both keep the vector, column or matrix format and equal their adjoint.",
     ["inputs", "configurations"], "all coefficient and vector values within the bounds",
     "Tests use one random basis.",
     ["curvlinops/outer.py"],
     [("products", "OuterProductLinearOperator._matmat, ProjectorLinearOperator")],
     ["result of op @ x"])

prop("C25", "Functorch references equal the definitions",
     "For every model, loss, reduction and data split, the functorch references of the documentation return the gradient and "
     "loss, the Jacobian, the Hessian, the generalised Gauss-Newton and the empirical Fisher of all data, as dense arrays in "
     "the order of the parameters. Dict-like inputs without the key of the input tensor are rejected.",
     ["inputs", "configurations"], SHAPES,
     "Tests use these functions as their oracle and never test them on their own.",
     ["curvlinops/examples/functorch.py"],
     [("references", "functorch_hessian, functorch_ggn, functorch_jacobian, functorch_gradient_and_loss, "
       "functorch_empirical_fisher"), ("dense layout", "blocks_to_matrix")],
     ["returned arrays"])
prop("C26", "Comparison and partition helpers decide exactly what they say",
     "For all arrays and tolerances, allclose_report and report_nonclose accept exactly the pairs of equal shape whose entries "
     "all differ by at most atol + rtol times the magnitude of the second array's entry, and they signal every other pair. "
     "split_list partitions into consecutive lists of the requested sizes and rejects sizes that do not add up.",
     ["inputs", "configurations"], "all real arrays and non-negative tolerances with at most four entries",
     "Tests call the helpers on their own expected matches, mostly.",
     ["curvlinops/utils.py", "curvlinops/examples/utils.py"],
     [("tensor comparison", "allclose_report"), ("array comparison", "report_nonclose"), ("partition", "split_list")],
     ["returned truth value or error", "returned lists"])

NOTE = ("Bounded: z3 decides every obligation for all real values of data, parameters, targets, draws and probing vectors within "
        "the listed sizes and configurations; rounding is outside. Trusted: the symbolic meaning of the ATen operators (validated "
        "against the real run on every path) and PyTorch's autograd engine, which runs for real.")


def main():
    checks, na = [], []
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for id, title, st, over, qt, why, files, mech, obs, note, nar in P:
            f.write(json.dumps({
                "id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qt}, "why_tests_cant": why,
                "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": obs,
                            "hook_needed": None}}) + "\n")
            if nar is None and os.path.exists(os.path.join(HERE, "checks", id.lower() + ".py")):
                checks.append({
                    "property": id,
                    "quick_cmd": f"{PY} run.py {id}",
                    "thorough_cmd": f"{PY} run.py {id} --tier thorough",
                    "technique": TECH, "level": "model_checking", "level_note": note or NOTE})
            else:
                na.append({"property": id, "reason": nar or "check not built yet"})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": f"{PY} run.py --selftest", "checks": checks, "not_applicable": na}, f, indent=1)
        f.write("\n")


main()
