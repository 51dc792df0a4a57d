"""Writes properties.jsonl and MANIFEST.json (both are committed; run after editing this table)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "torch_harmonics/"
P = []


def p(id, title, statement, over, text, why, files, mech, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=[T + f for f in files], mech=mech, technique=technique, note=note))


p("C01", "Quadrature nodes and weights are the exact rules",
  "For every number of points and interval, the Gauss-Legendre, Gauss-Lobatto, Clenshaw-Curtis and trapezoidal rules return the nodes and weights of that rule: they integrate every polynomial up to the rule's degree of exactness, are symmetric and lie in the interval. The latitude table gives colatitudes ascending from the north pole with weights summing to two, and the longitude table gives equidistant longitudes starting at zero.",
  ["inputs"], "all sizes, intervals, rules, grids and polynomials up to the exact degree",
  "The tests sample a handful of sizes; exactness must hold for every size, including the smallest and odd/even ones, and every interval.",
  ["quadrature.py"], [{"name": "node and weight construction by rule", "where": "torch_harmonics/quadrature.py"}],
  "generated rules vs scipy reference nodes and exact polynomial integrals", "Sizes up to 96 (quick) / 700 (thorough); trusts scipy's Gauss rules.")
p("C02", "The sphere integral is the weighted sum over the grid",
  "For every grid, size, batch shape and dtype, the quadrature layer returns for each leading index the area-weighted sum of the field: a constant integrates to itself times the sphere's area (or to itself when normalised), spherical harmonics within the exact degree integrate to zero, and the result is linear, independent of longitude shifts and has exactly the leading shape.",
  ["inputs", "configurations"], "all grids, shapes, normalisations, leading shapes, dtypes and fields",
  "Tests use a few fixed functions and shapes.",
  ["quadrature.py"], [{"name": "integration layer", "where": "torch_harmonics/quadrature.py"}],
  "generated fields vs independent weighted sum", "Single-precision weights by design, tolerance relative to the integral of |f|.")
p("C03", "Associated Legendre tables equal the orthonormal functions",
  "For every degree, order, normalisation, direction, phase convention and evaluation point including the poles, the tabulated associated Legendre functions and their derivative pairs equal the mathematical functions, and entries with order above degree are zero.",
  ["inputs", "configurations"], "all truncations, points in [-1,1], normalisations and phase conventions",
  "Tests compare at a few low degrees; recurrences break at particular degrees, orders or at the poles.",
  ["legendre.py"], [{"name": "recurrences for the Legendre tables", "where": "torch_harmonics/legendre.py"}],
  "generated truncations and points vs scipy spherical Legendre functions", "Degrees up to 72 (quick) / 400 (thorough).")
p("C04", "The scalar transforms equal their definition",
  "For every grid, size, truncation, normalisation, phase, batch shape, memory layout and float dtype, the forward scalar transform equals the quadrature-weighted projection onto the spherical harmonics and the inverse equals the sum of the harmonics at the grid points, to the precision of the input dtype.",
  ["inputs", "configurations"], "all configurations of the scalar transforms and all inputs",
  "Tests check round trips on fixed sizes, which cannot see an error common to both directions or outside those sizes.",
  ["sht.py", "legendre.py", "quadrature.py", "fft.py"], [{"name": "scalar SHT and inverse", "where": "torch_harmonics/sht.py"}],
  "differential testing vs a dense float64 sum over scipy harmonics", "nlat <= 24 (quick) / 72 (thorough).")
p("C05", "Analysis inverts synthesis; energies and grids agree",
  "For every coefficient set within a grid's exact truncation, analysing the synthesised field returns the coefficients, synthesising the analysis of any field is a projection, the quadrature norm equals the coefficient norm for the orthonormal convention, and two grids resolving the same coefficients give the same analysis.",
  ["inputs", "configurations"], "all grids, truncations within exactness, normalisations, coefficient sets",
  "Tests sample a few sizes of a round trip on fixed seeds.",
  ["sht.py", "quadrature.py", "truncation.py"], [{"name": "exact quadrature at the truncation", "where": "torch_harmonics/sht.py"}],
  "round-trip, projection and cross-grid metamorphic relations on generated coefficients", "nlat <= 40 (quick) / 128 (thorough).")
p("C06", "The vector transforms equal their definition",
  "For every grid, size, truncation, normalisation, phase, batch shape and dtype, the forward vector transform returns the spheroidal and toroidal coefficients defined by projection onto the gradients of the harmonics divided by l(l+1), the inverse returns the sum of gradients and rotated gradients, gradients of scalar fields are purely spheroidal, and analysis inverts synthesis within the exact truncation.",
  ["inputs", "configurations"], "all configurations of the vector transforms and all inputs",
  "Tests check round trips of fixed sizes only.",
  ["sht.py", "legendre.py"], [{"name": "vector SHT and inverse", "where": "torch_harmonics/sht.py"}],
  "differential testing vs a dense float64 sum of harmonic gradients", "nlat <= 20 (quick) / 56 (thorough).")
p("C07", "Truncation limits are valid and only drop modes",
  "For every grid shape and optional user limits, the resolved degree and order limits are both the smaller of the degree limit and the order limit, each the user's where given and otherwise the largest the grid resolves exactly, and a transform with smaller limits returns exactly the corresponding subset of the coefficients of a transform with larger limits (and the inverse ignores exactly the missing modes).",
  ["inputs", "configurations"], "all grid shapes, user limits and data",
  "Tests check a handful of shapes.",
  ["truncation.py", "sht.py"], [{"name": "truncation rule", "where": "torch_harmonics/truncation.py"}],
  "metamorphic: nested truncations of generated configurations", "Sizes up to several hundred for the size rule.")
p("C08", "The truncated real Fourier transforms match the DFT",
  "For every length, axis, number of modes or samples and normalisation, the real Fourier helpers return the DFT of the signal truncated or zero-padded to the requested modes, the inverse returns the real signal of those modes treating the mean and the Nyquist mode as real, and gradients are those of these linear maps.",
  ["inputs"], "all lengths, axes, mode counts, normalisations, dtypes and layouts",
  "Tests check a few lengths; parity and padding boundaries are where such code fails.",
  ["fft.py"], [{"name": "rfft / irfft wrappers", "where": "torch_harmonics/fft.py"}],
  "differential testing vs dense DFT sums", "Lengths up to 40 (quick).")
p("C09", "Linear layers are linear and their gradients are adjoints",
  "Every linear layer (scalar and vector transforms, Fourier helpers, quadrature, bilinear resampling) is linear in its input, and back-propagation applies exactly its adjoint: the inner product of the output with a cotangent equals the inner product of the input with the returned gradient, for every configuration.",
  ["inputs", "configurations"], "all linear layers, configurations, inputs and cotangents",
  "Gradient checks in the tests cover one or two sizes per layer.",
  ["sht.py", "fft.py", "quadrature.py", "resample.py"], [{"name": "autograd of the transforms", "where": "torch_harmonics/sht.py"}],
  "generated dot-product (adjoint) and linearity tests", "float64.")
p("C10", "Spectral convolution filters each degree",
  "For every input and output grid, channel count, group count and bias setting, the spectral convolution equals: transform, add the bias spectrum scaled by the channel integral, multiply each degree by the channel matrix of its group, synthesise on the output grid; its gradients with respect to input, weight and bias are the exact ones.",
  ["inputs", "configurations"], "all grid pairs, channels, groups, bias settings, dtypes and inputs",
  "Tests use few shapes, mostly with equal grids and one group.",
  ["spectral_convolution.py"], [{"name": "spectral convolution layer", "where": "torch_harmonics/spectral_convolution.py"}],
  "differential testing vs a dense float64 oracle, including gradients", "The module computes in single precision.")
p("C11", "DISCO convolution equals its geometric definition",
  "For every filter basis, kernel shape, normalisation mode, cutoff, grid pair, channel and group count, the discrete-continuous convolution at each output point equals the quadrature sum over the input points within the cutoff of the filter rotated to that point, contracted with the weights of the channel's group, plus the bias.",
  ["inputs", "configurations"], "all bases, kernel shapes, normalisations, cutoffs, grid pairs, channels, groups and inputs",
  "Tests compare with a dense tensor assembled by the same code and on a fixed list of shapes.",
  ["disco/convolution.py", "disco/_disco_utils.py", "disco/optimized/disco_optimized.py", "disco/optimized/kernels_cpu/disco_cpu_fwd.cpp", "filter_basis.py"], [{"name": "filter tensor and contraction", "where": "torch_harmonics/disco/convolution.py"}],
  "differential testing vs an independent dense geometric oracle in float64", "Small grids; points within rounding of a cell edge are discarded.")
p("C12", "All DISCO implementations agree",
  "For every convolution configuration, thread count and set of requested gradients, the compiled, the fused and memory-saving variants and the reference implementation give the same output and the same gradients for input, weight and bias.",
  ["inputs", "configurations", "schedules"], "all layer configurations, channel ratios, thread counts and gradient requests on CPU",
  "Tests compare implementations on a fixed list of shapes; loop tiling, row splitting and channel blocking have boundaries elsewhere.",
  ["disco/convolution.py", "disco/optimized/disco_optimized.py", "disco/optimized/disco_helpers.cpp", "disco/optimized/kernels_cpu/disco_cpu_fwd.cpp", "disco/optimized/kernels_cpu/disco_cpu_bwd.cpp", "disco/kernels_torch/disco_torch.py"], [{"name": "compiled CPU kernels and reference contraction", "where": "torch_harmonics/disco/optimized/kernels_cpu"}],
  "differential testing between implementations on generated configurations", "CUDA kernels cannot run here.")
p("C13", "Transposed DISCO convolution equals its definition",
  "For every configuration the transposed discrete-continuous convolution equals the documented scatter of each input point through the rotated filters to the output points within the cutoff, plus bias, in every implementation, and its gradients for input, weight and bias are the exact ones.",
  ["inputs", "configurations"], "all bases, kernel shapes, normalisations, cutoffs, grid pairs, channels, groups and inputs",
  "Tests use a fixed list of shapes.",
  ["disco/convolution.py", "disco/optimized/kernels_cpu/disco_cpu_bwd.cpp", "disco/kernels_torch/disco_torch.py"], [{"name": "transposed contraction", "where": "torch_harmonics/disco/convolution.py"}],
  "differential testing vs an independent dense geometric oracle", "Small grids, CPU.")
p("C14", "Filter bases are the documented functions",
  "For every basis type, kernel shape, cutoff and point of the disk, each basis function takes its documented value, vanishes outside the cutoff, and the number of functions and their isotropy flags match; normalised bases have unit norm.",
  ["inputs", "configurations"], "all basis types, kernel shapes, cutoffs and points",
  "Tests check shapes and a few values.",
  ["filter_basis.py"], [{"name": "basis evaluation", "where": "torch_harmonics/filter_basis.py"}],
  "differential testing vs closed forms (scipy)", "Random points; edges within 1e-9 not generated.")
p("C15", "Normalised filters respond to constants as documented",
  "For every basis, kernel shape, grid pair and cutoff, applied to a constant field: a nodal-normalised non-negative filter responds with one at every output latitude, a mean-normalised one with one on average using a single factor per filter, a modal-normalised directional filter with zero and a radial one with one, a support-normalised filter with the weighted mean of the filter over its support, and a geometric-normalised filter with its raw response divided by the cap area; nodal and modal outputs never exceed the input's maximum. It holds for convolution and transposed convolution.",
  ["configurations"], "all bases, kernel shapes, modes, grid pairs, cutoffs and directions",
  "Tests compare normalisation through the same code path.",
  ["disco/convolution.py"], [{"name": "normalisation of the filter tensor", "where": "torch_harmonics/disco/convolution.py"}],
  "metamorphic: responses to constant fields", "Ill-conditioned normalisations are skipped.")
p("C16", "Global attention is quadrature-weighted softmax attention",
  "For every grid pair, head and channel count, normalisation and scale, the global attention layer equals, per head, the softmax of the scaled query-key products weighted by the area of each input point applied to the values, with its input and output projections, and its gradients are the exact ones; a configured dropout does nothing in evaluation and in training only drops and rescales attention weights.",
  ["inputs", "configurations"], "all grids, heads, channels, options and inputs",
  "Tests use a few shapes.",
  ["attention/attention.py"], [{"name": "global attention layer", "where": "torch_harmonics/attention/attention.py"}],
  "differential testing vs a dense float64 oracle, including gradients", "Dropout rates below one.")
p("C17", "Neighbourhood attention is attention over the spherical cap",
  "For every grid pair (same, coarser or finer output), cutoff, head and channel count and implementation, neighbourhood attention at each output point is the area-weighted softmax attention restricted to the input points within the cutoff, for logits of any magnitude and any thread count.",
  ["inputs", "configurations", "schedules"], "all grid pairs, cutoffs, heads, channels, implementations, threads and inputs",
  "Tests use fixed shapes; tiling, wrap-around and running-maximum logic fail elsewhere.",
  ["attention/attention.py", "attention/_attention_utils.py", "attention/_layout.py", "attention/kernels_torch/attention_torch.py", "attention/optimized/attention_optimized.py", "attention/optimized/kernels_cpu/attention_cpu_fwd.cpp", "attention/optimized/kernels_cpu/attention_cpu_fwd_upsample.cpp"], [{"name": "compiled and reference attention", "where": "torch_harmonics/attention"}],
  "differential testing vs a dense float64 geometric oracle", "CPU; single precision.")
p("C18", "Neighbourhood attention gradients are exact",
  "For every configuration of neighbourhood attention the gradients with respect to query, key, value and all parameters equal those of the dense definition, in every implementation and for every subset of inputs requiring gradients.",
  ["inputs", "configurations", "schedules"], "as C17, and all gradient requests",
  "Tests compare gradients on fixed shapes.",
  ["attention/attention.py", "attention/kernels_torch/attention_torch.py", "attention/optimized/attention_optimized.py", "attention/optimized/kernels_cpu/attention_cpu_bwd.cpp", "attention/optimized/kernels_cpu/attention_cpu_bwd_upsample.cpp"], [{"name": "compiled and reference backward", "where": "torch_harmonics/attention"}],
  "differential testing of gradients vs autograd of a dense float64 oracle", "CPU; single precision.")
p("C19", "Resampling is the documented interpolation",
  "For every pair of grids, mode and field, resampling returns at each output point the bilinear (or spherical linear) interpolation of its four surrounding input points, periodic in longitude and continued over the poles by the mean of the nearest row; constants are preserved, resampling to the same grid is the identity, and gradients are finite and exact.",
  ["inputs", "configurations"], "all grid pairs, modes, batch shapes and fields",
  "Tests use a few grid pairs and smooth functions.",
  ["resample.py"], [{"name": "interpolation indices and weights", "where": "torch_harmonics/resample.py"}],
  "differential testing vs independent pointwise interpolation", "Singular spherical interpolation angles are discarded.")
p("C20", "Random fields have the documented spectrum",
  "For every resolution, grid and parameter set, the random field generator maps given noise to the field whose coefficients are the noise scaled by the documented eigenvalues, is linear in the noise, its samples follow the documented distribution, and it draws only from the global generator.",
  ["inputs", "configurations"], "all parameters, resolutions, dtypes and noise",
  "Tests check shapes and a few statistics.",
  ["random_fields.py"], [{"name": "eigenvalue scaling and synthesis", "where": "torch_harmonics/random_fields.py"}],
  "differential testing of the noise map vs a dense oracle, and statistics at fixed seeds", "5-sigma statistics at fixed seeds.")
p("C21", "Results never depend on history",
  "Whatever was created, mutated, converted or trained before in the process, a new or untouched layer or table gives the result it gives in a fresh process: cached tables are never shared with what a user can modify, and different arguments never share a cached entry.",
  ["histories"], "all histories of creating, mutating, converting, training and using layers and tables",
  "Tests construct objects in isolation or in one fixed order.",
  ["cache.py", "quadrature.py", "legendre.py", "filter_basis.py", "disco/convolution.py", "sht.py"], [{"name": "memoising decorator", "where": "torch_harmonics/cache.py"}],
  "stateful model-based generation vs results from fresh processes", "Pool of about 200 configurations.")
p("C22", "Layers commute with the symmetries of the grid",
  "Rotating the input by whole grid steps in longitude rotates the output of every layer accordingly (and the coefficients by the corresponding phases), and mirroring north and south mirrors the output wherever the layer is mirror symmetric, for every configuration.",
  ["inputs", "configurations"], "all layers, grids up to 49 x 96 (121 x 240 thorough), rotations and inputs",
  "Tests do not check equivariance.",
  ["sht.py", "disco/convolution.py", "attention/attention.py", "resample.py", "spectral_convolution.py"], [{"name": "longitudinal shift structure of the operators", "where": "torch_harmonics"}],
  "metamorphic: generated rotations and mirror images", "Rotations by whole steps.")
p("C23", "Inputs outside a layer's domain are rejected",
  "A layer (or its distributed variant, on its part of the grid) given an input with the wrong spatial extents, rank, channel count, batch sizes or a non-numeric type, or a constructor given an unknown name, incompatible shapes, indivisible channels, a non-positive cutoff radius or an inadmissible field exponent, raises an exception: it never returns a result, crashes the process or reads out of bounds.",
  ["inputs", "configurations", "fault_sequences"], "all layers and their distributed variants in one process, valid configurations and single perturbations",
  "Tests check a few rejections.",
  ["sht.py", "quadrature.py", "resample.py", "spectral_convolution.py", "disco/convolution.py", "attention/attention.py", "filter_basis.py", "distributed/distributed_sht.py", "distributed/distributed_convolution.py"], [{"name": "shape and argument checks", "where": "torch_harmonics"}],
  "fault injection by generated perturbations of valid calls", "Any ordinary Python exception counts as a rejection.")
p("C24", "Distributed primitives are the collective they name",
  "On every process grid and for every tensor shape, split axis, dtype and memory layout, the distributed building blocks (transpose, scatter, gather, reduce, copy, halo exchange and the split helpers) compute the stated global operation, agree with each other across ranks for uneven splits, and back-propagate its adjoint.",
  ["inputs", "configurations", "schedules"], "all process grids (up to six ranks quick, eight thorough), shapes, axes, dtypes and layouts",
  "The distributed tests need several processes and are not part of the regular run; they use even fixed shapes.",
  ["distributed/primitives.py", "distributed/utils.py"], [{"name": "autograd collectives", "where": "torch_harmonics/distributed/primitives.py"}],
  "multi-process differential testing vs the serial definition", "gloo on one machine; missing collectives replaced by stand-ins built from point-to-point messages.")
p("C25", "Distributed layers equal the serial layers",
  "For every process grid, including uneven splits, each distributed layer (transforms, quadrature, resampling, spectral and DISCO convolutions) started with the serial layer's parameters returns each rank's part of the serial result and the same gradients.",
  ["inputs", "configurations", "schedules"], "all process grids (up to six ranks quick, eight thorough), layers, configurations and inputs",
  "The distributed tests are not part of the regular run and use fixed shapes.",
  ["distributed/distributed_sht.py", "distributed/distributed_quadrature.py", "distributed/distributed_resample.py", "distributed/distributed_spectral_convolution.py", "distributed/distributed_convolution.py", "distributed/kernels/distributed_convolution_kernels.py"], [{"name": "distributed layers", "where": "torch_harmonics/distributed"}],
  "multi-process differential testing vs the serial layers", "gloo on CPU.")
p("C26", "Accepted precisions give results to that precision",
  "For every layer and combination of module precision, input precision and automatic mixed precision that is accepted, results and gradients agree with the single-precision ones to the lowest precision involved; gradients have the dtype of their tensor; the documented combinations (single precision everywhere, double-precision transforms, mixed precision of the convolution, attention, resampling and quadrature layers) are accepted.",
  ["inputs", "configurations"], "all layers, dtypes, autocast and default dtypes, inputs",
  "Tests cover a few dtypes per layer.",
  ["disco/_disco_utils.py", "disco/convolution.py", "attention/attention.py", "attention/optimized/attention_optimized.py", "spectral_convolution.py", "sht.py"], [{"name": "dtype handling", "where": "torch_harmonics"}],
  "differential testing across generated precision combinations", "CPU autocast; tolerance a fixed multiple of the lowest epsilon.")
p("C27", "Layers survive saving, loading and copying",
  "A layer's state dict holds exactly its learnable parameters, and a layer restored from it (also through a layer on another grid, or the distributed variant of a serial layer and back), deep-copied, pickled or saved and loaded as a whole gives the same results and shares nothing with the original, for every history of such operations.",
  ["histories", "configurations"], "all layers, configurations and histories of persistence operations",
  "Tests do not save or copy layers.",
  ["sht.py", "quadrature.py", "resample.py", "spectral_convolution.py", "disco/convolution.py", "attention/attention.py", "random_fields.py"], [{"name": "non-persistent derived tables", "where": "torch_harmonics"}],
  "stateful generation of persistence histories vs the original's results", "In-memory checkpoints; the random field generator's tables are part of its state dict.")
p("C28", "Spherical losses and metrics equal their definitions",
  "For every grid, class count, class weighting, averaging mode, ignored pixels and mask, the spherical losses and scores equal the area-weighted definitions: a constant error gives the same loss on every grid, equal fields give zero, and ignored pixels never contribute.",
  ["inputs", "configurations"], "all losses and metrics, grids, options and inputs",
  "There are no tests for losses and metrics.",
  ["examples/losses.py", "examples/metrics.py"], [{"name": "area-weighted reductions", "where": "torch_harmonics/examples/losses.py"}],
  "differential testing vs direct float64 definitions", "Single precision.")
p("C29", "The PDE solvers compute their equations",
  "For every grid, truncation, physical constants and state, the solvers' wind, vorticity and divergence, tendencies and time steps equal those of the documented equations; balanced flows and constant equilibria are stationary, total mass is conserved and the caller's state is not changed.",
  ["inputs", "configurations", "histories"], "all grids, truncations, constants, states and step counts",
  "There are no tests for the solvers.",
  ["examples/shallow_water_equations.py", "examples/pde_sphere.py", "examples/pde_dataset.py"], [{"name": "spectral solvers", "where": "torch_harmonics/examples/shallow_water_equations.py"}],
  "differential testing vs a dense float64 reference solver, conservation and equilibrium invariants", "Small grids, float64.")
p("C30", "Layers are pure functions of each sample",
  "Applying a layer changes neither its inputs, its parameters and tables nor any global state, gives the same result when repeated, in any gradient mode, for any memory layout and any number of threads, and treats the samples of a batch independently, also in the gradients.",
  ["inputs", "configurations", "schedules"], "all layers, configurations, batches, layouts, thread counts and gradient modes",
  "Tests use contiguous batches and one thread setting.",
  ["sht.py", "quadrature.py", "resample.py", "spectral_convolution.py", "disco/convolution.py", "disco/optimized/disco_optimized.py", "attention/attention.py", "attention/optimized/attention_optimized.py"], [{"name": "stateless forward passes", "where": "torch_harmonics"}],
  "metamorphic: generated batches, permutations, layouts and repetitions", "Tolerance of rounding between batched and single evaluation.")

p("C31", "Distributed neighbourhood attention equals the serial layer",
  "For every process grid, including uneven splits, the distributed neighbourhood attention layer started with the serial layer's parameters returns each rank's part of the serial result and the same gradients, for output grids that are the same, coarser or finer, or refuses the split on every rank with a ValueError; it refuses only uneven longitude ratios and neighbourhoods reaching beyond the adjacent polar ranks.",
  ["inputs", "configurations", "schedules"], "all process grids (up to six ranks quick, eight thorough), grids, cutoffs, heads, channels and inputs",
  "The distributed attention tests need several GPUs and are not part of the regular run.",
  ["distributed/distributed_attention.py", "distributed/primitives.py", "distributed/utils.py"], [{"name": "ring exchange, halo and local neighbour lists", "where": "torch_harmonics/distributed/distributed_attention.py"}],
  "multi-process differential testing vs the serial layer", "gloo on CPU; the CUDA-only ring-step kernels are replaced by CPU stand-ins following their documented contract, so those kernels themselves are not covered.")

p("C32", "New layers start from the documented initialisation",
  "For every channel, group, head and kernel configuration, in the serial and the distributed layers, a new layer's weights are independent draws (reproducible from the global seed, different for every layer and entry) of the stated distribution: spectral weights are complex normal with variance 1/(inputs per group), doubled at degree zero only; DISCO weights normal with variance 1/(inputs per group * kernel size); attention projections uniform with the Xavier bound; biases and query/key normalisation weights zero.",
  ["inputs", "configurations", "schedules"], "all learnable layers, channel/group/head/kernel configurations, seeds and process grids (up to four ranks quick, six thorough)",
  "Tests overwrite or ignore the initial weights.",
  ["spectral_convolution.py", "disco/convolution.py", "attention/attention.py", "filter_basis.py", "distributed/distributed_spectral_convolution.py"], [{"name": "initialisation of the parameters", "where": "torch_harmonics"}],
  "generated configurations, statistical oracle at 7.5 sigma per slice", "Statistical: deviations below the resolution of the sample sizes pass.")
p("C33", "Omitted arguments mean the documented defaults",
  "For every public constructor and function, serial and distributed, and any values of the other arguments, leaving out an optional argument gives the same object and results as passing its documented default (including the derived ones: truncation, cutoff radius, attention scale, key and output channels, field amplitude), by keyword or by position in the documented order.",
  ["configurations"], "all public constructors and functions, subsets of optional arguments, values of the others",
  "Tests pass most arguments explicitly.",
  ["sht.py", "quadrature.py", "resample.py", "spectral_convolution.py", "disco/convolution.py", "attention/attention.py", "random_fields.py", "truncation.py", "legendre.py", "fft.py", "distributed/distributed_attention.py"], [{"name": "signatures", "where": "torch_harmonics"}],
  "differential: generated subsets of omitted arguments vs explicit ones", "Distributed layers in one process.")
p("C34", "The example models are maps between fields on the sphere",
  "For every model, image size, internal resolution, grid and option, the example networks return fields of the declared shape, finite in training and evaluation, treat the samples of a batch independently in evaluation, commute with rotations about the axis by whole internal steps (unless a longitude-dependent embedding is chosen), leave their input alone, and are reproduced by their arguments and state dict.",
  ["inputs", "configurations"], "all five models, image sizes, scale factors, options and rotations",
  "Tests run a handful of fixed configurations.",
  ["examples/models/sfno.py", "examples/models/lsno.py", "examples/models/s2transformer.py", "examples/models/s2segformer.py", "examples/models/s2unet.py"], [{"name": "model assembly", "where": "torch_harmonics/examples/models"}],
  "metamorphic: generated configurations, rotations, batches and copies", "Small images and networks.")
p("C35", "Compiling, exporting or tracing a layer changes nothing",
  "For every layer, configuration, input layout and precision, torch.compile (static and dynamic shapes, also when the same compiled function is called again with another batch) and torch.export give the eager layer's output and gradients, and tracing with fake tensors predicts the shape, element type and memory layout the layer then delivers.",
  ["inputs", "configurations"], "all layers x capture modes x batches x layouts x precisions",
  "Tests compile the layout operators and a few fixed layers.",
  ["disco/optimized/disco_optimized.py", "disco/kernels_torch/disco_torch.py", "attention/optimized/attention_optimized.py", "attention/kernels_torch/attention_torch.py", "attention/_layout.py", "sht.py", "spectral_convolution.py"], [{"name": "fake registrations", "where": "torch_harmonics/disco/optimized/disco_optimized.py"}],
  "differential: compiled, exported and fake-tensor runs vs eager", "aot_eager backend (TorchInductor in the thorough tier); ResampleS2 is compiled only.")
p("C36", "Example datasets are complete, contained and described by their statistics",
  "Whatever interrupts a download and however the server answers a resumed request, the dataset folder ends up exactly as in the archive or an error is raised, an archive with the wrong checksum is never used, and an undisturbed retry succeeds; extraction never touches anything outside the download folder, whatever the archive contains; the prepared samples are the images, labels and depths of the source files, and the stored and computed statistics are the area-weighted ones of the data in any order; the elevation map is downloaded once, cached only when complete, and returned as the image's values on the requested grid.",
  ["fault_sequences", "crash_points", "inputs"], "download histories (dataset and elevation map) with faults at any byte, archives with hostile members, small image sets",
  "Tests do not touch the datasets.",
  ["examples/stanford_2d3ds_dataset.py", "utils.py"], [{"name": "download, extraction, conversion and statistics", "where": "torch_harmonics/examples/stanford_2d3ds_dataset.py"}],
  "stateful fault injection and differential testing vs numpy", "Stand-ins replace requests, urlopen, h5py and PIL; no image resizing.")

EXTRA = os.path.join(V, "tools", "extra_props.py")
if os.path.isfile(EXTRA):
    exec(open(EXTRA).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"], "anchors": {"files": q["files"], "mechanism": q["mech"]}}) + "\n")
M = {
    "version": 1,
    "setup_cmd": "/opt/venv/bin/python run.py --setup",
    "checks": [
        {
            "property": q["id"],
            "quick_cmd": f"/opt/venv/bin/python run.py {q['id']} quick",
            "thorough_cmd": f"/opt/venv/bin/python run.py {q['id']} thorough",
            "technique": "property-based testing: " + q["technique"],
            "level": "exploration",
            "level_note": q["note"] + " Generated cases with shrinking; seeds from VERIF_SEED; counts in the evidence file.",
            "evidence_file": f"evidence/{q['id']}.json",
        }
        for q in P
    ],
    "not_applicable": [],
    "notes": "Every check is checks/<id>.py driven by run.py (Hypothesis, 8 processes); failures are shrunk and written to replays/, replayed with run.py --replay FILE. No hooks in /repo.",
}
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(M, f, indent=1)
    f.write("\n")
print(len(P))
