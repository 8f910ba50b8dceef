"""Per-property design notes for DESIGN.md: id -> (oracle, reach, bounds)."""
T = {
"P01": ("Differential over a round trip: two models that must be equal are compared in every observable (tile weights, all hidden "
        "device parameters, scales, ranges, learning rates, programmed weights when pickled), then driven by the same inputs with the same seeds.",
        "Which fields get lost depends on the device, on the history before saving and on the random device of the target model; tests save fresh models.",
        "Sizes up to 6, histories up to 7 operations. Compound devices with corrupt devices and a one-sided device or reset probability with write noise are left out (their restoring "
        "moves weights by construction). Optimizer state of the placeholder mode is copied with torch.save (deepcopy of a state dict is a torch limitation)."),
"P02": ("`vlib/iomodel.py`, an independent float64 model of the documented MVM (scale by noise management, clip, quantise, non-idealities, bound management rounds, rescale).",
        "Parameter interactions: 25 settings that tests only visit at presets.", "Vectors up to 8, batches up to 4. Values at rounding ties are not compared. One-pass types for the torch tile."),
"P03": ("Adjoint identity / reference pipeline on transposed weights / saturation mask / straight-through derivative.",
        "Backward settings are independent of forward settings; layouts multiply them.", "As P02. The output-bound mask is not compared under dynamic noise management (the bound is unknown to the autograd layer)."),
"P05": ("A float64 SGD on the logical weights.", "Accumulation histories, scales and layouts combine; tests take one step.", "Layers up to 7x7, up to 6 steps; learning rates incl. 0."),
"P07": ("`vlib/devmodel.py`: the documented response from the hidden parameters read from the tile; independent samplers for populations.",
        "The response depends on weight, direction, bounds and parameters; tests check signs.", "Up to 4 pulses per crosspoint exactly, 900 devices statistically."),
"P08": ("Counting: on constant-step devices with a power-of-two step the weight change *is* the pulse count; its mean and total variance follow from the pulse probabilities.",
        "Any x, d, learning rate, train length, management.", "Bernstein bounds at 1e-10; expectations are exact. Clipped probabilities handled exactly."),
"P09": ("Float64 model of each lifecycle call applied to the weights before it.", "Per-device parameters and drift histories.", "Gaussian clipping of single or constant weights is not defined and skipped; `fixed_value` 0 is ambiguous and not generated."),
"P10": ("State model of (normalised weights, scales, learned scales, bias).", "Sequences of scale-changing operations.", "Realistic reads within the least-squares error."),
"P11": ("The same number of separately built one-tile layers on the slices, summed digitally.", "Uneven splits, state per tile, single-tile arrays, per-tile converters.",
        "Layers up to 9x7, limits 0-9, up to 5 operations; deterministic non-idealities only."),
"P12": ("torch convolutions and torch SGD.", "Index caches depend on the shape history.", "Images up to 8, kernels up to 3, up to 5 steps. Indexed 1d/3d convolution on tile arrays is not supported by the library."),
"P13": ("torch.nn recurrent networks with the same weights.", "Layer/direction/state combinations and gradients through time.", "Up to 3 layers, sequences up to 5."),
"P14": ("The digital model's outputs, parameter sets, modes and structure.", "Nesting, sharing, exclusion, partial conversion.", "Trees up to depth 3. A module shared by different parents is converted once per parent (library design)."),
"P15": ("Independent samplers written from the documented formulas (two-sample tests), exact inversions.", "Parameters and conductance levels multiply; tests see shapes.",
        "Statistical power: shifts of about 5 % of a standard deviation in 3600 samples."),
"P16": ("A float64 model of a deterministic, user-defined noise model run through the library's own base class hooks.", "State left behind by earlier operations.",
        "Up to 9 operations. Training after programming keeps the documented `from_reference` semantics and is not judged."),
"P17": ("torch optimizer on a digital twin, or plain SGD for in-memory updates.", "Groups, schedulers, zero_grad and state round trips interact.",
        "Up to 8 operations. Adagrad needs its state at construction and is unsupported with empty analog parameters."),
"P21": ("Deterministic modifiers elementwise; the others by two-sample tests against a sampler written from the documentation; histories through "
        "probing the matrix in training and evaluation.", "The used maximum, the dropped share, and when the modified matrix is refreshed depend on history.",
        "Up to 6x6 for histories, 4 levels x 900 weights statistically. MultNormal of the C++ tile scales with w_max, of the torch tile it does not; each is taken as it is."),
"P22": ("Float64 reference of range, counter and gradient; calibration statistics recomputed from the inputs recorded at the layers.", "Data dependent: thresholds, dead layers, excluded layers.",
        "Batches up to 6, up to 8 operations, three layers. Quantiles are those of the signed inputs, as implemented."),
"P18": ("Round trip of all fields through the simulator parameters, and the values the C++ tile prints (independent of the setters); composition "
        "derived from the preset's name; learning of a random linear teacher.", "Cross-wired setters, shared defaults and ignored fields show for values no test uses.",
        "Up to 12 fields at once. Learning thresholds are about half of the correlation with the teacher observed over seeds, with three attempts; "
        "presets that do not move within 600 steps are not in that lane. Enum values documented as unavailable in software (Shift) or in these tiles are not generated."),
    "P27": ("the complete observable state (weights, hidden and extra parameters, scales, ranges, modes, hooks, gradients, parameter identity) before and after each of 22 kinds of "
            "reads; a twin built from the same construction seeds and given the same history without reads, bit-identical on noise-free hardware; hidden parameters of equally and differently seeded tiles",
            "side effects and aliasing that need a history or a particular mode; the tests never compare the state around a read",
            "models with one layer (one or several tiles) of up to 5x4, up to 4 operations with up to 3 reads after each; reads that advance a running average by design (AverageAbsMax) are left out"),
    "P26": ("An independent float64 nodal analysis (conductance matrix of each column solved at each time slice) of the padded tile, integrated, ADC quantised and "
            "recombined; plus metamorphic relations on the same layers (training / no resistance = ordinary product and ordinary torch tile incl. gradients, limit of small "
            "resistance, sample alone = sample in batch, contiguous = strided input, convolution = linear on unfolded patches, noise linear in its scale).",
            "All combinations of mode, integration, ADC, converter, padding parity, odd/even columns and batch shape; found 8 defects (padding, odd outputs, n-dimensional and "
            "strided inputs, slices one too long by rounding, time resolution, zero inputs, parameter field).",
            "up to 24 rows, 6 columns, 7 bits; one ADC tick tolerated only at isolated outputs; coefficients of the read noise fit are not modelled."),
    "P06": ("Invariants over the complete state (visible, hidden, persistent weights, hidden parameters) evaluated after every operation of a drawn history with noise.",
            "Covers the noisy configurations that exact models (P07, P08, P23) exclude, all compounds included; write paths with reference devices gave F82.",
            "weights up to 4x5, 8 operations, mini-batches of 3; direction not claimed for linear-step slopes, reference devices, reversed or inconsistent devices."),
    "P23": ("numpy reference model of each compound (pulse counts from P08's oracle, single pulses from P07's), resynchronised from the real hidden weights after every mini-batch", "2500 histories per quick run over all compounds; counters, slices and choppers over several batches with zero vectors, writes and hidden changes in between", "tiles up to 4x4, up to 7 operations; mini-batches whose pulse count a floating-point rounding decides are not compared; dynamic transfer is left out; random choices (slices, rows, devices) by a chi-square test of uniformity"),
    "P04": ("numpy simulation of the documented noisy MVM with 40000 samples; Kolmogorov-Smirnov test per output at p < 1e-9, mean and variance, covariance of outputs, rank correlation of successive vectors and calls; drawn systematic variations against their distribution", "600 noisy configurations per quick run with 6000 samples each: place and strength of each noise, stochastic rounding and bound management iterations show in the distribution, not in averages", "tiles up to 6x3; deviations below about 3% of a standard deviation are not visible; cases where floating point decides a rounding are skipped"),
    "P20": ("a float64 model of quantisation grids (nearest level, clipping, straight-through and learned-parameter gradients), of range estimators and of the states, applied to single "
            "quantisers, to converted models layer by layer (with hooks), and to tiles and tile arrays with quantised peripheries; for error-minimising ranges, optimality among the candidates",
            "histories of eval and train batches, state switches, weight changes, loads, copies and learned scales; the tests check shapes and a few conversions",
            "2-12 bits, models of up to three layers and one or two levels of nesting; cases decided by floating point ties are skipped; the cross-entropy estimator is not covered"),
    "P19": ("round trips through bytes compared field by field; an in-memory service (replacing the HTTP adapters of requests) as the model of submissions, jobs and results; for local runs a "
            "plain torch loop in the logged order of the samples, with closed-form drift for inference",
            "every supported layer, option and preset, experiments with every noise model, histories with several experiments and stale client objects; the tests need the network and an account and are skipped",
            "networks of up to four layers; options the format has no field for (F98) are recorded, weights are not part of the format; no real service is contacted"),
    "P24": ("dense float64 linear algebra with the stored matrix (clipping passes in closed form), over drawn operator expressions built in parallel from the analog operator and from functions; "
            "solutions of scipy's iterative solvers against the least-squares solution",
            "histories of products, expressions, rank updates and writes to the source; the tests do not touch the module",
            "up to 6x6 matrices (8 for solvers); stochastic tiles are decided by P02-P08; matrices over several tiles are a known finding"),
    "P25": ("own forward hooks for summaries; closed-form conductances and least-squares columns for export and import; the device model of P03 for responses and fitted parameters; noise models with known "
            "errors for plots of programming errors; a snapshot of all that is observable, compared before and after",
            "drawn architectures, measured conductances, files, pulse sequences and noise models; the tests run a few plots and compare one exported model",
            "models of a few small layers; appearance of plots is not judged beyond the data in them; conversion of old checkpoints (utils/legacy.py) is not covered"),
    "P28": ("a plain tensor with the logical weights (read from the simulator tile) respectively a model of the buffer, for some 60 operations in three modes; an untouched twin that makes the same training steps, "
            "with fresh optimizers after loading",
            "histories of modes, reads, direct and derived writes, steps, checkpoints and copies; the tests look at single operations",
            "CPU only; explicit escapes from the tensor subclass (as_subclass, torch.tensor(ctx), storages) are not covered"),
}
