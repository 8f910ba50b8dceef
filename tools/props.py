"""The properties (source of properties.jsonl and MANIFEST.json)."""
N = "src/aihwkit/nn/modules/"
T = "src/aihwkit/simulator/tiles/"
R = "src/rpucuda/"
PROPS = [
    dict(id="P01", title="Saving, loading and copying analog models preserves all state",
         statement="After any history of training, weight writes, scale changes, programming and drift, saving and loading (state "
                   "dict, directly or via a file), pickling or deep-copying an analog model restores its weights, hidden device "
                   "parameters (bounds, step sizes, hidden and persistent weights), mapping and learned scales, input ranges, "
                   "learning rate, drift state and configuration, also when the new model was built with other random devices. "
                   "Its outputs and all later training steps are then those of the original, and changing one does not affect "
                   "the other. Replacing the configuration of a model, or loading into a model of another configuration, changes "
                   "what the configuration says and keeps all the rest.",
         over=["inputs", "configurations", "histories"],
         text="all tile and device kinds, layer layouts, operation histories before and after, ways of copying",
         why="tests save one freshly trained default model; forgotten pieces of state only show after specific histories",
         files=[T + "base.py", T + "periphery.py", T + "module.py", T + "inference.py", T + "inference_torch.py", T + "torch_tile.py",
                "src/aihwkit/nn/modules/base.py", "src/aihwkit/optim/context.py", R + "rpu_pulsed_device.cpp", R + "rpu_vector_device.cpp",
                R + "rpu_transfer_device.cpp", R + "rpu_pulsed.cpp"],
         mech=[("__getstate__ / __setstate__", T + "base.py"), ("load_state_dict", "src/aihwkit/nn/modules/base.py"),
               ("setDeviceParameter", R + "rpu_pulsed_device.cpp")],
         technique="stateful property-based testing: copy at a random point of a history, then differential continuation"),
    dict(id="P02", title="The analog forward pass computes the documented analog MVM",
         statement="For deterministic hardware settings, the output of an analog tile or layer equals the documented analog "
                   "matrix-vector product of its weights: input range clipping, noise management scaling, input bound and "
                   "resolution, the crossbar product (one pass or positive/negative passes), IR drop, non-linearity, output "
                   "asymmetry, bound, resolution, bound management retries, then the digital output scales and bias. It holds for "
                   "every weight matrix, input batch, size and IO parameter combination, on the C++ and the torch tile.",
         over=["inputs", "configurations"],
         text="all IO parameter combinations without stochastic noise, all weights, inputs, bias placements and weight scalings",
         why="tests compare a handful of settings with default parameters; interactions of management, bounds and resolutions "
             "multiply beyond any sample",
         files=[R + "rpu_forward_backward_pass.cpp", R + "forward_backward_pass.h", T + "analog_mvm.py", T + "base.py", T + "module.py"],
         mech=[("ForwardBackwardPassIOManaged", R + "rpu_forward_backward_pass.cpp"), ("AnalogMVM", T + "analog_mvm.py"),
               ("pre/post processing", T + "base.py")],
         technique="property-based differential testing against a float64 reference of the MVM pipeline"),
    dict(id="P03", title="Input gradients are the adjoint of the analog forward pass",
         statement="For every layout (plain, transposed input and/or output, any bias placement, output scaling, split tiles) the "
                   "input gradient of an analog layer is the transposed weight matrix applied to the output gradient, through the "
                   "configured backward MVM: exact when the backward pass is perfect, the documented analog pipeline otherwise. "
                   "Gradients of outputs that the forward pass saturated are masked; the torch tile is a straight-through estimate.",
         over=["inputs", "configurations"],
         text="all layouts, sizes, weights, backward IO settings, inputs and output gradients",
         why="tests check shapes and a few values for one layout; transposed, masked and scaled combinations are untested",
         files=[T + "functions.py", T + "base.py", T + "analog_mvm.py", T + "periphery.py", R + "rpu_forward_backward_pass.cpp",
                "src/aihwkit/simulator/rpu_base_src/rpu_base_tiles.cpp"],
         mech=[("AnalogFunction backward", T + "functions.py"), ("transposed MVM", R + "rpu_forward_backward_pass.cpp")],
         technique="property-based differential testing: adjoint identity and float64 reference of the backward MVM"),
    dict(id="P05", title="The gradient step of an analog layer equals the digital one",
         statement="With perfect (floating point or ideal-device) hardware settings, the weight and bias change made by one or many "
                   "optimizer steps of an analog layer equals that of the same torch layer: for every learning rate, batch "
                   "shape, gradient accumulation history, bias placement, weight scaling, input range, learned "
                   "output scale, layout (transposed input/output, split tiles) and number of calls per step. A zero learning rate "
                   "or zero gradient changes nothing; device bounds clip the result.",
         over=["inputs", "configurations", "histories"],
         text="all layer layouts, scalings, optimizer parameters, and histories of forward / backward / step calls",
         why="tests check a few steps on one layout; the factors (scales, ranges, learning rates) only disagree in combinations",
         files=[T + "base.py", T + "functions.py", T + "module.py", T + "array.py", "src/aihwkit/optim/analog_optimizer.py",
                "src/aihwkit/optim/context.py", R + "rpu.cpp"],
         mech=[("pre_update / update", T + "base.py"), ("AnalogOptimizerMixin.step", "src/aihwkit/optim/analog_optimizer.py"),
               ("updateMatrix, delta weights", R + "rpu.cpp")],
         technique="property-based differential testing against torch layers and optimizers over training histories"),
    dict(id="P09", title="Weight lifecycle operations change weights as documented",
         statement="Decay, diffusion, drift, column reset, clipping and remapping of tile weights, called directly or by the "
                   "post-update step, do exactly what the device parameters say, in any order: decay towards the reset bias with "
                   "the device's own rate, power-law drift from the last changed weight with accumulated time and conductance "
                   "offsets, reset of just the selected (circular) columns to the reset bias, clipping at the documented "
                   "threshold, remapping that keeps weights times scales. Device bounds hold after each, and noise has the "
                   "configured spread.",
         over=["inputs", "configurations", "histories"],
         text="all tile kinds and device models, lifecycle parameters, weights and sequences of operations",
         why="tests call one operation with one parameter set; drift history, column wrap-around and bounds need sequences",
         files=[R + "rpu_pulsed_device.cpp", R + "rpu_simple_device.cpp", R + "rpu.cpp", R + "weight_drifter.cpp", R + "weight_clipper.cpp",
                R + "weight_remapper.cpp", R + "rpu_vector_device.cpp", T + "inference.py", T + "inference_torch.py",
                T + "torch_tile.py", T + "rpucuda.py"],
         mech=[("decayWeights, driftWeights, resetCols", R + "rpu_pulsed_device.cpp"), ("WeightDrifter::apply", R + "weight_drifter.cpp"),
               ("post_update_step", T + "inference.py")],
         technique="stateful property-based testing against a float64 model of each operation, plus exact statistical tests"),
    dict(id="P10", title="Weights written to a tile are the weights read back",
         statement="Over any history of writing weights (with or without mapping to a maximal conductance range), changing "
                   "mapping or output scales, remapping, programming and realistic reading, the logical weights and bias of a tile "
                   "are the ones written: normalised weights times mapping and learned scales reproduce them within the device "
                   "bounds, remapping never changes them, scaling respects omega (per tile or per column), exact reading with "
                   "ideal hardware returns them, and programming converges to the reference.",
         over=["inputs", "configurations", "histories"],
         text="all tile kinds, bias placements, mapping settings, weights and operation sequences",
         why="tests do one set followed by one get; scales, bias and bounds interact only over sequences",
         files=[T + "base.py", T + "module.py", T + "periphery.py", T + "inference.py", T + "inference_torch.py"],
         mech=[("set_weights / get_weights / remap", T + "base.py"), ("apply_weight_scaling, program_weights", T + "periphery.py")],
         technique="stateful property-based testing against a model of weights, scales and bias"),
    dict(id="P12", title="Analog convolutions equal the digital convolution for every shape history",
         statement="With ideal (perfect) hardware settings, every analog convolution layer (1d/2d/3d, plain or mapped over several "
                   "tiles, indexed or unfolded) produces the same output, input gradient and SGD weight/bias update as the torch "
                   "convolution with the same weights, for every kernel, stride, padding, dilation, bias placement and tile size "
                   "limit. This holds at every step of any sequence of calls, whatever image and batch sizes came before, and for "
                   "several passes before one update.",
         over=["inputs", "configurations", "histories"],
         text="all supported layer geometries and tile limits, all sequences of forward/backward/update calls with changing shapes",
         why="tests use one fixed geometry and image size per layer; index caches and tile splits only matter over shape histories",
         files=[N + "conv.py", N + "conv_mapped.py", T + "periphery.py", R + "rpu.cpp"],
         mech=[("index matrix recomputation", N + "conv.py"), ("channel/output splits", N + "conv_mapped.py"),
               ("indexed forward/backward/update", R + "rpu.cpp")],
         technique="property-based differential testing against torch convolution over call histories"),
    dict(id="P13", title="Analog recurrent networks equal the digital ones",
         statement="On ideal hardware a vanilla RNN, LSTM (separate or combined weights) or GRU built from analog layers, with any "
                   "number of layers, one or two directions, bias or not, sequence length, batch size and initial or carried-over "
                   "state, has the outputs, final states, input and state gradients of the torch network with the same weights, and "
                   "after SGD steps (also accumulated over several backward passes) the same weights and biases.",
         over=["inputs", "configurations", "histories"],
         text="all cell types, network shapes, sequences of calls with changing lengths, batch sizes and states",
         why="tests compare one LSTM configuration; direction, layer and state combinations and gradients over time are unchecked",
         files=[N + "rnn/rnn.py", N + "rnn/layers.py", N + "rnn/cells.py", T + "functions.py", T + "base.py", "src/aihwkit/optim/context.py"],
         mech=[("ModularRNN.forward", N + "rnn/rnn.py"), ("gate equations", N + "rnn/cells.py"), ("time loops", N + "rnn/layers.py")],
         technique="property-based differential testing against torch recurrent networks over call histories"),
    dict(id="P07", title="A single update pulse makes the documented device-model step",
         statement="For every single resistive device model, a pulse on a crosspoint changes its weight by exactly the documented "
                   "step of that model (constant, linear, soft bounds, exponential, piecewise, power, with and without reference) "
                   "computed from the device's own hidden parameters and current weight, in the pulse direction, saturated at the "
                   "device's own bounds; cycle-to-cycle and write noise have the configured size, and the hidden "
                   "device-to-device parameters have the configured mean and spread. Any pulse history composes these steps.",
         over=["inputs", "configurations", "histories"],
         text="all single device models, parameters, weights and pulse sequences",
         why="tests plot or sample a response curve for default parameters; boundary, sign and parameter interactions are unchecked",
         files=[R + "rpu_" + n for n in ("constantstep_device.cpp", "linearstep_device.cpp", "softbounds_reference_device.cpp",
                "expstep_device.cpp", "piecewisestep_device.cpp", "powstep_device.cpp", "powstep_reference_device.cpp",
                "pulsed_device.cpp")],
         mech=[("doSparseUpdate / doDenseUpdate of each device", R + "rpu_constantstep_device.cpp"),
               ("populate", R + "rpu_pulsed_device.cpp")],
         technique="property-based differential testing against a float64 single-pulse model plus exact statistical tests"),
    dict(id="P08", title="Update pulses realise learning rate times outer product",
         statement="The pulsed update issues, at every crosspoint, the number of pulses the documented scheme prescribes for its "
                   "inputs: pulse train length and scaling from the learning rate, update management and bit line management, "
                   "optional resolution and stochastic rounding; deterministic types exactly, stochastic types in expectation, "
                   "variance and outer-product structure. On average the change is learning rate * x * d for every device model; "
                   "pulse type None is exact SGD.",
         over=["inputs", "configurations", "histories"],
         text="all update parameter combinations, learning rates, input and gradient vectors",
         why="tests compare one setting with a loose tolerance; the products of scale, clipping and management only fail in corners",
         files=[R + "rpu_weight_updater.cpp", R + "weight_updater.h", R + "rpu_pulsed_meta_parameter.cpp", R + "rpu_pulsed.cpp",
                R + "bit_line_maker.cpp", "src/aihwkit/simulator/parameters/training.py"],
         mech=[("updateVectorWithDevice", R + "rpu_weight_updater.cpp"), ("calculateBlAB", R + "rpu_pulsed_meta_parameter.cpp")],
         technique="property-based testing against the documented pulse probabilities with concentration bounds"),
    dict(id="P14", title="Converting a model to analog and back preserves what it computes",
         statement="convert_to_analog on ideal hardware yields a model with the same outputs (training and evaluation mode) and SGD "
                   "behaviour, converts exactly the layers in the conversion map that are not excluded (all uses of a repeated layer "
                   "alike), applies the given or layer-specific configuration and tile class, keeps attributes, parameters and "
                   "training modes of everything else, leaves the original untouched unless in place, and the root is analog if "
                   "requested. convert_to_digital restores the original module types, attributes, weights and outputs.",
         over=["inputs", "configurations", "histories"],
         text="all module trees over the supported layers and conversion options",
         why="tests convert a few fixed networks; nesting, repeated modules, exclusion, modes and the way back are combinations",
         files=["src/aihwkit/nn/conversion.py", N + "container.py", N + "linear.py", N + "linear_mapped.py", N + "conv.py", N + "conv_mapped.py"],
         mech=[("convert_to_analog, convert_to_digital", "src/aihwkit/nn/conversion.py"), ("AnalogSequential, AnalogWrapper", N + "container.py")],
         technique="property-based round-trip and differential testing over generated module trees"),
    dict(id="P15", title="Inference noise models apply the documented conductance statistics",
         statement="For every phenomenological noise model (PCM-like, custom drift, Hermes one/two device, state independent, ReRAM, "
                   "CMO ReRAM) and parameters, target conductances map from weights by the documented converter (single pair, N pairs, "
                   "dual pair, custom pair, single device, fusion) within [g_min, g_max], conversion back is exact without noise, and "
                   "programming noise, drift exponents, drift and read noise have the documented distributions at every conductance "
                   "and time. With all noise switched off, programming and drifting is exact. Every strategy of the weight programming "
                   "optimizer uses conductances in the range and represents the weights it stands for.",
         over=["inputs", "configurations"],
         text="all models and converters with drawn parameters, weight matrices, target conductances and times",
         why="tests check shapes and that weights change; distributions and parameter interactions (scales, references, times) are not compared",
         files=["src/aihwkit/inference/noise/pcm.py", "src/aihwkit/inference/noise/hermes.py", "src/aihwkit/inference/noise/custom.py",
                "src/aihwkit/inference/noise/reram.py", "src/aihwkit/inference/noise/base.py", "src/aihwkit/inference/converter/conductance.py",
                "src/aihwkit/inference/converter/fusion.py", "src/aihwkit/inference/converter/wpo.py"],
         mech=[("apply_programming_noise, apply_drift_noise", "src/aihwkit/inference/noise/base.py"),
               ("conductance converters", "src/aihwkit/inference/converter/conductance.py")],
         technique="property-based testing: converter round-trips and two-sample distribution tests against independent samplers"),
    dict(id="P16", title="Programming, drift and compensation hold over all inference tile histories",
         statement="Over any history of programming, drifting, reading, copying, loading and setting weights, an inference tile's weights "
                   "are the programmed reference weights drifted to the last requested time, independent of earlier drift calls and "
                   "with one power-law exponent per device fixed at programming; new or loaded weights discard the old programming. "
                   "Evaluation outputs are scaled by baseline over current readout (global, exact reference or per column), training "
                   "outputs and digital bias are not; programming or drifting in training mode is refused.",
         over=["inputs", "configurations", "histories"],
         text="histories of up to nine operations on linear, split, convolutional and recurrent layers with every compensation",
         why="tests program and drift once; the state left behind by earlier operations only shows in histories",
         files=[T + "inference.py", T + "module.py", T + "periphery.py", "src/aihwkit/inference/compensation/drift.py",
                "src/aihwkit/inference/compensation/base.py", "src/aihwkit/inference/noise/base.py", N + "base.py"],
         mech=[("program_weights, drift_weights, post_forward", T + "inference.py"), ("readout, apply", "src/aihwkit/inference/compensation/drift.py")],
         technique="stateful model-based property testing with a float64 model of a user-defined deterministic noise model"),
    dict(id="P17", title="Analog optimizers keep the semantics of the wrapped optimizer",
         statement="An analog optimizer treats digital parameters exactly like the torch optimizer it derives from (SGD, Adam and others; "
                   "momentum, weight decay, groups with own options, schedulers, state dict round-trips) and applies to each analog tile "
                   "one update per step with that group's current learning rate from all stored inputs and gradients; regrouping keeps "
                   "group options, zero_grad discards stored analog gradients, and steps without gradients change nothing.",
         over=["inputs", "configurations", "histories"],
         text="histories of forward, backward, step, zero_grad, learning rate changes, regrouping and state reloads on mixed models",
         why="tests train a default SGD for a few steps; group options, schedules and accumulated state only matter in histories",
         files=["src/aihwkit/optim/analog_optimizer.py", "src/aihwkit/optim/context.py", T + "functions.py", T + "base.py"],
         mech=[("AnalogOptimizerMixin.step, regroup_param_groups", "src/aihwkit/optim/analog_optimizer.py"), ("AnalogContext", "src/aihwkit/optim/context.py")],
         technique="stateful differential property testing against the torch optimizer"),
    dict(id="P21", title="Weight modifiers act only on training passes and as documented",
         statement="A weight modifier (drop connect, discretisation, DoReFa, multiplicative or additive noise, polynomial or "
                   "programming noise) changes the weights used by training passes, drawn anew for each mini-batch, relative to the "
                   "actual or assumed weight maximum, with the documented values and distribution at every weight. The stored "
                   "weights, evaluation passes (unless enabled during test) and the update are not affected; backward passes use the "
                   "modified weights; new, loaded or copied weights are modified correctly in any history.",
         over=["inputs", "configurations", "histories"],
         text="all modifier types and parameters, weights, and histories of training, evaluation, weight setting and copying",
         why="tests only check that weights differ; distributions, the used maximum and stale modified weights depend on parameters and histories",
         files=[R + "weight_modifier.cpp", R + "weight_modifier.h", R + "rpu.cpp", T + "inference.py", "src/aihwkit/simulator/tiles/torch_tile.py",
                "src/aihwkit/simulator/noise_models.py"],
         mech=[("WeightModifier::apply", R + "weight_modifier.cpp"), ("RPUSimple::modifyFBWeights", R + "rpu.cpp"), ("WeightModifier.apply", "src/aihwkit/simulator/noise_models.py")],
         technique="stateful property-based testing plus two-sample distribution tests against an independent sampler"),
    dict(id="P22", title="Input ranges are initialised, learned and calibrated as documented",
         statement="With an enabled input range a tile clips its inputs to the range. The range starts at its initial value, becomes the "
                   "running mean of alpha standard deviations over the first training batches, never changes in evaluation, and gets the documented "
                   "gradient (clipped inputs, output clipping, decay, relative or not, scaled). Post-training calibration sets it "
                   "from exactly the inputs each tile saw (maximum, quantile, moving quantile, moving deviation) for the selected "
                   "layers only, leaving weights, other layers, modes and hooks as they were.",
         over=["inputs", "configurations", "histories"],
         text="all parameter settings, histories of training and evaluation, networks with several, split or excluded layers and any batches",
         why="tests check that calibration is repeatable; its values, excluded layers, dead layers and the learned gradient depend on data and settings",
         files=[T + "periphery.py", T + "inference_torch.py", "src/aihwkit/inference/calibration/calibration.py", "src/aihwkit/simulator/parameters/pre_post.py"],
         mech=[("apply_input_range, post_backward", T + "periphery.py"), ("InputRangeForward", T + "inference_torch.py"),
               ("calibrate_input_ranges", "src/aihwkit/inference/calibration/calibration.py")],
         technique="stateful model-based property testing against a float64 reference of range and gradient"),
    dict(id="P11", title="Layers split over tiles act as the sum of independent tiles",
         statement="A layer larger than the tile size limits is split into tiles of even sizes within the limits. Its output and input "
                   "gradient are those of the separate tiles on their slices (each with its own scales, input range and converters) added up digitally plus "
                   "the bias; setting, reading, copying, loading, remapping and updating it is the same as doing so on one full weight matrix; "
                   "enumerations and network-wide operations reach every layer and tile exactly once.",
         over=["inputs", "configurations", "histories"],
         text="all sizes and limits, tile kinds, deterministic non-idealities, input dimensions and operation histories, nested networks",
         why="tests use one size with ideal tiles; boundaries of uneven splits, per-tile state and single-tile arrays are not visited",
         files=[T + "array.py", "src/aihwkit/simulator/parameters/mapping.py", N + "linear_mapped.py", N + "linear.py", N + "base.py"],
         mech=[("TileModuleArray, QuantizedTileModuleArray", T + "array.py"), ("analog_tiles, analog_layers, program_analog_weights", N + "base.py")],
         technique="stateful differential property testing against separately built one-tile layers"),
    dict(id="P18", title="Configurations, presets and builders mean what they say",
         statement="Every field of a device, unit cell, IO, update, modifier, clip, remap or drift parameter class reaches the simulator "
                   "with its value, also in nested devices, and a misspelled or wrongly typed field is rejected. Building tiles or "
                   "configurations does not change or share the given configuration. Presets consist of the algorithm, device "
                   "technology, device count and peripheral parameters they are named after and documented with, build_config composes "
                   "algorithm, device and parameters given as class, instance or callable, and all of them learn.",
         over=["inputs", "configurations"],
         text="all parameter classes and fields with generated values, all presets, all build_config algorithms and ways to give parts",
         why="tests read back a few defaults; a cross-wired field, shared default or wrong preset composition stays unnoticed",
         files=["src/aihwkit/simulator/parameters/helpers.py", "src/aihwkit/simulator/configs/devices.py", "src/aihwkit/simulator/configs/compounds.py",
                "src/aihwkit/simulator/configs/helpers.py", "src/aihwkit/simulator/presets/configs.py", "src/aihwkit/simulator/presets/utils.py",
                "src/aihwkit/simulator/rpu_base_src/rpu_base_devices.cpp"],
         mech=[("parameters_to_bindings", "src/aihwkit/simulator/parameters/helpers.py"), ("build_config", "src/aihwkit/simulator/configs/helpers.py"),
               ("presets", "src/aihwkit/simulator/presets/configs.py")],
         technique="property-based round-trip of generated configurations; differential check of presets and builders against their description"),
    dict(id="P27", title="Reading never changes a model; seeds determine what they promise",
         statement="Evaluating (with or without gradients), reading weights exactly or realistically, getters, printing, summaries, state dicts, copies, "
                   "pickles and conversions leave weights, hidden parameters, scales, modes, hooks and parameters of a model unchanged; what they return "
                   "is a copy; training continues as if nothing was read. A non-zero construction seed determines all hidden device parameters, and only "
                   "it does; torch seeds determine everything random in torch tiles.",
         over=["configurations", "histories", "seeds"],
         text="all hardware configurations, histories of training, writes, programming and drift interleaved with every reading operation",
         why="tests read once after building; side effects show only later in a history, in another mode, or by aliasing",
         files=[T + "periphery.py", T + "base.py", T + "array.py", "src/aihwkit/utils/analog_info.py", "src/aihwkit/nn/modules/base.py", "src/rpucuda/rpu_pulsed.cpp",
                "src/aihwkit/simulator/configs/helpers.py"],
         mech=[("get_weights, read_weights", T + "periphery.py"), ("AnalogInfo", "src/aihwkit/utils/analog_info.py"), ("populateParameter", "src/rpucuda/rpu_pulsed.cpp")],
         technique="stateful property testing: state invariance around reads and equality with a twin that was never read"),
    dict(id="P26", title="The time-dependent IR drop tile computes the currents of the crossbar circuit",
         statement="An evaluated layer on TorchInferenceRPUConfigIRDropT returns, for inputs on the grid of the DAC, the read-out of the resistive crossbar it describes: "
                   "every column is a ladder of unit cells (conductance pair from the converter, driven at 0.6/0.2 V while the positive pulse lasts, 0.2/0.6 V for a negative "
                   "one, 0.4 V otherwise) and wire segments (ir_drop * ir_drop_rs) read by the ADC at the last cell (even columns) or the first one (odd columns); the current is "
                   "integrated over the slices of the pulse-width modulation (a level k lasts exactly k slices), quantised by the ADC, combined over pairs and phases (one pass, "
                   "split, bit-wise) and normalised to weight times input. Each sample is computed alone whatever the shape of the batch, with or without the compiled extension. "
                   "In training, or with ir_drop=0, the layer is the ordinary torch tile; a vanishing wire resistance converges to it; the input-dependent read noise is "
                   "proportional to its scale, absent for scale zero and depends on the mean magnitude of the inputs only; convolutions equal the linear layer on patches.",
         over=["configurations", "inputs", "sizes"],
         text="inp_bound = 1, converters with conductance pairs, at least two time slices per phase; all tile sizes, paddings, batch shapes, modes, converters and levels",
         why="sizes, paddings, modes, levels, integration, converters and batch shapes multiply; tests run the default configuration on one shape",
         files=["src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py", "src/aihwkit/simulator/tiles/torch_tile_irdrop_t.py", "src/aihwkit/simulator/parameters/io.py",
                "src/aihwkit/extension/extension_src/ops/thevenin_equiv_op.cpp"],
         mech=[("AnalogMVMIRDropT", "src/aihwkit/simulator/tiles/analog_mvm_irdrop_t.py"), ("theveninEquiv", "src/aihwkit/extension/extension_src/ops/thevenin_equiv_op.cpp")],
         technique="property-based testing (Hypothesis): differential against a nodal analysis of the circuit per column and time slice, metamorphic relations (limits, batch independence, recomposition)"),
    dict(id="P06", title="Resistive devices stay within their physical limits over any history",
         statement="Over any noisy history of mini-batch updates, post-update steps, weight writes, decay, diffusion, drift, reset and clipping, on every device "
                   "model, unit cell and mixed-precision compound: all weights stay finite; every (hidden, persistent) device weight stays within that device's own "
                   "bounds; hidden parameters never change; the visible weights are the documented combination of the hidden ones (gamma sum, difference, last device, "
                   "chopper signs); a zero learning rate, zero inputs or zero gradients change nothing at the crosspoints concerned; devices without range never "
                   "move; pulses of one sign move a device only in that direction and by multiples of its step, at most one per slot; inputs are not modified.",
         over=["devices", "histories", "noise"],
         text="all device models and compounds with device-to-device and cycle-to-cycle variation, write noise, corrupt devices, all pulse types, drawn histories",
         why="noise and saturation hide violations from averages; bounds break only at rare combinations of state, noise and operation",
         files=["src/rpucuda/rpu_pulsed_device.cpp", "src/rpucuda/rpu_vector_device.cpp", "src/rpucuda/rpu_transfer_device.cpp", "src/rpucuda/rpu_weight_updater.cpp",
                "src/rpucuda/rpu_onesided_device.cpp", "src/rpucuda/rpu_mixedprec_device.cpp"],
         mech=[("PulsedRPUDevice", "src/rpucuda/rpu_pulsed_device.cpp"), ("VectorRPUDevice::reduceToWeights", "src/rpucuda/rpu_vector_device.cpp"),
               ("PulsedRPUWeightUpdater", "src/rpucuda/rpu_weight_updater.cpp")],
         technique="stateful property testing: invariants checked after every operation of generated histories"),
    dict(id="P23", title="Compound devices follow their documented algorithm over any history",
         statement="For any history of mini-batch updates, weight writes and direct changes of hidden weights, the hidden weights, digital buffers and the visible weight "
                   "of a compound device equal the documented recursion: unit cells send the pulses to the devices of the update policy and show the gamma-weighted sum; a "
                   "one-sided cell writes positive and negative pulses to its two (with copy_inverted mirrored) devices and refreshes a saturated pair; transfer compounds "
                   "update the fast device with the fast learning rate and move columns or rows in turn after the documented number of updates (per vector or mini-batch), "
                   "with transfer learning rate, buffer thresholds, momentum, step, choppers and granularities; mixed precision accumulates in digital and transfers rows. "
                   "The torch implementation of the chopped and dynamic (AGAD) transfer follows the same recursion with at most one transfer per mini-batch and does "
                   "not change its operands. Setting hidden parameters to their current values changes nothing that follows.",
         over=["devices", "histories", "configurations"],
         text="unit cells, reference and one-sided cells, transfer, buffered and chopped transfer, mixed precision; deterministic pulse trains and no cycle-to-cycle noise",
         why="errors sit in counters, slices, choppers and learning rates over several mini-batches; tests check that training converges",
         files=["src/rpucuda/rpu_vector_device.cpp", "src/rpucuda/rpu_onesided_device.cpp", "src/rpucuda/rpu_transfer_device.cpp",
                "src/rpucuda/rpu_buffered_transfer_device.cpp", "src/rpucuda/rpu_chopped_transfer_device.cpp", "src/rpucuda/rpu_mixedprec_device_base.cpp",
                "src/aihwkit/simulator/configs/compounds.py", "src/aihwkit/simulator/tiles/transfer.py"],
         mech=[("TransferRPUDevice", "src/rpucuda/rpu_transfer_device.cpp"), ("ChoppedTransferRPUDevice", "src/rpucuda/rpu_chopped_transfer_device.cpp"),
               ("OneSidedRPUDevice", "src/rpucuda/rpu_onesided_device.cpp"), ("VectorRPUDevice", "src/rpucuda/rpu_vector_device.cpp")],
         technique="stateful model-based property testing (Hypothesis): numpy reference model of each recursion, compared after every mini-batch"),
    dict(id="P04", title="Noise of the analog MVM has the documented distribution",
         statement="Repeating one MVM on a noisy tile (C++ or torch, forward or transposed backward) gives outputs that are distributed as the documented pipeline says: gaussian "
                   "input, output and weight noise of the configured strength at the configured place (before or after clipping, quantisation and asymmetries, scaled back with the "
                   "noise and bound management), stochastic rounding with the right probabilities, and zero outputs where the input is zero and nothing is noisy. The noise is "
                   "independent between outputs, successive vectors of a batch and calls, in training and in evaluation. Systematic variations (output noise per line, "
                   "non-linearity, voltage offsets, read asymmetry) are drawn once per tile from the documented distribution and do not change.",
         over=["inputs", "configurations", "seeds"],
         text="IO parameters of C++ and torch tiles; all noise and rounding options, including iterative bound management; not IR drop (P26) or the noise of programming (P15)",
         why="tests compare noise-free outputs, or averages loosely; a wrong variance, place of the noise, or correlation between outputs passes all of them",
         files=["src/rpucuda/rpu_forward_backward_pass.cpp", "src/aihwkit/simulator/tiles/analog_mvm.py", "src/aihwkit/simulator/tiles/torch_tile.py"],
         mech=[("ForwardBackwardPassIOManaged", "src/rpucuda/rpu_forward_backward_pass.cpp"), ("AnalogMVM", "src/aihwkit/simulator/tiles/analog_mvm.py")],
         technique="property-based testing with a simulation oracle: thousands of repetitions per generated case against a numpy simulation of the documented noisy pipeline (Kolmogorov-Smirnov, moments, covariances, rank correlations)"),
    dict(id="P20", title="Digital low-precision layers and peripheries quantise as configured",
         statement="Quantisers of digital layers, activations and tile peripheries map every value to the nearest level of the grid given by bits, symmetry, granularity and the "
                   "estimated (current, running, all-time or error-minimising), fixed or learned range; gradients are straight-through within the range and exact for learned scales "
                   "and offsets; ranges follow the state (estimate, train, fix, learn, reset) and survive saving, loading and copying. Converted models and quantised tiles compute the "
                   "unquantised layer with quantised weights, inputs, scales, biases and outputs.",
         over=["every history of batches, state changes and reloads", "every quantiser configuration", "every conversion map and layer type"],
         text="The float precision cast rounds to the nearest number of the configured format (beyond the largest one it clips or becomes infinite, as configured) and its gradient passes through. convert_to_quantized replaces exactly the mapped modules (instance before type, exclusions, input quantisers), keeps the parameters, and leaves the original model as it "
              "was; parameter caches in evaluation mode never survive a change of weights or states.",
         why="Quantisation errors are small by nature: a wrong zero point, a stale range after loading or a stale cache changes results by fractions of a percent to a few percent, which "
             "users attribute to the bit width.",
         files=["src/aihwkit/simulator/digital_low_precision/quantizers.py", "src/aihwkit/simulator/digital_low_precision/range_estimators.py",
                "src/aihwkit/simulator/digital_low_precision/quantization_manager.py", "src/aihwkit/simulator/digital_low_precision/hijacker.py",
                "src/aihwkit/nn/low_precision_conversion.py", "src/aihwkit/nn/low_precision_modules/quantization_states.py", "src/aihwkit/extension/functions.py",
                "src/aihwkit/extension/extension_src/ops/float_prec_common.h",
                "src/aihwkit/simulator/tiles/quantized_inference_torch.py", "src/aihwkit/simulator/tiles/periphery.py", "src/aihwkit/simulator/tiles/array.py"],
         mech=[("quantizers", "src/aihwkit/simulator/digital_low_precision/quantizers.py"), ("range estimation", "src/aihwkit/simulator/digital_low_precision/range_estimators.py"),
               ("conversion", "src/aihwkit/nn/low_precision_conversion.py"), ("quantised periphery", "src/aihwkit/simulator/tiles/periphery.py")],
         technique="stateful property-based testing of quantiser, layer and tile histories against a float64 model of grids, ranges and states"),
    dict(id="P19", title="Experiments survive the cloud, and local runs report what happened",
         statement="A training or inference experiment submitted to the cloud, or converted to its protobuf bytes and back, keeps its data set, network (layer types, sizes, strides, "
                   "biases), presets, weight scaling, loss, rates, repeats, times, noise model and converter resolutions; what the format cannot hold is refused. Status, results and "
                   "retrieved experiments agree with the server after any history of submissions, progress and requests. Local training and inference runs use every sample once per "
                   "pass, train like the plain loop, and report its losses, accuracies, times and averages over repeats.",
         over=["every experiment of supported layers and presets", "every history of jobs on the server", "data sets, batch sizes and epochs"],
         text="Conversion does not change the experiment; a second conversion gives the same representation; credentials are checked; events are emitted in order.",
         why="Users submit long trainings and inference studies through this path and read the results back; a layer that silently gains a bias or loses its scaling, or a wrong average, "
             "invalidates the study without any error.",
         files=["src/aihwkit/cloud/converter/v1/mappings.py", "src/aihwkit/cloud/converter/v1/i_mappings.py", "src/aihwkit/cloud/converter/v1/training.py",
                "src/aihwkit/cloud/converter/v1/inferencing.py", "src/aihwkit/cloud/converter/v1/rpu_config_info.py", "src/aihwkit/cloud/client/entities.py",
                "src/aihwkit/cloud/client/v1/parsers.py", "src/aihwkit/experiments/experiments/training.py", "src/aihwkit/experiments/experiments/inferencing.py",
                "src/aihwkit/experiments/runners/metrics.py"],
         mech=[("conversion", "src/aihwkit/cloud/converter/v1/mappings.py"), ("client", "src/aihwkit/cloud/client/v1/api_client.py"),
               ("training loop", "src/aihwkit/experiments/experiments/training.py"), ("inference loop", "src/aihwkit/experiments/experiments/inferencing.py")],
         technique="property-based round trips, stateful testing of the client against an in-memory model of the service, and differential testing of local runs against plain torch loops"),
    dict(id="P24", title="An analog matrix is the linear operator of its tile",
         statement="An AnalogMatrix stores the given matrix (exactly, or programmed up to the documented tolerance when realistic), and A @ x, x @ A, the scipy operator interface "
                   "(matvec, matmat, adjoints, transposes, sums, products, powers, iterative solvers) compute its products under the forward respectively backward settings of the tile, for "
                   "vectors, row batches and columns, numpy and torch operands of any floating type and layout; ger adds alpha d x^T and nothing else changes the matrix.",
         over=["every matrix, operand layout and type", "every operator expression", "every history of products and rank updates"],
         text="Results have the kind (numpy or torch) of the operand; neither the operands nor the source matrix are changed or shared; tiles without backward or update refuse instead of "
              "returning something else.",
         why="Linear algebra codes call whatever member of the operator interface they like: one transposed or mis-scaled product makes a solver converge to something else or not at all.",
         files=["src/aihwkit/linalg/matrix.py", "src/aihwkit/simulator/tiles/periphery.py", "src/aihwkit/simulator/tiles/rpucuda.py", "src/aihwkit/simulator/parameters/mapping.py"],
         mech=[("operator", "src/aihwkit/linalg/matrix.py"), ("tile passes and programming", "src/aihwkit/simulator/tiles/periphery.py")],
         technique="stateful property-based testing of operator histories and expressions against dense float64 linear algebra"),
    dict(id="P25", title="Inspection, export and fitting tools report the model truly and leave it alone",
         statement="analog_summary lists exactly the layers a forward pass uses, with their shapes, tiles, utilisation and number of products; fusion_export writes conductances from which, together with the "
                   "signs and scales it returns, fusion_import restores the weights (the best fit of each column for noisy conductances) and nothing else; pulse responses, their statistics and fitted device "
                   "parameters agree with the device; plotted programming errors are those of the weights. Model, configuration, noise models and given data are afterwards as before.",
         over=["every architecture and tile size limit", "every exported model and measured conductance", "every device, sequence of pulses and set of measurements"],
         text="Modes, gradients, hooks, programmed and drifted weights and outputs survive inspection; models or files that do not fit are refused.",
         why="Numbers of these tools end up in publications and on chips; tests look at one or two models and never at whether the tool disturbed the model.",
         files=["src/aihwkit/utils/analog_info.py", "src/aihwkit/utils/export.py", "src/aihwkit/utils/fitting.py", "src/aihwkit/utils/visualization.py", "src/aihwkit/utils/visualization_web.py",
                "src/aihwkit/inference/converter/fusion.py"],
         mech=[("summary", "src/aihwkit/utils/analog_info.py"), ("export to and import from a chip", "src/aihwkit/utils/export.py"), ("responses and plots", "src/aihwkit/utils/visualization.py")],
         technique="property-based testing against observed forward passes, closed-form conductances and the device model, with before/after comparison of everything observable"),
    dict(id="P28", title="Analog parameters show weights as their access mode says and never alter them",
         statement="In placeholder mode an analog context answers questions about type and shape and refuses everything that would return values; as a data view, every operation returns what it returns for the "
                   "logical weights of the tile; as a buffer it is an independent, initially zero tensor. Nothing done to the context or to anything derived from it changes the tile, and access modes, reads and "
                   "refused writes never change training, saving, loading or copying. Contexts stay connected to their tile, the model and existing optimizers.",
         over=["every history of mode switches, reads, writes, training steps, saves, loads, copies and conversions", "every tensor operation", "every kind of tile"],
         text="State dictionaries can be deep-copied and loaded in every mode; after loading a state the optimizers made before go on training; freezing and data type conversions keep the context in place.",
         why="The context is the parameter that optimizers, hooks, loggers and checkpoints see: uninitialised values or writes that bypass the update rules of the devices silently invalidate a simulation.",
         files=["src/aihwkit/optim/context.py", "src/aihwkit/optim/weight_view.py", "src/aihwkit/simulator/tiles/base.py", "src/aihwkit/simulator/tiles/module.py"],
         mech=[("access modes", "src/aihwkit/optim/context.py"), ("views", "src/aihwkit/optim/weight_view.py"), ("binding to the tile", "src/aihwkit/simulator/tiles/base.py")],
         technique="stateful property-based testing against a plain tensor and an untouched twin model"),
]
NOT_CLAIMED = []
