NOTE = ('Seeded random search with shrinking: no counterexample among the '
        'generated cases counted in the evidence; float64 CPU arithmetic, '
        'tolerances well above round-off; trusts numpy/scipy/torch as the '
        'arithmetic of the oracle. ')
FE = 'src/hookeai/simulators/fetorch/'
MA = 'src/hookeai/model_architectures/'

prop('C01', 'Tensor storage and tensor algebra lose and distort nothing',
     '''Storing a second- or fourth-order tensor in vector/matrix form and
     recovering it returns the same tensor for every admissible component
     order, in two and three dimensions, with and without Kelvin weighting,
     and in both the plain and the batch-mappable implementation. Under Kelvin
     weighting contractions of tensors equal the corresponding vector and
     matrix products, the Voigt forms of stress and strain are work-conjugate,
     and a plane state embedded in space and extracted again is unchanged.
     Every tensor product, contraction, identity and projection operator obeys
     its index definition.''',
     ['inputs', 'configurations'],
     '''every tensor (any magnitude, sparsity), every permutation and
     orientation of the component list, both notations, both dimensions''',
     '''The repository tests two Voigt functions on single hand-written
     tensors; the fourth-order, non-Kelvin, permuted-order and batched paths
     have no test.''',
     [FE+'math/matrixops.py', FE+'math/voigt_notation.py',
      FE+'math/tensorops.py'],
     'index maps and sqrt(2)/2 weights used by every material model',
     'property-based testing: round trip + differential vs index definitions',
     NOTE)

prop('C02', 'Material updates give admissible, frame-indifferent stress states',
     '''For every strain history, each material model returns a stress that
     does not exceed its current yield limit, responds elastically (Hooke's law
     of the recoverable strain) below it, never decreases the accumulated
     plastic strain, never generates energy through plastic flow, and keeps
     total strain equal to elastic plus plastic strain. The response does not
     depend on the orientation of the axes for isotropic models, a plane strain
     analysis reproduces the three-dimensional one with zero out-of-plane
     strain, and an unchanged strain leaves the state unchanged. A step the
     model cannot solve is flagged as failed and never returned as an ordinary
     state; with concave hardening laws von Mises and Drucker-Prager steps are
     always solved, and failures of the Lou model are rare exceptions.''',
     ['inputs', 'histories', 'configurations'],
     '''every sequence of strain increments (loading, unloading, reversal,
     zero, tension/compression apex), every admissible set of elastic and
     hardening parameters, plane strain and 3D''',
     '''No test covers any material model; the return mappings are reached
     only through plasticity branches that depend on the loading history.''',
     [FE+'material/models/standard', FE+'material/models/vmap',
      FE+'material/material_su.py'],
     'elastic predictor / return mapping state updates',
     'stateful property-based testing over strain histories with invariants',
     NOTE + 'Only admissible (thermodynamically valid) parameters are drawn.')

prop('C03', 'Plain and batch-mappable material updates are interchangeable',
     '''For every strain history the plain and the batch-mappable
     implementation of the same material model produce the same stress, the
     same state variables and the same consistent tangent at every step.
     Mapping the batch-mappable implementation over a batch of histories gives
     each history exactly the result it would get alone.''',
     ['inputs', 'histories', 'configurations'],
     '''every model available in both forms, every strain history and
     admissible parameter set, every batch composition''',
     '''The two implementations are separate code; no test runs either.''',
     [FE+'material/models/standard', FE+'material/models/vmap'],
     'duplicated return-mapping algorithms',
     'differential property-based testing (two implementations, batching)',
     NOTE)

prop('C04', 'Consistent tangents and gradients are the true derivatives',
     '''The consistent tangent modulus returned by a material update is the
     derivative of the updated stress with respect to the strain, at elastic
     and plastic steps of any history. Derivatives of predicted stress paths
     with respect to strains and to learnable material parameters, obtained by
     automatic differentiation through an entire history, equal the actual
     sensitivities and are finite.''',
     ['inputs', 'histories'],
     '''every admissible model, parameter set, history and step that is
     not at an elastic/plastic transition''',
     '''Gradient-based discovery relies on these derivatives; no test
     evaluates them.''',
     [FE+'material/models/standard', FE+'material/models/vmap',
      MA+'rc_base_model/model/recurrent_model.py'],
     'closed-form tangents, autodiff through return mappings',
     'property-based testing against central finite differences', NOTE)

prop('C05', 'Recurrent material model predictions follow the state update',
     '''The stress path predicted by the recurrent material model for a strain
     path is the one obtained by applying the material state update step by
     step from the initial state, whatever the batching, batch order or data
     layout. Predictions at a step depend only on strains up to that step, are
     independent of previous predictions of the same model object, and
     requested state variables are returned in the requested order with the
     matching history.''',
     ['inputs', 'histories', 'configurations'],
     '''every strain path, batch size, material model, requested set of
     output state features''',
     'No test builds the recurrent material model.',
     [MA+'rc_base_model/model/recurrent_model.py'],
     'vectorised recurrent state update',
     'model-based property testing: manual stepping, prefix and batch '
     'metamorphic relations', NOTE)

prop('C06', 'Learnable parameters stay inside bounds and keep their values',
     '''Learnable material parameters normalised to or from their bounds
     recover the same value, the bounds map to the ends of the normalised
     interval, and after enforcing bounds every learnable parameter lies within
     them while parameters already inside are left untouched. The parameter
     values used in the constitutive response are exactly the reported
     (denormalised) ones, and constrained yield parameters are always returned
     into the admissible (convex) region, whose computed boundary separates
     admissible from inadmissible parameters in every direction.''',
     ['inputs', 'configurations', 'histories'],
     '''every bound interval, initial value, sequence of optimizer updates
     and subset of learnable parameters''',
     'No test touches parameter handling.',
     [MA+'rc_base_model/model/recurrent_model.py',
      'src/hookeai/material_model_finder/model/material_discovery.py',
      FE+'material/models/standard/lou.py'],
     'parameter normalisation, bounds enforcement, constraint projection',
     'property-based testing: round trip, idempotence and invariants', NOTE)

prop('C07', 'Finite element interpolation and quadrature are exact',
     '''For every element type the shape functions equal one at their own node
     and zero at the others, sum to one everywhere, and reproduce every
     polynomial field of the element's complete order at every local point, and
     the shape function derivatives are their true derivatives. Each quadrature
     rule has positive weights, points inside the element and integrates every
     polynomial up to its advertised order exactly. On any admissible distorted
     element, derivatives with respect to global coordinates are exact for
     linear fields and Jacobian-weighted quadrature gives the exact element
     volume.''',
     ['inputs', 'configurations'],
     '''every element type, local point, quadrature size and admissible
     nodal coordinates''',
     '''Tests evaluate few points and a subset of the element types; none
     checks completeness, quadrature exactness or distorted elements.''',
     [FE+'element/type', FE+'element/derivatives'],
     'shape functions, Jacobians, Gauss quadratures, gradient operators',
     'property-based testing against polynomial and finite difference '
     'oracles', NOTE)

prop('C08', 'Meshes assemble and extract consistently and satisfy patch tests',
     '''Assembling element values into a mesh and extracting mesh values to
     elements are mutually adjoint, cover every connectivity, and do not depend
     on element order or node numbering. For every mesh, internal forces are
     the exact virtual-work conjugates of the stress field, are in global force
     and moment equilibrium, vanish for rigid translations and vanish at
     interior nodes for any homogeneous deformation. Mesh configuration updates
     always equal initial coordinates plus displacements, inconsistent meshes
     are refused, and the last converged and current material states of every
     element are kept apart and unaffected by what callers do with the values
     they passed or received.''',
     ['inputs', 'configurations', 'histories'],
     '''every mesh topology, numbering, nodal displacement field,
     sequence of configuration updates''',
     '''Three tests exercise one fixed mesh in one dimension order; internal
     forces are not tested.''',
     [FE+'structure/structure_mesh.py', FE+'element/integrations',
      FE+'structure/structure_state.py'],
     'element assembler/extractor, internal forces quadrature',
     'property-based testing: adjointness, virtual work, patch test', NOTE)

prop('C09', 'Force-equilibrium loss measures exactly the specimen imbalance',
     '''For every specimen, displacement history and material model, the loss
     used for material discovery is the weighted sum over time of squared nodal
     force imbalance (free nodes) and reaction mismatch (constrained nodes or
     constrained sets), scaled and normalised as requested. It vanishes when
     the material reproduces the data, does not change under node or element
     renumbering, and is the same whichever evaluation strategy (time-wise,
     element-wise or vectorised) is selected. Evaluating it repeatedly gives
     the same value and its gradient is the true sensitivity to the material
     parameters.''',
     ['inputs', 'configurations', 'histories'],
     '''every mesh, boundary condition pattern, history, model, evaluation
     strategy, time weights and scaling options''',
     'No test instantiates the material model finder.',
     ['src/hookeai/material_model_finder/model/material_discovery.py',
      'src/hookeai/material_model_finder/data/specimen_data.py'],
     'MaterialModelFinder forward and force equilibrium losses',
     'property-based testing: independent oracle loss, differential across '
     'strategies, renumbering metamorphic relations', NOTE)

prop('C10', 'Data scaling is invertible and fitted to the training data',
     '''Scaling data and scaling it back returns the original values, for every
     scaler type, tensor shape and data set, including scalers saved, reloaded
     or transferred to another model. Fitted scalers map the fitted data to the
     advertised range or zero mean and unit deviation per feature, and fitting
     batch by batch gives the same scaler as fitting to all data at once,
     whatever the batch size.''',
     ['inputs', 'configurations'],
     '''every feature data set (any offset and scale), batch size, scaler
     type, per-feature and global modes''',
     'No test touches data scalers.',
     ['src/hookeai/utilities/data_scalers.py',
      'src/hookeai/utilities/fit_data_scalers.py',
      MA+'procedures/model_data_scaling.py'],
     'TorchMinMaxScaler / TorchStandardScaler and their batch fitting',
     'property-based testing: round trip, differential vs numpy statistics',
     NOTE)

prop('C11', 'Time series data sets keep every sample intact',
     '''Splitting a data set yields disjoint parts that together contain every
     sample exactly once with the requested sizes; concatenation, renaming,
     selection, weighted sums and saving followed by loading preserve the
     sample order and every stored value. Copied, reloaded or relocated data
     sets are independent of the original, in-memory and file-based data sets
     behave the same, features added through a subset reach the parent data
     set, and a data set moved with its files still returns its own samples.
     Batches contain every sample exactly once.''',
     ['inputs', 'histories', 'configurations'],
     '''every data set size, features, split proportions, seed, sequence of
     operations''',
     'No test touches data sets.',
     ['src/hookeai/time_series_data/time_dataset.py',
      'src/hookeai/utilities/data_loaders.py'],
     'TimeSeriesDataset(InMemory) and data set operations',
     'stateful model-based testing against a list-of-dicts model', NOTE)

prop('C12', 'Recurrent network predictions are standard, causal GRU outputs',
     '''The custom batch-mappable recurrent cell gives the outputs, hidden
     states and gradients of the standard gated recurrent unit for the same
     weights, for every number of layers, bias setting and sequence length. The
     recurrent network model's predictions at a step depend only on inputs up to
     that step and not on other sequences of the batch, can be continued from
     the returned hidden states, and a model rebuilt from its files predicts
     the same.''',
     ['inputs', 'configurations'],
     '''every weight initialisation, architecture, sequence, batch''',
     'No test builds a network.',
     [MA+'rnn_base_model/custom/gru_vmap.py',
      MA+'rnn_base_model/model/gru_model.py'],
     'GRU reimplementation, feature normalisation',
     'differential property-based testing vs an independent GRU', NOTE)

prop('C13', 'Hybrid models compose their sub-models exactly as configured',
     '''The prediction of a hybrid model equals composing its sub-models layer
     by layer in the configured order, applying the configured normalisation,
     residual connections and combination of parallel channels, for every
     channel layout and batch, also after being reloaded from file. Two
     sub-models at the same position are refused, caller data is never
     modified, and the linear-elastic, volumetric/deviatoric and polynomial
     building blocks obey their defining formulas.''',
     ['inputs', 'configurations'],
     '''every channel/layer layout, hybridisation type, residual and scaling
     switch, strain batch''',
     'No test builds a hybrid model.',
     [MA+'hybrid_base_model/model'],
     'HybridModel forward, hybridised layers, transfer-learning models',
     'property-based testing against an explicit composition oracle', NOTE)

prop('C14', 'Model checkpoints reload the exact state that was saved',
     '''Whatever the sequence of saves, a model loaded from a checkpoint of a
     given kind (initial, given epoch, best, last or default) has exactly the
     parameters saved under that kind, predicts the same as when it was saved,
     and reports the epoch at which it was saved. Saving a newer best state
     replaces the older one, saving or loading an earlier epoch discards later
     epochs, and other checkpoints are not altered. A model rebuilt from a copied
     or moved model directory, or from its initialization file, uses the files of
     that directory and predicts the same.''',
     ['histories', 'inputs'],
     '''every interleaving of saves, loads and parameter updates over all
     checkpoint kinds''',
     'No test touches checkpoints.',
     [MA+'procedures/model_state_files.py',
      MA+'procedures/model_training.py'],
     'checkpoint file naming and selection',
     'stateful model-based testing against a dictionary of saved states',
     NOTE)

prop('C15', 'Training is reproducible and keeps the best model it saw',
     '''Training a model twice from the same seed, data and settings gives the
     same loss history and parameters. Every epoch passes once over the whole
     data set (in the given order unless shuffling is requested), and the
     recorded loss of an epoch is the mean over its batches of the batch loss
     under the parameters current at that batch, in normalised units if the
     loss is normalised. Parameters follow Adam with the requested learning
     rate schedule and, for constitutive models, stay within their bounds. The
     state saved as best is the one at the end of the epoch of lowest recorded
     training loss, or of lowest validation loss when early stopping triggers;
     intermediate and last states are those of their epochs; resumed training
     starts from the requested state. Early stopping triggers exactly when the
     validation loss has not improved by more than the tolerance for the
     allowed number of consecutive checks; parameter convergence exactly when
     all recent relative changes are below tolerance; otherwise training runs
     epochs 0 to n_max_epochs and never more. Cross-validation folds partition
     the data. The written training summary states the settings, epochs, best
     epoch and losses of that training.''',
     ['histories', 'configurations', 'inputs'],
     '''every model type, data set, seed, batch size, scheduler, stopping
     rule''',
     'No test trains a model.',
     [MA+'rnn_base_model/train', MA+'rc_base_model/train',
      MA+'hybrid_base_model/train', MA+'procedures/model_training.py'],
     'training loops, early stopper, loss history files',
     'property-based testing: replayed runs, independent loss recomputation, '
     'model of the stopping rule', NOTE)

prop('C16', 'Generated strain paths respect their specification',
     '''Every generated strain path has the components of the formulation, the
     requested number of steps and evenly spaced times over the requested span,
     and finite values. Without noise and without a prescribed increment size,
     every component whose bounds contain zero starts at zero (Gaussian process
     paths up to their regression noise) and stays within its bounds;
     components with coincident bounds are constant; proportional paths are
     straight and polynomial paths have the degree of their control points.
     With a prescribed increment size every forward increment has exactly that
     tensor norm and proportional paths still follow the sampled direction.
     Noise leaves the initial state untouched and is Gaussian with the
     requested deviation. Cyclic paths retrace themselves and return to the
     initial state the requested number of times. The same seed gives the same
     path, whatever the order in which bounds are given; sampled values fill
     their bounds; incomplete or contradictory bounds are refused.''',
     ['inputs', 'configurations'],
     '''every bounds set, dimension, number of steps, control points, cycles,
     seed, generator type''',
     'No test touches strain path generators.',
     ['src/hookeai/data_generation/strain_paths/proportional_path.py',
      'src/hookeai/data_generation/strain_paths/random_path.py',
      'src/hookeai/data_generation/strain_paths/interface.py'],
     'strain path generators',
     'property-based testing over generator settings with invariants', NOTE)

prop('C17', 'Noise has the requested law and denoising keeps what it must',
     '''Synthetic noise has the shape of the data and the requested amplitude,
     deviation, spike size and probability, with an additional component scaled
     by the given weights when heteroscedastic. Every denoiser keeps the data
     shape and floating-point type, treats features independently, is linear,
     commutes with constant offsets (hence leaves constant signals unchanged),
     and equals its defining filter (windowed mean, local polynomial fit,
     truncated Fourier series), applied the requested number of times.
     ''',
     ['inputs', 'configurations'],
     '''every signal, window, order, cutoff, noise law and parameters''',
     'No test touches noise or denoisers.',
     ['src/hookeai/data_generation/strain_paths/noise_generator.py',
      'src/hookeai/utilities/data_denoisers.py'],
     'noise sampling, denoising filters',
     'property-based testing: bounds/statistics and reference filters', NOTE)

prop('C18', 'Generated specimen patches are valid finite element models',
     '''Every generated patch is a regular finite element mesh of the requested
     size, element type and divisions: nodes labelled from 1 without gaps, at
     evenly spaced positions, existing exactly where the element type has
     nodes, with a finite displacement prescribed on every boundary node and
     no other. Corners fixed by boundary conditions do not move, other corners
     stay within their ranges, order-zero edges join corners with the same
     transverse displacement (2D), straight edges are straight with even
     spacing and curved edges (2D) are polynomials of the requested order whose
     control points lie in the requested outward range, with nodes evenly
     spaced along the curve; displacements of 3D face nodes interpolate those
     of their edges. Rigid motions are rotations about the deformed centroid
     followed by translations within their ranges; noise moves only interior
     edge nodes. A patch is returned exactly when reported admissible, and in
     2D its deformed boundary is then a simple counterclockwise polygon. The
     same random state gives the same patch, whatever was generated before,
     and invalid arguments are refused.''',
     ['inputs', 'configurations'],
     '''every patch dimension, mesh division, element order, deformation
     order and bounds, seed''',
     'No test touches the patch generator.',
     ['src/hookeai/data_generation/spdg/patch.py',
      'src/hookeai/data_generation/spdg/patch_generator.py'],
     'patch generation, boundary polynomials, meshing',
     'property-based testing with geometric invariants', NOTE)

prop('C19', 'Simulator input and output translation is faithful',
     '''The Links input file written for a patch describes exactly the given
     mesh (coordinates, connectivities in the simulator's node order, material
     phase of each element), materials with their hardening curves, prescribed
     and free boundary displacements and load increments; removed elements
     take their orphan nodes with them and leave a consistently relabelled
     mesh, and requests that cannot be honoured are refused. Node data files
     are read back (or turned into csv files) into the nodes, components and
     time steps they belong to, whatever the number and order of files.
     Running a simulation reports success exactly when the simulator did.
     Translating mesh files between Links (.dat) and Abaqus (.inp) formats,
     in both directions, and exporting specimen data preserves coordinates,
     connectivities, element types and prescribed freedoms; generated specimen
     boundary conditions hold the symmetry planes and prescribe the requested
     displacement at the loaded nodes.
     ''',
     ['inputs', 'configurations'],
     '''every mesh, material, boundary condition set, results history''',
     'No test touches simulator translation.',
     ['src/hookeai/simulators/links'],
     'Links input writer, results reader, format converters',
     'property-based testing: round trip through files', NOTE)

prop('C20', 'Losses and prediction metrics equal their definitions',
     '''Every training loss and prediction metric equals its mathematical
     definition per feature, per sample and averaged over samples, is zero
     exactly for perfect predictions where the definition says so, does not
     depend on sample order or batching, and losses have finite gradients.
     Predictions of a saved model over a data set equal those of the model
     itself, whatever the batch size, dataset order or features normalisation.
     Prediction results written to files and read back, including averaged
     summaries (finite or not), collected arrays and per-process summaries, are
     those of the predicted samples and of no other file in the
     directory.''',
     ['inputs', 'configurations'],
     '''every prediction/target pair (including zeros), sample count,
     feature count, metric, batch size''',
     'No test touches losses or metrics.',
     ['src/hookeai/utilities/loss_functions.py',
      'src/hookeai/utilities/prediction_metrics.py',
      'src/hookeai/utilities/output_prediction_metrics.py',
      MA+'procedures/model_prediction.py',
      MA+'rnn_base_model/predict/prediction.py'],
     'losses, metrics, prediction procedures',
     'property-based testing against numpy reference metrics', NOTE)

prop('C21', 'Derived strain/stress features obey their tensor definitions',
     '''Strain and stress features computed from component histories
     (invariants, volumetric/deviatoric parts, rates, norms) equal their tensor
     definitions at every step and do not change under rotation when they are
     invariants.''',
     ['inputs'],
     '''every strain/stress history, dimension, batch''',
     'No test touches feature extraction.',
     [MA+'materials/strain_features.py', MA+'materials/stress_features.py'],
     'feature computation',
     'property-based testing against tensor definitions', NOTE)

prop('C22', 'Hardening laws are consistent with their documented formula',
     '''Every hardening law returns the yield stress of its documented formula
     for every accumulated plastic strain, and the returned slope is the
     derivative of that yield stress.''',
     ['inputs', 'configurations'],
     '''every law, parameter set and non-negative plastic strain''',
     'No test evaluates a hardening law.',
     [FE+'material/models/standard/hardening.py'],
     'hardening laws',
     'property-based testing: closed form and finite differences', NOTE)

prop('C23', 'Data containers convert between types without losing content',
     '''Converting nested data between array types and floating point
     precisions keeps every key, value, shape and non-array entry, and leaves
     the original data unchanged unless in-place conversion is requested.''',
     ['inputs'],
     '''every nesting of dictionaries, lists, arrays and tensors''',
     'No test touches conversions.',
     ['src/hookeai/utilities/type_conversion.py'],
     'recursive conversion',
     'property-based testing with generated nested containers', NOTE)

prop('C24', 'Output helpers never overwrite or lose existing results',
     '''Requesting a new output directory or file never returns a name that
     already exists and never changes existing content, unless overwriting is
     explicitly requested, in which case exactly the requested directory is
     emptied. Searching files by patterns returns a file if and only if one
     matches, honouring the order of the patterns, and written summaries
     contain every given entry.''',
     ['inputs', 'histories'],
     '''every existing directory tree and sequence of requests''',
     'No test touches the output helpers.',
     ['src/hookeai/ioput/iostandard.py'],
     'make_directory, new_file_path_with_int, find_unique_file_with_regex',
     'stateful property-based testing against a snapshot of the file tree',
     NOTE)

prop('C25', 'Specimen data are imported and processed as recorded',
     '''The specimen data built from a mesh file and a history of nodal files
     hold exactly the recorded node coordinates, element types and
     connectivities, displacements, reaction forces, Dirichlet constraint
     labels and times, with the time steps in their numerical order whatever
     other files lie in the directory; unsupported or inconsistent meshes are
     refused. Saved data sets reload equal, time interpolation and label
     updates change only what they name, noise injection and denoising of
     displacement files change displacements only, by the stated amount.''',
     ['inputs', 'configurations'],
     '''every supported element type, mesh, constraint set, history length,
     file order and naming''',
     'No test imports a specimen.',
     ['src/hookeai/user_scripts/global_model_update/material_finder/gen_specimen_data.py',
      'src/hookeai/user_scripts/global_model_update/utilities/process_specimen_data.py',
      'src/hookeai/material_model_finder/data/specimen_data.py',
      'src/hookeai/miscellaneous/noisy_data/inject_disp_noise_csv.py',
      'src/hookeai/miscellaneous/noisy_data/denoise_disp_noise_csv.py'],
     'mesh and history readers, specimen containers',
     'property-based testing: generated files against the data they were '
     'written from', NOTE)

prop('C26', 'Dataset pruning accounts for every sample',
     '''Pruning a data set splits the development data, at every step, into
     pruned training/validation/testing sets and an unused stack that together
     hold every original sample exactly once, removes exactly the testing
     samples with the lowest loss, as many as scheduled, stops by the stated criteria, writes every set into the
     directory of its own, and reads recorded losses back as written.''',
     ['inputs', 'histories', 'configurations'],
     '''every data set size, pruning proportion, limits, losses''',
     'No test runs dataset pruning.',
     ['src/hookeai/miscellaneous/pruning/pruning_dataset.py'],
     'pruning loop', 'model-based property testing: multiset of samples '
     'tracked through the pruning history with stand-in training', NOTE)

prop('C27', 'Synthetic data sets hold the response of the stated material',
     '''Every sample of a generated material response data set holds the strain
     path that was drawn, its times, and exactly the stress and requested state
     histories the stated material gives when stepped through that path, in
     true tensor components, whether kept in memory or in files, regenerated
     from a strain data set or read from recorded response files (in numerical
     order, empty responses left out). Noisy data sets add exactly the drawn
     noise, null at the first time, in the stated (normalised) space, and
     record the response to the noisy strains; stress invariants and plotted
     curves equal their tensor definitions.''',
     ['inputs', 'configurations', 'histories'],
     '''every material, dimension, strain path type, state variables, noise
     model, storage''',
     'No test generates a response data set.',
     ['src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py',
      'src/hookeai/user_scripts/synthetic_data/'
      'gen_noisy_response_dataset.py'],
     'data set generators', 'differential property-based testing: samples '
     'against direct stepping of the material', NOTE)

prop('C28', 'Local data sets of simulated patches are those of the simulation',
     '''From any collection of simulated material patches (solver input file
     and per-step nodal output), the local strain-stress data set holds one
     path per Gauss point of every element of every patch, in the numerical
     order of patches and the order of elements: strains are those of the
     simulated nodal displacements, stresses those of the stated material
     stepped through them. Building it again gives the same set. Randomly
     generated patches are each simulated once in a directory of their own;
     saved patches load back as the same patches and loading destroys
     none.''',
     ['inputs', 'histories', 'configurations'],
     '''every number and numbering of patches, patch name, mesh, element type,
     number and numbering of time steps, material, leftovers of earlier
     runs''',
     'No test runs the patch simulation pipeline.',
     ['src/hookeai/user_scripts/synthetic_data/build_local_paths_dataset.py',
      'src/hookeai/user_scripts/synthetic_data/gen_random_specimen.py',
      'src/hookeai/user_scripts/global_model_update/material_finder/'
      'gen_specimen_local_paths.py',
      'src/hookeai/simulators/links/utilities/links_data_to_adimu.py'],
     'patch directories to local strain-stress paths',
     'end-to-end property-based testing: generated simulation files against '
     'an independent finite element oracle; stand-in solver', NOTE)

prop('C29', 'Local model update uses each sample at its own '
     'temperature and composition',
     '''Material data generated over any grid of temperatures and compositions
     holds the requested number of samples of every type for every pair, each
     in a directory of its own; every sample carries the temperature and
     composition it was computed for, its strain path and the stress of the
     von Mises material with the parameters of that temperature and
     composition, strain path types in the requested ratio. Assembled data
     sets hold every generated sample exactly once and replace earlier ones.
     Ensembles train every model once on the same data in its own directory
     and predict each with its own model; impossible requests are refused.
     Evaluating a trained recurrent model at a temperature and composition
     gives the model response to these features.''',
     ['inputs', 'histories', 'configurations'],
     '''every grid, sample number, ratio of path types, failing response,
     earlier directory content, number of models, history of runs''',
     'No test runs the local model update pipeline.',
     ['src/hookeai/user_scripts/complete_pipelines/local_model_update.py',
      'src/hookeai/user_scripts/complete_pipelines/evaluate_gru_model.py',
      'src/hookeai/user_scripts/local_model_update/rnn_material_model/'
      'uncertainty_quantification.py',
      'src/hookeai/user_scripts/local_model_update/rc_material_model/'
      'uncertainty_quantification.py',
      'src/hookeai/user_scripts/local_model_update/hybrid_material_model/'
      'uncertainty_quantification.py'],
     'data generation, data set assembly, ensemble training and prediction',
     'property-based and history testing of the pipeline with small '
     'paths and stand-in training; stepped material oracle', NOTE)

prop('C30', 'Figures and analyses show exactly the given and recorded data',
     '''Every plot draws the data it is given: each curve, point set, bar, box,
     histogram and surface holds exactly the provided values under its own
     label, for any number, length and padding of data sets; means, ranges,
     medians, densities, determination coefficients and norms shown are those
     of the data. Training, prediction, optimisation, convergence and ensemble
     plots show every recorded history, loss, parameter and path of the
     requested models and samples, matched to their own training size and
     ground truth, and save the same data. Plotted yield surfaces satisfy the
     yield function of their material, and compared materials follow the
     sampled strain paths. Malformed data and missing records are refused.''',
     ['inputs', 'configurations'],
     '''every number and length of data sets, label, scale, range type,
     number of models, samples and processes''',
     'No test inspects a figure.',
     ['src/hookeai/ioput/plots.py',
      'src/hookeai/model_architectures/procedures/convergence_plots.py',
      'src/hookeai/model_architectures/procedures/model_prediction.py',
      'src/hookeai/model_architectures/procedures/model_training.py',
      'src/hookeai/model_architectures/rnn_base_model/optimization/'
      'hydra_optimization_plots.py',
      'src/hookeai/data_generation/strain_paths/interface.py',
      'src/hookeai/user_scripts/synthetic_data/gen_response_dataset.py'],
     'plotting functions and the analyses that feed them',
     'property-based testing: drawn artists of captured figures against the '
     'generated data and records', NOTE)

prop('C31', 'Training and prediction scripts use the data and model they are '
     'given',
     '''Prediction scripts load the best saved state of the given model, predict
     every sample of the given data set with it, and store, plot and summarise
     exactly these predictions, leaving models, data and earlier predictions
     untouched, for any number of samples. Training scripts train and validate
     on exactly the given files, record every epoch, keep parameters inside
     their bounds and scale each sub-model by the data of its own features.
     Material discovery scripts evaluate the stored specimen with its stored
     material models: losses, local paths of every Gauss point and the
     optimisation objective of tried material parameters are those of the
     imported mesh and histories.''',
     ['inputs', 'configurations', 'histories'],
     '''every data set size and length, model kind, saved states, earlier
     predictions, specimen mesh, history, constraint sets and material''',
     'No test runs these scripts.',
     ['src/hookeai/user_scripts/local_model_update/rnn_material_model/'
      'predict.py',
      'src/hookeai/user_scripts/local_model_update/rc_material_model/'
      'predict.py',
      'src/hookeai/user_scripts/local_model_update/hybrid_material_model/'
      'predict.py',
      'src/hookeai/user_scripts/local_model_update/rnn_material_model/'
      'train_model.py',
      'src/hookeai/user_scripts/local_model_update/rc_material_model/'
      'train_model.py',
      'src/hookeai/user_scripts/local_model_update/hybrid_material_model/'
      'train_model.py',
      'src/hookeai/user_scripts/global_model_update/material_finder/'
      'train_model.py',
      'src/hookeai/user_scripts/global_model_update/material_finder/'
      'gen_specimen_local_paths.py',
      'src/hookeai/user_scripts/global_model_update/optimization/'
      'hydra_optimization.py'],
     'training, prediction and discovery entry points',
     'property-based testing of the scripts on generated files; direct model '
     'evaluation, stepped material and internal force oracles', NOTE)
