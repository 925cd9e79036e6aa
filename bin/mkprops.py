import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or [],hook_needed=None)))
T0="The reliable tests only build autoregressive models and run three optimiser settings; "
p("C01","Fermionic Hamiltonians connect configurations exactly as second quantisation",
 "For every occupation configuration, the connected configurations and matrix elements reported by the Hubbard and ab initio Hamiltonians (dense and sparse, for real integrals with the usual permutation symmetry) are those of the second-quantised operator with up-spin modes ordered before down-spin modes: summing the reported elements per target configuration gives exactly the operator's row, including the sign from fermion exchange. Consequently particle numbers per spin are conserved, targets are valid configurations, the row boundaries of a batch are the same as those of the individual rows, and real symmetric integrals give a symmetric matrix.",
 ["inputs","configurations"],"every configuration, every integral tensor / hopping graph / interaction / boundary setting, every batch of rows",
 T0+"no test compares a Hamiltonian with the operator it stands for, and a wrong sign shows only for particular occupations between the hopping sites.",
 ["GPSKet/operator/hamiltonian/ab_initio.py","GPSKet/operator/hamiltonian/ab_initio_sparse.py","GPSKet/operator/hamiltonian/hubbard.py","GPSKet/operator/fermion.py"],
 [("hopping with parity","GPSKet/operator/fermion.py apply_hopping"),("ab initio connected elements","GPSKet/operator/hamiltonian/ab_initio.py get_conn_flattened"),("Hubbard connected elements","GPSKet/operator/hamiltonian/hubbard.py get_conn_flattened")],
 ["get_conn_flattened","get_conn","to_dense"])
p("C02","On-the-fly local energies equal the operator's local energy",
 "For every sample and every wavefunction, the local energy computed by the on-the-fly Hubbard, ab initio and sparse ab initio operators equals the sum over connected configurations of matrix element times amplitude ratio of the corresponding second-quantised operator. This holds identically whether or not the wavefunction uses fast updates, for every chunk size, and for a batch of samples or each on its own; the local reduced density matrices contract with the integrals to the same local energy.",
 ["inputs","configurations"],"every sample, wavefunction, integral tensor, chunk size and fast-update setting",
 T0+"local energies are only averaged in tests, so an error for particular occupations or in one spin channel is invisible.",
 ["GPSKet/operator/hamiltonian/ab_initio.py","GPSKet/operator/hamiltonian/ab_initio_sparse.py","GPSKet/operator/hamiltonian/hubbard.py"],
 [("ab initio on-the-fly kernel","ab_initio.py local_en_on_the_fly"),("sparse kernel","ab_initio_sparse.py"),("Hubbard kernel","hubbard.py local_en_on_the_fly")],
 ["MCState.local_estimators"])
p("C03","J1-J2 and Heisenberg operators realise their bonds, couplings and sign rule",
 "For every lattice, coupling pair and sign-rule choice, the J1-J2 operator is the sum over first- and second-neighbour bonds of coupling times spin exchange, where a sign rule only flips the sign of the spin-flip elements of the bonds it applies to. Local energies of the on-the-fly variants equal the sum over connected configurations of matrix element times amplitude ratio, with and without fast updates and for every chunk size.",
 ["inputs","configurations"],"every lattice, boundary condition, coupling, sign rule, configuration and wavefunction",
 T0+"no test evaluates a J1-J2 or on-the-fly Heisenberg operator.",
 ["GPSKet/operator/hamiltonian/J1J2.py"],[("J1-J2 construction and on-the-fly kernel","GPSKet/operator/hamiltonian/J1J2.py")],["get_conn","MCState.local_estimators"])
p("C04","The exclusion-process operator is the tilted Markov generator",
 "For every configuration and set of rates, the exclusion-process operator reports exactly the allowed injections, removals and nearest-neighbour hops, each weighted by its rate and by the exponential counting factor of its direction, together with a diagonal equal to minus the total escape rate. At zero counting field the elements reported for each configuration sum to zero, and the operator claims to be Hermitian only if its matrix is symmetric, and does claim so for equal rates of opposite moves at zero counting field.",
 ["inputs","configurations"],"every occupation pattern, chain length, rate and counting field, and every batch of configurations",
 T0+"no test touches this operator.",
 ["GPSKet/operator/hamiltonian/asep.py","GPSKet/operator/asep.py"],[("generator elements","GPSKet/operator/hamiltonian/asep.py get_conn_flattened")],["get_conn_flattened","is_hermitian"])
p("C05","Fermionic configuration spaces hold exactly the right configurations",
 "A fermionic configuration space with given electron numbers consists of exactly the occupation patterns with those numbers of up and down electrons, and counting, indexing, membership and powers of the space all agree with that set. Random configurations drawn from it always belong to it and are uniformly distributed over it, whatever the batch shape, data type and seed.",
 ["inputs","configurations"],"every site number, electron number pair (including unconstrained, empty and full), seed, batch shape",
 T0+"the Hilbert space is never enumerated.",
 ["GPSKet/hilbert/discrete_fermion.py","GPSKet/hilbert/random/discrete_fermion.py"],[("constraint and powers","discrete_fermion.py"),("random states","random/discrete_fermion.py")],["all_states","numbers_to_states","random_state"])
p("C06","Sampler moves stay in the sector and are proposed reversibly",
 "Every move proposed by the fermionic hopping and the exchange-with-update rules leads to a valid configuration with the same electron numbers per spin (or the same magnetisation), and changes at most two sites, all of which it reports. For symmetric normalised transition probabilities, forward and backward proposal probabilities agree for every pair of configurations, so that uncorrected acceptance is detailed-balanced; configurations without a possible move propose themselves.",
 ["inputs","schedules"],"every configuration, random key, hop probability and transition-probability matrix",
 T0+"the moves are random and no test inspects an individual proposal.",
 ["GPSKet/sampler/rules/fermionic_hopping.py","GPSKet/sampler/rules/exchange_with_update.py","GPSKet/sampler/fermionic_hopping.py"],[("hopping rules","rules/fermionic_hopping.py"),("exchange rule","rules/exchange_with_update.py")],["rule.transition"])
p("C07","Fast-update Metropolis sampling is the Metropolis chain of the model",
 "Sampling with cached fast updates performs the Metropolis chain of the wavefunction's squared modulus: every recorded configuration is reached from its predecessor by an allowed proposal, a proposal of probability zero is never accepted and one of at least equal probability always is, and one-step transition frequencies match the Metropolis acceptance probability (also for machine powers other than two). The cached amplitudes never drift from a fresh evaluation of the current configuration along any accept/reject history, and the acceptance counter equals the number of accepted moves.",
 ["histories","schedules"],"every accept/reject history, seed, number of chains, sweep size, model with fast updates and machine power",
 T0+"the fast sampler is not run by any reliable test; a stale cache after a rejection shows only along particular accept/reject histories.",
 ["GPSKet/sampler/metropolis_fast.py","GPSKet/sampler/rules/fermionic_hopping.py","GPSKet/sampler/rules/exchange_with_update.py"],[("fast sampling loop","GPSKet/sampler/metropolis_fast.py")],["sampler.sample","sampler_state"])
p("C08","Autoregressive sampling draws exactly from the model's distribution",
 "Direct sampling from an autoregressive model yields independent configurations distributed according to the squared modulus of its amplitudes. In particular it never returns a configuration of zero probability or one outside the conserved sector, for every seed and batch size, and the draw from a row of conditional probabilities selects the local state whose cumulative interval contains the random number.",
 ["inputs","schedules"],"every random number in [0,1), conditional distribution, seed, batch size and model",
 T0+"the direct sampler tests do not run reliably and only check shapes.",
 ["GPSKet/sampler/autoreg.py","GPSKet/models/autoreg_qGPS.py","GPSKet/models/autoreg_qGPS_full.py","GPSKet/models/autoreg_plaquetteqGPS.py"],[("direct sampler","GPSKet/sampler/autoreg.py"),("conditional","models/autoreg_*.py conditional")],["ARDirectSampler.sample"])
p("C09","Autoregressive amplitudes are normalised, causal and sector-constrained",
 "For every parameter value, the squared amplitudes (in general the machine power of the modulus) of an autoregressive model sum to one over its configuration space and factor into conditionals of which each sums to one and depends only on the preceding sites. In a constrained sector configurations outside the sector have exactly zero amplitude, and evaluating conditionals one site at a time agrees with evaluating all of them at once.",
 ["inputs","configurations"],"every parameter value, configuration (inside and outside the sector), model variant, support dimension and symmetry setting",
 "Normalisation is only tested at one random parameter setting for a few variants; causality, the one-at-a-time evaluation and out-of-sector amplitudes are not tested.",
 ["GPSKet/models/autoreg_qGPS.py","GPSKet/models/autoreg_qGPS_full.py","GPSKet/models/autoreg_plaquetteqGPS.py","GPSKet/models/pixelcnn.py","GPSKet/nn/causal_conv.py"],[("conditionals","models/autoreg_*.py"),("masked convolutions","nn/causal_conv.py")],["model.apply","conditionals"])
p("C10","Fast updates agree with fresh evaluation along every update history",
 "For every wavefunction that supports fast updates, after any sequence of full evaluations, committed updates and discarded trial updates, the log-amplitude returned by an update equals (up to rounding) a fresh evaluation of the updated configuration. This holds for any number of updated sites per step, for updates that change nothing, for repeated sites that follow the documented first-entry convention, for every symmetry setting and for each row of a batch independently.",
 ["histories","inputs"],"every finite history of cache / commit / trial operations, update site list, symmetry group, batch",
 T0+"no reliable test performs a fast update; errors show only for later steps of a history.",
 ["GPSKet/models/qGPS.py","GPSKet/models/plaquetteqGPS.py","GPSKet/models/autoreg_qGPS_full.py","GPSKet/models/slater.py","GPSKet/models/slater_qGPS.py","GPSKet/models/backflow.py","GPSKet/models/cpd_backflow.py"],[("intermediates cache","models/*.py __call__ with cache_intermediates / update_sites")],["model.apply with mutable intermediates cache"])
p("C11","Product-state and Jastrow amplitudes equal their defining formulas",
 "The log-amplitude of the Gaussian process state (also plaquette-restricted), the segmented variant and the Jastrow factor equals its defining polynomial in the parameters: the sum over support points and symmetry copies of the product over sites of the parameter selected by the local occupation, respectively the pair sum over sites; for autoregressive states each conditional is the normalised exponential of that polynomial over the preceding sites, and the phase is that of the summed copies. Every configuration of a batch is evaluated independently of the others.",
 ["inputs","configurations"],"every parameter value, configuration, local dimension, support dimension, plaquette set and symmetry group",
 T0+"no amplitude value is compared with its formula.",
 ["GPSKet/models/qGPS.py","GPSKet/models/plaquetteqGPS.py","GPSKet/models/segmented_qGPS.py","GPSKet/models/jastrow.py","GPSKet/models/autoreg_qGPS.py","GPSKet/models/autoreg_qGPS_full.py","GPSKet/models/autoreg_plaquetteqGPS.py"],[("site products","models/qGPS.py"),("Jastrow","models/jastrow.py")],["model.apply"])
p("C12","Fermionic amplitudes are the determinants and Pfaffians they stand for",
 "The amplitude of every Slater-type wavefunction (Slater, with Jastrow or product-state factors, antisymmetric product states, backflow) equals the stated combination of determinants of the orbital rows selected by the occupied sites in site order, spin up before spin down, times its correlation factor; the Pfaffian routine returns the Pfaffian, including its sign, for every antisymmetric matrix of any even dimension. Singular selections give zero amplitude.",
 ["inputs","configurations"],"every orbital coefficient, configuration, electron number, spin treatment, number of determinants, antisymmetric matrix",
 T0+"no fermionic amplitude is evaluated in the reliable tests; sign errors show only for particular occupations.",
 ["GPSKet/models/slater.py","GPSKet/models/asymm_qGPS.py","GPSKet/models/slater_jastrow.py","GPSKet/models/slater_qGPS.py","GPSKet/models/backflow.py","GPSKet/models/backflow_jastrow.py","GPSKet/models/cpd_backflow.py","GPSKet/models/pfaffian.py"],[("determinants","models/slater.py"),("pfaffian","models/pfaffian.py")],["model.apply","log_pfaffian"])
p("C13","Symmetrised amplitudes are invariant under the symmetry group",
 "Amplitudes of wavefunctions built with lattice and spin-flip symmetries are identical on all symmetry-related configurations (for determinants up to the sign of reordering the fermions), and the symmetry copies of a configuration are exactly its orbit under the chosen group. The inverse symmetry used for fast updates maps the updated sites and occupations consistently with the forward symmetry for every group element.",
 ["inputs","configurations"],"every lattice, choice of translations / point group / spin flip, configuration and set of updated sites",
 T0+"symmetry functions are never compared with the group action.",
 ["GPSKet/models/qGPS.py","GPSKet/models/autoreg_qGPS.py","GPSKet/models/autoreg_qGPS_full.py"],[("symmetry transformations","models/qGPS.py get_sym_transformation_spin and related")],["get_sym_transformation_spin","model.apply"])
p("C14","Unique-sample states count every sample once and weight estimates by counts",
 "A unique-samples state keeps each distinct sampled configuration once with a relative count equal to its share of the counted samples, independent of how samples were batched; it never holds more than the requested number of distinct configurations, stops at the requested number or at the step limit, and padding entries carry zero weight. Expectation values, variances and gradients are the count-weighted averages over those configurations.",
 ["histories","inputs"],"every sequence of sampled batches, requested number of samples, batch size, step limit and chunk size",
 T0+"the state is never sampled by the reliable tests; counting errors show only when a configuration recurs across batches or the limit falls inside a batch.",
 ["GPSKet/vqs/mc/mc_state/state_unique_samples.py","GPSKet/vqs/mc/mc_state/expect.py"],[("accumulation loop","state_unique_samples.py samples_with_counts"),("weighted expectation","expect.py")],["samples_with_counts","expect","expect_and_grad"])
p("C15","Stratified sampling splits weights correctly between the two strata",
 "In a stratified state every configuration of the deterministic set appears exactly once with weight proportional to its squared amplitude, all sampled configurations lie outside that set, follow the squared amplitudes there and share equal weights, and all weights sum to one. The two strata are weighted by the deterministic norm against the estimated norm of the complement, in every normalisation mode.",
 ["histories","inputs"],"every deterministic set, seed, number of chains and samples, normalisation mode and wavefunction",
 T0+"the stratified state is never built in the tests.",
 ["GPSKet/vqs/mc/mc_state/state_stratified_sampling.py"],[("stratified accumulation","state_stratified_sampling.py samples_with_counts")],["samples_with_counts"])
p("C16","The RMSProp-regularised optimiser follows its recursion over every history",
 "At every step of every optimisation history, the parameter update solves the linear system whose matrix is the quantum geometric tensor plus the diagonal shift built from the bias-corrected running average of squared gradients, and that running average follows its exponential recursion from the gradients actually used. A scheduled shift is evaluated at the current step number, and resuming from a saved optimiser state continues the same sequence.",
 ["histories","configurations"],"every gradient history, decay, shift, epsilon, initial value, shift schedule, real / complex parameters and geometric-tensor implementation",
 "The tests only run a few steps and check that the energy goes down for three settings; they never check the recursion or the linear system.",
 ["GPSKet/driver/VMC_SRRMSProp.py","GPSKet/optimizer/sr_rmsprop.py","GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py","GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py"],[("running average","VMC_SRRMSProp.py"),("linear system","sr_rmsprop.py")],["driver step","QGT to_dense / @"])
p("C17","The minimal-norm driver's update equals the stochastic reconfiguration update",
 "For every set of samples, weights and chunking, the update computed from the sample-space kernel is the minimal-norm least-squares solution relating centred log-derivatives to centred local energies, both weighted by the square root of the sample weights. It is independent of the chunk size and of the number of chains, and the reported energy statistics are the weighted mean and variance.",
 ["inputs","configurations"],"every sample set, chain number, chunk size, count weighting, derivative mode and parameter type",
 T0+"this driver is not exercised by the reliable tests.",
 ["GPSKet/driver/minSR.py"],[("kernel and update","minSR.py _forward_and_backward")],["_forward_and_backward","energy"])
p("C18","Geometric-tensor objects are the weighted covariance they claim to be",
 "Every quantum geometric tensor implementation returns the weighted covariance matrix of the log-derivatives over the state's samples, plus its stated diagonal term, and its matrix-vector product, dense form and linear solve agree with each other. This holds for plain, full-sum and unique-sample states, for all derivative modes and for every chunk size.",
 ["inputs","configurations"],"every state, weighting, mode, shift, vector and chunk size",
 T0+"the dense matrix is never compared with the covariance.",
 ["GPSKet/optimizer/qgt/qgt_jacobian_dense_rmsprop.py","GPSKet/optimizer/qgt/qgt_jacobian_dense_unique_samples.py","GPSKet/optimizer/qgt/qgt_onthefly_rmsprop.py","GPSKet/optimizer/sr_dense.py","GPSKet/optimizer/solvers.py"],[("dense jacobian QGT","qgt/*.py"),("dense SR","sr_dense.py")],["to_dense","@","solve"])
p("C19","Supervised-learning feature caches never go stale",
 "Over every history of changing reference sites, configuration sets, parameters and resets, the feature matrix used by a supervised fit or prediction equals the one computed from scratch from the current parameters: the product over all non-reference sites of the selected parameters, summed over symmetry copies. Predictions equal the exponential of the product-state formula for the current parameters.",
 ["histories","inputs"],"every finite history of reference-site changes, data-set changes, fits, predictions and resets",
 T0+"the supervised module has no tests; staleness needs a particular sequence of calls.",
 ["GPSKet/supervised/supervised_qgps.py"],[("site product cache","supervised_qgps.py set_kernel_mat / update_site_prod")],["set_kernel_mat","predict","fit_step"])
p("C20","A supervised fit step solves its regularised weighted least-squares problem",
 "For fixed hyperparameters, one fit step sets the parameters at the reference sites to the solution of the regularised, weighted normal equations for the logarithms of the target amplitudes (prior mean, weightings, noise model and bias included) and changes nothing else. Parameters whose features vanish keep their values and parameters with infinite regularisation are set to the prior mean. A step of the generalised linear model is one Newton step on the regularised squared deviation of the amplitudes. Data split over processes give the fit of their union.",
 ["inputs","histories"],"every data set, weighting, prior mean, noise level, regularisation, reference site, real / complex parameters",
 T0+"no test performs a fit.",
 ["GPSKet/supervised/supervised_qgps.py"],[("normal equations","supervised_qgps.py setup_fit / setup_fit_alpha_dep"),("write back","update_epsilon_with_weights")],["fit_step"])
p("C21","An imaginary-time step multiplies the amplitude by one minus tau local energy",
 "For every configuration, wavefunction and Hamiltonian, an imaginary-time step gives the original amplitude times one minus the time step times the local energy, for plain operators and operators evaluated on the fly, chunked or not, also where this changes its sign. States propagated with an operator evaluated on the fly can be nested: k steps apply the operator one minus tau H k times, each with its own time step, and evaluating a step, replacing the parameters of a state or deriving another from it leaves all other states and the samples they hold as they were.",
 ["inputs","configurations"],"every configuration, wavefunction, time step (also negative), history of derived states and replaced parameters, plain and on-the-fly operators",
 T0+"the module has no tests.",
 ["GPSKet/supervised/imag_time_step.py"],[("propagated model","imag_time_step.py")],["model.apply"])
p("C22","State fitting follows the gradient of its loss over the data set",
 "Each state-fitting step draws a mini-batch without repetition from the data set with probabilities given by the squared target amplitudes, and its reported loss and parameter change are the mean squared deviation between model and target amplitudes on that batch and its gradient. Splitting the work over several processes leaves loss and gradient equal to the average over processes.",
 ["histories","configurations"],"every data set, mini-batch size, seed, step number and number of processes",
 T0+"the state fitting test does not run reliably.",
 ["GPSKet/driver/autoreg_state_fitting.py","GPSKet/driver/abstract_state_fitting.py"],[("loss and gradient","autoreg_state_fitting.py")],["driver step"])
p("C23","Reported evidence and its optimisation follow the exact marginal likelihood",
 "The log marginal likelihood a supervised fit reports equals the exact log evidence of its linear Gaussian model for the current data, weightings, noise and regularisation, and the reported derivatives with respect to regularisation and noise are its derivatives. Growing the relevance set never lowers the evidence, and a converged optimisation of regularisation or noise ends at a stationary point of the evidence.",
 ["inputs","histories"],"every data set, weighting, prior mean, noise level and noise model, regularisation, real / complex / expanded complex weights",
 T0+"no test evaluates a marginal likelihood.",
 ["GPSKet/supervised/supervised_qgps.py"],[("evidence","supervised_qgps.py log_marg_lik"),("derivatives","log_marg_lik_alpha_der / log_marg_lik_noise_der"),("relevance updates","compute_sparsity_quantities / update_precisions / opt_alpha_beta")],["log_marg_lik","log_marg_lik_alpha_der","log_marg_lik_noise_der","fit_step_growing_RVM","fit_step"])
p("C24","Freshly initialised parameters follow their documented law",
 "For every shape, number type, width and random key, parameters of product-state models start as independent normal deviates of the requested width around one if they are real, and on the unit circle with independent normal phases of the requested width around zero if they are complex. Stacks of orbital matrices start with orthonormal columns (rows, where the matrix is wide) times the requested scale, each matrix drawn independently. Shape and type are those requested, the same key gives the same parameters, and different keys or different parameters of a model give different ones.",
 ["inputs","configurations"],"every shape, number type, width, scale, random key and model that starts from these initialisers",
 T0+"no reliable test looks at the initial parameters.",
 ["GPSKet/nn/initializers.py","GPSKet/models/qGPS.py","GPSKet/models/slater_qGPS.py","GPSKet/models/asymm_qGPS.py"],[("product-state parameters","nn/initializers.py normal"),("orbital matrices","nn/initializers.py orthogonal")],["nn.initializers.normal","nn.initializers.orthogonal","model.init"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
import re
for x in P:
    n=len(re.findall(r'[.](?=\s|$)',x['statement'])); 
    if n>3: print(x['id'],n)
