"""One entry per property: the specification modules, drivers and trace specifications that decide it."""
CHECKS = {
    "C01": dict(
        design=[dict(module="MCFermi", cfg="MCFermi.cfg", cfg_thorough="MCFermiThorough.cfg", emit="walk", workers=8)],
        driver="c01.py", shards=4,
        trace=dict(module="TraceOperator", cfg="TraceOperator.cfg"),
        assumptions=["integrals are real and have the usual permutation symmetry; at most 5 orbitals (all configurations), 12 (sampled ones)"]),
    "C03": dict(
        design=[dict(module="MCSpin", cfg="MCSpin.cfg", cfg_thorough="MCSpinThorough.cfg", emit="walk", workers=8)],
        driver="c03.py", shards=6,
        trace=dict(module="TraceOperator", cfg="TraceOperator.cfg"),
        assumptions=["lattices on which the two neighbour shells are simple (no extents of 2 with periodic boundaries); at most 9 sites"]),
    "C04": dict(
        design=[dict(module="MCAsep", cfg="MCAsep.cfg", cfg_thorough="MCAsepThorough.cfg", emit="walk", workers=4)],
        driver="c04.py", shards=3,
        trace=dict(module="TraceOperator", cfg="TraceOperator.cfg"),
        assumptions=["at most 8 sites; rates and counting field dyadic"]),
    "C02": dict(
        design=[dict(module="MCFermi", cfg="MCFermi.cfg", cfg_thorough="MCFermiThorough.cfg", emit="walk", workers=8)],
        driver="c02.py", shards=8,
        trace=dict(module="TraceOperator", cfg="TraceOperator.cfg"),
        assumptions=["real integrals with the usual permutation symmetry; all configurations of at most 5 orbitals, sampled ones of up to 8; samples with non-negligible amplitude; edges without self loops"]),
    "C05": dict(
        design=[dict(module="MCHilbert", cfg="MCHilbert.cfg", cfg_thorough="MCHilbertThorough.cfg", emit="fill", workers=8)],
        driver="c05.py", shards=6,
        trace=dict(module="TraceHilbert", cfg="TraceHilbert.cfg"),
        assumptions=["at most 5 sites (15 for powers); uniformity decided at 7 standard deviations for fixed seeds"]),
    "C06": dict(
        design=[dict(module="MCProposals", cfg="MCProposals.cfg", cfg_thorough="MCProposalsThorough.cfg", emit="chain", workers=8)],
        driver="c06.py", shards=6,
        trace=dict(module="TraceProposals", cfg="TraceProposals.cfg"),
        assumptions=["transition probabilities form a symmetric stochastic matrix; at most 5 sites; frequencies decided at 7 standard deviations for fixed seeds"]),
    "C07": dict(
        design=[dict(module="MCProposals", cfg="MCProposals.cfg", cfg_thorough="MCProposalsThorough.cfg", emit="chain", workers=8)],
        driver="c07.py", shards=8,
        trace=dict(module="TraceProposals", cfg="TraceProposals.cfg"),
        assumptions=["at most 5 sites; sweeps of 6 steps; frequencies decided at 7 standard deviations for fixed seeds"]),
    "C09": dict(
        design=[dict(module="MCAutoReg", cfg="MCAutoReg.cfg", cfg_thorough="MCAutoRegThorough.cfg", emit="draw", workers=8)],
        driver="c09.py", shards=8,
        trace=dict(module="TraceAutoReg", cfg="TraceAutoReg.cfg"),
        assumptions=["at most 6 sites (quick) of 2 or 4 local states; parameters of magnitude below 2"]),
    "C08": dict(
        design=[dict(module="MCAutoReg", cfg="MCAutoReg.cfg", cfg_thorough="MCAutoRegThorough.cfg", emit="draw", workers=8)],
        driver="c08.py", shards=8,
        trace=dict(module="TraceAutoReg", cfg="TraceAutoReg.cfg"),
        assumptions=["at most 6 sites (quick) of 2 or 4 local states; frequencies decided at 7 standard deviations for fixed seeds"]),
    "C10": dict(
        design=[dict(module="MCFastUpdate", cfg="MCFastUpdate.cfg", cfg_thorough="MCFastUpdateThorough.cfg", workers=4),
                dict(module="GenFastUpdate", cfg="GenFastUpdate.cfg", emit="history", simulate=dict(quick=(90, 10), thorough=(1200, 10)), workers=1)],
        driver="c10.py", shards=8,
        trace=dict(module="TraceFastUpdate", cfg="TraceFastUpdate.cfg"),
        assumptions=["non-zero parameters and non-singular determinants along the history (fast updates divide by them); at most 6 sites, histories of 7 steps on 3 rows"]),
    "C11": dict(
        design=[dict(module="MCProduct", cfg="MCProduct.cfg", cfg_thorough="MCProductThorough.cfg", emit="walk", workers=8)],
        driver="c11.py", shards=8,
        trace=dict(module="TraceProduct", cfg="TraceProduct.cfg"),
        assumptions=["all configurations of at most 5 sites (6 in the thorough tier) of 2, 3 or 4 local states, sampled ones of larger systems; parameters are multiples of 1/16 of magnitude at most 3/2"]),
    "C12": dict(
        design=[dict(module="MCDeterminant", cfg="MCDeterminant.cfg", cfg_thorough="MCDeterminantThorough.cfg", emit="walk", workers=8)],
        driver="c12.py", shards=8,
        trace=dict(module="TraceDeterminant", cfg="TraceDeterminant.cfg"),
        assumptions=["all configurations of at most 4 sites and 5 electrons (5 and 6 in the thorough tier), sampled ones of larger systems; Pfaffians of dimension 2, 4, 6, 8; derivatives away from singular matrices"]),
    "C13": dict(
        design=[dict(module="MCProduct", cfg="MCProduct.cfg", cfg_thorough="MCProductThorough.cfg", emit="walk", workers=8)],
        driver="c13.py", shards=8,
        trace=dict(module="TraceProduct", cfg="TraceProduct.cfg"),
        assumptions=["symmetry helpers on graphs of up to 9 sites, amplitudes on up to 5 (6 in the thorough tier); fermionic amplitudes up to the sign of reordering the fermions"]),
    "C14": dict(design=[dict(module="MCSamples", cfg="MCSamples.cfg", cfg_thorough="MCSamplesThorough.cfg", emit=True, workers=8)], driver="c14.py", shards=8,
                trace=dict(module="TraceSamples", cfg="TraceSamples.cfg"),
                assumptions=["the scripted histories replace the state's own sample() by the batches of the specification's behaviour; a second family of cases uses the real samplers and records the batches they return"]),
    "C15": dict(design=[dict(module="MCStrata", cfg="MCStrata.cfg", cfg_thorough="MCStrataThorough.cfg", workers=8)], driver="c15.py", shards=8,
                trace=dict(module="TraceSamples", cfg="TraceSamples.cfg"),
                assumptions=["the norm estimate from uniformly drawn configurations is judged by a seven-sigma bound, as are long-run frequencies over the complement; everything else is exact"]),
    "C16": dict(design=[dict(module="MCOptim", cfg="MCOptim.cfg", cfg_thorough="MCOptimThorough.cfg", emit=True, workers=8)], driver="c16.py", shards=8,
                trace=dict(module="TraceOptim", cfg="TraceOptim.cfg"),
                assumptions=["wavefunctions are Gaussian process states with one or two parameter leaves on 3 or 4 sites; the solution of the linear system is judged by its residual (1e-7 relative for a direct solver, 1e-4 for the default conjugate-gradient solver)",
                             "cases on two MPI ranks are skipped if mpirun cannot start processes"]),
    "C17": dict(design=[dict(module="MCOptim", cfg="MCOptim.cfg", cfg_thorough="MCOptimThorough.cfg", workers=8)], driver="c17.py", shards=8,
                trace=dict(module="TraceOptim", cfg="TraceOptim.cfg"),
                assumptions=["wavefunctions are Gaussian process states on 3 or 4 sites; minimality of the norm is judged by a certificate (a sample-space vector) found by the harness and verified by the specification",
                             "derivative mode complex is exercised for complex parameters, as for real parameters it is not stochastic reconfiguration", "cases on two MPI ranks are skipped if mpirun cannot start processes"]),
    "C18": dict(design=[dict(module="MCOptim", cfg="MCOptim.cfg", cfg_thorough="MCOptimThorough.cfg", workers=8)], driver="c18.py", shards=8,
                trace=dict(module="TraceOptim", cfg="TraceOptim.cfg"),
                assumptions=["wavefunctions are Gaussian process states on 3 or 4 sites", "the on-the-fly tensor is exercised for real parameters, and for holomorphic ones with a real running average", "cases on two MPI ranks are skipped if mpirun cannot start processes"]),
    "C19": dict(design=[dict(module="MCSupervised", cfg="MCSupervised.cfg", cfg_thorough="MCSupervisedThorough.cfg", workers=8),
                        dict(module="MCSupervised", cfg="MCSupervisedB.cfg", workers=8),
                        dict(module="MCSupervised", cfg="GenSupervised.cfg", emit="history", simulate=dict(quick=(84, 10), thorough=(840, 10)), workers=1)],
                driver="c19.py", shards=8, trace=dict(module="TraceSupervised", cfg="TraceSupervised.cfg"),
                assumptions=["parameters are changed through the class (assignment, fits); callers may reuse and overwrite the arrays they passed in"]),
    "C20": dict(design=[dict(module="MCEvidence", cfg="MCEvidence.cfg", cfg_thorough="MCEvidenceThorough.cfg", workers=8)],
                driver="c20.py", shards=8, trace=dict(module="TraceSupervised", cfg="TraceSupervised.cfg"),
                assumptions=["solutions are judged by their residual (1e-8 relative); features either vanish exactly or are well above the cut-off of 1e-10", "cases on two MPI ranks are skipped if mpirun cannot start processes"]),
    "C23": dict(design=[dict(module="MCEvidence", cfg="MCEvidence.cfg", cfg_thorough="MCEvidenceThorough.cfg", workers=8)],
                driver="c23.py", shards=8, trace=dict(module="TraceSupervised", cfg="TraceSupervised.cfg"),
                assumptions=["derivatives are compared with a symmetric difference quotient of the exact evidence (1e-5)", "optimised hyperparameters are judged stationary to 1e-2 in logarithmic derivative, where the optimum is finite"]),
    "C21": dict(design=[dict(module="MCImag", cfg="MCImag.cfg", cfg_thorough="MCImagThorough.cfg", emit=True, workers=8)],
                driver="c21.py", shards=8, trace=dict(module="TraceImag", cfg="TraceImag.cfg"),
                assumptions=["wavefunctions are Gaussian process states on 3 or 4 sites; at most three nested steps; configurations at which an intermediate amplitude vanishes exactly are not exercised"]),
    "C22": dict(design=[dict(module="MCStateFit", cfg="MCStateFit.cfg", cfg_thorough="MCStateFitThorough.cfg", emit=True, workers=8)],
                driver="c22.py", shards=8, trace=dict(module="TraceStateFit", cfg="TraceStateFit.cfg"),
                assumptions=["the mini-batch is inferred from the reported loss (targets and parameters are generic, so that it is unique up to rounding); gradients are compared with a symmetric difference quotient of the exact amplitudes (1e-6)",
                             "autoregressive states on 3 or 4 sites, data sets of at most 7 items with at least as many non-zero targets as items per batch", "draw frequencies are judged by a seven-sigma bound", "cases on several MPI ranks are skipped if mpirun cannot start processes"]),
    "C24": dict(design=[dict(module="MCInitial", cfg="MCInitial.cfg", cfg_thorough="MCInitialThorough.cfg", emit=True, workers=8)],
                driver="c24.py", shards=8, trace=dict(module="TraceInitial", cfg="TraceInitial.cfg"),
                assumptions=["the law of random parameters is judged by their first four moments and their correlations along every axis (seven-sigma bounds, fixed seed); orthonormality to 1e-6"]),
}
