"""technique, level and level note per property (used by mkmanifest.py)."""
NOTES = {
    "C01": ("exhaustive enumeration of call sequences against a reference cache", "model_checking",
            "All call/clear/fail/mutate sequences up to the stated depth, and all ordered pairs of a large argument alphabet, on the real decorator against an executable FIFO-cache model. Trusts the model and the bounded alphabet."),
    "C02": ("stateless model checking: all interleavings of the real cache up to a preemption bound", "model_checking",
            "All schedules of 2-3 threads with 1-3 operations each, with a bounded number of preemptions at every line (opcode in the thorough tier) of the cache and every synchronisation operation. Trusts the controlled scheduler and the GIL's sequential consistency."),
    "C03": ("exhaustive enumeration of object histories against undecorated methods", "model_checking",
            "All sequences of create/call/copy/deepcopy/clear/delete operations up to the stated depth for nine class shapes and for StatisticalModel."),
    "M03": ("exhaustive enumeration of a model/data/parameter lattice against an independent reference likelihood", "model_checking",
            "Every model of a catalogue covering all default backends and uncertainty forms, every data selection and every point of a parameter lattice; trusts the independently written reference likelihood."),
    "M04": ("exhaustive enumeration of a model/data/parameter lattice against derivatives of the reference", "model_checking",
            "Every model of the catalogue, data selection and lattice point; derivatives of the reference likelihood by extrapolated differences (accuracy 1e-6)."),
    "M05": ("exhaustive enumeration of fit configurations against reference minimisation", "model_checking",
            "All combinations of model, data, sign option, fixed values and ways of naming them, starting points, bounds and minimiser; optimality relative to an independent multi-start minimisation within 2e-3."),
    "M06": ("exhaustive enumeration of model x query x data selection with metamorphic oracles", "model_checking",
            "All models of the catalogue and six combinations, every query, expectation type in both spellings, explicit data in both forms; compares with models built from the data."),
    "H01": ("exhaustive enumeration of tested/best-fit orders, signs and likelihood tables against the piecewise definitions", "model_checking",
            "All combinations over grids of arguments with independent likelihood tables; counting experiments in closed form."),
    "H02": ("exhaustive enumeration of a test-statistic grid and of scripted likelihoods against the asymptotic formulae", "model_checking",
            "All grid points and all combinations of scripted observed/Asimov likelihoods, expectation forms, statistics and calculators, plus counting experiments in closed form."),
    "H03": ("exhaustive enumeration of all small toy outcome sets against exact counting", "model_checking",
            "All multisets of toy outcomes up to the stated size and all assignments of likelihoods to toys, with exact rational counting; toys of a scripted backend for the generation side."),
    "H04": ("exhaustive enumeration of scripted likelihoods and limit options against all solutions of the level equation", "model_checking",
            "All combinations of analytic likelihoods, levels, initial values and expectation forms against independently computed solutions; every model of the catalogue is checked to exclude at the requested level."),
    "H05": ("exhaustive enumeration of likelihood shapes and options against all threshold crossings", "model_checking",
            "All combinations of shapes, positions, widths, levels, limit types and options, two-well curves included, against independently computed crossings; real models incl. nuisance parameters."),
    "H06": ("exhaustive enumeration of model x expectation x statistic x data against reference fits", "model_checking",
            "All models of the catalogue, expectation types and statistic names, combinations, and a scripted backend recording the parameters whose expectation is taken."),
    "H07": ("exhaustive enumeration of scripted likelihoods, argument forms and options against the definitions", "model_checking",
            "All combinations of scripted curves, tested values, argument forms, denominators, sign options and forwarded options; five Hessian situations of scripted backends; every model of the catalogue against derivatives of the reference likelihood."),
    "M01": ("exhaustive enumeration of operation histories against answers of fresh models in new processes", "model_checking",
            "All histories of one (quick: two on one model; thorough: two on ten models, three on two) operations, every returned object being modified in place, followed by a fixed list of probes."),
    "M02": ("exhaustive enumeration of constructors, queries and argument forms with snapshots before and after", "model_checking",
            "All models of the catalogue in five forms of their inputs, all argument-carrying queries in three forms, failing ones included, the free functions, and later overwriting of every input."),
    "M07": ("exhaustive enumeration of all subsets of optional backend methods", "model_checking",
            "All 512 subsets of the nine optional methods in four ways of implementing them, every query compared with the fully equipped backend or with the documented error; pairs of subsets as combinations."),
    "M08": ("exhaustive enumeration of equivalent descriptions (symmetry group) x models x queries on the real code", "model_checking",
            "All bin permutations, signal scales, units, additional bins, containers, orders of modifiers, splits into combinations and translations between backends for every model of the catalogue; metamorphic, the description as given is the reference."),
    "B01": ("exhaustive enumeration of partitions, orders and membership histories against joint models and a list", "model_checking",
            "All ordered partitions of the bins of joint models, groups of members in all orders against sums and direct minimisation, all membership sequences up to the stated length, option routing."),
    "B02": ("exhaustive enumeration of configuration grids against the documented bounds and indices", "model_checking",
            "All combinations of parameter counts, POI positions, bounds, minimum POIs and fixed values, all assignments of values to subsets of parameters, all keys, all pairs of renaming maps; configurations of every model of the catalogue against the reference."),
    "B03": ("exhaustive enumeration of scripted minimiser outcomes (fault sequences) and configurations on the real drivers", "model_checking",
            "All success/failure sequences of the minimiser up to the retry bound times bounds, fixed parameters, starting values and gradients, with the minimiser replaced by the explorer; all option subsets, environments and setter calls; real minimisers on quadratics with known minima."),
    "B04": ("exhaustive enumeration of models, parameters and sampler calls under a scripted random source", "model_checking",
            "All models of the catalogue, parameter points, sample sizes and ways of asking; numpy's random source is replaced by one answering with chosen quantiles and unit deviates, which determines the law of Poisson and Gaussian columns exactly."),
    "B05": ("exhaustive enumeration of distributions, parameters, data and container types against scalar formulae", "model_checking",
            "All points of grids of means, widths, correlations, weights and data, boundary values included, for every distribution and for the models built from them; scalar reference formulae evaluated independently."),
    "B06": ("exhaustive enumeration of uncertainty descriptions, nuisance values and third moments against formulae and quadrature", "model_checking",
            "All combinations of description kinds, bins, one-sided and zero uncertainties, nuisance values, and moments around the admissible boundary; moments of the expansion from exact Gaussian integrals."),
    "S01": ("exhaustive enumeration of registry histories against a dictionary of what was registered", "model_checking",
            "All histories of registrations, installations, look-ups, rescans and later metadata changes up to the stated length, each in its own process and followed by a complete probe."),
    "S02": ("exhaustive enumeration of cache states, network answers, faults, crash points and interleavings", "model_checking",
            "All pairs of cache state and answer, an error or crash at every file-system operation, every torn length, every interleaving of two processes up to the preemption bound, each followed by a further check; faults are injected below the real code."),
    "S03": ("exhaustive enumeration of nested context histories, failures and records against a model of the logger", "model_checking",
            "All well-nested histories of entering, logging, failing and leaving up to the stated length from eight initial logger states; all records of a grid; a failure at every likelihood evaluation of eight queries."),
    "K02": ("exhaustive enumeration of matrices and of all groupings of bins against exact sums", "model_checking",
            "All positive-definite correlation matrices over a grid of entries with all vectors of a grid of standard deviations; all ordered lists of disjoint groups of up to five bins (six thorough) and all lists of up to two (three) subsets, overlapping, repeated, negative and out of range."),
    "K01": ("exhaustive enumeration of models, contour parameters, levels, bounds, step sizes and worker counts against a reference likelihood", "model_checking",
            "All combinations of the stated grid; every returned point is re-evaluated with an independent likelihood (profiled by an independent optimiser) and compared with bounds, names, minimum and threshold. The directions come from seeded generators inside the code: the guarantee is per returned point."),
}
PENDING = {}
