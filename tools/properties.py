GD = 'python/getdist/'
PG = 'python/paramgrid/'

prop('C01', 'Ini inheritance: the nearest definition wins, and typed reads agree with it',
     '''A settings file read with its INCLUDE and DEFAULT files yields, for every key, the value from the file itself or
     its INCLUDEs, and otherwise the first DEFAULT file (in order, depth first) that defines it; a key defined twice among
     the file and its INCLUDEs is reported as an error, and relative names resolve against the directory of the file that
     names them. Text after a line END, comments and blank lines have no effect, and $(VAR) is replaced from the
     environment. Every typed read (string, int, float, bool, list, array, indexed) returns the parsed text of that value,
     the supplied default exactly when the key is unset (or empty, for all but strings), and raises an error when there is neither.''',
     ['inputs', 'configurations'], 'for every inheritance graph of settings files, every key placement and every typed read',
     'existing tests read no ini file with INCLUDE/DEFAULT; only a handful of settings are exercised through dictionaries',
     [GD + 'inifile.py', GD + 'mcsamples.py'],
     [('readFile duplicate/if_not_defined rule', GD + 'inifile.py:IniFile.readFile'),
      ('typed accessors', GD + 'inifile.py:IniFile.asType/split/bool')],
     'exhaustive enumeration of inheritance graphs and typed reads against a reference resolver',
     'Complete for up to 4 files (2 levels), both directives, all key placements of 2 keys; value alphabet is finite.')

prop('C02', 'Saved ini settings reload identically and saving touches only its target',
     '''After any sequence of reading, setting, deleting, tag replacement and saving, reloading a saved settings file gives exactly
     the settings held when it was saved (string, int, float, bool and list values read back with the same typed value, keys kept in their
     original read order, inherited files kept by reference when includes are kept). Saving writes only the named
     file, or, with no name, only the file the settings were originally read from, never one of the files it includes.''',
     ['histories', 'inputs'], 'for every sequence of edit/save/reload operations up to the bound, over all include layouts',
     'no test saves an ini file; the failure needs an include plus a save', [GD + 'inifile.py'],
     [('fileLines/asIniText', GD + 'inifile.py'), ('original_filename', GD + 'inifile.py:IniFile.saveFile')],
     'explicit-state BFS over edit/save/reload histories on the real class, directory snapshot oracle',
     'Complete to the stated depth for the value alphabet (bool/int/float/str/list).')

prop('C03', 'The job index always matches the jobs submitted, and lookups stay exact',
     '''After any history of submitting job batches, cancelling jobs by id or by name, the queue dropping finished jobs, and
     further queries (also from a new process), the stored index contains exactly the jobs submitted and not yet cancelled, each job
     with its own id, name, script, chain names and settings. A chain or job name maps to the most recent live job that
     contains it, cancelling one job never affects another, and the details reported for the queue list exactly the
     indexed jobs that the queue reports, with the queue's state for each.''',
     ['histories', 'configurations'], 'every sequence of submit/cancel/queue events up to the bound, each followed by a reload',
     'paramgrid has no tests, and each failure needs a particular order of submissions and cancellations',
     [PG + 'jobqueue.py', 'python/deleteJobs.py'],
     [('jobIndex.addJob/delId', PG + 'jobqueue.py'), ('queue_job_details', PG + 'jobqueue.py'),
      ('deleteJobs', PG + 'jobqueue.py')],
     'explicit-state BFS of the real queue code against fake qsub/qstat/qdel and a reference table',
     'Complete to the stated depth with 3 roots in colliding batches; the batch system is a stand-in on PATH.')

prop('C04', 'The job index survives a crash at any point of saving it',
     '''If the process dies, or the disk fails, at any point while the job index is being updated (a submission or a
     cancellation), then reading the index afterwards gives either the complete index from before or the complete index from
     after the update, never a missing, partial or unreadable one. A leftover of an interrupted update never prevents the next update.''',
     ['crash_points', 'fault_sequences'], 'every crash point (before each file-system call, and every torn prefix of written data)',
     'tests never crash mid-save', [PG + 'jobqueue.py'],
     [('saveJobIndex write to temporary then replace', PG + 'jobqueue.py:saveJobIndex')],
     'exhaustive crash-point and torn-write enumeration on the real save path', 
     'All interposed file-system calls of an update; crash = process death with written prefix kept (power loss without fsync is not modelled).',
     level='fault_enumeration')

prop('C05', 'Loading chains through the cache gives the same result as loading the files',
     '''Whatever was loaded before and however the chain, names, ranges, properties or settings files were changed, replaced, added or
     removed in between, loading a chain root with caching enabled returns samples, weights, likelihoods, names, labels, ranges and
     settings equal to those from loading with caching disabled. A missing, truncated or corrupted cache file, or a crash while the
     cache is being written, never changes the result or makes loading fail.''',
     ['histories', 'crash_points', 'fault_sequences'],
     'every history of load/modify events up to the bound, every truncation of the cache file and every crash point of its write',
     'tests load each root at most twice without modifying it', [GD + 'mcsamples.py'],
     [('loadMCSamples cache validity', GD + 'mcsamples.py:loadMCSamples')],
     'explicit-state BFS over load/modify histories, differential oracle (cached vs uncached load)',
     'Complete to the stated depth for one root with two chains; file times are advanced explicitly as a real edit would.')

prop('C06', 'Sample statistics always describe exactly the rows that remain',
     '''After any sequence of filtering, burn-in removal, minimum-weight removal, reweighting, added likelihoods, cooling, added or updated
     derived parameters and thinning, every reported quantity (counts, weight sums, means, variances, covariance and
     correlation, mean/best log-likelihood and the like) equals the same weighted quantity computed directly from the rows that remain.
     Values computed before an operation are never returned stale after it, and rows are neither lost, duplicated nor
     reordered other than as the operation specifies.''',
     ['histories', 'inputs'], 'every operation sequence up to the bound over small weighted sample sets, with queries before and after each',
     'tests apply single operations to one large random sample and never query, modify, and query again', 
     [GD + 'chains.py', GD + 'mcsamples.py'],
     [('WeightedSamples.changeSamples/_weightsChanged', GD + 'chains.py'), ('updateBaseStatistics', GD + 'mcsamples.py')],
     'explicit-state BFS over operation histories on the real sample classes against a row-list reference model',
     'Complete to the stated depth with the given operation alphabet; numeric comparison at 1e-9 relative.')

prop('C07', 'Separate chains keep their identity through every operation',
     '''After combining chains, burn-in removal, filtering and separation in any order, the samples of each input chain are exactly the
     rows of that chain that survived, in order; separating combined samples gives them back and recombining gives the same
     combined samples. Convergence measures (Gelman-Rubin eigenvalues, between-chain variance over mean within-chain variance) computed on the
     combined samples after any such sequence equal those computed directly from the surviving rows of each chain.''',
     ['histories', 'inputs'], 'every sequence of combine/separate/burn/filter operations up to the bound over all small chain-length combinations',
     'one test loads two chains; no test filters combined chains and separates them again', [GD + 'chains.py', GD + 'mcsamples.py'],
     [('chain_offsets bookkeeping', GD + 'chains.py:Chains'), ('getGelmanRubinEigenvalues', GD + 'chains.py')],
     'explicit-state BFS over chain operation histories against a list-of-lists reference model',
     'Complete to the stated depth for up to 3 chains of 1-4 rows.')

prop('C08', 'Saving and reloading samples preserves everything a user can observe',
     '''Samples written as text and loaded again have the same number of chains, rows, weights, likelihoods and parameter values (to the
     written precision), the same parameter names, labels, derived flags, ranges, sample label and properties. Loading a root (which has a names file) reads exactly the
     files of that root: chain files are taken in numerical order, empty files are skipped, excluded chains and other roots sharing the prefix never contribute,
     and the requested number of initial rows or fraction of each chain is ignored exactly once.''',
     ['inputs', 'configurations', 'histories'], 'every combination of chain count, row count, format options, exclusions and directory contents in the bound',
     'tests save one root and check it loads', [GD + 'chains.py', GD + 'mcsamples.py', GD + 'chain_grid.py'],
     [('saveAsText/loadChains', GD + 'chains.py'), ('chainFiles', GD + 'chains.py')],
     'exhaustive enumeration of save/load configurations and directory contents against a reference table',
     'Complete for the enumerated configurations; values are compared to the written precision.')

prop('C09', 'Confidence limits and quantiles of weighted samples are exact',
     '''For every weighted sample set, parameter and probability, the reported one-tail limits are values such that the weight fraction
     below (or above) them is the requested probability to within one sample, limits are monotonic in the probability, insensitive to sample order and
     to splitting a weight into repeated rows, and two-tail limits are the pair of one-tail limits. Lists, single values, precomputed
     sort data, and parameters given by name, number or array all give the same answer.''',
     ['inputs'], 'every weighted sample set with up to 5 rows over small value and weight alphabets, every probability of a grid',
     'a test checks limits on one Gaussian sample', [GD + 'chains.py'],
     [('confidence/initParamConfidenceData', GD + 'chains.py:WeightedSamples.confidence')],
     'exhaustive enumeration of all small weighted sets against the definition', 'Complete for the enumerated sets and probabilities.')

prop('C10', 'Thinning keeps each sample in proportion to its weight',
     '''Thinning integer-weighted samples by a factor selects exactly one sample for each complete block of that many units of cumulative
     weight, always in order and always at the sample containing that unit of weight, so a sample of weight w is selected floor(w/factor) or one more times; it never selects a zero-weight sample.
     A factor smaller than the largest weight may select a sample several times; otherwise each sample is selected at most once and the first sample of nonzero weight is always kept as the start. The reported thinning counts match the indices, and thinning the chain
     object leaves precisely the selected rows with unit weight.''',
     ['inputs'], 'every integer weight vector up to the bound and every thinning factor',
     'one test thins one chain with one factor', [GD + 'chains.py', GD + 'mcsamples.py'],
     [('thin_indices', GD + 'chains.py:WeightedSamples.thin_indices')],
     'exhaustive enumeration of weight vectors and factors against the definition', 'Complete within the weight-vector bound.')

prop('C11', 'A chain directory or grid resolves each name to its own files',
     '''Searching directories, nested grids and single chain roots for a chain finds a root exactly when its files exist, returns the right path for each,
     and never confuses it with another root that shares a prefix or suffix. The listed chain names are complete, without duplicates and independent of directory listing order.''',
     ['configurations'], 'every small directory tree of chain, metadata and unrelated files, and every listing order',
     'no test searches directories', [GD + 'chain_grid.py', GD + 'chains.py', PG + 'batchjob.py'],
     [('ChainDirGrid', GD + 'chain_grid.py'), ('findChainFileRoot', GD + 'chains.py')],
     'exhaustive enumeration of directory trees against a reference lookup', 'Complete for the enumerated trees.')

prop('C12', 'Parameter name lists: lookup, globbing, renaming and files are consistent',
     '''Every parameter in a list is found by its name (which takes precedence) or by any of its aliases and by no other text, wildcards expand to exactly the matching
     parameters in list order, and order and derived flags are kept by filtering, deletion and addition. Writing a names file and reading it back, or building from the same names given as
     strings, gives the same list, and merging renames joins exactly the equivalent names.''',
     ['inputs', 'histories'], 'every small list of names with renames, and every lookup, glob, edit and file round trip on it',
     'tests rename one parameter', [GD + 'paramnames.py'],
     [('ParamList/ParamNames', GD + 'paramnames.py'), ('mergeRenames', GD + 'paramnames.py')],
     'exhaustive enumeration of name lists and edit histories against a reference list', 'Complete for the stated alphabets.')

prop('C13', 'Parameter bounds behave as independent optional limits and survive files',
     '''Each parameter has an independent optional lower and upper bound: bounds set, read from a ranges file (a side given as N leaves that side as it was), or written and read back
     are exactly those reported, parameters whose lower and upper value coincide are reported as fixed, and setting bounds for one parameter never alters another. Samples given ranges by
     dictionary, list, file or settings report those bounds, also after saving and reloading.''',
     ['inputs', 'histories'], 'every sequence of bound settings and save/load operations up to the bound', 'tests set two ranges once',
     [GD + 'parampriors.py'], [('ParamBounds', GD + 'parampriors.py')],
     'explicit-state BFS over bound-setting/save/load histories against a dictionary model', 'Complete to the stated depth.')

prop('C14', 'Covariance-matrix files are rescaled, reduced and merged parameter by parameter',
     '''Writing and reading a covariance matrix, rescaling a parameter, and merging matrices with overlapping parameters act on parameters by name, never by position: each
     variance and covariance in the result comes from the right parameter pair of the right input (the first one having it), absent pairs are zero, and merging does not modify its inputs. The covariance of samples covers exactly the non-derived parameters. Correlations computed from any such matrix are symmetric with unit diagonal.''',
     ['inputs'], 'every pair of small matrices over overlapping parameter sets in every order', 'no test touches covmat files',
     [GD + 'covmat.py', GD + 'covcomb.py', GD + 'covscale.py', GD + 'mcsamples.py'],
     [('CovMat', GD + 'covmat.py')], 'exhaustive enumeration of parameter overlaps and orders against a dictionary-of-pairs model',
     'Complete for parameter sets drawn from 4 names.')

prop('C15', 'Formatted numbers and limits are correct roundings with consistent digits',
     '''Every formatted number is the value correctly rounded to the significant figures requested, shown with exactly that many figures. A value with errors is printed
     with errors rounded to the requested number of figures, and with at least the decimals of its upper error and no more than those of its finer error, so that the printed text
     parses back to the value within half a unit of its last figure, in plain and in power-of-ten form. Tables show each limit with the right kind
     (two-sided, upper, lower, none) and zero, negative, tiny and huge values all give valid text.''',
     ['inputs'], 'every mantissa/exponent/sign of the alphabet and every figure count', 'a few fixed strings are compared by table tests',
     [GD + 'types.py'], [('NumberFormatter', GD + 'types.py')],
     'exhaustive enumeration of decimal mantissas, exponents and figure counts against exact decimal arithmetic', 'Complete over the stated decimal grid.')

prop('C16', 'Result files read back to the results that were written',
     '''Marginalized statistics, likelihood statistics, best-fit (minimum) and convergence files written from any set of results and read back give the same parameters in the
     same order with the same means, errors, limits and limit types, likelihoods and values, to the printed precision. Tables built from the
     objects or from the files show the same numbers.''',
     ['inputs'], 'every combination of parameter count, limit type, empty/special labels and likelihood lists in the bound',
     'tests compare one margestats object', [GD + 'types.py'], [('MargeStats/LikeStats/BestFit', GD + 'types.py')],
     'exhaustive enumeration of result shapes, write/read differential', 'Complete for the enumerated shapes.')

prop('C17', 'A grid definition expands to exactly the specified jobs, each once',
     '''Expanding any grid definition (groups of parameter combinations and data sets, group and global importance runs, conditional runs, importance filters, extra jobs, skipped
     names) yields exactly the full runs it lists that are not skipped, in order, and exactly one importance job for each further combination it describes: importance jobs that equal a full run or another importance job
     are dropped, and an importance run whose data the parent already has is not made. Every job has its own name, tags, paths, group, settings and parent. Expanding or extending
     never changes the definition, the lists it was built from, or any other data set or job.''',
     ['configurations', 'inputs'], 'every small grid definition of the alphabet', 'paramgrid has no tests',
     [PG + 'batchjob.py', PG + 'gridconfig.py'], [('makeItems', PG + 'batchjob.py:batchJob.makeItems')],
     'exhaustive enumeration of grid definitions against a declarative reference expansion', 'Complete for the definition alphabet.')

prop('C18', 'Grid filters and name lookups select exactly the matching items',
     '''Any combination of selection options on a grid (name wildcards, parameter, data, group and importance options, chain existence, sub-grids) selects exactly the items that satisfy all of
     them, in grid order. A parameter and data tag resolves to the item with those parameters and data in any order, with or without importance markers, and to nothing when there is none; names are matched exactly or by normalised name.''',
     ['inputs', 'configurations'], 'every combination of selection options over a grid with colliding names', 'paramgrid has no tests',
     [PG + 'batchjob_args.py', PG + 'batchjob.py'], [('filteredBatchItems', PG + 'batchjob_args.py'), ('resolveName', PG + 'batchjob.py')],
     'exhaustive enumeration of option combinations against predicate conjunction', 'Complete for the option alphabet.')

prop('C19', 'Maintenance commands touch only the files and jobs they were asked to',
     '''Cleaning, copying, zipping, linking, renaming, extracting and job-deleting commands change only files (or jobs) of the selected items that match the requested kinds: never those of another item, even
     one in the same directory sharing the name prefix, and never the original files when copying, whatever an earlier command left in the target. Without confirmation, or in a dry run, they change nothing.
     Everything copied has the content of the original, minus exactly the requested burn-in rows of full runs (recorded in the properties). Running a command again is harmless.''',
     ['configurations', 'histories'], 'every option combination over a grid tree with colliding names', 'the scripts have no tests',
     ['python/cleanup.py', 'python/copyGridFiles.py', 'python/renameParam.py', 'python/deleteJobs.py'],
     [('script bodies', 'python/cleanup.py, python/copyGridFiles.py, python/renameParam.py')],
     'exhaustive enumeration of option combinations with directory snapshots in a scratch tree', 'Complete for the option alphabet over one tree.')

prop('C20', 'Generated run files give each job its own settings in the defined precedence',
     '''Making a grid writes for every job one run file (and one for minimization) whose resolved value for each key is that of the most specific source: data-set dictionary, group options, grid options, options for a varied
     parameter, override files, data files, default files; importance runs take their own settings before the importance defaults and those of the parent. Each file names its own chain root and the first matching proposal matrix in the documented search order, and no job affects another\'s file. Opening the
     made grid again, from the saved object or the configuration, also after opening another grid, gives the same jobs (those with chains). Analysis files for the grid remove burn-in exactly where it has not been removed.''',
     ['configurations'], 'every overlap of keys among the sources of the alphabet', 'paramgrid has no tests', [PG + 'gridconfig.py', PG + 'batchjob.py'],
     [('makeGrid', PG + 'gridconfig.py')], 'exhaustive enumeration of setting overlaps against a precedence model', 'Complete for the enumerated overlaps.')

prop('C21', 'Batch submission submits each job that needs running exactly once',
     '''For any state of the grid (chains, best fits, convergence, checkpoints, age, parents) and options, the submission command submits exactly the selected jobs that satisfy all the options,
     each once, in grid order and in batches of the requested size, with the right run files; with not-queued it never submits a chain that is already queued, and it submits nothing in a dry run. The status command lists exactly the chains in the states asked for.''',
     ['configurations', 'histories'], 'every combination of job states and options', 'the scripts have no tests',
     ['python/runbatch.py', PG + 'jobqueue.py'], [('runbatch', 'python/runbatch.py')],
     'exhaustive enumeration of job states and options with a recording queue stand-in', 'Complete for the option/state alphabet.')

prop('C22', 'Gridded densities: values, normalisation, contour levels and limits agree',
     '''For any gridded 1D or 2D density object (non-negative values on an equally spaced grid): evaluating it reproduces the grid values and the spline through them (zero outside the range in 1D;
     point, array and grid evaluation and exchanged axes agree in 2D); normalize makes the (trapezium) integral or the maximum one, in place or leaving the array it was given alone; the level returned for each requested
     probability by getContourLevels lies between adjacent grid values such that the bins above it hold that probability (edge bins counted half if half_edge), whether probabilities are requested together or one by one;
     Density1D.getLimits for a probability (a number, list, tuple or array, at any accuracy factor, with or without a precomputed grid) returns the hull of the smallest highest-density region holding
     it, nested as the probability increases, with each end flagged open exactly when the density there is above the level. After any sequence of evaluating, normalizing and setting values, results equal those of a new object with the same values.''',
     ['inputs', 'histories'], 'every small gridded density over the value alphabet; every operation sequence to the depth', 'tests only look at densities of one Gaussian chain through plots', [GD + 'densities.py'],
     [('Density1D.getLimits/Prob/normalize', GD + 'densities.py'), ('getContourLevels', GD + 'densities.py'), ('Density2D', GD + 'densities.py')],
     'exhaustive enumeration of gridded densities against direct summation, plus explicit-state search over operation histories of one object', 'Complete for the enumerated grids and depths; tolerances stated in the check.')

prop('C23', 'Density estimates respect the symmetries of the samples and hard bounds',
     '''Estimated 1D and 2D marginalised densities (and their mean-likelihood shading, contour levels and view ranges) do not depend on sample order, on rescaling all weights, on other columns or their order, on whether settings
     are given per call or per object, nor, for a fixed smoothing scale, on splitting integer weights into repeated rows; they shift, scale and reflect with the samples and bounds, and two-dimensional ones transpose when the parameters
     are exchanged. The grid ends exactly at hard bounds near the samples, beyond the samples elsewhere. For a fixed smoothing scale they equal the direct weighted kernel sums with the documented boundary (order -1 to 2) and
     multiplicative bias corrections up to binning errors; with automatic smoothing they reproduce the distribution sampled.''',
     ['inputs', 'configurations'], 'every combination of sample shape, bounds, smoothing and correction settings and transformation', 'one (failing) test checks a few symmetries',
     [GD + 'mcsamples.py', GD + 'kde_bandwidth.py', GD + 'convolve.py'], [('get1DDensity/get2DDensity', GD + 'mcsamples.py')],
     'exhaustive enumeration of settings and transformations on the real code, metamorphic and direct-sum oracles', 'Complete for the settings grid over fixed sample sets.')

prop('C24', 'Fast convolutions and correlations equal direct sums for all sizes and modes',
     '''convolve1D, convolve2D, convolveFFT and convolveFFTn equal direct summation for every pair of input sizes (second no larger than the first, except in full mode), mode (same, full, valid), padding size
     and use of precomputed or cached transforms, including repeated calls and any sequence of calls sharing one cache (arrays alive and unmodified); autoConvolve and autoCorrelation equal their defining sums
     for every length and number of terms; the Gaussian smoothing routines equal direct Gaussian sums (zero padded, truncated, or reflected from the ends) with or without a cache; dct2d/idct2d equal the cosine sums; transform sizes are never
     smaller than asked for. No routine changes its arguments.''',
     ['inputs', 'histories'], 'every size pair, mode and call sequence sharing a cache up to the bound', 'tests convolve only inside density estimates of one size',
     [GD + 'convolve.py'], [('convolve1D/convolve2D/convolveFFT/convolveFFTn', GD + 'convolve.py'), ('autoConvolve/autoCorrelation', GD + 'convolve.py'), ('convolveGaussian*', GD + 'convolve.py')],
     'exhaustive enumeration of sizes, modes and cache histories against direct summation', 'Complete within the size bound.')

prop('C25', 'Gaussian mixtures: marginals, conditionals, moments and samples agree',
     '''For any Gaussian mixture (any constructor form, weights, hard limits): pdf is the weighted sum of its normalised components; marginalizing onto any ordered subset of parameters, in one step or
     several, gives the marginal density with its names, labels and limits, and refuses to marginalize a limited parameter unless told to; conditioning on any parameters, in one step or
     several, gives the normalised slice and commutes with marginalizing; total_mean and total_cov are those of the whole mixture; density1D/density2D grids hold the marginal pdf and end at the hard limits;
     getLower/getUpper return the limits; sim returns exactly the requested number of samples, inside the limits and reproducible for a seed, and MCSamples carries names, ranges and -log pdf of them. None of these changes the mixture.''',
     ['inputs'], 'every small mixture, every parameter subset and order, every assignment of limits', 'tests use one 2D mixture for plotting', [GD + 'gaussian_mixtures.py'],
     [('MixtureND', GD + 'gaussian_mixtures.py'), ('conditionalMixture', GD + 'gaussian_mixtures.py'), ('marginalizedMixture', GD + 'gaussian_mixtures.py')],
     'exhaustive enumeration of mixtures, parameter subsets and limits against the defining sums', 'Complete for the enumerated mixtures.')

prop('C26', 'A plotter, analyser or sample object gives the answers of a fresh one',
     '''What is obtained from a plotter, sample analyser or MCSamples object after any history of earlier requests is what a fresh one gives. Plots: the figure drawn by any plot call after any other plots (normalised or not, shaded,
     filled, with mean likelihoods, with temporary settings, argument lists and dictionaries used for several plots) has the same lines, contours, labels and legend as on a new plotter, and no plot changes its arguments, the settings, the
     samples or their labels. Analysers: after any requests, reloads, removals, resets, new settings and changed files every density, parameter list, bound and sample set is that of a fresh analyser of the current files and settings.
     Samples: queries (densities, limits, likelihood and convergence statistics, tables, covariances, PCA) in any order neither affect each other nor survive, stale, a change of settings, ranges, weights, rows or parameters.''',
     ['histories'], 'every sequence of requests up to the bound', 'tests make each plot once', [GD + 'plots.py', GD + 'mcsamples.py'],
     [('MCSampleAnalysis caches', GD + 'plots.py'), ('GetDistPlotter add_1d/_get_plot_args/_make_line_args', GD + 'plots.py'), ('updateSettings/updateBaseStatistics', GD + 'mcsamples.py')],
     'explicit-state BFS and exhaustive enumeration of request histories with fresh-object differential', 'Complete to the stated depth.')

prop('C27', 'Reading Cobaya run metadata gives its definitions and never alters them',
     '''Reading a Cobaya run description (dictionary or YAML file) gives, for every way a parameter can be specified (sampled with [min, max], limits or any distribution; derived; dynamical; fixed; short or
     dictionary form) and after post-processing additions and removals: its class (sampled, derived, fixed), range (None where unbounded), label, aliases and the derived prior and chi2 parameters; the sampler
     type, sample label and whether burn-in was already removed (in which case loading the chain removes no more); samples made from collections or loaded from files carry exactly these. YAML numbers such as 1e-10 are numbers. Reading, in any sequence
     and by any function, and changing what was returned, leaves the description unchanged, so reading again gives the same answer.''',
     ['inputs', 'histories'], 'every parameter specification form, post-processing combination and reading sequence', 'the cobaya test needs chains that are not in the repository',
     [GD + 'cobaya_interface.py', GD + 'yaml_tools.py', GD + 'paramnames.py', GD + 'parampriors.py'], [('get_info_params/get_range/MCSamplesFromCobaya', GD + 'cobaya_interface.py'), ('get_burn_removed', GD + 'cobaya_interface.py')],
     'exhaustive enumeration of specification forms and of reading histories against hand-written definitions', 'Complete for the specification alphabet.')

prop('C28', 'The command-line analysis writes the numbers the library computes',
     '''Running the command-line analysis on a chain root, however the root is given (argument, .txt, settings file, pattern, default or template settings), uses exactly the rows selected: chains first..last without those excluded, burn-in removed exactly once,
     as a fraction or a number of rows, with the command line overriding the settings file, chain properties overriding both, and none removed again if it already was; optionally cooled. It writes the files requested and no others, leaving its inputs
     unchanged; covariance, correlation, means and deviations are those of these rows, and limits, likelihood statistics, convergence tests, PCA and thinned rows are those the library gives for them with the same settings. Each plot script written plots the requested
     parameters of these chains, whatever the name of the output.''',
     ['configurations'], 'every combination of the analysis settings in the alphabet', 'no test runs the command line', [GD + 'command_line.py', GD + 'mcsamples.py', GD + 'chains.py'],
     [('getdist_script', GD + 'command_line.py'), ('_writeScriptPlots*', GD + 'mcsamples.py')], 'exhaustive enumeration of settings, differential against the library and numpy', 'Complete for the settings alphabet.')

prop('C29', 'Convergence tests, likelihood summaries and PCA follow their definitions',
     '''For any weighted chains: between- over within-chain variances (each parameter, and the eigenvalues after orthonormalising), split tests, Raftery-Lewis and effective-sample numbers in the convergence report are those obtained from their definitions on the rows used;
     correlation lengths sum the correlations out to where they fall below the cut, over all chains; the best-fit row, mean and complementary mean likelihoods, and the ND parameter limits are those of the likelihood-ordered rows
     holding the requested confidence; the principal-component report lists components ordered by eigenvalue whose exponents reproduce the constrained combination, its mean and its deviation, relative to the normalising parameter asked for.''',
     ['inputs'], 'every chain of the alphabet: rows, weights, splits into chains, settings', 'tests look at one converged chain and check hardly any of the numbers', [GD + 'mcsamples.py', GD + 'chains.py'],
     [('getConvergeTests', GD + 'mcsamples.py'), ('getLikeStats/PCA', GD + 'mcsamples.py'), ('getCorrelationLength/getGelmanRubin*/getEffectiveSamples', GD + 'chains.py')],
     'exhaustive enumeration of small chain sets against independent direct evaluation', 'Complete for the chain alphabet.')

prop('C30', 'Each subplot of a figure shows exactly what was requested, where requested',
     '''For any samples (with parameters in different order, missing, or under other names), parameter lists, layouts and styles: each subplot of plots_1d, plots_2d, triangle_plot (also with an upper triangle), rectangle_plot and scatter plots
     shows, in the order of the roots, the 1D densities, the 2D contours at the requested confidence levels (as lines, filled or over shading) or the samples (coloured by the third parameter, with opacity by weight if asked) of exactly the parameters that belong there, and of every root that has them;
     axis labels name them, axis ranges are those given, or cover all densities within the prior, and are shared along rows and columns; colours, widths, markers, titles and texts go to the line or subplot they were given for; the legend
     lists the labels in the requested order, each with the colour its root is drawn in; and axes are found again by their parameters.''',
     ['configurations'], 'every combination of roots, parameters, layouts and styles in the alphabet', 'tests make some figures and look at none of them', [GD + 'plots.py'],
     [('plots_1d/plots_2d/triangle_plot/rectangle_plot/plot_3d', GD + 'plots.py'), ('add_1d/add_2d_contours/add_legend', GD + 'plots.py')],
     'exhaustive enumeration of figures, every artist compared with independently computed densities', 'Complete for the alphabet of figures.')

prop('C31', 'Job scripts hold each setting from its highest-precedence source',
     '''For any submission (function or runMPI command): each setting (nodes, chains and cores per node, memory, wall time, program, queue, class, submit and delete commands, template) is taken from the argument if given, else from the job template, else from
     the environment, else the default; the number of MPI processes, threads, slots and tasks follow from them for the number of runs in the job and never exceed the cores, and layouts whose chains would not have equal cores are refused without writing anything. The script is the template
     with every tag replaced (and nothing else changed), with exactly one run command per parameter file, in order, in the background unless sequential, using the template's own run command if it has one; it is submitted once with the submit
     command, and the files written and the job index hold the same job, chain names and settings. Only the .ini extension is removed from parameter file names.''',
     ['configurations', 'inputs'], 'every combination of setting sources, layouts, file names and templates of the alphabet', 'no test submits a job', [PG + 'jobqueue.py', 'python/runMPI.py', 'job_script'],
     [('jobSettings/getDefaulted', PG + 'jobqueue.py'), ('submitJob/replacePlaceholders', PG + 'jobqueue.py')],
     'exhaustive enumeration of setting sources and layouts against a single-pass template expansion, with a stand-in queue', 'Complete for the alphabet.')

prop('C32', 'CMB band-power likelihoods equal their definition for the dataset as given',
     '''For any .dataset (fields or named maps, any selection of fields, maps, extra required maps and bins, columns in any order, either name of a spectrum, order given or in the header, any list of spectra in the covariance): chi-squared and binned theory are
     those of exactly the selected band powers, for the Gaussian, Hamimeche-Lewis and unbinned exact likelihoods, with noise accounted for once whether or not the data or fiducial include it, scaled covariance, calibration and its prior, aberration and linear corrections.
     Evaluating one theory never affects another and leaves the spectra unchanged. Spectra read from files are those of their columns (missing ones absent, symmetric in the fields). A forecast dataset has exactly zero chi-squared at its fiducial model and the exact likelihood with
     the requested noise, beam, sky fraction, fields and multipoles elsewhere.''',
     ['inputs', 'configurations'], 'every selection and combination of dataset options in the alphabet, each evaluated for a sequence of theories', 'no test reads a dataset', ['python/CMBlikes.py', 'python/makePerfectForecastDataset.py'],
     [('DatasetLikelihood.readIni/chi_squared', 'python/CMBlikes.py'), ('ClsArray', 'python/CMBlikes.py'), ('make_forecast_cmb_dataset', 'python/makePerfectForecastDataset.py')],
     'exhaustive enumeration of datasets written by the harness, chi-squared compared with the defining formula', 'Complete for the alphabet; small matrices.')

prop('C33', 'The supernova likelihood equals its definition in any order of evaluation',
     '''For any dataset (any selection of covariance matrices, column order and spelling, matrix file format, blank lines, host-mass split, peculiar velocity), the supernova likelihood equals minus the log of the Gaussian likelihood with the covariance for the given stretch and
     colour coefficients, with the magnitude offset (or the two offsets of the host-mass groups, if both occur) integrated out; marginalised, it is the sum over the requested grid of coefficients, with or without precomputed matrices.
     The result depends only on the distances and coefficients given, not on earlier evaluations, and arguments and default options are left unchanged.''',
     ['inputs', 'histories'], 'every dataset option combination in the alphabet and every sequence of evaluations up to the depth', 'no test evaluates it', ['python/planck/SN.py'],
     [('SN_likelihood.inverse_covariance_matrix', 'python/planck/SN.py'), ('SN_likelihood.loglike', 'python/planck/SN.py')],
     'exhaustive enumeration of datasets and evaluation sequences, compared with the defining integral in closed form', 'Complete for the alphabet and depth.')

prop('C34', 'Grid tables and reports show exactly the selected runs and their own numbers',
     '''For any grid, selection of runs, missing result files and options: the tables made for a grid have a section for each model and, in it, each selected run once, with that run's own table (limits, labels, parameters and number of columns as asked), best-fit and mean chi-squared
     and convergence, and differences from the reference run asked for (the same data in another model, another data combination, the run without or with replaced data) and only if that run exists; nothing else in the grid changes; tables for all limits, in any output directory, are all written.
     One-parameter comparisons and latex snippets hold each run's own value under its own name and label. The job report lists exactly the queued or running jobs of the selected runs, each with the convergence of its own chain. Best-fit extraction gives each parameter its own value.
     Adding grids to a grid gives the union of the runs, without the importance-sampled runs that are available as full runs.''',
     ['configurations', 'inputs'], 'every combination of options, missing files, queue states and output locations in the alphabet', 'no test runs these scripts',
     ['python/makeTables.py', 'python/makeLatex.py', 'python/makeParamCompare.py', 'python/runningJobs.py', 'python/extractBestFitParams.py', 'python/extractBestFitCAMB.py', 'python/chainPeek.py', 'python/addGridBatch.py'],
     [('paramResultTable', 'python/makeTables.py'), ('queue_job_details', PG + 'jobqueue.py'), ('jobItem.loadJobItemResults', PG + 'batchjob.py')],
     'exhaustive enumeration of options and missing files on grids written by the harness, every written line compared', 'Complete for the alphabet.')

prop('C35', 'The plot script makes each figure of exactly the selected runs of a grid',
     '''For any grid, selection of runs, missing chains and options, makePlots makes, for each model in turn, exactly the figures asked for: of each selected run, of all its data combinations, of the data combinations listed (in that order, however their names are ordered), of each run
     against those with data replaced or removed, against its importance-sampled runs, or against the same data in other models; only of runs whose chains exist, and only complete comparisons if asked. Each figure is of the kind, parameters, labels, columns, filling and size
     requested, and is written once per output type to its own file in the output directory, named after the run or model, the comparison and all tags.''',
     ['configurations'], 'every combination of comparison mode, figure kind, selection and missing chains, and every pair of further options', 'no test runs the script',
     ['python/makePlots.py', PG + 'batchjob_args.py', PG + 'batchjob.py'],
     [('makePlots', 'python/makePlots.py'), ('sortedParamtagDict/filterForDataCompare', PG + 'batchjob_args.py'), ('normed_name_item/tagReplacing', PG + 'batchjob.py')],
     'exhaustive enumeration of options, the sequence of figures requested from the plotter compared with a plain statement of the options', 'Complete for the alphabet.')

prop('C36', 'The CamSpec likelihood equals its definition for any spectra, ranges and cache',
     '''For any CamSpec dataset, selection of spectra and of multipoles (one range, lists with gaps and single multipoles, or one for each spectrum, in the dataset or as overrides, which are not changed), spectra without data and nuisance parameters, chi-squared is that of the
     difference between the selected band powers and calibrated theory plus foregrounds under the covariance of exactly those points, whether the inverse covariance is computed or cached, after any changes to the data files, and in any order of evaluation.
     The co-added temperature spectrum (for given or computed foregrounds and calibrations, or other data) is the minimum-variance combination with its covariance, the weights are its response to each spectrum, and the difference of two spectra and its covariance are those of the calibrated residuals.''',
     ['inputs', 'histories'], 'every selection of spectra with every kind of range, single and pairs of nuisance parameters, and sequences of loads and file changes up to the depth', 'no test loads it', ['python/planck/CMB_CamSpec.py'],
     [('CamSpec_likelihood.__init__', 'python/planck/CMB_CamSpec.py'), ('CamSpec_likelihood.chi_squared', 'python/planck/CMB_CamSpec.py'), ('CamSpec_likelihood.coadded_TT', 'python/planck/CMB_CamSpec.py'), ('CamSpec_likelihood.diff', 'python/planck/CMB_CamSpec.py')],
     'exhaustive enumeration of selections, parameters and load histories on datasets written by the harness, compared with a point-by-point evaluation of the definition', 'Complete for the alphabet and depth.')

prop('C37', 'The DES likelihood equals its definition for any data selection and nuisances',
     '''For any DES dataset (types in any order, any subset of types used, angular cuts for any bins, rows in any order, bins without data, in the dataset or as overrides, which are not changed) the data vector, covariance and angles are exactly those of the measurements of used types strictly
     inside their cuts; the theory is the sum over multipoles of the Limber spectra of the two windows - lensing efficiencies with intrinsic alignments unless switched off, galaxy densities with bias, shifted redshift distributions, shear calibrations, from the matter or lensing-potential power -
     for every bin pair used, from the parameters of the given names; and chi-squared is that of the difference under that covariance, in any order of evaluation.''',
     ['inputs', 'histories'], 'every ordered set of data types with cuts and row orders, every single and pair of nuisance parameters in six configurations, every sequence of parameter points up to the depth', 'no test loads it', ['python/planck/DES.py'],
     [('DES_like.load_dataset', 'python/planck/DES.py'), ('DES_like.get_theory', 'python/planck/DES.py'), ('DES_like.get_theory_for_params', 'python/planck/DES.py'), ('DES_like.chi_squared', 'python/planck/DES.py')],
     'exhaustive enumeration of datasets, parameters and evaluation orders on datasets written by the harness, compared with a direct evaluation of the definition', 'Complete for the alphabet and depth.')

prop('C38', 'Adding plik foregrounds to chains keeps every sample, even if killed and rerun',
     '''For any chains (any order of sampled, fixed and derived parameters, with or without chi-squared parameters, fixed values from the ranges or the best fit), adding the foreground parameters at l=2000 leaves every number of every row as it was, puts the three values computed from that row
     in the columns their names have in the parameter names file, adds them with consistent numbering to the best-fit file, and with a tag leaves the originals. Killed at any point or failing on any write, no file is lost, and running again gives the result of an uninterrupted run;
     running once more changes nothing. The foreground spectra are the sum of all components in any order. The script for grids does this exactly for the selected plik chains, once.''',
     ['crash points', 'histories', 'inputs'], 'every crash point and failing operation of the run on several layouts and of the grid script, every layout, every order of components', 'no test runs it', ['python/planck/plik_postprocess.py', 'python/planck/plikParams.py'],
     [('main_fg2000', 'python/planck/plik_postprocess.py'), ('main_fgfile', 'python/planck/plik_postprocess.py'), ('plikParams', 'python/planck/plikParams.py')],
     'exhaustive enumeration of crash points and failing operations of the real run with recovery by a second run, and of layouts, compared with a direct evaluation', 'Complete for the alphabet; torn writes at every 16th byte in the quick tier.')
prop('C39', 'Axis ticks are inside the axis, evenly spaced and labelled with their values',
     '''For any axis (horizontal or vertical, any length, font size, label rotation, pruning or maximum number of ticks) and any range from wide to very narrow around any value, the plotter's ticks are at least one, at most the maximum, evenly spaced, within the range, and leave no gap
     at the ends much longer than their spacing; the labels as drawn are distinct, give the values of the ticks, do not overlap each other, nor the ends of the axis if pruned. The ticks depend only on the current axis and range, not on what was plotted before. Labels in full scientific notation give the value.''',
     ['inputs', 'histories'], 'every combination of a grid of ranges over seven decades and axis settings, every history of views of one axis up to length three, labels in every decade', 'no test looks at ticks', ['python/getdist/matplotlib_ext.py'],
     [('BoundedMaxNLocator', 'python/getdist/matplotlib_ext.py'), ('SciFuncFormatter', 'python/getdist/matplotlib_ext.py')],
     'exhaustive enumeration of axes, ranges and histories of views on the real locator and formatter, compared with measured text and a fresh axis', 'Complete for the alphabet of sizes, ranges and settings.')
prop('C40', 'The plik likelihood in Python is the one defined by its data, for any layout',
     '''For any likelihood file (temperature and polarization channels, spectra, bins, selection and order of the data, foreground components, order of nuisance parameters) the binned theory, foregrounds, calibration, model and chi-squared are those of the definition, and the vector passed to clik
     has each C_l from l=0 in clik order and then each nuisance parameter under its own name. The co-added spectra are the minimum-variance combination given the foregrounds, with its inverse covariance: exactly the spectra of noiseless data, whichever bins and channels are missing; co-added TT is at its multipoles.
     Results depend only on the arguments, not on earlier calls. The names file matches every version of the likelihood.''',
     ['inputs', 'histories'], 'every combination of channels, spectra, binning, selection, components and order of names; every history of calls', 'no test uses it', ['python/planck/CMB_plik.py'],
     [('plik_likelihood', 'python/planck/CMB_plik.py'), ('coadd_spectra', 'python/planck/CMB_plik.py'), ('get_clik_vector', 'python/planck/CMB_plik.py')],
     'exhaustive enumeration of layouts and call histories on the real class over a stand-in for clik, compared with a direct evaluation', 'Complete for the alphabet of layouts.')
prop('C41', 'Planck-style plotters find the right runs and do not affect each other',
     '''For any order of the model and data tags, the Planck-style plotter gives the one run of the grid with exactly those tags, or an error if there is none: its samples, best-fit parameters, best-fit spectra and results, also by name. Every plotter has the settings it has when made first, whatever plotters were made before
     or after; figures are saved under the name, tag and directory asked for. Tables in Planck style have the same cells as plain ones, and as many columns as their preamble.''',
     ['inputs', 'histories'], 'every order of every set of tags on a grid; every history of plotter constructors; every table shape and output name', 'no test imports it', ['python/planckStyle.py'],
     [('planckPlotter', 'python/planckStyle.py'), ('getSubplotPlotter', 'python/planckStyle.py'), ('planckStyleTableFormatter', 'python/planckStyle.py')],
     'exhaustive enumeration of tags, constructor histories, tables and names on the real module, compared with a list of runs, first-made settings and parsed tables', 'Complete for the alphabet.')
