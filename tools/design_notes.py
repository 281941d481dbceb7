# per property: (oracle, bound and cost in words, corrections made to the check)
N = {
'C01': ('a from-scratch resolver of the DEFAULT/INCLUDE graph written as a dictionary merge in the check, and Python literals for typed reads', '', 'a key supplied by a DEFAULT nested in an earlier INCLUDE and then defined by a later INCLUDE is left unjudged: the code is order dependent there and nothing documents either answer'),
'C02': ('a dictionary of settings and of the files on disk, advanced by each event', '', ''),
'C03': ('a table of submitted jobs kept by the check; stand-in qsub/qstat/qdel commands (mc/fakequeue.py) record what they were asked', '', ''),
'C04': ('the index before or after the update: nothing else may be read back after any crash, and the next update must work', 'every modifying system call of the real update is a crash point, each write is torn at every byte (LD_PRELOAD shim mc/shim/fault.c)', ''),
'C05': ('the same load made without any cache', '', ''),
'C06': ('plain lists of rows, with every statistic recomputed by numpy from them', '', 'relative tolerance 1e-9; histories that leave fewer than three rows are not judged'),
'C07': ('one list of rows per chain', '', 'the correlation-length reference followed the definition only for correlations that fall below the cut; corrected when C29 showed the code to be wrong in the other case'),
'C08': ('the object that was saved, attribute by attribute; the set of files that exist', '', ''),
'C09': ('the definition of a quantile of a weighted step function, evaluated with fractions', '', ''),
'C10': ('expansion of every row into weight-many unit rows', '', ''),
'C11': ('a table of which roots each directory content contains', 'three listing orders per tree stand for os.listdir nondeterminism', ''),
'C12': ('ordered lists of (name, aliases, label, derived)', '', ''),
'C13': ('a dictionary of optional lower and upper sides', '', ''),
'C14': ('dictionaries of (name, name) -> covariance', '', ''),
'C15': ('decimal.Decimal rounding', '', ''),
'C16': ('the object the file was written from', '', ''),
'C17': ('an independent expansion of the grid definition (groups x parameters x data, importance runs, filters)', '', ''),
'C18': ('set filters over the items, with fnmatch', '', ''),
'C19': ('a snapshot of the scratch tree and of the stand-in queue before, and the list of files the command names', 'destructive commands only ever run in scratch trees; queue commands are stand-ins', ''),
'C20': ('the settings read back from the written ini files with an independent reader, against a precedence table', '', ''),
'C21': ('a table of chains present, running and queued, and the number of submissions of each job', '', ''),
'C22': ('spline and polynomial forms evaluated directly; contour levels by definition (mass above the level)', '', 'levels on plateaus are any value in the plateau; coarse accuracy factors get the tolerance of their grid spacing'),
'C23': ('the density of the transformed samples', '', 'fixed pseudo-random samples, chosen so that no quantile falls on a tie'),
'C24': ('direct sums', '', 'tolerance relative to the input, not the output, which may cancel to zero'),
'C25': ('the defining sums of Gaussians, and scipy multivariate normal values', '', ''),
'C26': ('a fresh plotter / analyser / sample object asked the last question only', '', 'unseeded random draws are made repeatable; the summary text depends on earlier convergence tests by design'),
'C27': ('hand-written expected definitions for every specification form', '', 'a heading line counts as an ignored row; aliases are not usable as mc[...]'),
'C28': ('numpy on the rows that should be used, and the library for derived summaries', '', 'thinning is refused after cooling (documented); numbers of an (almost) degenerate PCA are compared with relative tolerance'),
'C29': ('direct evaluation of the definitions, including an independent Raftery-Lewis test', '', 'quantile ties and overflowing exponents are left out'),
'C30': ('densities from a separate sample object; contours traced by matplotlib from them at the defined levels', '', 'the number of scatter points is random by design and only bounded'),
'C31': ('a single-pass substitution of the template with values computed from the layout, and the log of a stand-in queue', '', ''),
'C32': ('the definition of each approximation evaluated from the numbers the harness wrote to the files: chi-squared with the inverse of the selected covariance, the HL transform through symmetric matrix roots, the exact Wishart form by multipole', '4 fields or 4 maps, 3 bins, multipoles 3-9', ''),
'C33': ('r^T(C^-1 - C^-1 A (A^T C^-1 A)^-1 A^T C^-1)r + log det(A^T C^-1 A / 2 pi), for groups A', '4 supernovae, sequences of 3 evaluations (thorough: 4)', ''),
'C34': ('a plain statement of which runs belong in which section, line or column, with the rows of each table from the library (C16) and all numbers from the files the harness wrote', '2 models x 3 data combinations, 2 of them importance sampled; options alone and in pairs; 5 jobs in 3 states', ''),
'C35': ('a plain statement of the runs, in order, in each figure and the name of its file; the plotting methods of the real plotter are wrapped to record their bound arguments', '3 models x 4 data combinations, 2 of them importance sampled; options alone and in pairs', ''),
'C36': ('Delta^T C^-1 Delta with C the rows of the points used, foregrounds by the formula for each multipole, generalised least squares for the co-added spectrum', 'six spectra of 4 to 8 multipoles, sequences of 4 loads and file changes (thorough: 5)', 'co-addition with polarisation in the selection, and differences of ranges with gaps, are not claimed'),
'C37': ('measurements inside their cuts, and a sum of l C_l J_n(l theta) / 2 pi over every multipole with C_l by the Limber sum at each multipole and separately written windows', '4 source and 5 lens bins, 4 angles, 19 redshifts, lmax 1000 (the code interpolates C_l: agreement to 0.2%), sequences of 3 evaluations (thorough: 4)', 'CAMB is a stand-in; the FITS reader and the Hankel transform need packages that are not installed'),
'C38': ('each row with three values inserted, from the stand-in components evaluated on that row', 'four layouts with up to 3 chains killed at every operation and torn write; seven layouts otherwise; grids of 1 to 3 jobs', 'clik is a stand-in; a kill while the grid script writes its properties file is only tried before and after the write'),
'C39': ('the extent of the text as matplotlib draws it, the value parsed back from each label, a fresh axis', '4 lengths, 2 fonts, 2 rotations, 7 decades of width around 10 centres and 3 positions of the centre; histories of 3 views', 'labels in full scientific notation may overlap; only the default font'),
'C40': ('element-by-element sums over channels, bins and multipoles; normal equations of the elements used', '9 sets of channels, 5 binnings, 4 selections, 5 component lists, 3 orders of names (40 in the thorough tier); histories of 3 calls (5)', 'clik and its file reader are stand-ins; theory without TB and EB'),
'C41': ('the list of runs of the grid with the numbers written for each; settings of plotters made in a fresh module; cells of the plain formatter', 'sets of up to 2 model and 3 data tags; histories of 3 constructors of 9 (4 in the thorough tier); up to 6 parameters, 4 results, 3 columns', 'getLikelihood is not exercised (needs the Planck data files); LaTeX is not run'),
}
