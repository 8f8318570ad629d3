#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, check=None, level='model_checking', technique='',
         note='', na=None, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()), over=over, qtext=' '.join(qtext.split()),
                  why=' '.join(why.split()), files=files, mech=mech, check=check, level=level, technique=technique,
                  note=' '.join(note.split()), na=na, observe=list(observe)))


prop('C01', 'Concurrent ingestion neither loses, duplicates nor mislabels galaxies',
     '''When several processes append galaxies to one pixelized galaxy catalog in parallel mode, every galaxy of an
     append that returned is stored exactly once, unaltered, in the file of its pixel, whatever the interleaving and even
     if another process dies at any point; no process fails unless another died holding a pixel.  When all then finalize
     concurrently, exactly one consistent summary table results (pixels, file names and counts equal to the files, ids
     unique, or freshly generated 1..N when requested), it never becomes visible before the catalog it describes is
     complete, and no lock or temporary file remains.  If ids collide, at least one process is told and no summary
     appears.''',
     ['schedules', 'crash_points'],
     '''all interleavings of 2-3 ingesting processes at file-system-operation granularity up to a preemption bound, and a
     death of one of them at any operation''',
     'tests ingest serially or with sequential "parallel" makers in one process; no interleaving or crash is exercised',
     ['redmapper/galaxy.py', 'redmapper/utilities.py'],
     [{'name': 'per-pixel lock files around append, one finalizer under a lock', 'where': 'GalaxyCatalogMaker.append_galaxies/finalize_catalog, make_lockfile'}],
     check='c01', technique='stateless model checking of the real code: controlled scheduler over real processes, preemption- and crash-bounded exhaustive exploration',
     note='''Exhaustive over all schedules of the listed 2-3 process scenarios within 2 preemptions (3 thorough) and 1 crash;
     trusts that one file-system call is atomic; finalization starts after all appends (barrier).''')

prop('C02', 'Ingestion stores exactly the accepted galaxies, each in its pixel file',
     '''For every sequence of operations on a galaxy-catalog maker (append, split, finalize, re-open, in serial or
     parallel mode, with or without mask, generated ids, truth and zspec columns), the pixel files hold exactly the rows
     of the accepted batches that lie inside the mask, unaltered, each in the file of its own sky pixel; finalizing
     yields a summary whose pixels, centers, file names, counts, flags and survey parameters match, with unique ids
     (1..N when generated).  A batch with a missing or mistyped column, wrong band count, non-finite value, magnitude or
     error out of range, position off the sky or repeated ids is refused without changing any file and leaves the maker
     usable; nothing can be appended once a summary exists, and no summary is written for an empty catalog or colliding
     ids.''',
     ['histories', 'inputs'],
     'all operation sequences up to depth 4 over 12 operations (5 thorough), and every column x illegal/boundary value x row',
     'tests ingest one fixed catalog along two or three fixed paths and try a few illegal values in the first row',
     ['redmapper/galaxy.py', 'redmapper/mask.py'],
     [{'name': 'input validation before any write; per-pixel files; finalization', 'where': 'GalaxyCatalogMaker'}],
     check='c02', technique='exhaustive enumeration of operation sequences on the real maker against a reference model',
     note='Exhaustive over the stated sequences and value lattice; trusts fitsio reading the result back.')

prop('C03', 'Reading a sub-region returns exactly the galaxies of that region',
     '''Reading a pixelized galaxy catalog restricted to sky pixels (at any nside not finer than the table's) returns
     every galaxy inside the requested pixels exactly once and nothing outside them; with a border it returns every
     galaxy within the border of the pixel and nothing appreciably further away (the rounding of the border mask),
     including across the ra wrap and at the pole, also when the pixel itself is empty.  Every row keeps its own columns,
     and zred (and truth) columns belong to the galaxy of their row, with or without the temporary-file reading mode,
     whose magnitude and chi-squared cuts select exactly the galaxies that satisfy them; galaxies of pixels without zred
     file are left out.  Nothing is left on disk, and impossible requests (pixel out of range, negative border,
     nside finer than the table, missing truth or zspec columns, mismatched lengths) are refused.''',
     ['inputs'],
     'all pixels touched by the catalog at region nside 1-8 x border x zred x reading mode x truth, plus pixel lists and illegal requests',
     'tests read one fixed catalog for one or two pixels',
     ['redmapper/galaxy.py', 'redmapper/utilities.py'],
     [{'name': 'pixel selection with border; row-aligned zred reading; memory-mapped temporary file', 'where': 'GalaxyCatalog.from_galfile, get_subpixel_indices'}],
     check='c03', level='exploration', technique='exhaustive enumeration of read requests on the real reader against the geometric definition',
     note='Exhaustive over the stated lattice on one catalog of about 800 galaxies; border membership is not decided within 0.35 degrees outside the limit.')

prop('C04', 'Distributed zred tasks publish a complete zred table exactly when all are done',
     '''When photometric redshifts are computed by one task per sky pixel, coordinated only through files, then under every
     interleaving each task writes the zreds of exactly its own galaxies, row-aligned with the galaxy files and equal to
     those of a serial run; the zred summary table appears once every pixel is done (never while a file it lists is
     missing or incomplete) and lists every pixel, its file and count; no lock remains and no task fails.  If a task dies
     at any point, the others are unaffected, and running it again after clearing stale locks completes the same
     result.''',
     ['schedules', 'crash_points'],
     'all interleavings of 1-3 zred tasks and an observer at file-operation granularity up to a preemption bound, and a death at any operation',
     'tests run one task in one process',
     ['redmapper/pipeline/zredtask.py', 'redmapper/zred_runner.py', 'redmapper/galaxy.py'],
     [{'name': 'completion test by existing files under a lock', 'where': 'RunZredPixelTask.run, ZredRunPixels'}],
     check='c04', technique='stateless model checking of the real tasks: controlled scheduler over real processes, preemption- and crash-bounded exhaustive exploration',
     note='Exhaustive over all schedules of the listed scenarios within 1-2 preemptions (2-3 thorough) and 1 crash; trusts atomic file-system calls.')

prop('C05', 'The lock file gives mutual exclusion, bounded waiting and no strays',
     '''At most one process at a time obtains a given lock file; a call succeeds only by creating the lock, returns False
     without side effects when somebody else holds it (immediately if non-blocking, after the requested number of tries
     and waits if blocking), and a blocking call gets the lock once the holder releases it.  An existing lock, also that of
     a dead process, is never removed, overwritten or bypassed, and no temporary file is left behind.''',
     ['schedules', 'crash_points', 'histories'],
     'all interleavings of 2-3 processes with up to 2 acquisitions each within a preemption bound, a holder dying at any point, and all sequences of 4 lock operations in 4 path forms',
     'tests never contend for a lock',
     ['redmapper/utilities.py'],
     [{'name': 'atomic creation by hard link of a private temporary file', 'where': 'make_lockfile'}],
     check='c05', technique='stateless model checking of the real code: controlled scheduler over real processes, plus exhaustive operation sequences',
     note='Exhaustive within 2-3 preemptions (3-4 thorough) and 1 crash; trusts atomic link/unlink of the file system.')

prop('C06', 'zreds follow the red-sequence likelihood, however the work is divided',
     '''The zred of a galaxy is the peak of the red-sequence likelihood times the luminosity-function and volume weights
     (its error the width of that distribution, at least 0.005; its chi-squared that of the nearest model redshift), plus
     the calibrated corrections evaluated for that galaxy's redshift and magnitude; a galaxy lying on the red sequence gets
     its redshift back, and one outside the magnitude range of the model gets the bad value in every field.  The result of a
     galaxy depends on that galaxy alone: not on the batch, its order or size, other (also bad) galaxies, the number of
     processes, galaxies per process, completion order, or whether files or pixels are processed; results stay aligned
     with the input rows, inputs are unchanged, and the zred table of a partial run lists only the pixels that were run.''',
     ['inputs', 'schedules'],
     'all ordered subsets of 5 galaxies (6 thorough) as batches; all divisions of catalogs of 1-7 galaxies by processes x size x completion order; about 150 galaxies x 2 parameter sets against the definition',
     'tests compare stored values of one galaxy or one file with one division',
     ['redmapper/zred_color.py', 'redmapper/zred_runner.py'],
     [{'name': 'likelihood on the redshift grid, parabolic peak, bulk corrections; index ranges per worker', 'where': 'ZredColor, ZredRunCatalog, ZredRunPixels'}],
     check='c06', level='exploration', technique='exhaustive enumeration of batches, orders and work divisions on the real code against an independent reference',
     note='Exhaustive over the stated divisions and subsets; the redshift definition is checked on a fixed set of galaxies; random samples of p(z) are only checked for range.')

prop('C09', 'Percolation shares galaxies between clusters strictly by rank',
     '''Percolation processes exactly the eligible candidates (redshift range, finite likelihood, input richness above the
     minimum, central bright enough) in descending likelihood and labels them by rank (with keepid: in the order of, and
     with, the caller's ids).  Each surviving cluster sees every galaxy with the probability left over, between 0 and 1,
     after subtracting what the clusters ranked above it claimed within their masking radius and luminosity limit;
     its richness is the sum of the resulting membership probabilities (times the mask scale), it is not centered on and
     does not start from a galaxy with too little left, and its recorded members are exactly the galaxies with
     appreciable probability (plus candidate centers), each with its own galaxy's columns.  Lower-ranked, far-away or
     ineligible candidates, the order of the input rows and the reading mode never change a cluster.''',
     ['histories', 'inputs'],
     'all ordered lists of up to 3 of 7 candidates (10 thorough), stacks of overlapping candidates, 20 option settings x 15 lists, eligibility boundaries, row permutations, id assignments',
     'the percolation test (not among the reliable ones) compares one run with stored numbers',
     ['redmapper/run_percolation.py', 'redmapper/cluster_runner.py', 'redmapper/cluster.py'],
     [{'name': 'pgal accumulation per galaxy, pfree of the next cluster', 'where': 'ClusterRunner.run, RunPercolation'}],
     check='c09', technique='exhaustive enumeration of candidate rankings and options on the real stage against a sequential reference of the sharing rule',
     note='Exhaustive over the stated rankings on one square degree of galaxies; recomputed probabilities agree to 0.004; random mask correction frozen.')

prop('C10', 'Richness is the fixed point of its membership probabilities',
     '''For every set of neighbors, background, weights, radius law and mask correction, the richness returned is a solution
     of lambda = sum of membership probabilities inside r_lambda(lambda) + masked part, within the solver tolerance, with
     r_lambda = r0 (lambda/100)^beta, or -1 when there is none; each probability lies in [0, 1], equals its definition
     (NFW, luminosity and chi-squared filters against the background, magnitude and radial cuts), is zero for
     galaxies that were not used, and the probabilities times the scale add up to the richness.  The result does not
     depend on the order of the neighbors, on earlier computations, or on galaxies of zero weight; errors are finite and
     non-negative.''',
     ['inputs', 'histories'],
     'a lattice of about 12000 solver inputs (sizes, filters, weights, radius laws, mask polynomials), and clusters of real galaxies x position x redshift x subset x call order',
     'tests compare one solver call and one cluster with stored numbers',
     ['redmapper/solver_nfw/solver_nfw.c', 'redmapper/solver_nfw/solver_nfw_lib.py', 'redmapper/cluster.py'],
     [{'name': 'bisection on lambda; membership columns of the neighbors', 'where': 'Solver.solve_nfw, Cluster.calc_richness, calc_richness_fit'}],
     check='c10', level='exploration', technique='exhaustive enumeration of a finite lattice of inputs and call histories on the real code against an independent reference',
     note='Exhaustive over the stated lattice; solutions below richness 2 are exempt (the solver smooths its low end).')

prop('C11', 'Chi-squared and likelihood equal their definition in every mode and layout',
     '''For one redshift and many galaxies, many redshifts and one galaxy, or galaxies each at its own redshift, the
     chi-squared (and likelihood, with half the log determinant) equals d^T C^-1 d with d the color residual of the sloped,
     luptitude-corrected red sequence and C the intrinsic covariance plus the tridiagonal photometric covariance plus
     the reference-magnitude error times the slopes, with eigenvalues floored to keep C positive definite, and the bad
     value when an intrinsic width is below the minimum; independent of array memory layout, precision, and of which mode
     computes it, without changing its inputs.  The red-sequence table lookups (redshift, magnitude) use the nearest bin,
     with under- and overflow in the end bins, and inputs of inconsistent size are refused.''',
     ['inputs'],
     'mode x 1-4 colors x 1-3 galaxies or redshifts (4 thorough) x covariance family x options x dtype x layout x outputs, and model entry points on real parameters',
     'tests compare a few stored numbers in one layout per mode',
     ['redmapper/chisq_dist/chisq_dist.c', 'redmapper/chisq_dist/chisq_dist_lib.py', 'redmapper/redsequence.py'],
     [{'name': 'C routine per mode, argument marshalling', 'where': 'compute_chisq, RedSequenceColorPar.calculate_chisq*'}],
     check='c11', level='exploration', technique='exhaustive enumeration of a finite lattice of inputs and configurations on the real code against an independent reference',
     note='Exhaustive over the stated lattice; real-valued inputs are represented by fixed values per family.')

prop('C16', 'The cluster redshift is the self-consistent peak of its members\' likelihood',
     '''For every cluster, starting redshift and neighbor list, z_lambda is a redshift at which the members selected at
     that redshift (richness above the minimum, brighter than the limit, top fraction of the membership weights) have their
     likelihood peak, within the tolerance, or exactly -1 with error -1 when there are too few members; its error is the
     half-width at unit likelihood drop; p(z) is non-negative, normalized to one, proportional to the likelihood times the
     volume, and peaks at z_lambda.  Computing it changes nothing in the cluster but (when asked) the recorded
     redshift, repeats give the same result, and the order of the neighbors or neighbors beyond the search radius do not matter.
     The afterburner correction applies each iteration's offset, richness slope and scatter to the redshift, error and p(z)
     exactly once, and does not change the caller's arrays.''',
     ['inputs', 'histories'],
     'cluster position x starting redshift x neighbor selection x order x mode x option; correction settings x richness x redshift x error x p(z) size; percolation runs with and without correction',
     'tests compare one cluster and one correction with stored numbers',
     ['redmapper/zlambda.py', 'redmapper/cluster_runner.py', 'redmapper/run_percolation.py'],
     [{'name': 'alternating member selection and parabola fit; p(z) binning', 'where': 'Zlambda.calc_zlambda'},
      {'name': 'correction iterations', 'where': 'ZlambdaCorrectionPar.apply_correction'}],
     check='c16', level='exploration', technique='exhaustive enumeration of a finite lattice of inputs and call histories on the real code against an independent reference',
     note='Exhaustive over the stated lattice on one square degree of real galaxies; peak compared to 2.5 tolerances, error to 0.004.')

prop('C12', 'The first pass turns exactly the acceptable seeds into clusters',
     '''For every list of seeds (from a file, in photometric or spectroscopic mode, or all galaxies with a zred), the first
     pass considers exactly the seeds with zred in the inclusive redshift range and chi-squared below the maximum (brighter than the
     luminosity limit at their zred when taken from the galaxies; inside the footprint when cleaning the input), in their order.
     A seed yields a row if and only if its richness, in the configured first-pass radius, is at least the minimum and
     its z_lambda stays in the redshift range in every iteration.  The row keeps the seed's position, magnitudes, zred, error and
     chi-squared, and has the richness, scale, radius, z_lambda and masked fraction computed from that seed's own
     neighborhood, independent of other seeds; its z is z_lambda (the seed's spectroscopic redshift in spectroscopic mode).  With
     keepz the redshift of the computation stays that of the seed.  Without any acceptable seed no catalog is written.''',
     ['inputs', 'histories'],
     'seed lists (all kinds alone, all ordered pairs and triples of five kinds, all together) x options x keepz x mode x cleaning; galaxies of redshift slices x options',
     'the tests of this stage are not among the stable ones, and compare one run with stored numbers',
     ['redmapper/run_firstpass.py', 'redmapper/cluster_runner.py', 'redmapper/cluster.py'],
     [{'name': 'seed selection, iteration of richness and redshift per seed', 'where': 'RunFirstPass._more_setup, _process_cluster, ClusterRunner.run'}],
     check='c12', level='exploration', technique='exhaustive enumeration of a finite lattice of inputs and run modes on the real stage against a recomputation from brute-force neighborhoods',
     note='Exhaustive over the stated lists on one square degree; richness to 0.2%, redshift to 4e-4; richness and z_lambda themselves are decided by C10 and C16.')

prop('C13', 'The likelihood stage scores exactly the usable candidates by definition',
     '''For every candidate catalog the likelihood stage keeps, in order, exactly the candidates with redshift inside the
     (exclusive) range (widened by the cushion with keepz), positive richness, central magnitude above the luminosity limit
     (inside the footprint when cleaning the input) whose richness recomputed at their position and redshift in the configured radius is
     at least the minimum with three or more members besides the nearest galaxy.  Each has lnlamlike = -lambda/scale
     - sum of ln(1-pmem) over the members other than the nearest galaxy, lncglike = ln of the magnitude, redshift (or
     chi-squared) and connectivity filters of the nearest galaxy with the calibrated parameters (0 before calibration), and
     lnlike their sum, independent of other candidates and of earlier values of these columns; position, redshifts and
     magnitudes are carried over.''',
     ['inputs', 'histories'],
     'candidate lists (each kind alone, all ordered pairs and triples of five kinds, all together) x filter, mask and selection options x run flags',
     'the tests of this stage are not among the stable ones, and compare one run with stored numbers',
     ['redmapper/run_likelihoods.py', 'redmapper/cluster_runner.py'],
     [{'name': 'candidate selection and likelihood per cluster', 'where': 'RunLikelihoods._more_setup, _process_cluster, _postprocess'}],
     check='c13', level='exploration', technique='exhaustive enumeration of a finite lattice of inputs and run modes on the real stage against an independent recomputation',
     note='Exhaustive over the stated lists on one square degree; the richness itself is decided by C10.')

prop('C14', 'Cluster geometry, neighbors and copies stay consistent over any history',
     '''After every sequence of operations on a cluster (set redshift, find neighbors in degrees or Mpc with or without
     magnitude limit, set or clear neighbors, move, copy, write values) its redshift (at least 0.01; negative ones are
     refused), mstar, Mpc scale, and the distances and radii of its neighbors (at least 1e-6 Mpc) belong together and to
     its current position; neighbor rows are exactly the galaxies within the radius, each with its own values and index.
     A copy has all catalog values, tools and neighbors of the original, and what is done to the one does not reach the
     other or the galaxy catalog.  Matching positions to galaxies gives exactly the pairs within the radius (the nearest
     ones when limited) with their distances, also at the poles, across the ra wrap, with coincident galaxies and after the
     catalog was appended to, sliced, copied or extended.''',
     ['histories', 'inputs'],
     'all sequences of 14 cluster operations to depth 2, to depth 5 after a redshift and neighbor search (4 and 6 thorough); match requests: sky region x radius x limit x catalog history',
     'tests look at one cluster after one fixed series of calls',
     ['redmapper/cluster.py', 'redmapper/galaxy.py'],
     [{'name': 'redshift setter keeps scale and radii in step; deep-copied neighbors; tree matcher', 'where': 'Cluster.redshift, find_neighbors, set_neighbors, copy, GalaxyCatalog.match_one/match_many'}],
     check='c14', technique='exhaustive enumeration of operation sequences on the real objects against a reference model',
     note='Exhaustive over the stated sequences on one field of galaxies; matches are not decided within 1e-6 degrees of the radius.')

prop('C17', 'Catalogs behave as tables under every sequence of operations',
     '''Catalogs of any kind and size (also none or one row) hold, after every sequence of operations (append, extend, add
     columns, assign columns, cells, rows or entries, iterate, select by slice, mask or index, write all or selected rows to
     a file, read back all or some), exactly the rows and values a plain table would hold, in order; selections keep the
     type of the catalog, entries are live views of their row, column names are case insensitive (lambda as Lambda) and
     listed by dir(), added rows and columns are zero, and duplicate columns, tables of different length and rows out of
     range are refused.''',
     ['histories'],
     'all sequences of 2 of 23 operations on three kinds of catalogs with 0, 1, 2 and 5 rows, and of 3 of the main ones (all 23 thorough)',
     'tests exercise a few operations on one catalog',
     ['redmapper/catalog.py', 'redmapper/cluster.py', 'redmapper/galaxy.py'],
     [{'name': 'attribute access over one structured array', 'where': 'DataObject, Entry, Catalog'}],
     check='c17', technique='exhaustive enumeration of operation sequences on the real objects against a reference table',
     note='Exhaustive over the stated sequences; trusts fitsio for the files.')

prop('C08', 'Consolidation puts every cluster in the right files, once, with its members',
     '''Consolidating the catalogs of a run over sky pixels writes, for every richness cut and volume limit, a catalog with
     exactly the clusters that lie in the pixel they were found in, are masked less than the limit, exceed the minimum
     richness and the cut (relative to the scale value when configured) and are below the maximum redshift at their
     position, once each, with all other columns as they were, and a member catalog with exactly their members.  The
     identifier is the rank by likelihood among all such clusters, the same in every file and for the members.  Spectroscopic
     redshifts are those of the nearest good spectrum within 3 arc seconds, else -1.  Whatever the number, order and names of
     files and directories, inputs stay unchanged, nothing else is written, cuts nobody passes do no harm, and running again
     gives the same.  Consolidating runcat catalogs keeps the clusters in their pixel with their members and identifiers.''',
     ['histories', 'inputs'],
     'all sets of up to three pixel catalogs of up to two clusters of five types, all combinations of limits, orders of likelihood, cuts, volume limits, spectra and names',
     'the test consolidates three catalogs of identical clusters and looks at one output',
     ['redmapper/pipeline/redmapperconsolidatetask.py', 'redmapper/utilities.py'],
     [{'name': 'selection, temporary identifiers, append and renumber', 'where': 'RedmapperConsolidateTask.run, RuncatConsolidateTask.run'}],
     check='c08', technique='exhaustive enumeration of pixel-catalog histories on the real task against a row-by-row oracle',
     note='Exhaustive over the stated worlds; spectroscopic truth catalogs and plots are not covered.')

prop('C15', 'Centering picks the documented center candidates and probabilities',
     '''Likelihood centering considers exactly the galaxies allowed by the documented cuts, evaluates luminosity, redshift and
     density filters against the foreground, and reports the best candidates in decreasing order with central
     and satellite probabilities that follow from them, whatever the order of the galaxies, with spectroscopic redshifts
     used only where good; the brightest-galaxy centering reports the brightest allowed galaxy; random centering gives a
     valid position with the documented distribution, also across ra=0; random-satellite centering picks members in
     proportion to their probability.  Galaxies are never altered, unused slots stay empty and without any candidate centering reports failure
     instead of raising.''',
     ['inputs'],
     'clusters x free probability, chi-squared, richness, spectra, slots, weights, row order and redshift correction; all random numbers of a grid',
     'tests center one cluster with one set of options per method',
     ['redmapper/centering.py'],
     [{'name': 'candidate cuts, likelihood ratio, slots', 'where': 'CenteringWcenZred.find_center and siblings'}],
     check='c15', level='exploration', technique='exhaustive enumeration of centering inputs (and of the random numbers on a grid) on the real code against the definition',
     note='Exhaustive over the stated lattice on clusters of the test catalog.')

prop('C18', 'Running a catalog gives every position its own richness, redshift and members',
     '''Running richness on a list of positions gives every row the richness, redshift, errors, radius and members of a cluster
     recomputed from its own neighborhood, independent of the other rows, their order and duplicates; with percolation masking
     the rows are processed in order and claim galaxies from the later ones only within the documented mask radius.
     Redshift iteration stops at the tolerance or the maximum number of iterations.  The local background, when asked for, is the density of galaxies per
     area of the footprint in the configured annulus around the cluster, relative to the global background there.  Rows without richness are marked as
     such; identifiers are kept when unique and otherwise assigned, members carry that of their cluster, and nothing
     else is left on disk.''',
     ['histories', 'inputs'],
     'all ordered pairs and triples of five kinds of positions, all alone and together, x masking x options x iteration x stacked positions x identifiers',
     'the test runs one list with one set of options',
     ['redmapper/runcat.py', 'redmapper/cluster_runner.py'],
     [{'name': 'per-row neighborhoods, masking of claimed galaxies, member output', 'where': 'RunCatalog, ClusterRunner.run'}],
     check='c18', level='exploration', technique='exhaustive enumeration of position lists on the real runner against clusters recomputed one by one',
     note='Exhaustive over the stated lists on the test catalog.')

prop('C19', 'The redshift scan finds the redshift of maximum likelihood for every position',
     '''Scanning positions of unknown redshift evaluates every step of the redshift range (clusters recomputed from their own
     neighborhoods), starts from the step with the largest likelihood among those with enough richness, refines it to a
     cluster with the richness, redshift and members of a recomputation at the refined redshift and reports
     the optical center and its alternatives in their slots; positions without a cluster are marked or left out; rows are
     independent of each other and their order; members carry the identifier of their cluster.''',
     ['inputs', 'histories'],
     'all ordered pairs and triples of four kinds of positions, all alone and together, x option settings',
     'the test scans one list with one set of options',
     ['redmapper/run_zscan.py', 'redmapper/cluster_runner.py'],
     [{'name': 'scan over redshift steps, refinement and centering', 'where': 'RunZScan'}],
     check='c19', level='exploration', technique='exhaustive enumeration of position lists and redshift steps on the real runner against recomputation',
     note='Exhaustive over the stated lists on the test catalog.')

prop('C20', 'Footprint, depth and volume-limit maps mean what their pixels say',
     '''At every position the footprint, depth and volume limit are those of the map pixel that holds it, also across ra=0, for
     sub-regions with a border and near the poles; positions off the map or beyond the pole are outside.  Partly covered
     pixels count for their fraction.  The maximum redshift of a volume limit is where a red galaxy of the given luminosity reaches
     the depth of the pixel in the reference band and in every additional band (the lowest), to a redshift step; the mask
     read back equals the one built; the area at a redshift (or magnitude) is that of the pixels reaching beyond it.  Mask galaxies
     around a cluster get the depth at their position (the typical one where there is none), are marked by the footprint, and the
     masked fraction with radius follows from those detected.''',
     ['inputs'],
     'all maps of up to four pixels (three coverages, four depths), all sub-regions of a lattice, luminosity cuts x bands x ranges, mask edges, missing pixels',
     'tests look up five positions on one map',
     ['redmapper/depthmap.py', 'redmapper/volumelimit.py', 'redmapper/mask.py', 'redmapper/utilities.py'],
     [{'name': 'map lookups, cumulative areas, depth to redshift inversion, mask correction', 'where': 'DepthMap, VolumeLimitMask, HPMask'}],
     check='c20', technique='exhaustive enumeration of small maps and requests on the real code against the per-pixel definition',
     note='Exhaustive over the stated maps; the red-sequence model and healsparse are trusted. The wrong areas of depth maps are a known finding (pinned by a test).')

prop('C07', 'An interrupted pixel run, started again, ends as if it had never stopped',
     '''Running the finder (first pass, likelihoods, percolation), a catalog of positions, the redshift scan or the random
     points on one sky pixel leaves exactly the files of these stages called one after the other on that pixel with its
     border, or none where a stage finds nothing, and does not fail then.  If the process is ended at any point and started
     again, the same files result; a stage file under its final name is complete, and so are its members, so finished
     stages are not computed again and a complete run is left alone.  A local run over several pixels covers every galaxy
     pixel of its region exactly once, whatever the number of processes, and merges exactly the clusters found in their own
     pixel, masked less than the limit and above the minimum richness, renumbered by likelihood with their members; its final catalog
     appears last.  Consolidation finds what the pixel tasks wrote.''',
     ['crash_points', 'histories', 'inputs'],
     'every file-system operation of six kinds of runs as the point of interruption, with the file written last empty, half written, short of a block or complete; pairs of interruptions (thorough); pixel catalogs, tables and region choices of a lattice',
     'the test runs one pixel once without interruption; the pixel tasks are not tested',
     ['redmapper/pipeline/redmappertask.py', 'redmapper/redmapper_run.py', 'redmapper/cluster_runner.py', 'redmapper/catalog.py'],
     [{'name': 'stage files as the record of what is done', 'where': 'RunRedmapperPixelTask.run and siblings, RedmapperRun._worker/_consolidate/_get_pixel_splits, ClusterRunner.output'}],
     check='c07', technique='model checking of the real code: exhaustive fault injection at every file-system operation with torn writes, restart and comparison',
     note='Exhaustive over the crash points of the listed runs (one interruption; two thorough); results of the stages themselves are decided by C09-C19; a region finer than the galaxy files is refused and not covered.')

prop('C21', 'A configuration keeps its own values, whatever happens to others',
     '''Every variable of a configuration has the value of its file, or its default; what depends on the galaxy catalog
     (bands, reference band, limiting magnitude, softening, area unless given, truth and spectra) and on the centering
     parameter file is taken from there.  Loading, changing or copying another configuration changes nothing in it, nor
     does changing a copy (including its sub-region and file names).  Written to a file and read again it is the same.
     Unknown or missing variables, coupled lists of different lengths and contradictory settings are refused.  File
     names are made of output path, base name and type; the border covers the largest cluster at the lowest redshift;
     messages go once to the log file that is open, and logging can be stopped and started again.''',
     ['histories', 'inputs'],
     'each variable and pairs of variables; all length mismatches; all histories of load, copy, change, write to depth 3 (4 and 5 in part); catalogs with every order of up to five bands; log operations to depth 4 (5)',
     'tests load one file once and read a few values',
     ['redmapper/configuration.py'],
     [{'name': 'values per configuration and catalog statistics', 'where': 'Configuration, ConfigField, DuplicatableConfig'}],
     check='c21', technique='exhaustive enumeration of settings and operation histories on the real class against a dictionary model',
     note='Exhaustive over the stated histories; the default values themselves are not judged.')

prop('C22', 'The background is the density of all galaxies of the region, and never made up',
     '''The chisq, zred and color backgrounds count every galaxy of the region once (up to the magnitude limit of each
     redshift), shared between the neighboring cells of magnitude and chisq, zred or colors, per area, magnitude and
     cell size; the table does not depend on the number of processes, on how many galaxies are read at a time, or on whether the
     catalog is pixelized; a finished table is not changed, and the two tables of a file do not destroy each other.
     A background looked up for a galaxy is the linear interpolation of the table at its redshift, chisq, color and magnitude,
     never negative, and infinite where the table has none or is exceeded; it does not depend on the other galaxies asked for; the
     color background is normalized.''',
     ['inputs', 'schedules'],
     'tables of 2-4 redshifts x 2-5 chisq x 2-3 magnitudes looked up inside, at and outside all edges; generation for all process numbers 1-8 (16), regions, read sizes, bin sizes, ranges; all sets of up to three points for the assignment to cells',
     'tests compare nine table entries and three generated cells for one process',
     ['redmapper/background.py', 'redmapper/color_background.py', 'redmapper/utilities.py'],
     [{'name': 'cells, limits and areas; split over processes; lookup indices', 'where': 'BackgroundGenerator, Background, ZredBackground*, ColorBackground*, cic'}],
     check='c22', technique='exhaustive enumeration of small tables, process splits and requests on the real code against brute-force recomputation',
     note='Exhaustive over the stated lattices; chisq of the red-sequence model (C11) and areas (C20) are trusted. zred beyond the upper end of its table is not judged.')

prop('C23', 'Random points fill the surveyed volume like the catalog, with fair weights',
     '''Generated cluster and redMaGiC random points are exactly as many as asked for, lie in the volume-limit map in proportion to
     its covered area, each at a redshift below the limit at its own position; redshift, richness and input id of a point are those of
     one cluster, and the redshift distribution is that of the catalog also where the limit varies; ids run from 1 to n, every
     point is in the file of its pixel, and an existing catalog is not overwritten unless asked for.  The masked fraction and
     richness scale recorded for each random are those recomputed at its position.  The weight of a point is the number of points of
     its input cluster over those that pass (so that the weights of a cluster add up to its number of points); only points in the
     requested redshift and richness range that pass have one; the effective area is the map area times the fraction
     passing; every redshift and richness range has its own files.''',
     ['inputs', 'histories'],
     'maps with 1-5 limits and coverages x catalogs x numbers of points; random catalogs over all combinations of redshift, richness, scale and masked fraction around every limit x selection options',
     'the tests of the randoms are not reliable, and sample one map and one selection',
     ['redmapper/randoms.py', 'redmapper/run_randoms.py', 'redmapper/run_randoms_zmask.py', 'redmapper/redmagic/redmagic_randoms.py'],
     [{'name': 'rejection of points by coverage, placement of redshifts; histogram of input ids', 'where': 'GenerateRandoms, RandomWeigher, RunRandoms*, RedmagicGenerateRandoms'}],
     check='c23', technique='exhaustive enumeration of maps, catalogs and selections on the real code against brute-force recomputation',
     note='Exhaustive over the stated lattices; densities are judged on fixed seeds with wide margins. The spline fit of the area fraction is judged only where the fraction is constant or bounded.')

prop('C24', 'The red-sequence model is the spline of its calibration at every redshift',
     '''At every redshift and magnitude bin of a loaded red-sequence model, color, slope, scatter and correlations (clipped to be
     usable), pivot, magnitude range, volume factor, photometric corrections (with their floors) and asinh-magnitude corrections
     are the natural spline of the calibrated nodes, symmetric and pinned or continued by the template where extrapolated;
     mstar and the luminosity normalization follow the survey tables and the Schechter function; looking up a redshift or
     magnitude finds the nearest bin, scalar or array alike, and values above the range find the overflow bin.  A file that lacks a
     required parameter is refused.  Without a file the model follows the configuration; initial colors interpolate the template and unknown
     bands are refused.''',
     ['inputs'],
     'generated parameter files over colors x nodes x templates x corrections x asinh softenings x ranges x bin sizes; all lookups on, between and outside all bins; each header key missing',
     'tests compare a few dozen table entries of one file at one bin size',
     ['redmapper/redsequence.py', 'redmapper/utilities.py'],
     [{'name': 'tables on redshift and magnitude bins; integer lookups', 'where': 'RedSequenceColorPar, RedGalInitialColors, MStar, CubicSpline'}],
     check='c24', technique='exhaustive enumeration of generated calibrations and lookups on the real code against an independent spline and lookup',
     note='Exhaustive over the stated lattice; a model used wholly outside its nodes with a template is not judged.')

prop('C25', 'redMaGiC selects exactly the galaxies inside the calibrated limits',
     '''A redMaGiC catalog contains exactly those galaxies whose chisq is below the calibrated limit at their redshift, that are brighter
     than the luminosity limit at their corrected redshift, in the calibrated redshift range and below the volume limit at
     their position: each once, in order, its magnitudes unchanged, with corrected redshift and error, samples shifted only if
     requested, luminosity and the spectroscopic redshift of the truth, the catalog or the nearest good spectrum; whatever the other galaxies, pixels
     or modes.  A run over a pixelized catalog writes that for each requested mode (also when some or all pixels have none), does
     not replace existing catalogs unless asked for, adds the number of randoms asked for and closes its log.  The calibration
     minimizes the mismatch of the density of just these galaxies, records its limits, and starts the run it prepared from any directory.''',
     ['inputs', 'histories'],
     'lattice of 40 redshifts x 13 chisq x 10 magnitudes around all limits x 3 calibrations x maps x redshift sources; all patterns of pixels with no, one or many red galaxies; 125 points of the cost function before and after fits',
     'tests run one calibration and check the number of randoms; no selected galaxy is compared',
     ['redmapper/redmagic/redmagic_selector.py', 'redmapper/redmagic/redmagictask.py', 'redmapper/redmagic/redmagic_calibrate.py'],
     [{'name': 'spline limits and corrections; per-pixel append; cost function', 'where': 'RedmagicSelector, RunRedmagicTask, RedmagicParameterFitter, RedmagicCalibrator'}],
     check='c25', technique='exhaustive enumeration of a galaxy lattice, pixel patterns and calibrations on the real code against brute-force selection',
     note='Exhaustive over the stated lattice; the optimizers themselves are only required not to end worse than they start.')

prop('C26', 'A calibration, interrupted anywhere and restarted, gives the same products',
     '''Every step of the calibration reads the products that the steps before it wrote for it (of its own iteration, with the redshifts,
     parameters, background, centering model and seeds prescribed for it), and the products at the end are a function of the inputs alone: the number of
     iterations, the training area and the files given are honoured, an interruption at any point (in any write) followed by
     a restart ends with the same products as an undisturbed calibration, nothing complete is computed again, and no file that
     is incomplete is taken for a product.  Negative corrected redshifts are refused.  The configuration written for the run names the final products
     and all input files by absolute paths and carries over the settings of the calibration, so the run can be started from any directory.''',
     ['crash_points', 'histories', 'inputs'],
     'calibrations of 1-3 iterations with stand-in steps whose products are digests of their inputs, interrupted at every write (thorough: every pair of writes); real steps interrupted in each of their writes; configurations over optional files',
     'no test runs the calibration as a whole',
     ['redmapper/calibration/calibrate.py', 'redmapper/calibration/redsequencecal.py', 'redmapper/calibration/selectspecred.py', 'redmapper/calibration/selectspecseeds.py', 'redmapper/color_background.py'],
     [{'name': 'existence of a file decides whether its step is run', 'where': 'RedmapperCalibrator, RedmapperCalibrationIteration, RedmapperCalibrationIterationFinal'}],
     check='c26', technique='exhaustive crash-point enumeration of the real orchestration against a dataflow model of the products',
     note='The heavy steps are stand-ins in the enumeration of the orchestration; redgals, parameters, color background and seeds are also interrupted for real.')

prop('C27', 'Calibration samples are exactly the galaxies and clusters asked for',
     '''The members that calibrate the red sequence are exactly those above the probability cut in rich enough, unmasked enough
     clusters whose redshift agrees with that of their seed, each once and with the redshift of its own cluster, flagged when at the
     center; spectroscopic seeds are exactly the galaxies nearest to (within 3 arcsec of) a good spectrum in the redshift range, with the zred of
     that galaxy, or none.  Red galaxies with spectra are exactly those nearest to a good spectrum in the (cushioned) range, bright enough, and within the configured
     number of standard deviations (errors and scatter) of the color model in the color assigned to their redshift; galaxies outside those limits do not influence the model.
     The redshift correction and the centering model depend on the clusters inside the configured
     limits and on no others; an imposed redshift bias is undone; without clusters in some redshifts, or without foreground
     or satellite parameters, the calibration is refused; parameters given in the configuration are kept.''',
     ['inputs'],
     'clusters, members, spectra and galaxies at and on both sides of every limit, in all orders of a few rows; one cluster at a time, inside or outside each limit, added to the sample of each fit; 5 redshift biases; all patterns of given and missing inputs',
     'tests run each step once on one catalog and compare a few numbers of the result',
     ['redmapper/calibration/prepmembers.py', 'redmapper/calibration/selectspecseeds.py', 'redmapper/calibration/selectspecred.py', 'redmapper/calibration/zlambdacal.py', 'redmapper/calibration/centeringcal.py'],
     [{'name': 'cuts, matching by identifier and by position', 'where': 'PrepMembers, SelectSpecSeeds, SelectSpecRedGalaxies, ZLambdaCalibrator, WcenCalibrator'}],
     check='c27', technique='exhaustive enumeration of limit lattices and single-row changes on the real code against the cuts of the configuration',
     note='Exhaustive over the stated lattice; the smearing of member redshifts is only judged by its width.')

prop('C28', 'Calibration fits minimize the likelihood of exactly their inputs',
     '''The cost that each fitter of the calibration (medians, red sequence with slope, scatter and error ratios, off-diagonal covariances, zred
     corrections, color mixture, error bins, redshift afterburner, foreground and central connectivity and magnitude) minimizes is
     the negative log likelihood of its inputs, with priors, penalties and floors as documented; it is the same whenever it is evaluated for the same
     parameters, whichever parameters are fitted and whichever optional inputs are given; a fit returns its parameters in the documented order,
     within their bounds, no worse than where it started, and leaves inputs and parameters that are not fitted alone.''',
     ['inputs', 'histories'],
     'all combinations of fitted parameters x lists of optional inputs (thorough: all) x each parameter moved both ways, in fresh and in used fitters; fits from several starting points',
     'tests fit one data set with each fitter and compare the result with stored numbers',
     ['redmapper/fitters.py', 'redmapper/calibration/zlambdacal.py', 'redmapper/calibration/centeringcal.py'],
     [{'name': 'likelihood evaluated repeatedly by a minimizer', 'where': 'MedZFitter, RedSequenceFitter, RedSequenceOffDiagonalFitter, CorrectionFitter, EcgmmFitter, ErrorBinFitter, ZLambdaFitter, WcenFgFitter, WcenCFitter, WcenCwFitter'}],
     check='c28', technique='exhaustive enumeration of fit modes, optional inputs and evaluation histories on the real code against recomputed likelihoods',
     note='One known finding (errors grow with every evaluation of the scatter fit). The optimizers themselves are only required not to end worse than they start.')

prop('C29', 'Batch jobs run every populated pixel once, each with the task asked for',
     '''A submission makes one job file whose commands, when the batch system executes them, run the task of the requested mode on each pixel of the
     requested resolution that contains galaxies, exactly once, and on no other, with the configuration asked for and that resolution, whatever the directory it was submitted from; walltime, nodes
     and batch system are those asked for, setup commands come first.  Impossible requests (a restricted configuration, an unknown mode, an ambiguous batch system) are refused
     without a job; earlier job files are never overwritten; mask galaxies are there before the first job needs them.  Each command-line script passes
     its arguments to its task.  The memory prediction takes the fullest pixel at the resolution of the run.''',
     ['inputs', 'histories'],
     'all subsets of 5 table pixels x modes x batch systems x resolutions x options; all commands of the job files executed against recording tasks; all sequences of up to 3 (thorough 4) submissions and removals; all scripts',
     'no test runs a script of bin/ or the memory prediction',
     ['bin/redmapper_batch.py', 'redmapper/parsl_templates.py', 'redmapper/pipeline/mempredict.py'],
     [{'name': 'list of pixels of a job; job arrays; same-node runner', 'where': 'bin/redmapper_batch.py, create_batchconfig, parsl_templates, MemPredict'}],
     check='c29', technique='exhaustive enumeration of requests and submission histories; every job executed against recording tasks',
     note='One known finding (PBS jobs cannot be made). Parsl and LSF are stand-ins that execute the commands of the job file.')

prop('C30', 'Splines, error models, profiles and mask galaxies are what they define',
     '''The spline passes through its nodes, twice continuously differentiable, with the end conditions asked for (and constant outside if so asked); redshift nodes cover
     the range at the spacing asked for; characteristic magnitudes and initial colors follow their tables; the luminosity cut integrates the magnitude error; the error model gives the
     errors of a flux with the given limiting magnitude and exposure; densities are the normalized functions they name, samplers follow the density they are given.  Mask
     galaxies are distributed in radius, magnitude, chisq and redshift error as configured, and a mask-galaxy file is only used by the version it was made for.  A depth fit recovers limit and exposure of perfect data,
     whatever unusable measurements are among them, and where the local fit fails the global one is used.  Only the coverage pixels of a region with its border are read.''',
     ['inputs'],
     'all splines through 2-5 nodes with 2 spacings and 3 values per node and 5 end conditions; parameter products of all functions; samplers driven by all quantiles; all combinations of unusable measurements',
     'tests evaluate each function at a few points of one parameter set',
     ['redmapper/utilities.py', 'redmapper/mask.py', 'redmapper/depth_fitting.py'],
     [{'name': 'numerical kernels shared by all stages', 'where': 'CubicSpline, make_nodes, MStar, RedGalInitialColors, calc_theta_i, apply_errormodels, chisq_pdf, schechter_pdf, nfw_pdf, sample_from_pdf, get_healsparse_subpix_indices, Mask.gen_maskgals, fitDepth, DepthLim'}],
     check='c30', technique='exhaustive enumeration of small inputs and parameter products on the real code against independent definitions',
     note='Exhaustive over the stated lattice.')

prop('C31', 'The red-sequence calibration recovers the sequence its galaxies follow',
     '''Calibrating on galaxies that follow a red sequence gives its pivot magnitudes, median colors and widths, colors, slopes, scatter and (if asked for) error ratios, for every number of
     bands, every reference band, magnitudes or luptitudes, p or pcol, in every order of the galaxies.  Only galaxies inside the redshift range and above the probability cut count (medians: above the color cut), others have no
     influence at all.  The zred corrections are the bias, slope and width of the uncorrected zreds, without the influence of outliers and unlikely galaxies.  Covariances, magnitude limits, volume factor and
     header follow from the fits and the configuration; the galaxies used are written with the zreds of the final parameters.  Without usable galaxies or background there are no parameters.''',
     ['inputs'],
     'galaxies of a known model for all 14 pairs of bands (2-5) and reference band x luptitudes, error ratios, template; 10 kinds of galaxies at, just inside and just outside each cut x places in the table; 4 biases x slopes x widths',
     'one test runs one catalog and compares a few numbers of the result',
     ['redmapper/calibration/redsequencecal.py', 'redmapper/fitters.py'],
     [{'name': 'chain of fits from the reference band outwards; corrections in two modes', 'where': 'RedSequenceCalibrator'}],
     check='c31', technique='exhaustive enumeration of band layouts, options and cut lattices on the real calibration against the generating model',
     note='Fits are judged within the tolerance of the fit. Error ratios of bands two or more redder than the reference band are not judged (known finding of C28).')

prop('C32', 'Color training yields exactly the members of clusters around red galaxies',
     '''The first training sample has one cluster for each red galaxy with a spectrum strictly inside the redshift range whose galaxies, in the color and with the intrinsic scatter
     configured for its redshift and around the color of the model there, give at least the minimum number of members, with the galaxy itself a likely member, where the footprint is not
     too masked; and none for others.  Galaxies are shared strictly by the richness found without sharing, whatever the order of the input.  The training members are exactly the galaxies
     with a color probability above the cut in those clusters, each once per cluster, as in the galaxy catalog, with the redshift of their cluster smoothed individually by the
     configured width.''',
     ['inputs', 'histories'],
     'all selections and orders of up to 4 seeds that compete for galaxies, 31 settings of the options on 20 seeds in 3 orders, redshifts on both sides of and at every limit, stacks of seeds on the same galaxies',
     'the test runs one catalog in one color mode and compares the first members',
     ['redmapper/run_colormem.py', 'redmapper/cluster_runner.py', 'redmapper/cluster.py'],
     [{'name': 'two passes with a sort in between; free probabilities of galaxies', 'where': 'RunColormem, ClusterRunner.run, Cluster.calc_richness_fit'}],
     check='c32', technique='exhaustive enumeration of seed lists, orders and options on the real code against the two passes recomputed cluster by cluster',
     note='The richness of a single cluster is that of calc_richness_fit (decided by C10) with the random numbers fixed; equal richnesses may be in any order.')

# --- writer ---------------------------------------------------------------
def emit():
    with open(os.path.join(HOME, 'properties.jsonl'), 'w') as f:
        for p in P:
            rec = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                   'quantifier': {'over': p['over'], 'text': p['qtext']},
                   'why_tests_cant': p['why'],
                   'anchors': {'files': p['files'], 'mechanism': p['mech'], 'observe_at': p['observe'], 'hook_needed': None}}
            f.write(json.dumps(rec) + '\n')
    man = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': [], 'not_applicable': [],
           'notes': 'No hooks in /repo: all interception is done from the harness. See DESIGN.md.'}
    for p in P:
        if p['check'] and os.path.isfile(os.path.join(HOME, 'checks', p['check'] + '.py')):
            man['checks'].append({'property': p['id'], 'quick_cmd': 'bash run.sh %s quick' % p['check'],
                                  'thorough_cmd': 'bash run.sh %s thorough' % p['check'],
                                  'evidence_file': 'evidence/%s.json' % p['id'],
                                  'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            man['not_applicable'].append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
    with open(os.path.join(HOME, 'MANIFEST.json'), 'w') as f:
        json.dump(man, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    emit()
