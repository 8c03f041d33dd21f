"""Writes /verif/properties.jsonl.  Edit the table here, then run this file."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=files,
                             state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mechanism],
                             observe_at=list(observe), hook_needed=None))

G = 'glmtools/io/glm.py'
T = 'glmtools/io/traversal.py'
I = 'glmtools/io/imagery.py'
M = 'glmtools/grid/make_grids.py'
A = 'glmtools/grid/accumulate.py'
L = 'glmtools/io/mimic_lma.py'
S = 'glmtools/grid/split_events.py'
K = 'glmtools/grid/clipping.py'
C = 'glmtools/io/ccd.py'
V = 'glmtools/io/convert_lcfa.py'

PROPS = [
P('C01', 'Opened files form an exact, consistent flash tree despite lost records',
  'Opening a GLM event/group/flash file always yields a self-consistent tree: every event has its group, every group '
  'has its flash and every flash has at least one group, whatever records were lost, cut off, orphaned or reordered on the way into '
  'the file, including files left with no records at some level. Exactly the records that can be part of such a tree '
  'are kept, each once and with its own stored values. The per-flash and per-group child counts and the flash ID attached to each event '
  'agree with the kept records.',
  ['fault_sequences', 'histories', 'inputs'],
  'Every sequence of record drops, ID damage, reordering and truncation applied at any level of the feed that fills a file, '
  'followed by opening it, and opening it again.',
  'The tests open one intact 2018 sample file and one hand-made four-level tree; no test loses a record, leaves an orphan or empties a level.',
  [G, T],
  [('parent/child check and pruning on open', G + ':GLMDataset.__init__'),
   ('reduction to a set of entities with ancestors and descendants', T + ':OneToManyTraversal.reduce_to_entities'),
   ('orphan and childless detection', T + ':OneToManyTraversal.check_parent_child'),
   ('derived counts and event-to-flash IDs', G + ':GLMDataset.__init_parent_child_data')],
  [('parent/child groupings', 'which rows belong to which ID at each level', T + ':OneToManyTraversal.__init__')],
  ['the dataset of an opened file']),

P('C02', 'Flash queries are exact and pure under any history and interleaving',
  'Any sequence of queries on an open file or tree, from any number of threads, returns exactly what was asked for: by ID list at any level, the named '
  'entities in the order asked with all their descendants and ancestors; by location, size and number of parts, exactly the flashes that meet every '
  'stated bound. Child counts, parent IDs carried down the tree and reports of broken links are those of the records. '
  'No query changes the data, the answer of any other query, or its own answer when asked again.',
  ['schedules', 'histories', 'inputs'],
  'Every tree (any depth), every sequence of queries and every interleaving of the threads that issue them.',
  'The tests issue a few single queries on fixed data from one thread and never ask the same object twice in different ways.',
  [G, T],
  [('query by location, size and children', G + ':GLMDataset.subset_flashes'), ('query by flash ID', G + ':GLMDataset.get_flashes'),
   ('tree reduction', T + ':OneToManyTraversal.reduce_to_entities'), ('child counts', T + ':OneToManyTraversal.count_children'),
   ('parent IDs', T + ':OneToManyTraversal.replicate_parent_ids')],
  [('groupings by entity and parent', 'shared by all queries on one open file', T + ':OneToManyTraversal.__init__')],
  ['returned datasets', 'the open file dataset before and after']),

P('C03', 'Damaged input values are repaired, good ones untouched, in any open order',
  'On opening, unknown (overflowed) areas become the largest area the file encoding can express, areas come out in square km, energies in nJ, '
  'events reported with no energy (a stored value of zero) get half of the smallest energy the encoding can express, and offset times that lost their unsigned mark in the autumn 2018 '
  'product are read as unsigned. No other value changes, and the repairs hold in any combination, together with lost records, and after any '
  'later query. Opening the same file or in-memory dataset again, or opening many at the same time from different threads, '
  'gives the same result each time and leaves the source as it was.',
  ['schedules', 'histories', 'inputs', 'fault_sequences'],
  'Every combination of damage in a file (overflowed areas, wrong area units, zero energies, sign-less times, lost records), every order and '
  'interleaving of opens of several differently damaged files.',
  'The tests open one 2018 file that has a few of these defects and only look at the tree.',
  [G],
  [('area overflow repair', G + ':GLMDataset._check_area_overflow'), ('area units', G + ':GLMDataset._check_area_units'),
   ('energy units', G + ':GLMDataset._change_energy_units'), ('zero energy repair', G + ':GLMDataset._eliminate_zero_energy'),
   ('sign repair of times', G + ':fix_unsigned, GLMDataset.__init__')],
  [], ['the dataset of an opened file', 'the in-memory source dataset']),

P('C04', 'Read faults give an error or the exact data, never wrong or missing data',
  'If reads fail, are interrupted or come back short, or if a file is missing, cut off or still being written, then opening it, querying it or gridding a batch '
  'that contains it either gives exactly the result of an undisturbed read or raises an error; it never gives altered or silently incomplete '
  'data and no product of an incomplete batch is left as if finished. A failed attempt changes nothing for later attempts: '
  'the same process succeeds as soon as the fault is gone.',
  ['fault_sequences', 'crash_points', 'histories'],
  'Every fault on any file operation of a read (error code, short or interrupted read, truncation point, appearance order of files), in any batch, '
  'followed by fault-free retries in the same process.',
  'No test makes an input operation fail; all inputs exist and are complete.',
  [G, M, L],
  [('file open and lazy reads', G + ':GLMDataset.__init__'), ('reading of the files of a batch', M + ':proc_each_grid'),
   ('skipped empty chunks', L + ':fast_fixed_grid_read_chunk'), ('multi-file collection', L + ':GLMncCollection.data_for_time')],
  [], ['exceptions raised', 'returned data', 'product files left on disk']),

P('C05', 'Gridded fields equal the sum of the inputs in any delivery order and split',
  'Gridding a set of files over a time span gives, for each frame and cell, the area-weighted sum over the pixels observed in that frame of flash count, group '
  'count and energy, the extent-weighted mean flash and group area, the smallest flash area, and the number of flash and group centroids. '
  'Every event, group and flash inside the grid and span counts once, in its own frame, including frames and files with no lightning. '
  'The result depends neither on the order in which files are delivered nor on how they are split into read batches, and repeating the job gives the same again.',
  ['histories', 'inputs', 'configurations', 'schedules'],
  'Every set of files (including empty ones), delivery order, frame interval, read chunk size, grid resolution and grid box.',
  'The gridding tests cannot be collected here (they need packages and products that are absent) and compare one fixed hour with one stored product.',
  [M, L, S, K, A, C],
  [('per-file split of events to cells', L + ':read_flashes, fast_fixed_grid_read_chunk, replicate_and_weight_split_child_dataset_new'),
   ('accumulation', A + ':accumulate_var_on_grid_direct_idx, accumulate_minvar_on_grid_direct_idx'),
   ('polygon slicing', K + ':QuadMeshPolySlicer.slice'), ('pixel corners', C + ':quads_from_corner_lookup'),
   ('per-pixel totals', G + ':GLMDataset.get_lutevents')],
  [('frame grids', 'sums per frame and field', M + ':GLMlutGridder.pipeline_setup')],
  ['the written product files', 'the gridder fields']),

P('C06', 'A product path never holds a partial product, whatever fails or dies',
  'At every instant of a gridding or product-writing job, in particular after the process is killed at any operation or any write is cut short or fails (disk full, I/O error, no '
  'permission), each product path holds either what it held before the job (nothing, or the complete earlier product) or the complete new product. A job that reports success has '
  'put every one of its products in place; a job that could not write one raises an error.',
  ['crash_points', 'fault_sequences'],
  'Every file operation of a product write as a kill point, cut point or error point, on fresh and on existing product paths.',
  'Tests never interrupt or fail a write; the failing states last for milliseconds.',
  [I, M],
  [('product write', I + ':write_goes_imagery'), ('per-frame write loop', M + ':GLMlutGridder.write_grids')],
  [], ['the file at the product path at every step']),

P('C07', 'Writing is repeatable: retries and rewrites give the same product',
  'Writing the products of a finished grid any number of times, with other options or to other places in between, after failed attempts, or from several '
  'threads, gives the same field values each time as a single write from a fresh grid. No write changes the '
  'accumulated fields or the options given by the caller, and one gridder or call never influences another.',
  ['histories', 'fault_sequences', 'schedules'],
  'Every history of writes, failed writes (any injected error) and rewrites with varying options on several gridders.',
  'Tests write each product once with one set of options.',
  [I, M],
  [('normalisation by extent and rounding up of tiny values', I + ':write_goes_imagery, glm_image_to_var'), ('writer options', M + ':GLMlutGridder.write_grids')],
  [('accumulated fields', 'frame sums kept by the gridder', M + ':GLMlutGridder'), ('writer options', 'dictionary handed through to the writer', M + ':GLMlutGridder.write_grids')],
  ['product files', 'gridder fields before and after', 'caller option dictionaries before and after']),

P('C08', 'An acknowledged product reads back as the accumulated frame',
  'Every product that was reported written reads back, in any process and after any crash that follows, with each field equal to the accumulated frame to within '
  'one half storage step: means are totals over extent, empty cells read back as missing, non-empty cells are never stored as empty, no cell is flagged as bad, and values beyond the '
  'storable range stay at its end instead of wrapping. Rows and columns sit at the fixed-grid coordinates of their cells, and start, end and '
  'grid metadata describe that frame.',
  ['inputs', 'configurations', 'histories', 'crash_points'],
  'Every grid content, size, resolution, scene, frame split and storage mode (scaled or float), and every crash after the acknowledgement.',
  'The product tests compare with stored reference files that are not available here, on one grid and one storage mode.',
  [I, M],
  [('field to stored variable', I + ':glm_image_to_var'), ('dataset assembly and coordinates', I + ':new_goes_imagery_dataset, xy_to_2D_lonlat, get_goes_imager_all_valid_dataset'),
   ('storage scaling', I + ':glm_scaling'), ('scene and nominal resolution', I + ':infer_scene_from_dataset')],
  [], ['the written product files']),

P('C09', 'Concurrent jobs sharing an output tree never disturb each other',
  'When several jobs or tiles run at the same time and write into the same not yet existing directory tree, every job succeeds whatever the interleaving of their file '
  'operations, each distinct product is complete and equal to what the job alone would have written, and a product written by two jobs is '
  'the whole of one of them. A job that fails or dies does not make another one fail or lose a product, and jobs leave no stray product files.',
  ['schedules', 'crash_points', 'fault_sequences'],
  'Every interleaving of the file operations of two to four jobs, with crashes and errors in some of them.',
  'Tests run one job at a time.',
  [I, M],
  [('output directory creation', I + ':write_goes_imagery'), ('per-tile jobs', M + ':grid_GLM_flashes, proc_each_grid')],
  [], ['job outcomes', 'the output tree']),

P('C10', 'Wall clock and time zone only affect creation stamps, which are true UTC',
  'The clock reading, its jumps in either direction, and the time zone of the machine change nothing in a product except its creation time: its creation stamp '
  'and the creation time in its name are the UTC time at which it was made and agree with each other. Observation times, frame boundaries, file selection and '
  'all other content depend only on the input data.',
  ['schedules', 'configurations', 'histories'],
  'Every start time, time zone, and sequence of clock steps and jumps during a job, including day, month and year ends.',
  'Tests run on the machine clock and never look at creation metadata.',
  [I, M, G],
  [('creation metadata and dataset name', I + ':get_glm_global_attrs, new_goes_imagery_dataset'), ('file name times', G + ':parse_glm_filename_time'),
   ('file selection by time', I + ':gen_file_times')],
  [], ['product attributes and file names']),

P('C11', 'Tiles cover the grid exactly once and equal the untiled result',
  'Splitting a job over any number of tiles gives a set of products that covers every cell of the requested grid once, in the same place, with the same values as '
  'the untiled product, in whatever order the tiles run and complete. Options given for the job apply to every tile, and every tile that has finished is on '
  'disk at the end.',
  ['configurations', 'schedules', 'inputs'],
  'Every grid size, resolution, tile count and tile execution order, with lightning on tile borders, and every spacing of tiles in time.',
  'The tiling tests cannot be collected here and use one grid and one tile count.',
  [M, I],
  [('tile bounds', M + ':subdivide_bnd, subdivided_fixed_grid'), ('per-tile job', M + ':grid_GLM_flashes, proc_each_grid'),
   ('dispatch to the tile', L + ':sub-range selection in read_flashes')],
  [], ['the product files of all tiles']),

P('C12', 'Time series and aggregation keep every delivered frame at its own time',
  'Opening a set of product files as a series gives every frame once, at its own start time, whatever the order in which the files were delivered. '
  'Aggregating over intervals counts every frame in exactly the interval that contains its start time: counts, extents and energy are sums, mean areas are '
  'extent-weighted means, the smallest area is the minimum of non-empty cells. The inputs stay unchanged and a file that cannot be read is an error, not a gap.',
  ['histories', 'inputs', 'fault_sequences'],
  'Every delivery order, set of frames with gaps, interval length and span, and every read fault on the files.',
  'One test checks the split of a file name; no test opens a series or aggregates.',
  [I],
  [('series assembly', I + ':open_glm_time_series, gen_file_times'), ('aggregation', I + ':aggregate')],
  [], ['the returned datasets']),

P('C13', 'Parallel polygon clipping returns every piece once, in order, or fails',
  'Clipping polygons against a mesh with a pool of workers gives, for each polygon in order, the same pieces, areas and cells as doing it serially, and the pieces of a '
  'polygon inside the mesh add up to its area, whatever the number of workers, the order in which they finish and the batches. If a worker dies or fails '
  'the caller gets an error or the complete result, never a short or reordered one.',
  ['schedules', 'fault_sequences', 'inputs'],
  'Every worker count, completion order, worker failure point and set of polygons and meshes, including curvilinear meshes and polygons on the mesh edge.',
  'The clipping tests check a few polygons in one process and cannot delay or kill a worker.',
  [K, S],
  [('pool dispatch and collection', K + ':run_pool_map, QuadMeshPolySlicer.slice'), ('clipping', K + ':clip_polys_by_one_poly, make_sub_polys, join_polys'),
   ('cell selection', K + ':QuadMeshSubset')],
  [], ['the returned pieces']),

P('C14', 'ASCII conversion yields a whole snapshot of the records or an error',
  'Converting the text form of an event/group/flash file gives a dataset with exactly the records that were complete in the file at one instant, with their values and parent links, '
  'even if the file grows while it is read or reads come back short; a record is a line ended by a line feed. A read error, or a file cut inside a record, is an error and no partial dataset; '
  'the saved result reads back equal.',
  ['schedules', 'fault_sequences', 'inputs'],
  'Every content, growth step placed between any two file operations, short or failed read, and cut point.',
  'The converter has no test.',
  [V],
  [('record extraction', V + ':gen_flash_data, gen_group_data, gen_event_data, parse_LCFA_ASCII'), ('dataset assembly', V + ':merge_dataframes_to_xarray')],
  [], ['the returned dataset', 'the written file']),

P('C15', 'Saved pixel tables load back whole or not at all',
  'A pixel lookup table that was reported saved loads back equal and answers every position like the table that was saved. If saving is killed or fails at any operation, '
  'the file is the complete earlier table or the complete new one, or loading raises; a reader running at the same time never gets a mixture.',
  ['crash_points', 'fault_sequences', 'schedules'],
  'Every kill point, cut write and error of a save, over fresh and existing files, with readers interleaved.',
  'The tests load the shipped table and never save one.',
  [C],
  [('save and load', C + ':save_pixel_corner_lookup, load_pixel_corner_lookup, save_pixel_lookup, load_pixel_lookup'),
   ('lookup', C + ':create_pixel_lookup, quads_from_corner_lookup')],
  [], ['the table file', 'loaded tables']),

P('C16', 'Streamed accumulation is exact for any batching, order and interruption',
  'Feeding any stream of gridded contributions to the accumulators, in any order, cut into any batches (also empty ones), interleaved over several frames and fields, '
  'gives in each cell the exact sum, or the smallest of the positive contributions, of that frame and field, as long as a batch names a cell once. '
  'A batch that is rejected with an error changes no cell that it was not about, and closing one stream early never loses what was already sent or disturbs another.',
  ['schedules', 'histories', 'inputs'],
  'Every batch split, order and interleaving of streams, with streams closed at any point.',
  'The accumulation code is only reached through tests that cannot be collected here.',
  [A, M],
  [('sum', A + ':accumulate_var_on_grid_direct_idx'), ('minimum', A + ':accumulate_minvar_on_grid_direct_idx'), ('field selection', A + ':select_dataset')],
  [('target grids', 'arrays filled in place', A)], ['the grids after each batch']),

P('C19', 'Point tables list every record once, in any batches, or the read fails',
  'Reading the flashes of an open file as point tables, to be returned or sent to receivers, gives at flash, group and event level one row for each entity asked for and one point for each of '
  'its events, each once and with its own ID, position, time, area and energy, and the points of a batch are those of its entities. '
  'This holds for any batch size, any limits on place, size and number of parts, after any earlier read and with other threads reading at the same time, and the open data stay as they were. '
  'If a read or a receiver fails, the caller gets the error and never a table that is silently short, and the next read is complete again.',
  ['histories', 'schedules', 'fault_sequences', 'inputs'],
  'Every batch size, limit, history of reads, thread interleaving, read fault and failing receiver.',
  'No test reads point tables.',
  [L],
  [('batches', L + ':read_flashes, read_flash_chunk'), ('tables', L + ':mimic_lma_dataset, sec_since_basedate')],
  [], ['returned tables', 'tables sent to receivers', 'raised errors']),

P('C17', 'Ellipsoid and fixed-grid transforms are the stated geometry',
  'Longitude and latitude on the lightning ellipsoid of the stated revision map to the fixed grid and back by the documented geometry for every visible position.',
  ['inputs'], 'Every visible position, satellite position and ellipsoid revision.',
  'Two fixed points are tested.', ['glmtools/io/lightning_ellipse.py'],
  [('transform', 'glmtools/io/lightning_ellipse.py:ltg_ellps_lon_lat_to_fixed_grid, ltg_ellps_rev')]),

P('C18', 'Scene and file-name parsing are exact functions of their text',
  'The scene, sector and resolution codes of a product and the times in an input file name are decoded exactly for every well-formed value.',
  ['inputs'], 'Every well-formed name and grid description.',
  'Fixed examples only.', [G, I],
  [('file name parsing', G + ':parse_glm_filename, parse_glm_filename_time'), ('scene inference', I + ':infer_scene_from_dataset')]),
]

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in PROPS:
        assert len(p['title']) <= 80, p['title']
        assert p['statement'].count('. ') <= 2 and p['statement'].endswith('.'), p['id']
        f.write(json.dumps(p) + '\n')
print(len(PROPS), 'properties')
