"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'C01': 'Seeded search over record loss, orphaning, reordering and truncation of the feed plus interrupted and short reads; every opened file is compared with a reference tree. Trusts the synthetic file layout.',
 'C02': 'Seeded search over trees, query histories and thread interleavings at source-line granularity; every answer is compared with a reference model and the open data must not change.',
 'C03': 'Seeded search over combinations of damage, open options, sources and thread interleavings; every value is compared with a reference model.',
 'C04': 'Seeded search over injected read errors, short and interrupted reads, cut, missing and late files, in single opens and whole gridding jobs; results must equal the undisturbed ones or be an error, and retries must work.',
 'C05': 'Seeded search over file sets, delivery orders, frame splits, chunk sizes and grids; products are compared with an independent area-weighted reference accumulation. Trusts the stub of the lmatools helpers and the shipped pixel corner table.',
 'C06': 'Every file operation of a product write is a possible kill, cut or error point, sampled by seed; the product path is examined after every operation.',
 'C07': 'Seeded search over histories of writes, failed writes and rewrites on several gridders; products and gridder state are compared with a fresh single write.',
 'C08': 'Seeded search over frame contents and configurations; each acknowledged product is read back after the writer has died and compared cell by cell.',
 'C09': 'Seeded search over interleavings of the file operations of two to four jobs with crashes and errors.',
 'C10': 'Seeded search over clock readings, jumps and time zones with a simulated clock.',
 'C11': 'Seeded search over grids, tile counts, tile orders and clock steps; the union of tiles is compared with the untiled product.',
 'C12': 'Seeded search over delivery orders, gaps, intervals and read faults; series and aggregates are compared with a reference model. The multi-file open is an eager stand-in because dask is absent.',
 'C13': 'Seeded search over worker counts, completion orders and worker deaths in a simulated pool of real processes; pieces are compared with serial clipping and an independent geometry library.',
 'C14': 'Seeded search over contents, growth points, short and failed reads and cut points.',
 'C15': 'Seeded search over kill points, cut writes and errors of a save with readers interleaved.',
 'C19': 'Seeded search over batch sizes, limits, read histories, thread interleavings, read faults and failing receivers; every table is compared with a reference model.',
 'C16': 'Seeded search over batch splits, orders and interleavings of accumulation streams, compared with exact sums and minima.',
}
NA = {
 'C17': 'The transform is a pure function of its arguments: no schedule, clock, fault or I/O enters it, so there is nothing to simulate. It is exercised as part of C01, C02 and C05, which compare positions with an independent implementation.',
 'C18': 'Parsing a name and choosing a scene code are pure functions of a text or a few numbers: nothing to simulate.',
}
props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    if p in NA:
        na.append({'property': p, 'reason': NA[p]})
    elif os.path.exists(os.path.join(HERE, 'sim', 'props', p.lower() + '.py')):
        checks.append({'property': p, 'quick_cmd': './run.sh %s quick' % p, 'thorough_cmd': './run.sh %s thorough' % p,
                       'technique': 'deterministic simulation with fault injection', 'level': 'exploration',
                       'level_note': NOTE[p]})
    else:
        na.append({'property': p, 'reason': 'No check yet.'})
m = {'version': 1, 'setup_cmd': './run.sh build', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: all seams are outside it (preloaded interposer, thread baton, simulated pool).'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks')
