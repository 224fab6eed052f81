"""Writes /verif/MANIFEST.json from the checks that exist."""
import json
import os
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
NA = {
    'C15': 'a pure comparison of two validators of one message: nothing for a simulator to schedule or fail',
    'C16': 'a pure function of one schema (its behaviour under read faults is C12, under threads C11, after other schemas C13)',
    'C17': 'a pure function of one dependency graph (its reproducibility and history independence are in C08 and C13)',
    'C18': 'a pure function of one schema and a width',
    'C19': 'a pure function of one string',
}
NOTE = {
    'C01': ('deterministic simulation: seeded thread scheduler (random walk, PCT, site-directed) at line and bytecode granularity; oracle: each call run alone in a pristine fork',
            'Every switch between threads is chosen by the simulator inside one interpreter; C code (json, re) runs atomically as under the GIL. Schemas, values and schedules are sampled from one seed.'),
    'C02': ('deterministic simulation: seeded call histories with injected interrupts, allocation failures and stack exhaustion at call boundaries; oracle: each call run alone in a pristine fork',
            'Cuts are placed at call boundaries inside the library, where the interpreter delivers them; histories of up to about 50 calls on up to 4 codecs.'),
    'C03': ('deterministic simulation: peers with their own hash seed, zone, locale and clock over a simulated lossy network; oracle: executable model of JADN values and the sent value',
            'JSON codec only. Schemas come from a generator of valid JADN; excluded constructs are listed in DESIGN.md.'),
    'C04': ('deterministic simulation: seeded transport damage (bytes, truncation, splices, structure) between peers; oracle: executable model of JADN value validity, message and value compared part by part, documented exceptions',
            'Validity is judged by an independent model that abstains where JADN is unclear (DESIGN.md).'),
}
NOTE.update({
    'C05': ('deterministic simulation: save in one simulated process and environment, load in another, with split and interrupted I/O; oracle: canonical equality with the saved schema',
            'Texts in descriptions are single lines; excluded constructs are listed in DESIGN.md.'),
    'C06': ('deterministic simulation: fault injection at chosen file operations of each save, then retries; oracle: bytes of a fault-free save in a pristine process',
            'Disk faults act at operations of the file seam (open, write, close); buffering below the interpreter is the simulator\'s.'),
    'C07': ('deterministic simulation: broken schemas and injected exceptions (interrupt, memory, stack) during rendering over an existing output file; oracle: prior contents',
            'Exceptions are placed at call boundaries before the first output operation.'),
    'C08': ('deterministic simulation: the same artifacts made in simulated processes differing in hash seed, address layout, zone, locale, clock, directory and history; oracle: byte equality',
            'Environments are sampled; process differences come from real interpreter start-up options plus simulated clock, locale and pid.'),
    'C09': ('deterministic simulation: package directories with simulated listing orders and read faults; oracle: small reference resolver and equality across orders',
            'Package graphs of up to 6 packages; list-form namespaces are not used (the code does not support them, DESIGN.md).'),
    'C10': ('deterministic simulation: batch run killed or failed at chosen file operations any number of times and rerun; oracle: output directory of an uninterrupted run',
            'The kill is a process exit at a file operation, buffered data lost, written data kept, last write possibly torn.'),
    'C11': ('deterministic simulation: seeded thread scheduler over schema tools sharing one schema; oracle: each operation run alone in a pristine fork, schema compared at every switch',
            'As C01.'),
    'C12': ('deterministic simulation: torn, corrupted and unreadable schema files and reference files through the file seam; oracle: independent JADN rules model and a fault-free load of the same bytes',
            'Damage is sampled; validity is judged where the model has an opinion.'),
    'C13': ('deterministic simulation: seeded histories of schema tools over valid and broken schemas with injected interrupts, allocation failures and stack exhaustion; oracle: each operation run alone in a pristine fork',
            'As C02.'),
    'C14': ('deterministic simulation: peers holding the schema in different forms over a simulated lossy and damaging network, with restarts to another form; oracle: agreement of all peers, the sent value, executable model of JADN values',
            'Values as in C03, damage as in C04; unfolded schemas are exchanged in memory or as JSON, since their names need not be valid JADN names.'),
})
checks, na = [], [{'property': k, 'reason': v} for k, v in NA.items()]
for i in range(1, 15):
    p = f'C{i:02d}'
    if os.path.exists(f'{V}/dst/checks/{p.lower()}.py'):
        checks.append({'property': p, 'quick_cmd': f'/opt/venv/bin/python run.py check {p}', 'thorough_cmd': f'/opt/venv/bin/python run.py check {p} --thorough',
                       'technique': NOTE[p][0], 'level': 'exploration', 'level_note': NOTE[p][1]})
    else:
        na.append({'property': p, 'reason': 'within reach of this family; the check is not built yet'})
m = {'version': 1, 'setup_cmd': '/opt/venv/bin/python -B -c "import sys; sys.path.insert(0, \'/repo/distribution/src\'); import jadn"', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check: 8 workers, all randomness from VERIF_SEED; replay with: /opt/venv/bin/python run.py replay FILE. No hooks in /repo: the seams are the standard library entry points.'}
with open(f'{V}/MANIFEST.json', 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
