#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = 'the UAX #29 model written for this check and the pinned Unicode 17 data, themselves tested against the official conformance vectors'
checks = {
 'C01': ('property-based testing: bounded-exhaustive class sequences and random texts against a UAX #29 reference model, cross-checked with ICU', 'Every sequence of character classes up to the stated length and a large random sample of longer texts; trusts ' + MODEL + '.'),
 'C02': ('property-based testing: partition and progress invariants over random byte strings, every prefix, both atEOF values', 'Random and enumerated byte strings including all kinds of ill-formed ones; no oracle beyond the invariants.'),
 'C03': ('property-based testing: generated read schedules, buffer limits and injected read faults, differential against one-shot segmentation', 'All splits of short texts and random schedules of longer ones; assumes bufio.Scanner itself is right.'),
 'C04': ('property-based testing: random ill-formed byte strings against a reference model of structural UTF-8 plus UAX #29', 'Overlong, surrogate and out-of-range encodings are left out, as in the property; trusts ' + MODEL + '.'),
 'C05': ('property-based testing: every prefix of generated texts, finality checked against the model over many continuations', 'Finality is checked for the generated continuations, readiness exactly by the model.'),
 'C06': ('property-based testing under the race detector: generated concurrent schedules, aliasing and guard-page placements, repeated calls', 'Interleavings are those the Go scheduler produced; the race detector reports unsynchronised access whatever the timing, memory protection any write or out-of-bounds access.'),
 'C07': ('property-based testing: metamorphic relations (cut at a boundary, append text)', 'No reference model is involved in the relation.'),
 'C08': ('property-based testing: exhaustive enumeration of all scalar values in contexts that tell all property classes apart', 'Complete over scalar values in the probe contexts; trusts the pinned Unicode 17 data.'),
 'C09': ('property-based testing: generated repetitions up to hundreds of thousands of characters, closed-form expectation and model', 'Lengths are sampled up to a bound.'),
 'C10': ('property-based testing: generated regional indicator runs with a closed-form expectation', 'Run lengths are enumerated up to a bound and sampled beyond.'),
 'C11': ('property-based testing: enumerated and random infixes between pictographs, closed-form GB11 oracle', 'All infixes up to the stated length over the relevant classes, random beyond.'),
 'C12': ('property-based testing: enumerated and random infixes between consonants, closed-form GB9c oracle', 'All infixes up to the stated length over the relevant classes, random beyond.'),
 'C13': ('property-based testing: grammar-based jamo sequences, metamorphic decomposition relation, all 11172 syllables', 'Every precomposed syllable and every short jamo sequence; random beyond.'),
 'C14': ('property-based testing: every control character in generated texts, isolation oracle', 'Every control class member is used; contexts are sampled.'),
 'C15': ('property-based testing: metamorphic insertion of marks and prepended characters', 'Every extending, spacing and prepended character is used; contexts are sampled.'),
 'C16': ('property-based testing: generated UCD files and reader faults with entries known by construction', 'Well-formed files in many formattings; unspecified input (reversed ranges, lines without separator) is left out.'),
 'C17': ('property-based testing: generated conformance vector files and reader faults with entries known by construction', 'Well-formed files in many formattings, and one invalid value at a time.'),
 'C18': ('property-based testing: generated UCD data sets through the real generator, compiled and probed for every scalar value; injected input faults', 'Each generated table is checked completely; the data sets are a sample. Part of the cases run in process and are skipped (and reported so) if the internals no longer offer them.'),
 'C19': ('property-based testing: exhaustive differential of committed and regenerated tables, and of shipped data and pinned Unicode 17 data', 'Complete over code points in the probe contexts; trusts the pinned Unicode 17 data.'),
 'C20': ('property-based testing: call-for-call differential on three Go releases, all scalar values and random byte strings', 'The Go releases are those installed (1.25, 1.26, 1.27).'),
 'C21': ('property-based testing: generated buffers and split functions, differential against a bufio.Scanner', 'Split functions are twenty families with random parameters.'),
 'C22': ('property-based testing: all short byte strings and random longer ones against unicode/utf8, generated read schedules', 'Complete up to three bytes; sampled beyond.'),
 'C23': ('property-based testing: generated texts of doubling sizes, metamorphic relation between size and processor time, and between size and storage allocated', 'Sizes up to 1 MiB; a cost per byte that grows less than tenfold over a factor of 4096 is not seen. Time is the thread\'s own processor time, and a failure must repeat six times.'),
 'C25': ('property-based testing: metamorphic (same assignments, other files, environments and earlier tables), byte-identical output and untouched surroundings', 'A sample of data sets; dependence on something that none of the three environments changes would go unseen.'),
 'C26': ('property-based testing: generated concurrent and nested uses under the race detector, each compared with the same use alone', 'Schedules are those that happen; the race detector reports unsynchronised sharing whatever the timing. Separate autoversion and parser harnesses, newest Go release only.'),
 'C24': ('property-based testing: metamorphic canonical decomposition, every decomposable character in every pair of contexts, every pair of reordered marks, random texts', 'Trusts the pinned Unicode 17 decompositions (from ICU 78, compared with Python\'s where both know the character).'),
}
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
m = dict(version=1, setup_cmd='python3 check.py --setup', hooks=None, checks=[], not_applicable=[],
 notes='check.py builds the harnesses in h/ from /repo\'s working tree with the installed Go toolchains (offline), runs them in parallel shards, confirms and records violations under replays/ (not in git) and writes evidence/. `python3 check.py --replay FILE` runs a replay file again. /repo has no hooks.')
del m['hooks']
for p in props:
    t, n = checks[p['id']]
    if p['id'] <= 'C15' and p['id'] != 'C08' or p['id'] in ('C23', 'C24'):
        t += '; with a search guided by the coverage and comparisons of instrumented code'
    m['checks'].append(dict(property=p['id'], quick_cmd='python3 check.py %s --tier quick' % p['id'], thorough_cmd='python3 check.py %s --tier thorough' % p['id'],
                            technique=t, level='exploration', level_note=n))
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(here, 'MANIFEST.json'), 'a').write('\n')
