"""Writes MANIFEST.json from properties.jsonl and rules.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from rules import RULES
T = {
 'C01': 'runtime monitoring: snapshots of every query after each operation of generated histories, compared with an executable model',
 'C02': 'runtime monitoring: operation histories checked online against an executable model, snapshots around refusals',
 'C03': 'runtime monitoring: recorded iteration orders over histories compared with an executable model',
 'C04': 'runtime monitoring: outcome monitor on lookups of known and unknown ids over histories',
 'C05': 'runtime monitoring: accept/refuse monitor against an independent validator, injected input faults',
 'C06': 'runtime monitoring: accept/refuse monitor against an independent validator, injected repetitions',
 'C07': 'runtime monitoring: equality observed on generated pairs of graphs with known answer',
 'C08': 'runtime monitoring: offline checker over recorded step traces (coverage, exactly-once, flags)',
 'C09': 'runtime monitoring: offline order checker over recorded step traces',
 'C10': 'runtime monitoring: offline checker over recorded step traces (coverage, exactly-once, flags)',
 'C11': 'runtime monitoring: offline order and distance checker over recorded step traces',
 'C12': 'runtime monitoring: differential checker over consumption histories of live iterators',
 'C13': 'runtime monitoring: conformance of tables and graphs to the recorded step trace',
 'C14': 'runtime monitoring: component observations checked against union-find',
 'C15': 'runtime monitoring: maximality monitor on results, certified optimum for the size',
 'C16': 'runtime monitoring: validity monitor over results and all views of the pairing',
 'C17': 'runtime monitoring: optimality monitor with independent Tutte-Berge certificates',
 'C18': 'runtime monitoring: before/after conservation monitor on matched nodes',
 'C19': 'runtime monitoring: call histories checked after every call against a model of disjoint pairs',
 'C20': 'runtime monitoring: call histories with augmentations and rejected paths against a model',
 'C21': 'runtime monitoring: metamorphic comparison of traces and results across names and graph implementations',
 'C22': 'runtime monitoring: observations in interleaved and concurrent histories against fresh processes; ThreadSanitizer with delays',
 'C23': 'runtime monitoring: panic, signal, query-count, code-region, memory and stack monitors under stress workloads',
 'C24': 'sanitizers: Miri, AddressSanitizer and LeakSanitizer on generated programs, allocation balance monitor',
}
EXTRA = {
 'C22': ' Assumes that ThreadSanitizer reports races on the schedules that occur; other schedules are not covered.',
 'C24': ' Assumes that Miri and the sanitizers are right about what they execute; races are looked for under Miri here and under ThreadSanitizer in C22.',
}
checks = []
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l)['id']
    checks.append(dict(property=p, quick_cmd='python3 check.py ' + p, thorough_cmd='VERIF_TIER=thorough python3 check.py ' + p,
        evidence_file='evidence/%s.json' % p, technique=T[p], level='exploration',
        level_note='The property held on every execution observed, on the real crate built from the working tree; ' + RULES[p]['rule'].split('. ')[0] + '. Inputs outside the generated families and sizes are not covered; the reference models and checkers are trusted.' + EXTRA.get(p, '')))
for c in checks: c['technique'] += '; workload partly coverage-guided'
m = dict(version=1, setup_cmd='python3 check.py --build', checks=checks, not_applicable=[],
    notes='No hooks in /repo: the public API, foreign implementations of the Graph trait, compiler coverage counters, a counting allocator and sanitizers observe enough. check.py --replay FILE repeats a reported case.')
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
