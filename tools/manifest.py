#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the scenarios that exist."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
src = ''.join(open(f).read() for f in glob.glob(root + '/harness/sc_*.go'))
have = set(re.findall(r'Prop:\s*`(C\d\d)`', src))
TECH = 'deterministic simulation: '
NOTE = {
 'C01': 'fingerprint of every frozen value (dump, lookups, hash, string, type) compared before and after seeded histories of up to 4 simulated goroutines',
 'C02': 'race detector under the simulated schedule plus comparison of every return value with a solo execution',
 'C03': 'race detector under the simulated schedule, in fresh processes for lazy initialisation, plus comparison of every result with a solo execution',
 'C04': 'reachability walk of everything that reports frozen, freezes and copies that fail at an injected position, contents compared',
 'C05': 'refinement against an executable reference model after every operation, with injected callback and element failures',
 'C06': 'history check of concurrent registrations: none lost, calls atomic, snapshots immutable, failing adders keep no lock',
 'C07': 'texts cut off and damaged at seeded positions, between and concurrent with successful parses; probes and alias map compared',
 'C08': 'recorded histories of concurrent loads checked against single assignment semantics, finders of the simulator',
 'C09': 'recorded histories of concurrent namespace requests checked for one loader per name, creators of the simulator',
 'C10': 'finders and creators that fail at injected calls; bounded progress afterwards and retries served',
 'C11': 'recorded histories of registrations, removals and lookups checked for one winner and linearizable lookups',
 'C12': 'a write error or short write injected at write positions of documents; prefix and report checked',
 'C13': 'documents cut at every byte and damaged; error required for every cut, bounded work and isolation for damage',
 'C14': 'round trips over deduplication levels and dialects, also concurrently with shared streamers',
 'C15': 'readers with seeded chunking and injected failures compared with the delivered bytes',
 'C16': 'consumers that fail at injected events and concurrent uses of one streamer compared with the undisturbed event sequence',
 'C17': 'a panic injected into the n-th invocation of every callback; identity of the panic, calls made and state afterwards compared',
 'C18': 'the same computation repeated under different seeded Go map iteration orders and hash seeds, results compared',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
            technique='deterministic simulation with fault injection: ' + NOTE[i], level='exploration',
            level_note='Seeded search over schedules, histories and faults; no violation in the explored runs, not a proof. The dgo packages run as real code compiled with a yield before every statement; goroutine scheduling, sync primitives, Go map order and the environment callbacks are the simulator\'s. Trusts the instrumentation to preserve meaning (the sequential results of the instrumented build are those of the code), and interleavings at statement granularity; races inside a statement are left to the race detector.'))
    elif i.startswith('N'):
        na.append(dict(property=i, reason='A pure function of its arguments: no schedule, clock, I/O, other party, environment order or fault can change the outcome, so simulation would only be input fuzzing under another name.'))
    else:
        na.append(dict(property=i, reason='The scenario for this property is not finished yet.'))
m = dict(version=1, setup_cmd='./check.sh prebuild', checks=checks, not_applicable=na,
    notes='No hooks in /repo: the checks instrument a scratch copy of the working tree (yields, simulated sync) and overlay the Go runtime\'s map seed at build time. Repairs of genuine defects are the fix: commits in /repo, listed in known_findings.json.')
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
print(len(checks), len(na))
