#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that have harnesses."""
import json, re, glob, os
os.chdir(os.path.dirname(os.path.abspath(__file__)))
done = sorted({m for f in glob.glob('harness/h/c*.go') for m in re.findall(r'^func (C\d\d)_', open(f).read(), re.M)})
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
NOTE = {}
base = ("Bounded: every feasible path of the real code (go/ssa of /repo's current source) over symbolic inputs within the stated "
        "shape/value bounds; obligations decided by canonical polynomial form and z3; counterexamples are replayed against the compiled code "
        "before they are reported. Float rounding is outside the model (reals, NaN, infinities); the executor, go/ssa and the solver are trusted.")
NOTE['C20'] = ("Bounded: for every pair of calls within the stated bounds the executor computes the memory footprints and lock sets of both sides of "
        "the real code over symbolic inputs and reports conflicting unsynchronised accesses; violations are replayed under the race detector. "
        "Go's scheduler and memory model are represented by the footprint/lockset argument, not explored as interleavings.")
checks = [dict(property=p, quick_cmd=f'bash check.sh {p} quick', thorough_cmd=f'bash check.sh {p} thorough',
     evidence_file=f'evidence/{p}.json', technique='symbolic execution of the Go SSA with SMT (z3), counterexamples replayed natively',
     level='model_checking', level_note=NOTE.get(p, base)) for p in ids if p in done]
na = [dict(property=p, reason='harness not built yet') for p in ids if p not in done]
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
     notes='No hooks in /repo: harnesses enter through a build overlay (zz_verif/). Known findings and fixed defects: known_findings.txt. Method and bounds: DESIGN.md.')
json.dump(m, open('MANIFEST.json', 'w'), indent=1); open('MANIFEST.json','a').write('\n')
