#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the registered harnesses and properties.jsonl."""
import json, re, glob
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
claimed = set()
for f in glob.glob('/verif/h/*.go'):
    claimed |= set(re.findall(r'reg\("(C\d\d)"', open(f).read()))
NA = {}
checks = []
na = []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append(dict(property=i, quick_cmd=f'./check.sh {i} quick', thorough_cmd=f'./check.sh {i} thorough',
            technique='symbolic execution of the Go SSA of /repo with harness assertions decided by z3 (QF_BV), counterexamples replayed on the compiled code',
            level='model_checking',
            level_note='Every path within the bounds of the instances listed in the evidence is explored and every assertion is decided for all inputs of the path; nothing is claimed beyond the bounds. Trusted: the executor (validated by replaying sampled paths on the compiled code), z3, the models of sync, os.ReadFile and fmt, and the reference models in the harnesses.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no harness built yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
    notes='gosym (engine/, cmd/gosym) is a symbolic executor for Go; the harnesses are in h/. Each check loads the SSA of /repo from its current working tree. No hooks are needed in /repo.')
json.dump(m, open('/verif/MANIFEST.json','w'), indent=1)
open('/verif/MANIFEST.json','a').write('\n')
