#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEQ = ("exhaustive bounded enumeration of programs and inputs on the real code under a controlled scheduler, "
       "against an independent reference model")
SCH = ("stateless model checking of the real code: exhaustive exploration of goroutine schedules by number of "
       "deviations under a controlled scheduler")
NOTE = ("Every case within the stated bounds is executed on the instrumented real code; nothing is sampled. "
        "Trusted: the instrumenter and its channel/sync shims, the reference model in harness/. ")
LVL = {}
exec(open(os.path.join(here, 'tools', 'claims.py')).read())
checks, na = [], []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    if i in CLAIMS:
        tech, note = CLAIMS[i]
        checks.append(dict(property=i, quick_cmd=f'./check {i} quick', thorough_cmd=f'./check {i} thorough',
                           technique=tech, level='model_checking', level_note=NOTE + note))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
