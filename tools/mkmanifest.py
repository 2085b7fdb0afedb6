"""Writes MANIFEST.json: claims the properties listed in CLAIMED."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
CLAIMED = json.load(open(os.path.join(HERE, 'tools', 'claimed.json')))
NOTE = ('Bounded: holds for every value within the stated shape bounds (see the evidence file for the bounds and the '
        'functions executed). Trusted: z3, CPython, the small engine in symx/ (validated on every run by replaying '
        'sample paths on the unmodified code), bronx. ')

checks = []
na = []
for p in props:
    i = p['id']
    if i in CLAIMED:
        checks.append(dict(property=i, quick_cmd='./check {} quick'.format(i),
                           thorough_cmd='./check {} thorough'.format(i),
                           technique='path-wise symbolic execution of the real Python code with z3 deciding branches and assertions',
                           level='model_checking', level_note=NOTE + CLAIMED[i]))
    else:
        na.append(dict(property=i, reason='check under construction'))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na)
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as fh:
    json.dump(m, fh, indent=1)
    fh.write('\n')
print(len(checks), 'claimed', len(na), 'not')
