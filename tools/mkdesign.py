"""Regenerate the table of harnesses at the end of DESIGN.md (python3-vt tools/mkdesign.py)."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from symx import runner_env  # noqa: E402

MARK = '<!-- generated by tools/mkdesign.py -->'


SEEDS = ('<!-- seeds -->', '<!-- end of seeds -->')


def seeds(text):
    """The table of the planted bugs (tools/caught.json: which ones the quick checks catch)."""
    with open(os.path.join(HERE, 'tools', 'caught.json')) as fh:
        caught = json.load(fh)
    rows = ['| planted bug | what it breaks | needs | quick check |', '|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        with open(os.path.join(HERE, 'seeded', d, 'meta.json')) as fh:
            m = json.load(fh)
        rows.append('| {} | {} | {} | {} |'.format(d, m['what_it_breaks'], m['needs'], caught.get(d, 'not run')).replace('\n', ' '))
    a, b = (text.index(x) for x in SEEDS)
    return text[:a] + SEEDS[0] + '\n\n' + '\n'.join(rows) + '\n\n' + text[b:]


def main():
    runner_env.import_real()
    for f in sorted(os.listdir(os.path.join(HERE, 'harness'))):
        if f.endswith('.py') and not f.startswith('_'):
            before = set(runner_env.META)
            importlib.import_module('harness.' + f[:-3])
            for h in set(runner_env.META) - before:
                runner_env.META[h]['module'] = f
    with open(os.path.join(HERE, 'properties.jsonl')) as fh:
        props = [json.loads(x) for x in fh]
    out = [MARK, '']
    for p in props:
        out.append('**{} {}**'.format(p['id'], p['title']))
        out.append('')
        for h, m in sorted(runner_env.META.items(), key=lambda x: (x[1]['tier'] != 'quick', x[0])):
            if m['prop'] == p['id']:
                out.append('* `{}:{}`{}: {}'.format(m['module'], h.split('.')[1], '' if m['tier'] == 'quick' else ' ({})'.format(m['tier']),
                                                    ' '.join(m['bounds'].split())))
        out.append('')
    path = os.path.join(HERE, 'DESIGN.md')
    with open(path) as fh:
        text = fh.read().split(MARK)[0].rstrip() + '\n\n'
    text = seeds(text)
    with open(path, 'w') as fh:
        fh.write(text + '\n'.join(out))


main()
