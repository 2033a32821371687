"""Regenerate properties.jsonl and MANIFEST.json (run by hand, committed)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique,
         note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(text.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=' '.join(mech.split()),
                                               where=files[0])]),
                  technique=technique, note=' '.join(note.split())))


exec(open(os.path.join(HERE, 'tools', 'props.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({k: p[k] for k in (
            'id', 'title', 'statement', 'quantifier', 'why_tests_cant',
            'anchors')}) + '\n')
checks, na = [], []
for p in P:
    pid = p['id']
    if os.path.exists(os.path.join(HERE, 'checks', f'{pid.lower()}.py')):
        checks.append(dict(
            property=pid,
            quick_cmd=f'/opt/venv/bin/python -B run.py {pid} --tier quick',
            thorough_cmd=f'/opt/venv/bin/python -B run.py {pid} '
                         f'--tier thorough',
            technique=p['technique'], level='exploration',
            level_note=p['note']))
    else:
        na.append(dict(property=pid, reason='check not built yet'))
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(dict(version=1, setup_cmd='/opt/venv/bin/python -B setup.py',
                   checks=checks, not_applicable=na), f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not applicable')
