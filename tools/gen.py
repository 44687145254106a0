"""Writes properties.jsonl and MANIFEST.json from one table (tools/table.py)."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from table import PROPS, NA  # noqa

ROOT = os.path.dirname(HERE)
TECH = 'static analysis: abstract interpretation of the Python source'


def main():
  with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
      f.write(json.dumps(dict(
          id=p['id'], title=p['title'], statement=p['statement'],
          quantifier=dict(over=p['over'], text=p['quant']),
          why_tests_cant=p['why'],
          anchors=dict(files=p['files'], mechanism=[
              dict(name=m.strip(), where=', '.join(p['files']))
              for m in p['mech'].split(';')]))) + '\n')
  man = dict(version=1, setup_cmd='true', checks=[], not_applicable=[])
  for p in PROPS:
    man['checks'].append(dict(
        property=p['id'],
        quick_cmd=f"python3-vt check.py {p['id']} --tier quick",
        thorough_cmd=f"python3-vt check.py {p['id']} --tier thorough",
        technique=p.get('tech', TECH),
        level='other',
        level_note=p['note']))
  for p in NA:
    man['not_applicable'].append(dict(property=p['id'], reason=p['reason']))
  with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')


main()


def design():
  t = open(os.path.join(HERE, 'DESIGN.tmpl.md')).read()
  root = os.path.dirname(HERE)
  kf = json.load(open(os.path.join(root, 'known_findings.json')))
  fx = []
  for x in kf['fixed']:
    _, p, c, *w = x.split(' ')
    fx.append(f"* {p.split('=')[1]}, {c}: {' '.join(w)}.")
  rows = ['| change | property (check that catches it) | needs | breaks |', '|---|---|---|---|']
  sd = os.path.join(root, 'seeded')
  for d in sorted(os.listdir(sd)):
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    rows.append(f"| {d} | {m['property']} | {m['needs']} | {m['what_it_breaks']} |")
  t = t.replace('@@FIXES@@', '\n'.join(fx)).replace('@@BUGS@@', '\n'.join(rows))
  t = t.replace('@@MORE@@\n', '')
  open(os.path.join(root, 'DESIGN.md'), 'w').write(t)


design()
