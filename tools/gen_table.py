#!/usr/bin/env python3
""" table of planted bugs for DESIGN.md, from seeded/*/meta.json """
import json
import pathlib

ROOT = pathlib.Path(__file__).resolve().parent.parent
FIRST_MISSED = set('''c04-truncated-index c11-close-ties c18-known-in-batch c19-parallel-tolerance c21-clipped-steps c05-shared-index
c19-tolerant-start c29-almost-equal-losses c17-unnoticed-conflict c30-first-eight-subspaces c22-near-interactions c12-recent-margins
c19-first-fifty-samples c17-first-four-attributes c06-one-more-iteration c18-tolerance-of-subspaces c31-falsy-sum'''.split())
START, END = '<!-- table: tools/gen_table.py -->', '<!-- end of table -->'

rows = ['| change | caught by | needs | |', '|---|---|---|---|']
for path in sorted(ROOT.glob('seeded/*/meta.json')):
    meta = json.loads(path.read_text())
    name = path.parent.name
    rows.append('| {} | {} | {} | {} |'.format(name, meta['property'], ' '.join(meta['needs'].split()), 'missed at first' if name in FIRST_MISSED else ''))
design = ROOT / 'DESIGN.md'
text = design.read_text()
head, rest = text.split(START)
tail = rest.split(END)[1] if END in rest else '\n'
design.write_text(head + START + '\n\n' + '\n'.join(rows) + '\n\n' + END + tail)
