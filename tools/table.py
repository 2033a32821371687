"""Append the table of planted bugs to DESIGN.md (missed-at-first in MISSED)."""
import json, os, sys
MISSED = set(open('tools/missed.txt').read().split())
s = open('DESIGN.md').read()
i = s.index('caught after strengthening that check.\n') + 39
rows = ['', '| bug | property | needs |', '|---|---|---|']
for b in sorted(os.listdir('seeded')):
    m = json.load(open(f'seeded/{b}/meta.json'))
    rows.append(f"| {b}{'*' if b in MISSED else ''} | {m['property']} | "
                f"{' '.join(m['needs'].split())} |")
open('DESIGN.md', 'w').write(s[:i] + '\n'.join(rows) + '\n')
