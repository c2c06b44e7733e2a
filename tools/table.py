"""Prints the table of planted bugs for DESIGN.md."""
import json, os
D = '/verif/seeded'
OTHER = {'C04-branches': 'C06'}
print('| Bug | What it breaks | Needs | Caught by |\n|---|---|---|---|')
for d in sorted(os.listdir(D)):
    m = json.load(open(f'{D}/{d}/meta.json'))
    print(f"| {d} | {m['what_it_breaks']} | {m['needs']} | {OTHER.get(d, m['property'])} |")
