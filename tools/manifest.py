#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property that has a module in harness/src/main.rs."""
import json, re, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
main = open(here + '/harness/src/main.rs').read()
have = {m.upper() for m in re.findall(r'"(c\d\d)" p_', main)}
NOTES = json.load(open(here + '/tools/notes.json'))
hook = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^Verification hook'],
                      capture_output=True, text=True).stdout.split()
checks = []
for l in open(here + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    if i not in have:
        continue
    n = NOTES[i]
    checks.append({
        'property': i,
        'quick_cmd': f'./check {i} quick',
        'thorough_cmd': f'./check {i} thorough',
        'technique': n['technique'],
        'level': 'exploration',
        'level_note': n['note'],
    })
m = {
    'version': 1,
    'setup_cmd': './check C18 quick',
    'hooks': {'guard': 'nanvm_verif', 'enable': "RUSTFLAGS='--cfg nanvm_verif' (./check sets it for C20)",
              'source_commits': hook},
    'checks': checks,
    'not_applicable': [],
}
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
open(here + '/MANIFEST.json', 'a').write('\n')
print(len(checks), 'checks')
