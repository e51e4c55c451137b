#!/usr/bin/env python3
"""Writes SUITES.md: what every suite of every property enumerates, with its bounds in both tiers."""
import os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = {f: open(f'{here}/mc/src/props/{f}').read() for f in sorted(os.listdir(here + '/mc/src/props')) if f.endswith('.rs')}
consts = {m.group(1): re.sub(r'\\\n\s*', '', m.group(2)) for s in src.values() for m in re.finditer(r'const (\w+): &str = "((?:[^"\\]|\\.|\\\n)*)"', s)}
props = {}
for f, s in src.items():
    for m in re.finditer(r'id: "(C\d\d)"(.*?)\n(?:\};|\})', s, re.S):
        props[m.group(1)] = m.group(2)
literal = src['literal.rs']
props['C12'] = ''.join(re.findall(r'Suite::new\([^\n]*', literal))
out = ['# Suites of the checks', '', 'Generated by `tools/suites.py`. "So many" in a description is the bound, quick / thorough.', '']
for pid in sorted(props):
    out += ['## ' + pid, '', '| suite | bound | what is enumerated |', '|---|---|---|']
    for m in re.finditer(r'Suite::new\("([^"]+)", (?:"((?:[^"\\]|\\.)*)"|([\w:]+)), \w+\)(?:\.(bound|devs)\((\d+), (\d+)\))?', props[pid]):
        name, text, const, kind, q, t = m.groups()
        text = text or consts[const.split('::')[-1]]
        bound = f'{q} / {t}' + (' deviations' if kind == 'devs' else '') if kind else ''
        out.append(f'| {name} | {bound} | {text} |')
    out.append('')
open(here + '/SUITES.md', 'w').write('\n'.join(out))
