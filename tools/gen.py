"""Writes properties.jsonl and MANIFEST.json from tools/texts.py and the checks present in props/."""
import importlib
import json
import os
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from tools.texts import P  # noqa: E402

NA = {
    'P30': 'not finished in the time available, rather than out of reach. Encoded directly, the claims mix log, exp and erfc with a continued fraction of up to 100 divisions, and z3 '
           'gives no answer. A prototype that first rewrites the continued fraction to a quotient of polynomials in one variable was decided by nlsat in seconds per cell, but no '
           'complete, mutation-tested check came of it. The approximation of erfcx that the normal functions rest on is decided in P29.',
}

checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'hook_needed': None}}) + '\n')
        if os.path.exists(os.path.join(V, 'props', p['id'] + '.py')) and p['id'] not in NA:
            m = importlib.import_module('props.' + p['id'])
            a = '; '.join(getattr(m, 'ASSUME', [])) or 'none'
            s = '; '.join(getattr(m, 'STUBS', [])) or 'none beyond DESIGN.md'
            checks.append({
                'property': p['id'],
                'quick_cmd': f'python3-vt -m symex.main {p["id"]}',
                'thorough_cmd': f'python3-vt -m symex.main {p["id"]} --thorough',
                'technique': 'symbolic execution of the built LLVM IR + SMT (z3)' if p['id'] != 'P36' else
                'symbolic execution of the Python source + SMT (z3)',
                'level': 'model_checking',
                'level_note': f'Bounded, solver-decided. Bounds: {m.BOUNDS}. Assumes: {a}. Stubs: {s}. Trusts: the IR executor, clang -O1 '
                              'lowering, z3; every alarm is replayed on the built module.'})
        else:
            na.append({'property': p['id'], 'reason': NA.get(p['id'], 'no check built yet')})
json.dump({'version': 1,
           'setup_cmd': 'python3-vt -c "from symex import build; build.ensure_build(); build.prepare()"',
           'checks': checks, 'not_applicable': na,
           'notes': 'See DESIGN.md. No hooks are needed in /repo.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)

SECONDS = dict(P01=107, P02=136, P03=60, P04=8, P05=61, P06=2, P07=17, P08=9, P09=6, P10=30, P11=1, P12=15, P13=65, P14=19, P15=26,
               P16=1, P17=160, P18=17, P19=44, P20=70, P21=77, P22=45, P23=3, P24=12, P25=37, P26=27, P27=3, P28=118, P29=50,
               P31=46, P32=15, P33=1, P34=13, P35=30, P36=50)
claimed = {c['property'] for c in checks}
rows = []
for p in P:
    if p['id'] not in claimed:
        continue
    m = importlib.import_module('props.' + p['id'])
    t = SECONDS.get(p['id'])
    rows.append(f"**{p['id']} {p['title']}**" + (f' ({t} s)' if t else '') + f"\n: Method: {p['design']}. Bounds: {m.BOUNDS}."
                f" Assumes: {'; '.join(getattr(m, 'ASSUME', [])) or 'nothing'}."
                f" Beyond tests: {p['why']}\n")
seeds = ['| change | property | needs |', '|---|---|---|']
for n in sorted(os.listdir(os.path.join(V, 'seeded'))) if os.path.isdir(os.path.join(V, 'seeded')) else []:
    d = json.load(open(os.path.join(V, 'seeded', n, 'meta.json')))
    seeds.append(f"| {n}: {d['what_it_breaks']} | caught by {d['property']} | {d['needs']} |")
text = {'properties': '\n'.join(rows), 'seeds': '\n'.join(seeds),
        'na': '\n'.join(f"* **{d['property']}** {next(p['title'] for p in P if p['id'] == d['property'])}: {d['reason']}" for d in na)}
path = os.path.join(V, 'DESIGN.md')
s = open(path).read()
for k, v in text.items():
    a, b = s.split(f'<!-- {k} -->')
    s = a + f'<!-- {k} -->\n' + v + '\n<!-- end -->' + b.split('<!-- end -->', 1)[1]
open(path, 'w').write(s)
