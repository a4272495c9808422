#!/usr/bin/env python3
"""DESIGN.md from design_body.md, the contracts, the cases, the findings and the planted bugs."""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(HERE, 'tools', 'design_notes.json')))


def decorated(path, name):
    out = []
    for n in ast.walk(ast.parse(open(path).read())):
        calls = []
        if isinstance(n, ast.FunctionDef):
            calls = [d for d in n.decorator_list if isinstance(d, ast.Call)]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Call):
            calls = [n.func]
        for d in calls:
            if isinstance(d.func, ast.Name) and d.func.id == name and d.args:
                a = d.args[0]
                t = a.value if isinstance(a, ast.Constant) else re.sub(r"' % .*$|^'|'$", '', ast.unparse(a)).replace("%s", '*')
                b = None
                if name == 'case' and len(d.args) > 2 and isinstance(d.args[2], ast.Constant):
                    b = d.args[2].value
                out.append((t, b))
    return out


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    na = {x['property']: x['reason'] for x in man.get('not_applicable', [])}
    sec = []
    for p in props:
        i = p['id']
        if i in na:
            continue
        con = decorated(os.path.join(HERE, 'props', i + '.py'), 'contract')
        for e in (os.path.join(HERE, 'evidence', i + '.json'), '/verif/evidence/%s.json' % i):
            if os.path.exists(e):                # the names as they are, where they are made in a loop
                con = [(c['name'], None) for c in json.load(open(e))['coverage']['contracts']]
                break
        cas = decorated(os.path.join(HERE, 'rt', i + '.py'), 'case')
        s = '### %s %s\n\n%s\n\n' % (i, p['title'], p['statement'])
        n = NOTES.get(i, {})
        s += '- *Specified:* %s\n' % n.get('spec', 'see the contracts')
        s += '- *Contracts (%d):* %s\n' % (len(con), '; '.join(t for t, b in con))
        s += '- *Run-time contract checks:* %s\n' % '; '.join(t + (' (%s)' % b if b else '') for t, b in cas)
        if n.get('bounded'):
            s += '- *Bounded only:* %s\n' % n['bounded']
        if n.get('why'):
            s += '- *Beyond the tests:* %s\n' % n['why']
        sec.append(s)
    fixed, known = [], []
    for l in open(os.path.join(HERE, 'known_findings.jsonl')):
        l = l.strip()
        if l.startswith('fixed:'):
            m = re.match(r'fixed: property=(\S+) (.*)', l)
            fixed.append('- %s: %s' % m.groups())
        elif l:
            d = json.loads(l)
            known.append('- %s, case "%s", input `%s`: %s' % (d['property'], d['case'], json.dumps(d['input']), d['what']))
    seeds = ['| planted | property | what it breaks | needs |', '|---|---|---|---|']
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded', '*', 'meta.json'))):
        d = json.load(open(f))
        needs = d['needs'] if isinstance(d['needs'], str) else '; '.join(d['needs'])
        seeds.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), d['property'], d['what_it_breaks'], needs))
    t = open(os.path.join(HERE, 'tools', 'design_body.md')).read()
    nat = '\n'.join('- %s: %s' % x for x in sorted(na.items())) or 'No listed property is claimed to be outside the reach of the technique.'
    nat += '\n' + NOTES.get('_outside', '')
    for k, v in (('PROPERTIES', '\n'.join(sec)), ('FIXED', '\n'.join(fixed)), ('KNOWN', '\n'.join(known)), ('SEEDS', '\n'.join(seeds)), ('NA', nat)):
        t = t.replace('@@%s@@' % k, v)
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(t)


main()
