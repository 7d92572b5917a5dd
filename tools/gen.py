"""Regenerates properties.jsonl and MANIFEST.json from props_data.py and the property modules present."""
import ast, glob, json, os, re, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
from props_data import P
TECH = 'explicit-state / stateless model checking of the real code: exhaustive bounded enumeration against a reference model'


def consts(path):
    t = ast.parse(open(path).read())
    out = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('TECHNIQUE', 'LEVEL_NOTE', 'BOUNDS', 'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def design():
    rd = lambda f: open(os.path.join(HERE, f)).read()
    o = [rd('tools/design_head.md'), '\n## Properties\n']
    for p in P:
        mods = glob.glob(os.path.join(HERE, 'mc/props', p['id'].lower() + '_*.py'))
        o.append('\n### %s %s\n%s\n' % (p['id'], p['title'], p['statement']))
        if not mods:
            o.append('\nNo check: see Not claimed.\n')
            continue
        c = consts(mods[0])
        o.append('\n* Check: `mc/props/%s`: %s.\n* Explored: %s.\n* Quick: %s.\n* Thorough: %s.\n' % (
            os.path.basename(mods[0]), c.get('TECHNIQUE'), c.get('LEVEL_NOTE'), c.get('BOUNDS', {}).get('quick'), c.get('BOUNDS', {}).get('thorough')))
        if c.get('ASSUMPTIONS'):
            o.append('* Assumptions: %s.\n' % '; '.join(c['ASSUMPTIONS']))
        o.append('* Why tests cannot settle it: %s\n' % p['why_tests_cant'])
    o.append('\n' + rd('tools/design_tail.md'))
    fixed, known = [], []
    for l in rd('known_findings.jsonl').splitlines():
        if l.startswith('fixed:'):
            fixed.append('* ' + l[7:])
        elif l.strip():
            d = json.loads(l)
            known.append('* %s: %s' % (d['property'], d['what']))
    o.append('\n## Defects found and repaired (one `fix:` commit each)\n' + '\n'.join(fixed) + '\n')
    o.append('\n## Known findings (genuine defects, recorded because the repair is large or locked by a test)\n' + '\n'.join(known) + '\n')
    o.append('\n## Planted bugs (seeded/)\nAll of them were tried with `tools/seed.py`: stable tests pass, demonstration fails with the change, and the property\'s quick check reports it unless the last column says otherwise.\n\n| id | property | needs | breaks | result |\n|---|---|---|---|---|\n')
    try:
        missed = json.loads(rd('tools/missed.json'))
    except OSError:
        missed = {}
    for d in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        m = json.load(open(d))
        i = os.path.basename(os.path.dirname(d))
        o.append('| %s | %s | %s | %s | %s |\n' % (i, m['property'], m['needs'], m['what_it_breaks'], missed.get(i, 'caught')))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(''.join(o))


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, (p['id'], len(p['title']))
            f.write(json.dumps(p) + '\n')
    checks, na = [], []
    for p in P:
        mods = glob.glob(os.path.join(HERE, 'mc/props', p['id'].lower() + '_*.py'))
        if not mods:
            na.append(dict(property=p['id'], reason='no check built (yet)'))
            continue
        src = open(mods[0]).read()
        m = re.search(r"^TECHNIQUE = (.+)$", src, re.M)
        n = re.search(r'^LEVEL_NOTE = \((.*?)^\)$', src, re.M | re.S)
        note = eval('(' + n.group(1) + ')') if n else 'bounded exhaustive exploration of the real implementation; see DESIGN.md'
        checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
                           thorough_cmd='./check %s thorough' % p['id'],
                           technique=eval(m.group(1)) if m else TECH,
                           level='model_checking', level_note=note))
    json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na),
              open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    design()
    print(len(checks), 'claimed', len(na), 'not')


main()
