#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the list below"""
import importlib, json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe='return values of the public API', claimed=True, reason='', note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=list(state), observe=observe, claimed=claimed, reason=reason, note=note))


from tools.proplist import fill  # noqa
fill(prop)
schema = json.load(open('/root/.vp/PROPERTIES.schema.json'))
import jsonschema
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        d = dict(
            id=p['id'], title=p['title'], statement=p['statement'],
            quantifier=dict(over=['inputs', 'configurations'], text=p['text']), why_tests_cant=p['why'],
            anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']],
                         state=[dict(name=x, meaning='', where='') for x in p['state']], observe_at=[p['observe']], hook_needed='no'))
        jsonschema.validate(d, schema)
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for p in P:
    if p['claimed']:
        checks.append(dict(
            property=p['id'], quick_cmd='./check %s' % p['id'], thorough_cmd='./check %s --tier thorough' % p['id'],
            technique='symbolic execution of the legume source (AST of /repo, re-read every run) over exact reals; '
                      'z3 (QF_NRA) decides every branch and assertion; counterexamples replayed on the real code',
            level='model_checking',
            level_note=(p['note'] + ' ' if p['note'] else '') +
            'Holds for every real value of the symbolic inputs inside the bounds printed in the evidence file; sizes are fixed per case. '
            'Trusts: floats read as exact reals (regularisers as infinitesimals), the numpy/scipy stand-ins (each case is validated '
            'against real runs of the same harness), z3.'))
    else:
        na.append(dict(property=p['id'], reason=p['reason']))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
               notes='See DESIGN.md. ./check ID --strict also fails on any inconclusive obligation.'),
          open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'n/a')


# ---- generated sections of DESIGN.md
import ast, glob, re


def head(path):
    t = ast.parse(open(path).read())
    d = dict(doc=ast.get_docstring(t), cases=0)
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'OUTSIDE', 'STUBS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    return d


def put(text, tag, body):
    i = text.index('<!-- BEGIN ' + tag)
    i = text.index('-->', i) + 4
    j = text.index('<!-- END ' + tag)
    return text[:i] + body + '\n' + text[j:]


f = os.path.join(here, 'DESIGN.md')
text = open(f).read()
body = ''
for p in P:
    h = head(os.path.join(here, 'props', p['id'] + '.py'))
    body += '### %s %s\n\n%s\n\n* anchors: %s\n* bounds: %s\n* outside: %s\n* stubs: %s\n* why tests cannot: %s\n\n' % (
        p['id'], p['title'], p['statement'], '; '.join('`%s`' % b for a, b in p['mech']), h['BOUNDS'], h['OUTSIDE'], h['STUBS'], p['why'])
text = put(text, 'PROPERTIES', body)
body = ''
for l in open(os.path.join(here, 'known_findings.txt')):
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', l)
    if m:
        body += '* %s, `%s`: %s\n' % m.groups()
text = put(text, 'FIXED', body)
body = '| id | check | needs | breaks |\n|---|---|---|---|\n'
for m in sorted(glob.glob(os.path.join(here, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    body += '| %s | %s (caught) | %s | %s |\n' % (os.path.basename(os.path.dirname(m)), d['property'], d['needs'], d['what_it_breaks'])
text = put(text, 'SEEDED', body)
open(f, 'w').write(text)
