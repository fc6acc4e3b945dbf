#!/opt/venv/bin/python
"""Assemble DESIGN.md from doc/, the properties, the checks and the planted bugs."""
import ast
import glob
import json
import os
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
COST = json.load(open(os.path.join(HERE, 'doc/cost.json')))


def rule_and_counts(path):
    tree = ast.parse(open(path).read())
    rule, counts = '', []
    for n in tree.body:
        name = getattr(n.targets[0], 'id', '') if isinstance(n, ast.Assign) else ''
        if name == 'RULE':
            rule = ast.literal_eval(n.value)
        if name == 'TESTS':
            for c in n.value.elts:
                quick = [k.value.value for k in c.keywords if k.arg == 'quick'][0]
                counts.append((c.args[0].value, quick))
    return rule, counts


def wrap(text, lead='* '):
    return textwrap.fill(' '.join(text.split()), 79, initial_indent=lead, subsequent_indent='  ',
                         break_on_hyphens=False, break_long_words=False)


def main():
    out = [open(os.path.join(HERE, 'doc/head.md')).read(), '## Properties\n']
    bugs = {}
    for f in sorted(glob.glob(os.path.join(HERE, 'seeded/*/meta.json'))):
        m = json.load(open(f))
        bugs.setdefault(m['property'], []).append((os.path.basename(os.path.dirname(f)), m))
    props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
    for p in props:
        rule, counts = rule_and_counts(os.path.join(HERE, 'checks', p['id'] + '.py'))
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append(wrap('Holds for: ' + p['quantifier']['text']))
        out.append(wrap('Why tests cannot settle it: ' + p['why_tests_cant']))
        out.append(wrap('Generator, non-trivial rule, oracle: ' + rule))
        out.append(wrap('Bounds and cost: %s cases at the quick tier, twelve times that at the thorough tier; about %s s '
                        'quick.' % (', '.join('%d `%s`' % (n, t) for t, n in counts), COST.get(p['id'], '?'))))
        if p['id'] in bugs:
            out.append(wrap('Planted bugs caught by this check: ' + ', '.join('`%s`' % b for b, _ in bugs[p['id']])))
        out.append('')
    out.append('No property is listed as not applicable: each one quantifies over inputs or sequences\n'
               'of inputs and has a computable oracle.\n')
    out.append(open(os.path.join(HERE, 'doc/tail.md')).read())
    out.append('## Planted bugs\n\nEach is caught by the check of its own property (quick tier, seed 1).\n')
    out.append('| bug | property | needs |\n|---|---|---|')
    for pid in sorted(bugs):
        for b, m in bugs[pid]:
            out.append('| %s | %s | %s |' % (b, pid, m['needs'].replace('|', '/')))
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')


if __name__ == '__main__':
    main()
