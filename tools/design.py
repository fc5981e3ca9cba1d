"""Writes DESIGN.md from the rule texts, the seeded bugs and the prose below."""
import ast, glob, json, os, re, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = {p['id']: p for p in map(json.loads, open(ROOT + '/properties.jsonl'))}
NA = {x['property']: x['reason'] for x in json.load(open(ROOT + '/MANIFEST.json'))['not_applicable']}

HEAD = open(ROOT + '/tools/design_head.md').read()
PROSE = {}
cur = None
for l in open(ROOT + '/tools/design_props.md'):
    m = re.match(r'## (\w\d\d)\s*$', l)
    if m:
        cur = m.group(1)
        PROSE[cur] = []
    elif cur:
        PROSE[cur].append(l.rstrip())


def rules(pid):
    """(id, text) of the rules the file declares"""
    out = []
    for n in ast.walk(ast.parse(open('%s/rules/%s.py' % (ROOT, pid.lower())).read())):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'rule' and len(n.args) > 1:
            try:
                out.append((n.lineno, ast.literal_eval(n.args[0]), ast.literal_eval(n.args[1])))
            except ValueError:
                pass
    return [x[1:] for x in sorted(out)]


def seeded():
    by = {}
    for m in sorted(glob.glob(ROOT + '/seeded/*/meta.json')):
        j = json.load(open(m))
        by.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(m)), j))
    return by


HEAD = HEAD.replace('@COUNT@', str(len([p for p in PROPS if p not in NA])))
FIXED = len(json.load(open(ROOT + '/known-findings.json')).get('fixed', ()))
out = [HEAD.rstrip(), '', '# Properties', '']
by = seeded()
for pid, p in PROPS.items():
    if pid in NA:
        continue
    out += ['## %s %s' % (pid, p['title']), '', p['statement'], '', 'Rules (`rules/%s.py`):' % pid.lower(), '']
    out += ['- **%s** %s' % (r, ' '.join(t.split())) for r, t in rules(pid)]
    out += [''] + '\n'.join(PROSE.get(pid, [])).strip().split('\n') + ['']
    for b, j in by.get(pid, []):
        out.append('- seeded `%s` (caught): %s; needs %s.' % (b, j['what_it_breaks'].rstrip('.'), j['needs'].rstrip('.')))
    out.append('')
out += ['# Not applicable', '']
for pid, why in NA.items():
    out.append('- **%s %s.** %s' % (pid, PROPS[pid]['title'], why))
out += ['', open(ROOT + '/tools/design_tail.md').read().rstrip().replace('@FIXED@', str(FIXED)), '']
open(ROOT + '/DESIGN.md', 'w').write(re.sub(r'\n{3,}', '\n\n', '\n'.join(out)))
