"""Writes DESIGN.md from the text below, the properties of spec.py, the rules of the checks, the planted bugs and the findings."""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()

HOW = {}
for block in re.split(r'\n(?=## P\d\d)', open(os.path.join(HERE, 'tools', 'design_props.md')).read()):
    m = re.match(r'\s*## (P\d\d)\n(.*)', block, re.S)
    if m:
        HOW[m.group(1)] = m.group(2).strip()

TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()


def rule(pid):
    s = open(os.path.join(HERE, 'checks', pid.lower() + '.py')).read()
    m = re.search(r"S = Spec\(\s*'%s',(.*?)\n?\s*required\s*=\s*(\[.*?\])" % pid, s, re.S)
    text = ' '.join(re.findall(r"'((?:[^'\\]|\\.)*)'|\"((?:[^\"\\]|\\.)*)\"", m.group(1)) and
                    [a or b for a, b in re.findall(r"'((?:[^'\\]|\\.)*)'|\"((?:[^\"\\]|\\.)*)\"", m.group(1))])
    events = re.findall(r"'(\w+)'", m.group(2))
    return re.sub(r'\s+', ' ', text).replace("\\'", "'"), events


def main():
    import importlib.util
    spec = importlib.util.spec_from_file_location('spec', os.path.join(HERE, 'tools', 'spec.py'))
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    out = [HEAD.rstrip(), '', '## Properties, one by one', '']
    for p in sorted(mod.PROPS, key=lambda p: p['id']):
        text, events = rule(p['id'])
        out += ['### %s %s' % (p['id'], p['title']), '', p['statement'], '', '*Workload.* ' + text, '', '*Oracle.* ' + HOW[p['id']], '',
                '*Not settled by tests because* %s. *Bounds.* %s' % (p['why_tests_cant'], p['note']), '',
                '*Must be seen, else the run is inconclusive:* ' + ', '.join(events) + '.', '']
    out += ['## Planted bugs and what catches them', '',
            'Each is in `seeded/<id>` with a demonstration, written from the property and the code only. All are caught by the quick check of their property.', '',
            '| planted bug | property | what it needs |', '|---|---|---|']
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if os.path.isdir(os.path.join(HERE, 'seeded')) else []:
        m = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        out.append('| %s | %s | %s |' % (d, m['property'], m['needs'].replace('|', '/')))
    known = json.load(open(os.path.join(HERE, 'known_findings.json')))
    out += ['', '## Defects found', '', 'Recorded, not repaired (`known_findings.json`):', '']
    out += ['- %s (%s, `%s`): %s' % (f['id'], f['property'], ', '.join(f['keys']), f['what']) for f in known['findings']]
    out += ['', 'Repaired, one `fix:` commit each; the check of the property reports the violation again when the repair is reverted (tried for all of them but five that later repairs build upon):', '']
    out += ['- %s `%s` %s' % re.match(r'fixed: property=(\S+) (\S+) (.*)', f).groups() for f in known['fixed']]
    out += ['', TAIL.rstrip(), '']
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
