"""Writes DESIGN.md from properties.jsonl, the explanations of the last run of each check
(evidence/), the notes below and tools/caught.json (which check caught which planted bug)."""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = open(os.path.join(ROOT, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(ROOT, 'tools', 'design_tail.md')).read()
NOTES = json.load(open(os.path.join(ROOT, 'tools', 'design_notes.json')))
NA = json.load(open(os.path.join(ROOT, 'tools', 'not_applicable.json')))
CAUGHT = json.load(open(os.path.join(ROOT, 'tools', 'caught.json')))


def main():
    out = [HEAD.rstrip(), '']
    out.append('## Properties\n')
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    for p in props:
        pid = p['id']
        out.append('### %s - %s\n' % (pid, p['title']))
        if not os.path.exists(os.path.join(ROOT, 'checks', pid + '.py')):
            out.append('*Not decided.* %s\n' % NA[pid])
            continue
        ev = json.load(open(os.path.join(ROOT, 'evidence', pid + '.json')))
        cov = ev['coverage']
        out.append('**How it is decided.** %s\n' % cov['explanation'])
        n = NOTES.get(pid, {})
        out.append('**Oracle.** %s\n' % n['oracle'] if 'oracle' in n else '')
        out.append('**Bounds.** %s\n' % n.get('bounds', ''))
        out.append('**Cost.** About %s; %d obligations on the current tree.\n' % (n.get('cost', '2 s'), cov.get('obligations', 0)))
        out.append('**Why this reaches what tests cannot.** %s\n' % n.get('reach', p['why_tests_cant']))
        mine = [(b, c) for b, c in sorted(CAUGHT.items()) if c['property'] == pid]
        if mine:
            out.append('**Planted bugs.** ' + '; '.join('`%s` (%s)' % (b, 'caught' if c['caught'] else 'missed: ' + c.get('why', ''))
                                                      for b, c in mine) + '.\n')
        if n.get('alarms'):
            out.append('**False alarms corrected.** %s\n' % n['alarms'])
    out.append(TAIL.rstrip())
    known = [l.strip() for l in open(os.path.join(ROOT, 'KNOWN_FINDINGS.txt')) if l.strip() and not l.startswith('#')]
    out.append('\n### Defects found on the original tree\n')
    for l in known:
        kind, rest = l.split(':', 1)
        out.append('* %s: %s' % (kind, rest.strip()))
    open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(x for x in out if x is not None) + '\n')


main()
