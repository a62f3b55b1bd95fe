#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md, a section per property (from
tools/props.py, the rules in the evidence files and tools/design_notes.py),
the planted changes, tools/design_tail.md."""
import json
import os
import sys
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import props                                          # noqa: E402
import design_notes                                   # noqa: E402


def para(s):
    return textwrap.fill(' '.join(s.split()), 78) + '\n'


def rules_of(pid):
    f = os.path.join(VERIF, 'evidence', pid + '.json')
    cov = json.load(open(f))['coverage']
    text = cov['explanation'].partition('Rules: ')[2]
    return [r for r in text.split(' || ') if r.strip()], cov


def main():
    out = [open(os.path.join(HERE, 'design_head.md')).read()]
    out.append('## Properties\n')
    known = open(os.path.join(VERIF, 'known_findings.txt')).read().split('\n')
    for p in sorted(props.PROPS, key=lambda p: p['id']):
        pid = p['id']
        out.append('### %s — %s\n' % (pid, p['title']))
        out.append(para(p['statement']))
        out.append(para('*Quantifies over* ' + p['quant'] +
                        '. *Why tests cannot settle it:* ' + p['why']))
        out.append(para('*Decided by* ' + p['technique'] + '.'))
        rules, cov = rules_of(pid)
        out.append('Rules:\n')
        for r in rules:
            name, _, text = r.partition(': ')
            out.append(textwrap.fill('* `%s` — %s' % (name, text), 78,
                                     subsequent_indent='  '))
        out.append('')
        out.append(para(
            '*Extent on the current tree:* %d obligations, %d undecided (not '
            'claimed); %s.' % (
                cov['obligations'], cov['undecided'], ', '.join(
                    '%s %s' % (v, k) for k, v in cov['counts'].items()))))
        for t in design_notes.NOTES.get(pid, ()):
            out.append(para(t))
        note = p['note'].partition('not claimed. ')[2] or p['note']
        if note and not note.startswith('Static:'):
            out.append(para('*Limits:* ' + note))
        fixed = [k for k in known if 'property=%s ' % pid in k]
        if fixed:
            out.append('Defects found in 00mjk/QNET:\n')
            for k in fixed:
                kind, _, rest = k.partition(': property=%s ' % pid)
                out.append(textwrap.fill(
                    '* %s: %s' % (kind, rest), 78, subsequent_indent='  '))
            out.append('')
    out.append('## Not applicable to static analysis\n')
    for x in props.NOT_APPLICABLE:
        out.append(textwrap.fill('* **%s** %s — %s' % (
            x['id'], x['title'], x['reason']), 78, subsequent_indent='  '))
    out.append('')
    out.append('## Planted changes\n')
    out.append(para(
        'Every change was written from the text of a property, keeps all '
        'stable tests passing and has a demonstration that fails with it. All '
        'of the following are caught by the check of their own property '
        '(`python3 tools/recheck.py` applies each and runs it).'))
    out.append('| change | what it breaks | what it needs |\n|---|---|---|')
    for d in sorted(os.listdir(os.path.join(VERIF, 'seeded'))):
        m = json.load(open(os.path.join(VERIF, 'seeded', d, 'meta.json')))
        out.append('| %s | %s | %s |' % (
            d, ' '.join(m['what_it_breaks'].split()),
            ' '.join(m['needs'].split())))
    out.append('')
    out.append(open(os.path.join(HERE, 'design_tail.md')).read())
    open(os.path.join(VERIF, 'DESIGN.md'), 'w').write('\n'.join(out))


if __name__ == '__main__':
    main()
