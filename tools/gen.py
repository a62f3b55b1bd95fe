#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa

with open(VERIF + '/properties.jsonl', 'w') as fh:
    for p in PROPS + NOT_APPLICABLE:
        assert len(p['title']) <= 80, p['id']
        fh.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [
                {'name': n, 'where': w} for n, w in p['mech']]},
        }, ensure_ascii=False) + '\n')
json.dump({
    'version': 1,
    'setup_cmd': 'python3 check.py --selftest',
    'checks': [{
        'property': p['id'],
        'quick_cmd': 'python3 check.py %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3 check.py %s' % p['id'],
        'technique': p['technique'],
        'level': 'other',
        'level_note': p['note'],
    } for p in PROPS],
    'not_applicable': [{'property': p['id'], 'reason': p['reason']}
                       for p in NOT_APPLICABLE],
}, open(VERIF + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
