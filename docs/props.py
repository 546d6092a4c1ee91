#!/usr/bin/env python3
"""The properties, in one place; writes properties.jsonl and MANIFEST.json.
Run by hand after editing (the outputs are committed)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = []


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, state=None, na=None):
    assert len(title) <= 80, (id, len(title))
    d = {'id': id, 'title': title, 'statement': statement,
         'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
    if state:
        d['anchors']['state'] = [{'name': a, 'meaning': b, 'where': c} for a, b, c in state]
    P.append((d, technique, note))
    if na:
        NA.append({'property': id, 'reason': na})


RB = 'include/xtr/detail/synchronized_ring_buffer.hpp'
SK = 'include/xtr/sink.hpp'
ST = 'include/xtr/detail/string_table.hpp'
TR = 'include/xtr/detail/trampolines.hpp'
CO = 'src/consumer.cpp'
PRN = 'include/xtr/detail/print.hpp'
BU = 'src/buffer.cpp'
SKC = 'src/sink.cpp'
LG = 'include/xtr/logger.hpp'
exec(open(os.path.join(V, 'docs', 'list.py')).read())

with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for d, _, _ in P:
        f.write(json.dumps(d) + '\n')
na = {x['property'] for x in NA}
m = {'version': 1,
     'setup_cmd': 'python3 -B -c "import sys; sys.path.insert(0, \'.\'); from xa import build; build.tool()"',
     'checks': [{'property': d['id'], 'quick_cmd': './check ' + d['id'], 'thorough_cmd': './check %s --thorough' % d['id'],
                 'technique': t, 'level': 'other', 'level_note': n} for d, t, n in P if d['id'] not in na],
     'not_applicable': NA,
     'notes': 'Every check compiles the current /repo sources to LLVM IR (never runs them), links and flattens them with tool/irx.cpp and decides the property with the rules in xa/rules. See DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(V, 'MANIFEST.json'), 'a').write('\n')
print(len(P), 'properties', len(m['checks']), 'checks')
