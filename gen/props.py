"""Single source of properties.jsonl and MANIFEST.json (python3 gen/props.py writes both)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []      # (property record, technique, level_note) or (record, None, reason)


def prop(id, title, statement, over, qtext, why, files, mech, technique=None, note=None, na=None, state=None, observe=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe: a['observe_at'] = observe
    a['hook_needed'] = None
    P.append((dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': qtext}, why_tests_cant=why, anchors=a), technique, note, na))


exec(open(os.path.join(V, 'gen', 'list.py')).read())

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for r, *_ in P:
            assert len(r['title']) <= 80, r['title']
            f.write(json.dumps(r) + '\n')
    checks = []; na = []
    for r, t, n, reason in P:
        if t:
            checks.append({'property': r['id'], 'quick_cmd': 'python3 run.py %s --tier quick' % r['id'],
                           'thorough_cmd': 'python3 run.py %s --tier thorough' % r['id'],
                           'technique': t, 'level': 'other', 'level_note': n})
        else: na.append({'property': r['id'], 'reason': reason})
    m = {'version': 1, 'setup_cmd': 'python3 lib/build.py', 'checks': checks, 'not_applicable': na,
         'notes': 'All checks are static: they compile /repo\'s current C sources to LLVM IR (clang 18, stub App.h in stubs/) and analyse it; nothing of /repo is executed.'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
