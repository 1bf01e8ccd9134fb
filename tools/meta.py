"""Writes properties.jsonl and MANIFEST.json from one table.

    python tools/meta.py        (run by hand after editing; the output is committed)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
NA = {}


def prop(pid, title, statement, over, text, why, files, mech, state=None, observe=None,
         hook=None, tech=None, note=None):
    assert len(title) <= 80, (pid, len(title))
    d = dict(id=pid, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state:
        d['anchors']['state'] = [dict(name=x, meaning=x, where=files[0]) for x in state]
    if observe:
        d['anchors']['observe_at'] = observe
    d['anchors']['hook_needed'] = hook or None
    P.append((d, tech, note))


from meta_table import fill   # noqa: E402
fill(prop, NA)


def main():
    built = {f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'dst', 'props'))
             if f.startswith('c') and f.endswith('.py')}
    checks, na = [], []
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for d, tech, note in P:
            pid = d['id']
            if pid in built:
                checks.append(dict(
                    property=pid, quick_cmd=f'bash check.sh {pid}',
                    thorough_cmd=f'VERIF_TIER=thorough bash check.sh {pid}',
                    technique='deterministic simulation with fault injection: ' + tech,
                    level='exploration', level_note=note,
                    evidence_file=f'evidence/{pid}.json'))
            elif pid in NA:
                na.append(dict(property=pid, reason=NA[pid]))
            else:
                continue
            f.write(json.dumps(d) + '\n')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='bash setup.sh',
                       checks=checks, not_applicable=na), f, indent=1)
        f.write('\n')
    print(len(checks), 'checks', len(na), 'n/a')


main()
