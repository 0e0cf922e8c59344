"""Source of properties.jsonl, MANIFEST.json and checks/index.json: `python3 spec.py` rewrites them."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
C = 'ipyparallel/controller/'
CL = 'ipyparallel/cluster/'
K = 'ipyparallel/client/'
PROPS = []
NA = []
TECH = 'bounded symbolic execution of the real Python code (symx) with z3 deciding every branch and assertion'


def prop(id, title, statement, over, text, why, files, mech, module, observe=(), state=(), assumptions=(),
         note=''):
    PROPS.append(dict(
        rec=dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=text),
                 why_tests_cant=why,
                 anchors=dict(files=list(files), mechanism=[dict(name=n, where=w) for n, w in mech],
                              state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                              observe_at=list(observe), hook_needed=None)),
        module=module, assumptions=list(assumptions), note=note))


def na(rec_id, title, statement, over, text, why, files, mech, reason):
    prop(rec_id, title, statement, over, text, why, files, mech, None)
    NA.append(dict(property=rec_id, reason=reason))


exec(open(os.path.join(HERE, 'spec_props.py')).read())


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p['rec']) + '\n')
    idx = {p['rec']['id']: dict(module=p['module'], assumptions=p['assumptions']) for p in PROPS if p['module']}
    with open(os.path.join(HERE, 'checks', 'index.json'), 'w') as f:
        json.dump(idx, f, indent=1)
    checks = []
    for p in PROPS:
        if not p['module']:
            continue
        i = p['rec']['id']
        checks.append(dict(
            property=i, quick_cmd=f'python3-vt run.py {i} quick', thorough_cmd=f'python3-vt run.py {i} thorough',
            evidence_file=f'evidence/{i}.json', technique=TECH, level='other',
            level_note=('Exhaustive within the stated bounds: ' + p['rec']['quantifier']['text'] +
                        ' Outside the bounds nothing is claimed. ' + p['note']).strip()
            + ' Trusts: the symx engine, z3, and the stubs listed in the evidence file.'))
    m = dict(version=1, setup_cmd='python3-vt -c "import sys; sys.path.insert(0, \'.\'); from symx import env; '
             'env.setup(); import z3, zmq, traitlets, tornado, jupyter_client, ipyparallel"',
             checks=checks, not_applicable=NA)
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
    import subprocess  # validate when the tooling venv is there
    print(len(PROPS), 'properties', len(checks), 'checks', len(NA), 'not applicable')


if __name__ == '__main__':
    main()
