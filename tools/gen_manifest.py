"""Writes MANIFEST.json from the check modules present in rv/props."""
import os, json, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)

NOTES = {
    'default': "Bounded random exploration of executions of the real code; holds on what was explored, see the evidence file.",
}
PY = "/opt/venv/bin/python -m rv.run {}"

props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
checks, notes = [], []
for p in props:
    id = p['id']
    path = os.path.join(ROOT, 'rv', 'props', id.lower() + '.py')
    if not os.path.exists(path): continue
    src = open(path).read()
    ns = {}
    for line in src.split('\n'):
        for name in ('LEVEL', 'TECHNIQUE', 'LEVEL_NOTE'):
            if line.startswith(name + ' = '): ns[name] = eval(line.split(' = ', 1)[1])
    checks.append(dict(
        property=id, quick_cmd=PY.format(id), thorough_cmd=PY.format(id) + " --tier thorough",
        evidence_file="evidence/{}.json".format(id),
        technique=ns.get('TECHNIQUE', "runtime monitoring of the real code against an executable model under controlled schedules and faults"),
        level=ns.get('LEVEL', 'exploration'),
        level_note=ns.get('LEVEL_NOTE', NOTES['default'])))
man = dict(version=1,
           setup_cmd="/opt/venv/bin/python -m rv.selftest",
           checks=checks, not_applicable=[],
           notes="Checks import ade from /repo as it is; nothing is built. Replays: /opt/venv/bin/python -m rv.run ID --replay FILE.")
json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), "checks")
