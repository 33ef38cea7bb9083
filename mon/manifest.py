# coding=utf-8
"""Writes /verif/MANIFEST.json from the properties and the checks that exist: python3 mon/manifest.py"""
import ast
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def assigned(path):
    with open(path, encoding='utf-8') as reader:
        tree = ast.parse(reader.read())
    out = {}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            try:
                out[node.targets[0].id] = ast.literal_eval(node.value)
            except ValueError:
                pass
    return out


def main():
    checks, missing = [], []
    with open(os.path.join(VERIF, 'properties.jsonl'), encoding='utf-8') as reader:
        properties = [json.loads(line) for line in reader]
    for p in properties:
        path = os.path.join(VERIF, 'mon', 'checks', p['id'].lower() + '.py')
        if not os.path.isfile(path):
            missing.append(dict(property=p['id'], reason='its monitor is not built yet'))
            continue
        values = assigned(path)
        checks.append(dict(
            property=p['id'], quick_cmd='./check.sh %s' % p['id'],
            thorough_cmd='VERIF_TIER=thorough ./check.sh %s' % p['id'],
            evidence_file='evidence/%s.json' % p['id'],
            technique=values['TECHNIQUE'], level='exploration',
            level_note=values.get('LEVEL_NOTE', 'online monitors judge every observed call of seeded random workloads; '
                                                'it says nothing about executions that were not produced')))
    manifest = dict(version=1, setup_cmd='./check.sh setup', checks=checks, not_applicable=missing)
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as writer:
        json.dump(manifest, writer, indent=1)
        writer.write('\n')
    print('%d checks, %d not claimed' % (len(checks), len(missing)))


if __name__ == '__main__':
    main()
