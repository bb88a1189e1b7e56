"""MANIFEST.json from props.py"""
import json
import props
ids = [json.loads(l)['id'] for l in open('properties.jsonl')]
checks = []
for p in ids:
    if p not in props.PROPS:
        continue
    d = props.PROPS[p]
    checks.append(dict(property=p, quick_cmd='bin/check ' + p, thorough_cmd='VERIF_TIER=thorough bin/check ' + p,
                       evidence_file='evidence/%s.json' % p,
                       technique=d.get('technique', 'contract-based deductive verification (irv over LLVM IR, z3)'),
                       level=props.level(p), level_note=d.get('note', props.NOTE)))
na = [dict(property=p, reason=props.NOT_APPLICABLE.get(p, props.NA_DEFAULT)) for p in ids if p not in props.PROPS]
json.dump(dict(version=1, setup_cmd='bin/setup', checks=checks, not_applicable=na,
               notes='No hooks: the checks extract /repo sources unmodified. See DESIGN.md.'), open('MANIFEST.json', 'w'), indent=1)
