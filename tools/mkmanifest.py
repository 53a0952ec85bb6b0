#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and registry.py."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
import registry
props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl'))]
NA = getattr(registry, 'NOT_APPLICABLE', {})
checks, na = [], []
for p in props:
    i = p['id']
    if i in registry.CHECKS:
        c = registry.CHECKS[i]
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i}', thorough_cmd=f'env VERIF_TIER=thorough python3 check.py {i}',
                           technique=c['technique'], level='model_checking',
                           level_note=c.get('note', 'TLC checks the specification within the bounds of the .cfg files; generated behaviours are replayed into the real crate. Trusts TLC, the harness projection and the host toolchain; inputs beyond the bounds are sampled, not enumerated.')))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
m = dict(version=1, setup_cmd='cd harness && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=target cargo build --offline --quiet && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=target-alt cargo build --offline --quiet --no-default-features --features alt', checks=checks, not_applicable=na)
if getattr(registry, 'HOOKS', None): m['hooks'] = registry.HOOKS
json.dump(m, open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(na), 'unclaimed')
