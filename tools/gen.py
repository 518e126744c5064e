#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/properties.py and tools/checks.py."""
import json, pathlib, sys
here = pathlib.Path(__file__).resolve().parent
sys.path.insert(0, str(here))
from properties import PROPERTIES
root = here.parent
(root / 'properties.jsonl').write_text(''.join(json.dumps(p) + '\n' for p in PROPERTIES))
for p in PROPERTIES:
    assert len(p['title']) <= 80, p['id']
try:
    from checks import CHECKS, NOT_APPLICABLE, TOP
except ImportError:
    sys.exit(0)
claimed = {c['property'] for c in CHECKS}
na = [dict(property=p['id'], reason=NOT_APPLICABLE.get(p['id'], 'check not built yet')) for p in PROPERTIES if p['id'] not in claimed]
m = dict(version=1, **TOP, checks=CHECKS, not_applicable=na)
(root / 'MANIFEST.json').write_text(json.dumps(m, indent=1) + '\n')
