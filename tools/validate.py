#!/usr/bin/env python3
"""Validate properties.jsonl, MANIFEST.json and evidence against the schemas (run with python3-vt)."""
import json, jsonschema, os, glob
root=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); S='/root/.vp/'
s=json.load(open(S+'PROPERTIES.schema.json'))
for l in open(root+'/properties.jsonl'): jsonschema.validate(json.loads(l),s)
jsonschema.validate(json.load(open(root+'/MANIFEST.json')),json.load(open(S+'MANIFEST.schema.json')))
s=json.load(open(S+'EVIDENCE.schema.json'))
for f in glob.glob(root+'/evidence/*.json'): jsonschema.validate(json.load(open(f)),s)
json.load(open(root+'/known_findings.json')); print('valid')
