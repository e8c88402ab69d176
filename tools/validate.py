#!/opt/veriftools/pyvenv/bin/python
import json, jsonschema, sys, glob
S = lambda n: json.load(open("/root/.vp/%s.schema.json" % n))
for l in open("/verif/properties.jsonl"): 
  d = json.loads(l); jsonschema.validate(d, S("PROPERTIES")); assert d["statement"].count(". ") <= 3, d["id"]
jsonschema.validate(json.load(open("/verif/MANIFEST.json")), S("MANIFEST"))
for f in glob.glob("/verif/evidence/*.json"): jsonschema.validate(json.load(open(f)), S("EVIDENCE"))
print("valid")
