import json, sys
for p in sys.argv[1:]:
    for o in json.load(open("/verif/evidence/%s.json" % p))["coverage"]["undecided_obligations"]:
        print("UND", p, o["key"], "|", o["where"], "|", o["detail"][:500])
