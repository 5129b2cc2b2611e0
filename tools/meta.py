import json,sys
i,p,n,w=sys.argv[1:]
json.dump({"property":p,"needs":n,"what_it_breaks":w},open("/verif/seeded/%s/meta.json"%i,"w"),indent=1)
