import json,sys
d=json.load(open(sys.argv[1]));print(d['observed'])
for k,v in d['spec'].items():
    if isinstance(v,list):
        print(k+':')
        for a in v: print('   ',a)
    else: print(k,v)
