import json,sys
for p in sys.argv[1:]:
    c=json.load(open('/verif/evidence/%s.json'%p))['coverage']
    print(p,c['entries'],'inc',c['incomplete'],'dis',str(c['native_disagreements'])[:600],'unc',str(c['unconfirmed'])[:800],'cov',c['witnesses_reached'],'unk',c['solver_unknown'])
