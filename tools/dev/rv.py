import sys,importlib; sys.path.insert(0,'/verif')
from pyvc import api
p=sys.argv[1]; sel=sys.argv[2] if len(sys.argv)>2 else ''
importlib.import_module('contracts.'+p.lower())
for v in api.VCS[p.upper()]:
    if sel in v.name:
        r=api.run_vc(v)
        print(v.name, r['status'], r['discharged'],'/',r['obligations'],'paths',r['paths'],r['wall'],r['backends'])
        if r['status']!='ok':
            print('   ',r['info'][-1800:])
            for f in r['failed'][:4]:
                print('   FAIL',f['name'],f['status'],f['backend'],(f['info'] or '')[:4000],'\n     goal',f['goal'] and f['goal'][:700],'\n     pc',f['pc'][-12:], 'note',f['note'],'model',(f['model'] or '')[:400])
