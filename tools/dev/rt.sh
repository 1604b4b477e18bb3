cd /verif/rt
for p in "$@"; do /opt/venv/bin/python run.py $p --budget ${B:-8} --seed ${S:-1} --scale ${K:-1} > /tmp/o.json; python3 -c "
import json; d=json.load(open('/tmp/o.json')); print(d['property'],d['cases'],d['checkers'],round(d['wall'],1))
for f in d['failures']: print('  FAIL',f['checker'],f['case'],f['message'][:1200]); print('    ',{k:str(v)[:300] for k,v in f['inputs'].items()})
"; done
