# per-function solver time: prof.py TEMPLATE S
import json,subprocess,sys
s=subprocess.run(['/verif/verus/run.sh',sys.argv[1],sys.argv[2],'--time-expanded','--output-json'],capture_output=True,text=True).stdout
a=s.find('\n{')+1 if not s.startswith('{') else 0
j,_=json.JSONDecoder().raw_decode(s[a:])
print(j['verification-results'])
fs=[]
for m in j['times-ms']['smt']['smt-run-module-times']:
  for f in m['function-breakdown']: fs.append((f['time'],f.get('rlimit'),f['function'],f['success']))
fs.sort(reverse=True)
for f in fs[:15]: print(f)
