# usage: tri.py CHECK  <<< lines of JSON specs ; evaluates each isolated
import sys,json,subprocess
chk=sys.argv[1]
for i,l in enumerate(sys.stdin):
    l=l.strip()
    if not l: continue
    open(f'/tmp/tr/{i}.json','w').write(l)
    r=subprocess.run(['python3',f'/verif/checks/{chk}.py','--replay',f'/tmp/tr/{i}.json'],capture_output=True,text=True)
    print(i,r.stdout[:400].replace('\n',' | '), r.stderr[-500:] if r.returncode==2 else '')
