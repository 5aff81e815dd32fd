import json,sys
def add(prop,commit,what):
    with open('/verif/known_findings.jsonl','a') as f:
        f.write(json.dumps(dict(status='fixed',property=prop,commit=commit,what=what,text=f'fixed: property={prop} {commit} {what}'))+'\n')
if __name__=='__main__': add(*sys.argv[1:4])
