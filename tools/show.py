import json,sys,glob
for f in sorted(glob.glob(f'/verif/evidence/replays/{sys.argv[1]}-*'))[:int(sys.argv[2]) if len(sys.argv)>2 else 8]:
    d=json.load(open(f)); i=d.get('input') or d.get('data') or d
    print("=====",f.split('/')[-1],d['class'],'|',d['message'][:400])
    s=i.get('source') if isinstance(i,dict) else str(i)
    print(s[:int(sys.argv[3]) if len(sys.argv)>3 else 1500]); print('EXPECTED',i.get('expected') if isinstance(i,dict) else '')
