import json,sys,glob
for f in sorted(glob.glob(f'{__import__("os").path.dirname(__import__("os").path.dirname(__import__("os").path.abspath(__file__)))}/build/out/{sys.argv[1]}/*.json')):
    try: d=json.load(open(f))
    except Exception as e: print(f,e); continue
    print(f.split('/')[-1][:-5].ljust(30), d.get('wall_s'), 'paths',d.get('paths'), 'z3', d.get('queries_z3',d.get('z3')), d.get('solver_s'))
