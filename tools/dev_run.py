import sys, importlib, json, time, random, itertools
sys.path.insert(0,'/verif'); sys.path.insert(0,'/repo/src')
from pyvc import harness as H
mods=sys.argv[1].split(',')
names=sys.argv[2:] 
for m in mods: importlib.import_module('contracts.'+m)
for c in H.CONTRACTS:
    if __import__("os").environ.get("NAT"): c.native_only=True
    if names and c.name not in names: continue
    for fx in ([] if c.native_only else H.instances(c)):
        r=H.prove(c,fx)
        bad=[o for o in r['obligations'] if not o['discharged']]
        print(('OK ' if not bad and not r['unsupported'] and r['vcs'] else 'BAD'), c.name, fx if len(str(fx))<80 else '', 'vcs',r['vcs'],r['vcs_ok'],'paths',r['paths'],'%.1fs solver %.1fs q%d'%(r['wall_s'],r['solver_s'],r['queries']), (r['unsupported'] or '').replace(chr(10),' ')[:400], r['contracted'])
        for o in bad:
            print('    FAIL',o['label'],o['fail']['status'], o['fail']['model'], o['fail']['goal'][:600] if o['fail'] else '')
            if '-v' in sys.argv or 1: print('        ', [p[:150] for p in o['fail']['path'][-8:]])
    if c.gen:
        rng=random.Random(int(__import__("os").environ.get("VERIF_SEED","1"))); t0=time.time(); n=0; sk=0
        for inp in c.gen(rng):
            try: f=H.run_native(c,inp)
            except H.AssumeFailed: sk+=1; f=None
            n+=1
            if f: print('   NATIVE FAIL',c.name,f,str(inp)[:600]); break
            if time.time()-t0>float(__import__("os").environ.get("NATS","1.5")): break
        print('   native',n,'skipped',sk)
