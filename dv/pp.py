"""Pretty printer for the MIR dump (debugging aid)."""
import json, sys, struct
def load(p): return json.load(open(p))
class PP:
    def __init__(s, d): s.d=d
    def ty(s,i): return s.d['types'][i].get('s','?')
    def const(s,k):
        v=k.get('v'); t=s.ty(k['ty'])
        if isinstance(v,dict) and 'f' in v: return repr(struct.unpack('>d',bytes.fromhex(v['f']))[0])
        return json.dumps(v)[:200]+':'+t if v is not None else json.dumps({a:b for a,b in k.items()})[:200]
    def pl(s,p):
        r='_%d'%p[0]
        for e in p[1]:
            if e=='*': r='(*%s)'%r
            elif isinstance(e,str): r+=e
            elif 'f' in e: r+='.%d'%e['f']
            elif 'i' in e: r+='[_%d]'%e['i']
            elif 'v' in e: r+='@%d'%e['v']
            else: r+=json.dumps(e)
        return r
    def op(s,o):
        if 'c' in o: return s.pl(o['c'])
        if 'm' in o: return 'mv '+s.pl(o['m'])
        if 'k' in o: return 'const '+s.const(o['k'])
        return json.dumps(o)
    def rv(s,r):
        if 'use' in r: return s.op(r['use'])
        return s.gen(r)
    def gen(s,r):
        if isinstance(r,dict):
            if len(r)==1 and list(r)[0] in('c','m','k'): return s.op(r)
            return '{'+', '.join('%s: %s'%(k, (s.ty(v) if k in('ty','dty') and isinstance(v,int) else s.gen(v))) for k,v in r.items())+'}'
        if isinstance(r,list):
            if len(r)==2 and isinstance(r[0],int) and isinstance(r[1],list): return s.pl(r)
            return '['+', '.join(s.gen(x) for x in r)+']'
        return str(r)
    def body(s,b):
        out=[]
        B=b['body']
        for i,t in enumerate(B['locals']): out.append('  let _%d: %s'%(i,s.ty(t)))
        for i,bl in enumerate(B['blocks']):
            if bl.get('cleanup'): continue
            out.append(' bb%d:'%i)
            for st in bl['s']:
                if 'p' in st: out.append('   %s = %s'%(s.pl(st['p']),s.rv(st['r'])))
                else: out.append('   '+s.gen({k:v for k,v in st.items() if k!='l'}))
            t=bl['t']
            out.append('   -> '+s.gen({k:v for k,v in t.items() if k!='l'}))
        return '\n'.join(out)
if __name__=='__main__':
    d=load('/verif/build/mir.json'); pp=PP(d)
    pat=sys.argv[1] if len(sys.argv)>1 else None
    for b in d['bodies']:
        if pat is None:
            if 'rkyv' in b['path'] or 'serde' in b['path'] or 'zerocopy' in b['path'] : continue
            print(b['id'],'|',b['path'],'|',b['kind'],b.get('derived'))
        elif pat in b['path'] or pat in b['id']:
            print('==',b['id'],b['path']); print(pp.body(b)) if b['body'] else None
            for q in b.get('promoted',[]): print('  promoted',pp.body({'body':q}))
