"""Pretty-printer for dumped MIR (development aid)."""
import sys, json
import vbuild
def pl(p):
    s="_%d"%p[0]
    for e in p[1]:
        if e=="*": s="(*%s)"%s
        elif e[0]=="f": s+=".%d"%e[1]
        elif e[0]=="dc": s+=" as v%s"%e[1]
        elif e[0]=="i": s+="[_%d]"%e[1]
        else: s+=str(e)
    return s
def op(o,ty=None):
    if o[0] in "cm": return ("" if o[0]=="c" else "move ")+pl(o[1])
    if o[0]=="k": return "const "+json.dumps(o[2])[:80]
    return str(o)
def show(d,b):
    T=lambda i:d['types'][i]['s']
    print("fn",b['id'],b['def'],"argc",b['argc'],b.get('args'))
    for i,l in enumerate(b['locals']): print("   _%d: %s"%(i,T(l)[:110]))
    for i,blk in enumerate(b['blocks']):
        print(" bb%d:"%i)
        for s in blk['s']:
            if s[0]=="=":
                r=s[2]
                print("   ",pl(s[1]),"=",[ (op(x) if isinstance(x,list) and x and x[0] in("c","m","k") else (pl(x) if isinstance(x,list) and len(x)==2 and isinstance(x[0],int) and isinstance(x[1],list) else ([op(y) for y in x] if isinstance(x,list) and x and isinstance(x[0],list) else x))) for x in r])
            else: print("   ",s)
        t=blk['t']
        if t and t[0]=="call":
            c=t[1]
            print("    CALL",pl(t[3]),"=",c.get('p',c),"|",c.get('k'),c.get('i'),"|",[op(x) for x in t[2]],"->",t[4])
        else: print("   ",t)
if __name__=="__main__":
    d=vbuild.mir()
    for b in d['bodies']:
        if sys.argv[1] in b['name'] or sys.argv[1] in b['def']:
            if len(sys.argv)>2: show(d,b); print()
            else: print(b['id'],b['def'],b['name'][:150],len(b['blocks']))
