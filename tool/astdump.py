"""Debug helper: compact AST print of one function."""
import sys
from cppast import *
def show(n, d=0):
    if not n: print('  '*d+'-'); return
    k=n.get('kind'); ex=[]
    for f in ('name','opcode','castKind','value','isPostfix','isArrow','ctorType','tagUsed','path'):
        if f in n: ex.append('%s=%s'%(f, n[f] if not isinstance(n[f],(dict,list)) else '..'))
    if 'referencedDecl' in n: ex.append('ref=%s:%s'%(n['referencedDecl'].get('kind'),n['referencedDecl'].get('name')))
    if 'referencedMemberDecl' in n: ex.append('mem=%s'%n['referencedMemberDecl'])
    for f in ('anyInit','baseInit'):
        if f in n: ex.append('%s=%s'%(f,n[f].get('name') or n[f].get('qualType')))
    if 'computeLHSType' in n: ex.append('cl=%s'%norm_type(n['computeLHSType']['qualType']))
    if 'type' in n: ex.append('T='+qt(n))
    print('  '*d+(k or '?')+' '+' '.join(ex))
    for c in n.get('inner',[]): show(c,d+1)
if __name__=='__main__':
    pat=sys.argv[2]
    for t in load(sys.argv[1]):
        for k in t.funcs:
            if pat in k: print('##',k); show(t.funcs[k])
