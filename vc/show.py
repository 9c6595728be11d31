import sys
sys.path.insert(0,'/verif/vc')
import extract
def sh(n,ind=0):
    s='  '*ind+str(n.kind)
    for k in ('name','opcode','value','castKind','isArrow','ctorType','isPostfix','elidable','hasElse','init'):
        if k in n.d and not isinstance(n.d[k],dict): s+=' %s=%r'%(k,n.d[k])
    if 'ctorType' in n.d: s+=' ctor=%s'%n.d['ctorType'].get('qualType')
    if n.type: s+=' <%s>'%n.type
    if 'referencedDecl' in n.d:
        r=n.d['referencedDecl']; s+=' ref(%s %s %s)'%(r['kind'],r.get('name'),r['id'])
    if 'referencedMemberDecl' in n.d: s+=' mem=%s'%n.d['referencedMemberDecl']
    s+=' L%s'%n.line
    print(s)
    for c in n.inner: sh(c,ind+1)
files=sys.argv[1].split(','); pr=extract.load(files, sys.argv[3] if len(sys.argv)>3 else '')
for f in pr.find(sys.argv[2]): sh(f)
if not pr.find(sys.argv[2]): print(sorted(k for k in pr.funcs if pr.find(k)))
