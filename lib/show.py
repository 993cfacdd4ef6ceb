import sys,subprocess
sys.path.insert(0,'/verif/lib')
import build
def ll(roots,keep=(),flags=()):
    bcs=list(build.bitcode(True).values())
    return subprocess.check_output([build.build_tool()]+["--root="+r for r in roots]+["--keep="+k for k in keep]+list(flags)+["--emit-ll"]+bcs,text=True)
if __name__=='__main__':
    import re
    t=ll([a for a in sys.argv[1:] if not a.startswith('-')],[a[7:] for a in sys.argv[1:] if a.startswith('--keep=')],[a for a in sys.argv[1:] if a.startswith('--') and not a.startswith('--keep')])
    t=re.sub(r', !\w+ !\d+','',t)
    t=re.sub(r', !dbg !\d+','',t)
    out=[]
    for l in t.split('\n'):
        if 'llvm.dbg' in l or 'llvm.lifetime' in l: continue
        if l.startswith('!'): continue
        out.append(l)
    print('\n'.join(out))
