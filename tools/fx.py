# usage: fx.py PROP "text"  -> records the last /repo commit as fixed
import subprocess,sys
h=subprocess.check_output(['git','-C','/repo','log','-1','--format=%h %s']).decode().strip()
hash_,sub=h.split(' ',1)
assert sub.startswith('fix:')
open('/verif/known_findings.txt','a').write('fixed: property=%s %s %s\n'%(sys.argv[1],hash_,sys.argv[2] if len(sys.argv)>2 else sub[5:]))
