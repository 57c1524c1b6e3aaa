import sys,subprocess
# kf.py PROP "subject substring" "what failed"
out=subprocess.run(["git","-C","/repo","log","--format=%h %s"],capture_output=True,text=True).stdout.splitlines()
h=[l for l in out if sys.argv[2] in l]
assert len(h)==1,h
open("/verif/known_findings.txt","a").write("fixed: property=%s %s %s\n"%(sys.argv[1],h[0].split()[0],sys.argv[3]))
