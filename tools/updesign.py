"""Put the current table of seeded changes in DESIGN.md."""
import re, subprocess, sys, os
here=os.path.dirname(os.path.abspath(__file__))
p=os.path.join(here,'..','DESIGN.md')
t=subprocess.run([sys.executable,os.path.join(here,'seedtable.py')],capture_output=True,text=True,check=True).stdout.strip()
s=open(p).read()
s=re.sub(r'<!-- seeds -->.*<!-- /seeds -->',lambda m:'<!-- seeds -->\n'+t+'\n<!-- /seeds -->',s,flags=re.S)
open(p,'w').write(s)
