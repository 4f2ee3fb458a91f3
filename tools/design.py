"""fills the seed table of DESIGN.md between its markers"""
import os, re, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__))
p = os.path.join(here, '..', 'DESIGN.md')
t = subprocess.run([sys.executable, os.path.join(here, 'design_seeds.py')], capture_output=True, text=True, check=True).stdout
s = open(p).read()
s = re.sub(r'<!-- seeds -->.*<!-- /seeds -->', lambda m: '<!-- seeds -->\n' + t + '<!-- /seeds -->', s, flags=re.S)
open(p, 'w').write(s)
