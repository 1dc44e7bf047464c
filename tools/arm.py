import re,sys
p='tools/props_table.py'; s=open(p).read()
ARMED=sys.argv[1].split(',')
s=re.sub(r'^ARMED = .*$', 'ARMED = %r'%ARMED, s, count=1, flags=re.M)
open(p,'w').write(s)
