#!/bin/bash
# usage: addfinding.sh PREFIX PROPERTY TEXT  (one entry for a fix commit in /repo)
cd "$(dirname "$0")" && python3 - "$@" <<'P'
import sys,json
p,c,t=sys.argv[1:4]
s=open('mkfindings.py').read()
s=s.replace('\n}\nout=[','\n%s:(%s,%s),\n}\nout=['%(json.dumps(p),json.dumps(c),json.dumps(t,ensure_ascii=False)),1)
open('mkfindings.py','w').write(s)
P
python3 mkfindings.py
