#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS BREAKS: takes the change made in /tmp/seedwt (a copy of /repo) as seeded/ID/patch.diff
id=$1
mkdir -p /verif/seeded/$id
git -C /tmp/seedwt diff > /verif/seeded/$id/patch.diff
python3 - "$@" <<'P'
import sys,json
_,i,p,n,b=sys.argv
json.dump(dict(property=p,needs=n,what_it_breaks=b),open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P
