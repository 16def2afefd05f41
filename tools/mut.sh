# mut.sh MODULE FUNC FILE 'python-regex' 'replacement'  : verify FUNC against a mutated copy of /repo/src
d=$(mktemp -d /tmp/mutXXXX); cp -r /repo/src $d/src
python3 - "$d/src/$3" "$4" "$5" <<'P'
import sys,re
p,a,b=sys.argv[1:]
s=open(p).read(); n=s.count(a)
assert n>=1,'no match'
s=s.replace(a,b,1); open(p,'w').write(s)
P
SDRV_REPO=$d python3-vt /verif/tools/t.py $1 $2
/bin/rm -rf "$d"
