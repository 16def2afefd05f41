import sys, os; sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from seed import make, S
import os
def demo(i, c, srcs, wrap='', libs='-lpthread', extra=''):
    open(S+'/%s/demo.c'%i,'w').write(c)
    w = ('-Wl,'+','.join('--wrap='+x for x in wrap.split())) if wrap else ''
    open(S+'/%s/demo.sh'%i,'w').write('''#!/bin/bash
# exit 0: the property holds on this scenario
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap '/bin/rm -r "$t"' EXIT
gcc -std=gnu99 -D_GNU_SOURCE -g -w -fsanitize=address %s -I src "$d/demo.c" %s %s -o "$t/demo" %s || exit 2
ASAN_OPTIONS=detect_leaks=0 timeout 60 "$t/demo"
'''%(extra,srcs,w,libs)); os.chmod(S+'/%s/demo.sh'%i,0o755)

