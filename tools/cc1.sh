#!/bin/bash
# compile a scratch harness file against the current build
set -e
parts=$(cd /verif && python3 -c "
from lib import vbuild
print(' '.join(vbuild.comps('${2:-rel}')))")
fl="-g1 -O1"; [ "${2:-rel}" = asan ] && fl="-g -O1 -fsanitize=address,undefined -fno-sanitize=alignment"
g++ -std=gnu++17 -w -pthread $fl -I /verif/lib -I /repo/include -I /repo/src $1 $parts -o ${1%.cc}.x
