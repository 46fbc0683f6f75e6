cd /verif
for s in "$@"; do echo == $s; timeout 800 python3-vt tools/mutate.py $s --refactor 2>&1 | grep -A4 "^D\|refactor {";  timeout 900 python3-vt tools/mutate.py $s 2>&1 | tail -1; done
