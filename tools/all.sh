cd /verif
for s in ${@:-$(ls specs | grep py | sed 's/.py//')}; do ( python3-vt tools/spec_try.py $s > /tmp/spec_$s.log 2>&1; echo "$s $(grep -c ' equal' /tmp/spec_$s.log) eq; non-equal: $(grep -E '^    \S.* (unknown|different|undecided)' /tmp/spec_$s.log | cut -c1-80 | tr '\n' ';') $(grep -c Traceback /tmp/spec_$s.log) tb" ) & 
while [ $(jobs -r | wc -l) -ge 8 ]; do sleep 0.2; done; done; wait
