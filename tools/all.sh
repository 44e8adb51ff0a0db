cd /verif; pids=""
for p in "$@"; do (timeout 900 python3 check.py $p > /tmp/all.$p 2>&1; echo "$p exit $? $(tail -1 /tmp/all.$p | cut -c1-150)") & done; wait
