#!/bin/sh
# syntax check of arolla sources against the shim; prints failing files
cd /repo; mkdir -p /tmp/syn; rm -f /tmp/syn/*.log
xargs -P8 -I{} sh -c '/usr/lib/llvm-18/bin/clang++ -std=c++20 -fsyntax-only -w -fno-exceptions -ferror-limit=5 -I/verif/shim -I/repo -I/verif/build/pb {} > /tmp/syn/$(echo {} | tr / _).log 2>&1 || echo {}' < ${1:-/tmp/ccs} > /tmp/synfail
wc -l < /tmp/synfail; cat /tmp/syn/*.log | grep error: | sed 's/.*error://' | sort | uniq -c | sort -rn | head -60
