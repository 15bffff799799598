#!/bin/bash
# Development tool: the engine on parts of std that metriken's code might come to use (harness/hself).
cd "$(dirname "$0")/.." && python3 check.py --build hself || exit 2
LL=$(ls build/t-hself/release/deps/hself-*.ll | head -1); rc=0
for e in coll sort text arith io sync chan threads once misc; do
  timeout 300 build/engine/release/llsym run "$LL" h_$e --seed 1 --preempt 2 --samples 3 --timeout 250 --out build/selftest.json > build/selftest.log 2>&1 && echo "h_$e ok" || { rc=1; echo "h_$e failed"; tail -3 build/selftest.log; }
done
exit $rc
