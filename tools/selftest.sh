#!/bin/bash
# Runs selftest/library.cpp through the executor: every entry has to reach its end without a finding.
V=$(cd "$(dirname "$0")/.." && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
CF="-std=c++17 -O1 -g -DNDEBUG -D_GLIBCXX_EXTERN_TEMPLATE=0 -fno-vectorize -fno-slp-vectorize -fno-unroll-loops -fno-strict-aliasing -fsized-deallocation"
for m in models models_thr; do clang++-18 $CF -fno-builtin -fno-access-control -emit-llvm -c "$V/harness/$m.cpp" -o "$T/$m.bc" || exit 3; done
clang++-18 $CF -I"$V/harness" -Xclang -disable-llvm-passes -emit-llvm -c "$V/selftest/library.cpp" -o "$T/u.bc" 2>/dev/null || exit 3
"$V/build/sx" --prepare "$T/u.bc" --out "$T/h.bc" && llvm-link-18 "$T/h.bc" "$T/models_thr.bc" "$T/models.bc" -o "$T/x.bc" || exit 3
rc=0
for e in t_alg t_cont t_misc t_thr t_once t_any t_timed t_tl; do
  timeout 200 "$V/build/sx" "$T/x.bc" --entry $e --steps 20000000 --time 60 --out "$T/o.json"
  python3 -c "
import json,sys;d=json.load(open('$T/o.json'))
ok=not d['violations'] and not d['inconclusive'] and d['reached'].get('end')
print('$e','ok' if ok else d['violations'] or d['inconclusive']); sys.exit(not ok)" || rc=1
done
exit $rc
