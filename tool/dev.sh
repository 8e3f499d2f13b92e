#!/bin/bash
# dev.sh SRC -> /tmp/w/SRC.bc (developer helper)
mkdir -p /tmp/w; b=$(basename $1 .cpp)
F="-std=c++17 -O1 -Xclang -disable-llvm-passes -DNDEBUG -DBLASBOOSTER_CORE_FAILURE_TO_EXCEPTION -DBLASBOOSTER_USE_TRACKER -D_GLIBCXX_EXTERN_TEMPLATE=0 -gline-tables-only -w -emit-llvm -c -I/verif/harness $INC -I/verif/stubs -I/repo/include $2"
/usr/lib/llvm-18/bin/clang++ $F /verif/harness/$b.cpp -o /tmp/w/$b.0.bc && /usr/lib/llvm-18/bin/clang++ $F -fno-builtin /verif/harness/rt.cpp -o /tmp/w/rt.bc && /usr/lib/llvm-18/bin/clang++ $F /repo/src/Utilities/tracker.cpp -o /tmp/w/tracker.bc && /usr/lib/llvm-18/bin/llvm-link /tmp/w/$b.0.bc /tmp/w/rt.bc $([ -n "$NOTRACK" ] || echo /tmp/w/tracker.bc) $EXTRA_BC -o /tmp/w/$b.bc
