#!/bin/bash
# tools/nat.sh NAME [SEED BUDGET]: compile and run one native harness against $VERIF_REPO or /repo
cd "$(dirname "$0")/.."; R=${VERIF_REPO:-/repo}; mkdir -p /tmp/w
F=$(grep -m1 -oP '(?<=// FLAGS:).*' native/$1.cpp || echo -fsanitize=address)
g++ -std=c++17 -O1 -g -fopenmp -D_GLIBCXX_ASSERTIONS -DVIECUT_VERIF -w $F -I native -I stub -I $R/lib native/$1.cpp -o /tmp/w/nat_$1 2>&1 | grep -E "error|Error" | head -${4:-10}
ASAN_OPTIONS=detect_leaks=0:allocator_may_return_null=1:exitcode=2 OMP_NUM_THREADS=4 /tmp/w/nat_$1 ${2:-1} ${3:-5} /tmp/w/nat_$1.out 2>&1 | cut -c1-600 | tail -${4:-10}
