#!/bin/bash
# b.sh name [cases] : dev build and run
cd /verif/harness
g++ -std=gnu++17 -O1 -g1 -fno-exceptions -fno-rtti -Wall -fsanitize=address -fno-lifetime-dse -DKNOWN_list_erase_range=1 -I${REPO:-/repo} -I/verif/harness $1.cpp -o /verif/build/$1 2>&1 | grep -E "error|warning: unused" | head -20
[ ${PIPESTATUS[0]} = 0 ] || exit 1
time /verif/build/$1 --out /verif/build/$1.json --replay-out /verif/build/$1.replay --tmp /verif/build ${2:+--cases $2} $3 $4 $5
