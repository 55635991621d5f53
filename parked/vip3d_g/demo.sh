#!/bin/bash
# exit 0 if the behaviour is right (run in the repository's top directory)
d=$(cd "$(dirname "$0")" && pwd); w=$(mktemp -d)
g++ -std=c++17 -O2 -DNDEBUG -pthread -I"$PWD" "$d/demo.cpp" -o "$w/demo" -lboost_timer -lboost_system -lboost_thread || exit 3
OMP_NUM_THREADS=4 timeout 200 "$w/demo"
