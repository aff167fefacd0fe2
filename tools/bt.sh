#!/bin/bash
# tools/bt.sh <exe> <replay.json>: backtrace of a failing replay
exe=$1; rep=$2
SIM_REEXEC=1 setarch -R gdb -q -batch -ex "set pagination off" -ex "handle SIGSEGV stop" -ex "break sim::fail" -ex run -ex "bt 30" --args $exe exec --replay $rep 2>&1 | tail -45
