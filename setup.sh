#!/bin/bash
# Builds what the checks run, so that a check only rebuilds what changed.
cd "$(dirname "$0")" || exit 1
python3 -m vlib.build real driver-real sched driver-sched fault
