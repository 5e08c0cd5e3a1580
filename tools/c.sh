#!/bin/bash
# add the check of $1 (harness $2) unregistered: dev run through the driver
cd /verif && VERIF_SEED=${SEED:-1} python3 run_check.py $1
