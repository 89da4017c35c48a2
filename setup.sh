#!/bin/bash
# Builds the analyser from the committed sources; offline.
set -e
cd /verif/checker
. /verif/env.sh
go build -o /verif/bin/frostcheck .
echo built /verif/bin/frostcheck
