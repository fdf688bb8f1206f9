#!/bin/bash
# Builds the symbolic executor from the committed sources (offline).
. /opt/vp/env.sh
cd "$(dirname "$0")/engine" || exit 2
mkdir -p ../bin ../evidence
go build -o ../bin/qv.new . && mv -f ../bin/qv.new ../bin/qv
