#!/bin/bash
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
mkdir -p bin
cd engine && go build -o ../bin/gosym .
