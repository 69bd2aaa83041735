#!/bin/bash
# bash check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
bash setup.sh || exit 2
. /opt/vp/env.sh
exec bin/gosym -prop "$1" -tier "${2:-quick}" -root "$PWD" -repo /repo
