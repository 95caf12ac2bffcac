#!/bin/bash
# check.sh ID : decides one property on /repo's current tree
cd /verif || exit 2
[ -x bin/valuecheck ] || bash setup.sh >/dev/null || exit 2
exec bin/valuecheck "$@"
