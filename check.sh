#!/bin/bash
# check.sh <property>: decides one property on the current tree of /repo.
cd "$(dirname "$0")" || exit 2
. ./env.sh
[ -x bin/govc ] || bash setup.sh || exit 2
exec bin/govc check "$1"
