#!/bin/bash
# check.sh quick|thorough PROPERTY
cd "$(dirname "$0")"
. ./env.sh
[ -x bin/govc ] || ./setup.sh || exit 2
exec bin/govc -tier "$1" "$2"
