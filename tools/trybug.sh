#!/bin/bash
# trybug.sh ID [PROP]: runs the property's quick check against a seeded bug, in scratch copies of /repo and /verif.
d=/verif/seeded/$1; p=${2:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
t=$(mktemp -d /tmp/trybug.XXXXXX)
git clone -q /repo $t/repo && git -C $t/repo apply $d/patch.diff || exit 9
mkdir $t/verif && cp -a /verif/{bin,specs,vc,env.sh} $t/verif/ && cp /verif/*.jsonl /verif/*.json $t/verif/ && mkdir $t/verif/{evidence,replays}
. /verif/env.sh
cd $t/verif; $t/verif/bin/govc -repo $t/repo -verif $t/verif -tier quick $p > /tmp/trybug.$1.out 2>&1; rc=$?
echo "$1 $p rc=$rc $(grep VIOLATION /tmp/trybug.$1.out) $(grep 'replayed' /tmp/trybug.$1.out | cut -c1-200)"
rm -rf "$t"
