#!/bin/bash
# demochk.sh [ID…]: demo on clean and patched clone
cd /verif/seeded
for id in ${@:-$(ls)}; do
 (w=$(mktemp -d /tmp/demochk.XXXXXX); d=$(mktemp -d /tmp/demod.XXXXXX); cp -r $id/. $d; rm -f $d/patch.diff $d/meta.json
 git clone -q /repo $w/repo; cd $w/repo; bash $d/demo.sh > $w/a 2>&1; a=$?; git apply /verif/seeded/$id/patch.diff || echo NOAPPLY; go build ./... || echo NOBUILD; bash $d/demo.sh > $w/b 2>&1; b=$?
 echo "$id clean=$a patched=$b $( ([ $a = 0 ] && [ $b != 0 ]) && echo ok || echo BAD)"; rm -rf -- $w $d) &
 while [ $(jobs -r | wc -l) -ge 4 ]; do wait -n; done
done; wait
