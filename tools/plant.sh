#!/bin/bash
# plant.sh ID [check]: development tool. Confirms seeded/ID on a scratch copy of /repo bind-mounted in a private
# mount namespace: patch applies, builds, the stable tests pass, demo.sh fails with it and passes without it;
# then (unless "nocheck") runs the property's quick check from a scratch copy of /verif.
id=$1; what=${2:-check}
s=/tmp/plant-$id
rm -rf "/tmp/plant-$id"; mkdir "$s"; cp -a /repo "$s/repo"; cp -a /verif "$s/verif"; cp -a /verif/seeded/$id "$s/demo"
cat > $s/go.sh <<E2
mount --bind $s/repo /repo; mount --bind $s/verif /verif; cd /repo
bash /opt/vp/build.sh >$s/b0.log 2>&1 || { echo "$id: base build failed"; exit 1; }
timeout 300 bash $s/demo/demo.sh >$s/demo0.log 2>&1; d0=\$?
git apply $s/demo/patch.diff || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >$s/b1.log 2>&1 || { echo "$id: build failed"; tail $s/b1.log; exit 1; }
bash /opt/vp/test.sh $s/t.json >$s/t.log 2>&1
miss=\$(python3 -c "import json;b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']);t=json.load(open('$s/t.json'));m=sorted(b-set(t['passed']));print(len(m),m[:3])")
timeout 300 bash $s/demo/demo.sh >$s/demo1.log 2>&1; d1=\$?
echo "$id: demo base \$d0 (want 0) patched \$d1 (want !0) missing tests \$miss"
tail -3 $s/demo1.log
if [ "$what" = check ]; then
p=\$(python3 -c "import json;print(json.load(open('$s/demo/meta.json'))['property'])")
cd /verif && python3 check.py \$p quick 2>&1 | tail -6 | cut -c1-400
fi
E2
unshare -m bash $s/go.sh
rm -rf "/tmp/plant-$id"
