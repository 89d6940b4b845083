#!/bin/bash
# plant_check.sh ID...: confirm, in a scratch copy of /repo, that a planted bug applies, builds, passes the existing
# tests, and that its demonstration succeeds without and fails with the change.
for id in "$@"; do
  d=/verif/seeded/$id; w=/tmp/plant.$id.$$; rm -rf "/tmp/plant.$id.$$"; mkdir -p $w/demo; cp -a /repo $w/repo
  find $d -maxdepth 1 -type f ! -name '*.diff' ! -name '*.patch' ! -name meta.json -exec cp {} $w/demo/ \;
  ( cd $w; sed "s#/repo#$w/repo#g" /opt/vp/build.sh > build.sh; sed "s#/repo#$w/repo#g; s#/opt/vp/build.sh#$w/build.sh#g" /opt/vp/test.sh > test.sh
    bash build.sh > b0.log 2>&1 || echo "$id: base build failed"
    (cd repo && timeout 300 bash $w/demo/demo.sh) > d0.log 2>&1; a=$?
    git -C repo apply $d/patch.diff || { echo "$id: patch does not apply"; exit; }
    bash build.sh > b1.log 2>&1 || { echo "$id: build failed with patch"; tail -5 b1.log; exit; }
    (cd repo && timeout 300 bash $w/demo/demo.sh) > d1.log 2>&1; b=$?
    if [ -z "$NOTEST" ]; then bash test.sh out.json > t1.log 2>&1; fi; f=$(grep -c '^FAIL' t1.log 2>/dev/null); p=$(grep -c '^PASS' t1.log 2>/dev/null)
    echo "$id: demo unpatched=$a patched=$b tests pass=$p fail=$f $( [ $a = 0 -a $b != 0 -a "$f" = 0 ] && echo OK || echo BAD)"
    [ $a = 0 -a $b != 0 ] || { tail -n 5 d0.log d1.log; } ; [ "$f" = 0 ] || grep '^FAIL' t1.log )
  rm -rf "/tmp/plant.$id.$$"
done
