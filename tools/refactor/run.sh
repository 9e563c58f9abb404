#!/bin/bash
# run.sh SEED [ids...]: all checks against a refactored scratch copy of /repo; they must stay quiet
seed=$1; shift; ids=${*:-$(seq -f C%02g 1 30)}
w=$(mktemp -d /tmp/refactorXXXXXX); trap 'rm -rf "$w"' EXIT
cp -a /repo "$w/repo"; rm -rf "$w/repo/target"; mkdir "$w/verif"
cd /verif && cp -a harness regressions *.sh *.txt *.json properties.jsonl .build "$w/verif/" && rm -f "$w"/verif/.build/stamp*
sed -i "s#\"/repo\"#\"$w/repo\"#" "$w/verif/harness/Cargo.toml"; sed -i "s#^REPO=/repo#REPO=$w/repo#" "$w/verif/lib.sh"
python3 /verif/tools/refactor/refactor.py "$w/repo"
cd "$w/verif"
for i in $ids; do
  VERIF_SEED=$seed timeout 1800 ./check.sh $i >out 2>&1; r=$?
  echo "$i rc $r $(tail -n 1 out)"; [ $r = 0 ] || { tail -n 4 out; cp "$w"/verif/.replays/$i-* /tmp/ 2>/dev/null; }
done
