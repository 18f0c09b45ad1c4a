#!/bin/bash
# seed.sh ID: validates /verif/seeded/ID in a scratch copy of /repo and runs
# the check of its property (and, with ALL=1, every check) against it.
id=$1; dir=/verif/seeded/$id
export PATH=$PATH:/usr/local/go/bin GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off
w=/tmp/seed/$id; rm -rf "$w"; mkdir -p "$w"; trap 'rm -rf "$w"' EXIT
git -C /repo archive HEAD | tar x -C "$w"
(cd "$w" && bash $dir/demo.sh >/dev/null 2>&1); [ $? = 0 ] || { echo "$id: demo fails on the clean tree"; exit 1; }
(cd "$w" && git init -q . && git apply --whitespace=nowarn $dir/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
(cd "$w" && go vet . >/dev/null 2>&1; go test ./... >test.log 2>&1) || { echo "$id: TESTS FAIL"; grep -E "^(---|\S+\.go|FAIL|#)" "$w/test.log" | head -5; exit 1; }
(cd "$w" && bash $dir/demo.sh >demo.log 2>&1); [ $? = 0 ] && { echo "$id: demo passes with the patch"; exit 1; }
prop=$(python3 -c "import json;print(json.load(open('$dir/meta.json'))['property'])")
mkdir -p "$w/h" && cp /verif/harness/*.go /verif/harness/go.sum "$w/h/" && sed "s#=> /repo#=> $w#" /verif/harness/go.mod > "$w/h/go.mod"
rm -f "$w/h/"*_test.go
(cd "$w/h" && go build -o "$w/hb" .) || { echo "$id: harness does not build"; exit 1; }
for p in $prop $([ -n "$ALL" ] && "$w/hb" list | cut -d' ' -f1 | sort -u | grep -v $prop); do
  [ $p = C28 ] && { (cd "$w/h" && CGO_ENABLED=1 go build -race -o "$w/hb" .) || echo "$id: no race build"; }
  out=$(VERIF_EVIDENCE="$w/ev" timeout 900 "$w/hb" check -prop $p -seed ${SEED:-1} 2>&1); rc=$?
  if [ $rc = 1 ]; then echo "$id: $p CAUGHT: $(echo "$out" | grep -m1 '^driver' | cut -c1-150)"; rm -f $(echo "$out" | sed -n 's/.*replay=//p')
  elif [ $p = $prop ]; then echo "$id: $p MISSED rc=$rc $(echo "$out" | tail -1)"; elif [ $rc != 0 ]; then echo "$id: $p error rc=$rc"; fi
done
