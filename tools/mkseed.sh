#!/bin/bash
# mkseed.sh ID PROPERTY core|local|server: takes the diff of /tmp/w/seed, its
# main.rs from stdin, and writes /verif/seeded/ID (needs/breaks: $NEEDS, $BREAKS).
set -e
d=${V:-/verif}/seeded/$1; mkdir -p "$d"
git -C /tmp/w/seed diff > "$d/patch.diff"
cat > "$d/main.rs"
cp ${V:-/verif}/tools/demo.sh "$d/demo.sh"
{ printf '[package]\nname = "demo"\nversion = "0.0.0"\nedition = "2021"\n\n[workspace]\n\n[profile.dev]\ndebug = false\n\n[dependencies]\nserde = { version = "1", features = ["derive"] }\n'
case $3 in
 core) echo 'bonsaidb-core = { path = "@REPO@/crates/bonsaidb-core" }';;
 local) echo 'bonsaidb-core = { path = "@REPO@/crates/bonsaidb-core" }'; echo 'bonsaidb-local = { path = "@REPO@/crates/bonsaidb-local", features = ["encryption", "compression", "password-hashing", "token-authentication", "async"] }'; echo 'tokio = { version = "1", features = ["full"] }';;
 legacy) echo 'bonsaidb-core = { path = "@REPO@/crates/bonsaidb-core" }'; echo 'bonsaidb-local = { path = "@REPO@/crates/bonsaidb-local" }'; echo 'nebari = "0.5"'; echo 'pot = "3"'; echo 'bincode = "1"';;
 files) echo 'bonsaidb-core = { path = "@REPO@/crates/bonsaidb-core" }'; echo 'bonsaidb-local = { path = "@REPO@/crates/bonsaidb-local", features = ["async"] }';  echo 'bonsaidb-files = { path = "@REPO@/crates/bonsaidb-files", features = ["async"] }'; echo 'tokio = { version = "1", features = ["full"] }';;
 server) echo 'bonsaidb = { path = "@REPO@/crates/bonsaidb", features = ["full", "password-hashing", "token-authentication", "encryption", "compression", "async", "websockets"] }'; echo 'tokio = { version = "1", features = ["full"] }';;
esac; } > "$d/deps.toml"
python3 - "$d" "$2" <<'P'
import json,os,sys
json.dump({"property":sys.argv[2],"needs":os.environ["NEEDS"],"what_it_breaks":os.environ["BREAKS"]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd ${R:-/repo}
/bin/bash "$d/demo.sh" >/tmp/w/demo.ok 2>&1 || { echo "demo FAILS on /repo"; tail -20 /tmp/w/demo.ok; exit 1; }
cd /tmp/w/seed
if /bin/bash "$d/demo.sh" >/tmp/w/demo.bad 2>&1; then echo "demo PASSES with the patch"; exit 1; fi
tail -3 /tmp/w/demo.bad
git -C ${R:-/repo} apply --check "$d/patch.diff" && git -C /tmp/w/seed checkout -q -- . && echo "seeded $1"
