#!/bin/bash
# bug.sh ID: confirm a planted bug in the scratch copy $SC/repo (build, tests, demo with and without it)
set -u
D=/verif/seeded/$1; S=${SC:-/tmp/sc}; R=$S/repo
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTFLAGS="--cap-lints warn"
sync_repo() { rsync -a --delete --exclude target --exclude .git /repo/ $R/ 2>/dev/null || { cp -a /repo/src /repo/tests $R/; git -C $R checkout -q -- . ; }; }
git -C $R checkout -q -- . && git -C $R pull -q /repo HEAD 2>/dev/null
cp -u /verif/tools/s3c.py $D/
cd $R
b() { cargo test --workspace --all-features --no-run --offline >$S/build.log 2>&1; }
if [ "${2:-}" != nobase ]; then b || { echo BASE BUILD; exit 2; }; timeout 300 bash $D/demo.sh >$S/demo0.log 2>&1; echo "demo unchanged: $?"; fi
git apply $D/patch.diff || { echo NO APPLY; exit 2; }
b || { echo "BUILD FAILED"; tail -40 $S/build.log; git checkout -q -- .; exit 2; }
cargo nextest run --workspace --all-features --offline --no-fail-fast -j 1 --tool-config-file vp:/opt/vp/nextest.toml --profile vp >$S/test.log 2>&1
echo "tests: $? $(grep -E 'Summary' $S/test.log)"
timeout 300 bash $D/demo.sh >$S/demo1.log 2>&1; echo "demo patched: $?"; tail -3 $S/demo1.log
git checkout -q -- .
