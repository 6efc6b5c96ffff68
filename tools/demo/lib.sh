# Builds a scratch copy of the workspace under test, with demonstration tests added to it, and runs them.
# inject FILE TESTS.rs: appends a test module to a source file; run NAME: runs the tests whose name contains NAME.
HERE=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
export CARGO_INCREMENTAL=0
D=$(mktemp -d /tmp/vdemo.XXXXXX) || exit 3
trap 'rm -rf "$D"' EXIT
cp -r /opt/vp/ws/Cargo.toml /opt/vp/ws/Cargo.lock "$D"/ || exit 3
cp -rL /opt/vp/ws/cli /opt/vp/ws/console "$D"/ || exit 3
cp -r "$PWD/src" "$D/src" || exit 3
mkdir "$D/tests"
for f in testdata examples; do ln -s "$PWD/$f" "$D/$f"; done
inject() { cat "$HERE/$2" >> "$D/$1"; }
itest() { cp "$HERE/$1" "$D/tests/$1"; }
run() { # unit tests
    (cd "$D" && timeout 280 cargo test $FEATURES --lib --offline "$1" -- --test-threads 4 >"$D/log" 2>&1); rc=$?
    verdict
}
runi() { # one integration test file
    (cd "$D" && timeout 280 cargo test $FEATURES --test "$1" --offline -- --test-threads 4 >"$D/log" 2>&1); rc=$?
    verdict
}
verdict() {
    tail -40 "$D/log"
    # something must have run
    if [ $rc -eq 0 ] && ! grep -qE '^test result: ok\. [1-9]' "$D/log"; then echo "no demonstration ran"; exit 4; fi
    exit $rc
}
