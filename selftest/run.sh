#!/bin/bash
# Conformance of the executor: pieces of the standard library over symbolic
# values; every sampled path's observations must equal the native run's.
# Works on a scratch copy of /verif.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
d=${1:-$(mktemp -d)}
rsync -a --delete --exclude seeded --exclude .git --exclude evidence --exclude 'build/ir*' --exclude 'build/replay*' "$here/" "$d/"
cp "$here/selftest/stdtest.rs" "$d/harness/src/"
sed -i 's/^pub mod sx;/pub mod stdtest;\npub mod sx;/; s/^    h_seq => /    h_std => stdtest::h_std();\n    h_seq => /' "$d/harness/src/lib.rs"
cat >> "$d/lib/jobs.py" <<P
def _self(th):
    return [("s%d" % i, "h_std", (i,)) for i in range(25)]
PROPS["SELF"] = _self
def describe(prop, todo): return {}
P
mkdir -p "$d/evidence"
cd "$d" && sed -i 's/"--samples", "2"/"--samples", "40"/' run.py
python3 run.py SELF quick
