#!/bin/bash
# build_ir.sh WORKDIR group...   : slice /repo, inject the harness groups, emit bitcode and the replay binary.
# Everything is regenerated from /repo's current working tree; all output lies in WORKDIR.
set -e
W=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root LANG="${LANG:-C.UTF-8}"
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.90 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="--cap-lints warn"
unset CARGO_INCREMENTAL
P=/opt/vp/partial
mkdir -p "$W/bin/src"
SL=$P/slicer/target/release/slicer
if [ ! -x "$SL" ]; then
  CARGO_TARGET_DIR="$W/slicer-target" cargo build --quiet --release --offline --manifest-path "$P/slicer/Cargo.toml"
  SL=$W/slicer-target/release/slicer
fi
[ -e "$W/crate/Cargo.lock" ] || { mkdir -p "$W/crate"; cp "$P/crate/Cargo.lock" "$W/crate/Cargo.lock"; }
# the merge loop is left out of the repository's own build only because its input stream is; here the harness supplies that
python3 - "$P/omit.txt" "$W/omit.txt" <<'T'
import sys
keep, sec = {"src/ondisk/merge.rs": ("SsTableMerger::execute", "SsTableMerger::execute_inner")}, ""
out = []
for l in open(sys.argv[1]):
    t = l.strip()
    if t.startswith("src/") and t.endswith(":"): sec = t[:-1]
    if t in keep.get(sec, ()): continue
    out.append(l)
open(sys.argv[2], "w").writelines(out)
T
OMIT=$P/omit.txt
for g in "$@"; do [ "$g" = in_ondisk__merge ] && OMIT=$W/omit.txt; done
"$SL" /repo "$OMIT" "$W/crate"
# parquet files are read and written through the stand-in of harness/parquet
python3 - "$W/crate/Cargo.toml" "$V/harness/parquet" <<'T'
import re, sys
p, d = sys.argv[1:]
s = open(p).read()
n = re.sub(r'(?ms)^parquet\s*=\s*(\{.*?\}|"[^"]*")\s*$', 'parquet = { package = "parquet-standin", path = "%s" }' % d, s, count=1)
if n != s: open(p, "w").write(n)
T
# harness injection (only into the scratch copy)
mkdir -p "$W/crate/src/verif"
{
  echo '#![allow(missing_docs, dead_code, unused_imports)]'
  echo 'pub(crate) mod prelude;'
  for m in "$V"/harness/verif/util_*.rs; do [ -e "$m" ] && echo "pub(crate) mod $(basename "$m" .rs);"; done
  for g in "$@"; do case $g in in_*) ;; *) echo "pub(crate) mod $g;";; esac; done
  # groups named in_<path> are compiled as a child module of that source file (they use its private items)
  echo 'unsafe extern "C" {'
  for g in "$@"; do case $g in in_*) grep -oE '^ *vh_[a-z0-9_]+ =>' "$V/harness/verif/$g.rs" | sed -E 's/^ *(vh_[a-z0-9_]+) =>/  safe fn \1();/';; esac; done
  echo '}'
  echo 'pub fn table() -> Vec<(&'"'"'static str, extern "C" fn())> { let mut v: Vec<(&'"'"'static str, extern "C" fn())> = vec![];'
  for g in "$@"; do case $g in
    in_*) grep -oE '^ *vh_[a-z0-9_]+ =>' "$V/harness/verif/$g.rs" | sed -E 's/^ *(vh_[a-z0-9_]+) =>/v.push(("\1", \1));/';;
    *) echo "v.extend_from_slice($g::TABLE);";;
  esac; done
  echo 'v }'
} > "$W/mod.rs.new"
cmp -s "$W/mod.rs.new" "$W/crate/src/verif/mod.rs" || cp "$W/mod.rs.new" "$W/crate/src/verif/mod.rs"
for m in "$V"/harness/verif/prelude.rs "$V"/harness/verif/util_*.rs; do
  [ -e "$m" ] || continue
  cmp -s "$m" "$W/crate/src/verif/$(basename "$m")" || cp "$m" "$W/crate/src/verif/"
done
for g in "$@"; do cmp -s "$V/harness/verif/$g.rs" "$W/crate/src/verif/$g.rs" || cp "$V/harness/verif/$g.rs" "$W/crate/src/verif/$g.rs"; done
grep -q '^pub mod verif;' "$W/crate/src/lib.rs" || printf '\n#[allow(missing_docs)]\npub mod verif;\n' >> "$W/crate/src/lib.rs"
for g in "$@"; do case $g in in_*)
  f="$W/crate/src/$(echo "${g#in_}" | sed 's#__#/#g').rs"
  grep -q '^mod verif_in;' "$f" || printf '\n#[allow(missing_docs, dead_code, unused_imports)]\n#[path = "%s"]\nmod verif_in;\n' "$W/crate/src/verif/$g.rs" >> "$f";;
esac; done
cmp -s "$V/harness/bin/main.rs" "$W/bin/src/main.rs" || cp "$V/harness/bin/main.rs" "$W/bin/src/main.rs"
cat > "$W/bin/Cargo.toml.new" <<T
[package]
name = "vmain"
version = "0.1.0"
edition = "2024"
[workspace]
[dependencies]
tonbo = { path = "../crate" }
[profile.release]
opt-level = 1
lto = "fat"
panic = "abort"
codegen-units = 16
debug = 0
[profile.release.package.tonbo]
overflow-checks = true
debug-assertions = true
T
cmp -s "$W/bin/Cargo.toml.new" "$W/bin/Cargo.toml" || cp "$W/bin/Cargo.toml.new" "$W/bin/Cargo.toml"
[ -e "$W/bin/Cargo.lock" ] || cp "$W/crate/Cargo.lock" "$W/bin/Cargo.lock"
cd "$W/bin"
export CARGO_TARGET_DIR="$W/target"
rm -f "$W/target/release/deps/"vmain-*.bc
cargo rustc --release --offline --bin vmain -- --emit=llvm-bc,link > "$W/build.log" 2>&1 || { grep -E '^error' -A12 "$W/build.log" | head -80; exit 4; }
BC=$(ls -t "$W"/target/release/deps/vmain-*.bc 2>/dev/null | head -1)
if [ -z "$BC" ]; then
  touch "$W/bin/src/main.rs"
  cargo rustc --release --offline --bin vmain -- --emit=llvm-bc,link > "$W/build.log" 2>&1 || { tail -40 "$W/build.log"; exit 4; }
  BC=$(ls -t "$W"/target/release/deps/vmain-*.bc | head -1)
fi
cp "$BC" "$W/vmain.bc"
cp "$W/target/release/vmain" "$W/vmain"
