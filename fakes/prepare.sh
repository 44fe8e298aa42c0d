#!/bin/bash
# Makes harness/gen/core: a copy of /repo's async_ui_web_core that is compiled against `vstd` in place
# of `std` (see vstd/src/lib.rs). Files are only touched when they change.
set -e
H="$(cd "$(dirname "$0")/.." && pwd)/harness"
S=/repo/async_ui_web_core
T="$H/gen.$$"
rm -rf "${H:?}/gen.$$"
mkdir -p "$T"
cp -a "$S/src" "$T/src"
printf '\nextern crate vstd as std;\nextern crate vstd as core;\n' >> "$T/src/lib.rs"
sed -e '0,/^name = .*/s//name = "core_sched"/' -e 's#path = "\.\./#path = "/repo/#g' "$S/Cargo.toml" > "$T/Cargo.toml"
printf '\n[dependencies.vstd]\npath = "../../../fakes/vstd"\n' >> "$T/Cargo.toml"
mkdir -p "$H/gen/core"
rsync -a --checksum --no-times --delete "$T/" "$H/gen/core/" 2>/dev/null || { rm -rf "${H:?}/gen/core"; mkdir -p "$H/gen"; cp -r "$T" "$H/gen/core"; }
rm -rf "${H:?}/gen.$$"
