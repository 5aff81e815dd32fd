#!/bin/bash
# Builds the harness (and with it the compiler crates) from /repo's current working tree.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target TERM=dumb
unset CARGO_INCREMENTAL RUSTFLAGS
mkdir -p /verif/target/srchash
exec 9>/verif/target/.vlock
flock 9
# cargo compares time stamps; compare contents as well, so that a changed file which carries an old date is noticed
todo=()
for t in /repo/*/Cargo.toml /verif/harness/Cargo.toml; do
    d=${t%/Cargo.toml}
    name=$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$t" | head -1)
    h=$(cd "$d" && find . -path ./target -prune -o -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -d' ' -f1)
    if [ "$(cat "/verif/target/srchash/$name" 2>/dev/null)" != "$h" ]; then
        for f in /verif/target/release/.fingerprint/"$name"-*; do
            case "${f##*/}" in
            "$name"-????????????????) [ -d "$f" ] && find "$f" -mindepth 1 -maxdepth 1 -type f -delete ;;
            esac
        done
        todo+=("$name $h")
    fi
done
cd /verif/harness || exit 2
out=$(cargo build --release --offline 2>&1) || { echo "$out" | tail -60 >&2; exit 2; }
for x in "${todo[@]}"; do
    echo "${x##* }" >"/verif/target/srchash/${x%% *}"
done
exit 0
