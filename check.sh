#!/bin/bash
# check.sh <PROPERTY> [quick|thorough]   run one check
# check.sh replay <file>                 re-run one reported case
# check.sh setup                         build everything
# Builds the harness against /repo's working tree, offline, then runs it.
export VERIF_ROOT=${VERIF_ROOT:-/verif}
cd "$VERIF_ROOT" || exit 2
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export CARGO_TARGET_DIR=$VERIF_ROOT/target
export DOCS_RS=1   # the project's own switch: dictionary crates embed a one-word dummy dictionary
mkdir -p "$CARGO_TARGET_DIR" "$VERIF_ROOT/evidence" "$VERIF_ROOT/out"

# cargo decides by file times; decide by content instead: if /repo's sources differ from those
# the current build products were made from, drop the products of the project's own crates.
repo_hash() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \
        \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum
}
# The build scripts of the dictionary crates cannot run twice, so newer times count as well.
repo_times() {
    (cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f \
        \( -name '*.rs' -o -name 'Cargo.toml' -o -name 'Cargo.lock' \) -printf '%p %T@\n' | LC_ALL=C sort) | sha256sum
}
fresh() {
    local d=$1 h
    h="$(repo_hash) $(repo_times)"
    if [ "$(cat "$d/.repo-hash" 2>/dev/null)" != "$h" ]; then
        rm -rf "$d"/debug/.fingerprint/{lindera,mc,emb,gen,sched}-* "$d"/debug/.fingerprint/lindera 2>/dev/null
        # build scripts of the dictionary crates cannot run twice in one directory
        rm -rf "$d"/debug/build/lindera-* 2>/dev/null
        mkdir -p "$d"
        echo "$h" > "$d/.repo-hash"
    fi
}
build() { # crate dir, target dir
    export CARGO_TARGET_DIR=$2
    fresh "$2"
    local log=$VERIF_ROOT/out/build-$(basename "$1").log
    if ! cargo build --offline --locked --manifest-path "$1/Cargo.toml" >"$log" 2>&1; then
        grep -E '^error' -A 12 "$log" | head -60
        echo "the harness could not be built against /repo" >&2
        exit 2
    fi
}
MC="$VERIF_ROOT/target/debug/mc"

# The dictionary generator, without or with compression ($1 = embed|compress).
build_gen() {
    export CARGO_TARGET_DIR=$VERIF_ROOT/target/gen-$1
    fresh "$CARGO_TARGET_DIR"
    local log=$VERIF_ROOT/out/build-gen-$1.log
    local args=(build --offline --locked --manifest-path "$VERIF_ROOT/gen/Cargo.toml")
    [ "$1" = compress ] && args+=(--features compress)
    cargo "${args[@]}" >"$log" 2>&1 || build_failed "$log"
}
# The embedded dictionaries with their harness and the command line tool ($1 = embed|compress).
# Offline, the dictionary crates' build scripts can only make a one-word dummy, so the files
# they embed are replaced by dictionaries which the real builders make from sources of ours.
build_embedded() {
    local feat=$1 t=$VERIF_ROOT/target/$1 log=$VERIF_ROOT/out/build-$1.log mark k d f
    build_gen "$feat"
    export CARGO_TARGET_DIR=$t
    fresh "$t"
    mark="$(cat "$t/.repo-hash") $(cat "$VERIF_ROOT"/{mc/src/{rich,worlds,dictkit,fw}.rs,emb/src/sources.rs,{emb,gen}/Cargo.*,gen/src/main.rs} | sha256sum)"
    local args=(build --offline --locked --manifest-path "$VERIF_ROOT/emb/Cargo.toml")
    [ "$feat" = compress ] && args+=(--features compress)
    if [ "$(cat "$t/.embedded" 2>/dev/null)" != "$mark" ]; then
        rm -f "$t/.embedded"
        # the build scripts of the dictionary crates cannot run twice in one directory
        rm -rf "$t"/debug/build/lindera-* "$t"/debug/.fingerprint/lindera*
        cargo "${args[@]}" --bin lindera >"$log" 2>&1 || build_failed "$log"
        for k in ipadic ipadic-neologd unidic ko-dic cc-cedict; do
            rm -rf "$t/made-$k"
            if ! "$VERIF_ROOT/target/gen-$feat/debug/gen" embedded $k "$t/made-$k" 2>"$t/made-$k.err"; then
                echo "note: the $k dictionary could not be built: $(head -c 300 "$t/made-$k.err")"
                continue
            fi
            for d in "$t"/debug/build/lindera-$k-*/out/lindera-$k; do
                [ -d "$d" ] || continue
                for f in "$t/made-$k"/*; do
                    cmp -s "$f" "$d/$(basename "$f")" || cp "$f" "$d/"
                done
            done
        done
        cargo "${args[@]}" >"$log" 2>&1 || build_failed "$log"
        echo "$mark" > "$t/.embedded"
    else
        cargo "${args[@]}" >"$log" 2>&1 || build_failed "$log"
    fi
}
# The harness of C08: the project's crates compiled with scheduling callbacks.
build_sched() {
    export CARGO_TARGET_DIR=$VERIF_ROOT/target/sched
    fresh "$CARGO_TARGET_DIR"
    local log=$VERIF_ROOT/out/build-sched.log
    RUSTC_WRAPPER="$VERIF_ROOT/sched/rustc-wrapper.sh" cargo build --offline --locked --manifest-path "$VERIF_ROOT/sched/Cargo.toml" >"$log" 2>&1 || build_failed "$log"
}
# The fault injector of C26.
build_shim() {
    mkdir -p "$VERIF_ROOT/target"
    gcc -O1 -w -shared -fPIC -o "$VERIF_ROOT/target/faults.so.$$" "$VERIF_ROOT/emb/shim/faults.c" -ldl || exit 2
    mv "$VERIF_ROOT/target/faults.so.$$" "$VERIF_ROOT/target/faults.so"
}
build_failed() {
    grep -E '^error' -A 12 "$1" | head -60
    echo "the harness could not be built against /repo" >&2
    exit 2
}

case "$1" in
setup)
    build "$VERIF_ROOT/mc" "$VERIF_ROOT/target"
    build_embedded embed
    build_embedded compress
    build_sched
    build_shim
    exit 0 ;;
replay)
    build "$VERIF_ROOT/mc" "$VERIF_ROOT/target"
    case $(grep -o '"property": "C\(2[3456]\|08\)"' "$2") in
    *C2[3456]*)
        build_shim
        build_embedded embed
        build_embedded compress
        exec "$VERIF_ROOT/target/embed/debug/emb" replay "$2" ;;
    *C08*)
        build_sched
        exec "$VERIF_ROOT/target/sched/debug/sched" replay "$2" ;;
    esac
    exec "$MC" replay "$2" ;;
C08)
    build_sched
    exec "$VERIF_ROOT/target/sched/debug/sched" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
C23)
    build_embedded embed
    build_embedded compress
    exec "$VERIF_ROOT/target/embed/debug/emb" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
C24|C25)
    build_embedded embed
    exec "$VERIF_ROOT/target/embed/debug/emb" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
C26)
    build_shim
    build_embedded embed
    exec "$VERIF_ROOT/target/embed/debug/emb" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
*)
    build "$VERIF_ROOT/mc" "$VERIF_ROOT/target"
    exec "$MC" "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
