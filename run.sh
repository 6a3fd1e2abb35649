#!/bin/sh
# usage: run.sh check <property> <quick|thorough> | run.sh replay '<case>' | run.sh build
export PATH="$HOME/.cargo/bin:$PATH" LC_ALL=C.UTF-8
V=$(cd "$(dirname "$0")" && pwd)
B="$V/.build"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTFLAGS=-Awarnings
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
mkdir -p "$B"

build_engine() {
    cargo build --release --offline -q --manifest-path "$V/engine/Cargo.toml" --target-dir "$B/engine" >"$B/engine.log" 2>&1
}
build_replay() {
    cargo build --release --offline -q --manifest-path "$V/harness/native/Cargo.toml" --target-dir "$B/native" >"$B/native.log" 2>&1
}
build_ir() {
    rm -rf "$B"/ir/release/.fingerprint/h-* "$B"/ir/release/deps/h*.ll "$B/a.ll" "$B/b.ll"
    (cd "$V/harness/ir" && CARGO_PROFILE_RELEASE_OPT_LEVEL=0 cargo rustc --release --lib --offline -q --target-dir "$B/ir" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp) >"$B/ir.log" 2>&1 || return 1
    f=$(ls -t "$B"/ir/release/deps/h*.ll 2>/dev/null | head -1)
    [ -n "$f" ] || return 1
    python3 "$V/tools/cut.py" "$f" "$B/a.ll" >>"$B/ir.log" 2>&1 || return 1
    rm -f "$f"
    O=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt
    "$O" -S -strip-debug -passes='default<O2>' -vectorize-loops=false -vectorize-slp=false "$B/a.ll" -o "$B/b.ll" >>"$B/ir.log" 2>&1
}
# the command line tool as a library: the files of /repo/src/bin, main made callable
glue() {
    mkdir -p "$B/glue/src" && cp -R /repo/src/bin/. "$B/glue/src/" || return 1
    printf '\n#[allow(unused)] pub fn run_main() { let _ = main(); }\n' >>"$B/glue/src/tomlkit.rs"
    printf '[package]\nname = "glue"\nversion = "0.1.0"\n[lib]\npath = "src/tomlkit.rs"\n[dependencies]\ntomllib = { path = "/repo" }\npirate = "*"\ncsv = "*"\nenv_logger = "*"\n' >"$B/glue/Cargo.toml"
}
build_cli_ir() {
    glue >"$B/cli.log" 2>&1 || return 1
    rm -rf "$B"/cli/release/.fingerprint/hc-* "$B"/cli/release/deps/hc*.ll "$B/ca.ll" "$B/cb.ll"
    (cd "$V/harness/cli" && CARGO_PROFILE_RELEASE_OPT_LEVEL=0 cargo rustc --release --lib --offline -q --target-dir "$B/cli" -- --emit=llvm-ir -C no-vectorize-loops -C no-vectorize-slp) >>"$B/cli.log" 2>&1 || return 1
    f=$(ls -t "$B"/cli/release/deps/hc*.ll 2>/dev/null | head -1)
    [ -n "$f" ] || return 1
    python3 "$V/tools/cut.py" "$f" "$B/ca.ll" >>"$B/cli.log" 2>&1 || return 1
    rm -f "$f"
    O=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin/opt
    "$O" -S -strip-debug -passes='default<O2>' -vectorize-loops=false -vectorize-slp=false "$B/ca.ll" -o "$B/cb.ll" >>"$B/cli.log" 2>&1
}
build_cli_replay() {
    cargo build --release --offline -q --manifest-path "$V/harness/cli-native/Cargo.toml" --target-dir "$B/clin" >"$B/clin.log" 2>&1
}
build_bin() {
    CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true cargo build --release --offline -q --locked --manifest-path /repo/Cargo.toml --bin tomlkit --target-dir "$B/bin" >"$B/bin.log" 2>&1
}
# what to build: lib (the library's harnesses) or cli (the command line tool's) or both
build() {
    build_engine & e=$!
    [ "$1" = cli ] || { build_replay & r=$!; build_ir & i=$!; }
    [ "$1" = lib ] || { build_cli_replay & cr=$!; build_cli_ir & ci=$!; build_bin & cb=$!; }
    ok=0
    wait $e || { echo "engine build failed"; tail -n 60 "$B/engine.log"; ok=1; }
    if [ "$1" != cli ]; then
        wait $r || { echo "native harness build failed"; tail -n 60 "$B/native.log"; ok=1; }
        wait $i || { echo "IR generation failed"; tail -n 60 "$B/ir.log"; ok=1; }
    fi
    if [ "$1" != lib ]; then
        wait $cr || { echo "native harness build failed"; tail -n 60 "$B/clin.log"; ok=1; }
        wait $ci || { echo "IR generation failed"; tail -n 60 "$B/cli.log"; ok=1; }
        wait $cb || { echo "build of tomlkit failed"; tail -n 60 "$B/bin.log"; ok=1; }
    fi
    return $ok
}
# sets K, A, N: what is built and run for property $1
parts() {
    case "$1" in
    X*) K=cli A=c N="$B/clin/release/creplay" ;;
    *) K=lib A= N="$B/native/release/replay" ;;
    esac
    export TOMLKIT="$B/bin/release/tomlkit"
}

case "$1" in
build)
    build all || exit 5
    ;;
check)
    t0=$(date +%s)
    parts "$2"
    [ -n "$NOBUILD" ] || build $K || exit 5
    t1=$(date +%s)
    if [ "$3" = thorough ]; then dl=${DEADLINE:-3000}; else dl=${DEADLINE:-480}; fi
    mkdir -p "$V/evidence" "$V/replay"
    rm -f "$V/replay/$2"-*.txt
    P=$2
    T=$3
    shift 3
    exec "$B/engine/release/symx" --ll "$B/${A}b.ll" --full "$B/${A}a.ll" --plan "$V/harness/plan.txt" --prop "$P" --tier "$T" --replay "$N" --known "$V/known_findings.txt" --evidence "$V/evidence/$P.json" --out "$V/replay" --deadline "$dl" --prep $((t1 - t0)) "$@"
    ;;
replay)
    case "$2" in x_*) parts X ;; *) parts L ;; esac
    [ -n "$NOBUILD" ] || build $K || exit 5
    printf '%s\n' "$2" | "$N" | while read -r k a b; do
        if [ "$k" = OBS ]; then printf 'OBS %s ' "$a"; printf '%s' "$b" | python3 -c 'import sys; print(repr(bytes.fromhex(sys.stdin.read()).decode("utf-8","replace")))'; else echo "$k $a $b"; fi
    done
    ;;
*)
    echo "usage: run.sh check <property> <quick|thorough> | replay '<case>' | build"
    exit 2
    ;;
esac
