#!/bin/bash
# check.sh build                 build the simulators from /repo's working tree
# check.sh C01 [quick|thorough]  run one check (tier defaults to $VERIF_TIER, seed to $VERIF_SEED)
# check.sh replay FILE           re-execute a replay file
# check.sh determinism [IDS]     print the event-trace hash of the first plans of each property
# Exit: 0 held, 1 violation (with a VIOLATION line), 2 the check itself could not run.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER=$PWD/sim/rustc-wrap.sh
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_BACKTRACE
seed=${VERIF_SEED:-1}
case $seed in ''|*[!0-9]*) seed=1;; esac

build() {
    # Rebuild what comes from /repo whenever its content changed, whatever the time stamps say.
    local h old
    h=$(cd /repo && sha256sum "$RUSTC_WRAPPER" && find proof_of_space proof_of_storage -name target -prune -o -type f \( -name '*.rs' -o -name 'Cargo.*' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    old=$(cat sim/target/.source-hash 2>/dev/null)
    if [ -d sim/target/release ] && [ "$h" != "$old" ]; then
        rm -f sim/target/.source-hash
        (cd sim && cargo clean --release --offline -p pospace_real -p pospace_small -p pospace_gadget -p postorage_real -p threadpool) >/dev/null 2>&1
    fi
    local log
    log=$(mktemp)
    if ! (cd sim && cargo build --release --offline --locked "$@") >"$log" 2>&1; then
        grep -A12 '^error' "$log" >&2 || tail -30 "$log" >&2
        rm -f "$log"
        echo "the simulator does not build against /repo" >&2
        exit 2
    fi
    rm -f "$log"
    echo "$h" > sim/target/.source-hash
}
bin_for() {
    case $1 in
        C0[1-7]) echo space_sim;;
        C0[89]|C1[0-6]) echo storage_sim;;
        C18) echo gadget_sim;;
        *) echo "unknown property $1" >&2; exit 2;;
    esac
}

case ${1:-} in
    build)
        build
        ;;
    replay)
        id=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") || exit 2
        b=$(bin_for "$id") || exit 2
        build -p "$b"
        exec sim/target/release/"$b" replay "$2"
        ;;
    determinism)
        build
        for b in space_sim storage_sim gadget_sim; do sim/target/release/$b determinism --seed "$seed" --property "${2:-}" ${3:+--runs "$3"} ${4:+--jobs "$4"}; done
        ;;
    C*)
        id=$1
        tier=${2:-${VERIF_TIER:-quick}}
        b=$(bin_for "$id") || exit 2
        build -p "$b"
        mkdir -p evidence replays
        exec sim/target/release/"$b" check --property "$id" --tier "$tier" --seed "$seed" \
            --evidence "evidence/$id.json" --replays "$PWD/replays" --known known_findings.jsonl --jobs "$(nproc)"
        ;;
    *)
        sed -n '2,6p' "$0" >&2
        exit 2
        ;;
esac
