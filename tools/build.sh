# Sourced: builds the monitors against /repo's working tree.
build_mon() { ( cd "$here/mon" && CARGO_TARGET_DIR="$here/target" cargo build --release --offline --quiet ); }
build_ffi() { ( cd "$here/ffi" && FFIMON_ASAN=1 RUSTFLAGS="-Zsanitizer=address" CARGO_TARGET_DIR="$here/target-ffi" cargo build --release --offline --quiet --target x86_64-unknown-linux-gnu ); }
miri_env="MIRIFLAGS=-Zmiri-disable-stacked-borrows CARGO_TARGET_DIR=$here/target-miri XDG_CACHE_HOME=$here/target-miri/cache"
build_miri() { ( unset RUSTUP_TOOLCHAIN; cd "$here/miri" && export $miri_env && mkdir -p "$here/target-miri" && cargo +nightly miri setup && cargo +nightly miri run --offline --quiet -- 1 0 ); }
run_miri() { ( unset RUSTUP_TOOLCHAIN; cd "$here/miri" && export $miri_env && exec cargo +nightly miri run --offline --quiet -- "$@" ); }
build_bins() { ( cd "$here/bins" && CARGO_TARGET_DIR="$here/target-bins" cargo build --release --offline --quiet ); }
# ThreadSanitizer needs an instrumented standard library.
build_race() { ( cd "$here/race" && RUSTUP_TOOLCHAIN=nightly RUSTFLAGS="-Zsanitizer=thread" CARGO_TARGET_DIR="$here/target-race" cargo build --release --offline --quiet -Zbuild-std --target x86_64-unknown-linux-gnu ); }
