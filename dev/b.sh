export PATH=/root/.cargo/bin:$PATH; unset RUST_BACKTRACE; cd /verif/sim/harness && CARGO_TARGET_DIR=/verif/build/target cargo build --release --offline 2>&1 | grep -E "^(error|warning: unused)|-->|Finished|panicked" -A6 | head -${1:-60}
