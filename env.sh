# sourced by the check scripts: toolchain + offline settings, without changing directory
export RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-1.99.0-x86_64-unknown-linux-gnu}"
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
