. /opt/vp/sbpf/env.sh
unset CARGO_INCREMENTAL
