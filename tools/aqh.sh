. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
export LD_LIBRARY_PATH="$(rustc --print sysroot)/lib:$(rustc --print target-libdir)"
exec "$CARGO_TARGET_DIR/debug/aqh" "$@"
