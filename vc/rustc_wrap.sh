#!/bin/bash
# RUSTC_WORKSPACE_WRAPPER: same compiler, same flags, plus textual MIR of workspace members.
# Host-side compilations (no --target wasm32) are left alone.
case " $* " in
  *" wasm32-unknown-unknown "*|*"--target=wasm32-unknown-unknown"*)
    RUSTC_BOOTSTRAP=1 exec "$@" --emit=mir -Zmir-opt-level=0 -Ztrim-diagnostic-paths=no -Zmir-include-spans=no;;
  *) exec "$@";;
esac
