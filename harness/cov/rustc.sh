#!/bin/sh
# RUSTC_WRAPPER: coverage counters in the code under test and the harness, comparison tracing in the former;
# with FV_COV=work, a callback at every edge of everything that is compiled here.
rustc="$1"
shift
if [ "$FV_COV" = work ]; then
    # (What runs while building is built without --target.)
    case " $* " in
    *" --crate-name ___ "*) exec "$rustc" "$@" ;;
    *" --target "*) exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-trace-pc-guard ;;
    *) exec "$rustc" "$@" ;;
    esac
fi
case " $* " in
*" --crate-name fleece "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters -Cllvm-args=-sanitizer-coverage-trace-compares -Ccodegen-units=1 ;;
*" --crate-name fv "*)
    exec "$rustc" "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 -Cllvm-args=-sanitizer-coverage-inline-8bit-counters ;;
*) exec "$rustc" "$@" ;;
esac
