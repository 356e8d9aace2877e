#!/bin/sh
# Compiler wrapper of the "sched" build: the code under test calls
# __sanitizer_cov_trace_pc at the start of every basic block; the harness
# defines that function as its scheduling point. Nothing else is instrumented.
case " $* " in
*" --crate-name keyword_pir_lwe "* | *" --crate-name xorf "* | *" --crate-name pi_rs_cli_utils "*)
  exec "$@" -Cpasses=sancov-module -Cllvm-args=-sanitizer-coverage-level=3 \
    -Cllvm-args=-sanitizer-coverage-trace-pc \
    -Cllvm-args=-sanitizer-coverage-prune-blocks=0
  ;;
*) exec "$@" ;;
esac
