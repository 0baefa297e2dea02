#!/bin/bash
# Compiler wrapper of the workspace crates: the fact driver compiles the analysed crates, plain rustc everything else.
case " $* " in
  *" --crate-name pact_"*)
    while [ ! -e "$FACT_EXE.done" ]; do
      [ -e "$FACT_EXE.fail" ] && exit 1
      sleep 0.05
    done
    exec "$FACT_EXE" "$@" ;;
  *) exec "$@" ;;
esac
