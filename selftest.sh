#!/bin/bash
# selftest.sh: compares the executor with the Go runtime on harness/hs (language, standard library,
# synchronisation): every assertion must hold symbolically, and natively on a witness of every path.
cd "$(dirname "$0")"
bash setup.sh >/dev/null || exit 2
bash eng.sh C90 hs "" -tier quick
