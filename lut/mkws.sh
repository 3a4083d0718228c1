#!/bin/bash
# mkws.sh WS LUTDIR: make WS a cargo-loadable image of /repo. Everything is a
# symlink into /repo read at build time; only the table crates are stand-ins.
WS=$1
mkdir -p "$WS"
find "$WS" -mindepth 1 -maxdepth 1 ! -name Cargo.lock ! -name '*_lut' -exec rm -rf {} +
for e in /repo/*; do
    n=${e##*/}
    case $n in
        Cargo.lock|target) ;;
        *_lut)
            rm -rf "${WS:?}/$n"
            if [ -e "$e/src" ]; then ln -s "$e" "$WS/$n"
            else ln -s "/verif/lut/crates/$n" "$WS/$n"; fi ;;
        *) ln -s "$e" "$WS/$n" ;;
    esac
done
