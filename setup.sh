#!/bin/bash
# build everything once and test the simulator itself
cd /verif && ./build.sh rel inst dbg nostd asan emu-x86_64 emu-s390x emu-i686 && .build/bin/dst-rel selftest
