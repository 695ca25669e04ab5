#!/bin/bash
# mkseed.sh <id> : (re)creates the common files in seeded/<id>; then verify with seedtest.sh
S=/verif/seeded/$1; mkdir -p $S; cp /verif/tools/seedlib/{process.hpp,common.sh,demo.h} $S/
