#!/bin/bash
# newseed.sh ID: lay out a planted bug from the uncommitted change in /tmp/px (a copy of /repo)
S=/verif/seeded/$1; mkdir -p $S; cp /verif/tools/demo/{Cargo.toml,Cargo.lock,demo.sh,sim.rs} $S/
