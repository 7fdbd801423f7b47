#!/bin/bash
# copy.sh NAME : copy of committed /verif and /repo at /tmp/w/NAME
d=/tmp/w/$1; mkdir -p $d
[ -d $d/repo ] || git clone -q /repo $d/repo
[ -d $d/verif ] || git clone -q /verif $d/verif
git -C $d/repo fetch -q; git -C $d/repo reset -q --hard origin/HEAD
git -C $d/verif checkout -q -- .; git -C $d/verif fetch -q; git -C $d/verif reset -q --hard origin/HEAD
sed -i "s#^repo=/repo#repo=$d/repo#" $d/verif/run.sh
sed -i "s#\"/repo\"#\"$d/repo\"#" $d/verif/harness/Cargo.toml
