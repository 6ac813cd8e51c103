#!/bin/bash
# development: run.sh ID [flags]   uses the builds in /tmp/b1
cd /verif
mkdir -p /tmp/w1
/tmp/b1/hx.plain -check $1 -work /tmp/w1 -plain /tmp/b1/hx.plain -inst /tmp/b1/hx.inst -race /tmp/b1/hx.race -mock /tmp/b1/hx.mock -evidence evidence/$1.json -replays /tmp/replay -known known-findings.txt "${@:2}"
