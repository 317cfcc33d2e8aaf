#!/bin/bash
# rustc wrapper: the crates whose locks are to be seen get the stand-in for std
rustc=$1; shift
name=
prev=
for a in "$@"; do [ "$prev" = --crate-name ] && name=$a; prev=$a; done
case "$name" in
  wz_reader|wzconc) exec "$rustc" "$@" --extern "std=$WZSHIM/libwzshim.rlib" --extern "wzshim=$WZSHIM/libwzshim.rlib" -L "dependency=$WZSHIM" ;;
  *) exec "$rustc" "$@" ;;
esac
