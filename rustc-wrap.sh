#!/bin/bash
# RUSTC_WRAPPER of the interleaving harness: gives craballoc a std and core whose synchronization is
# controlled by the explorer, and lets the harness and the channel shim see the explorer.
# MCSTD: directory that holds libmcstd.rlib and libmccore.rlib.
rustc=$1
shift
name=
prev=
for a in "$@"; do
  [ "$prev" = "--crate-name" ] && name=$a
  prev=$a
done
case $name in
craballoc)
  exec "$rustc" "$@" --extern "std=$MCSTD/libmcstd.rlib" --extern "core=$MCSTD/libmccore.rlib" -L "$MCSTD"
  ;;
conc | async_channel)
  exec "$rustc" "$@" --extern "mcstd=$MCSTD/libmcstd.rlib" -L "$MCSTD"
  ;;
*)
  exec "$rustc" "$@"
  ;;
esac
