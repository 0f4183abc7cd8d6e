#!/bin/bash
# cargo calls: rustc-wrap.sh <rustc> <args...>. For the crate under test (library and program) only, the std stand-in is passed
# as "std"; everything else is compiled untouched.
rustc=$1; shift
name=; prev=; dep=
for a in "$@"; do
  [ "$prev" = --crate-name ] && name=$a
  case "$prev $a" in "-L dependency="*) dep=${a#dependency=};; esac
  prev=$a
done
if { [ "$name" = nar20_1 ] || [ "$name" = narsim_app ]; } && [ -n "$dep" ]; then
  s=$(ls -t "$dep"/libsimstd-*.rmeta 2>/dev/null | head -1)
  if [ -z "$s" ]; then echo "rustc-wrap: libsimstd not found in $dep" >&2; exit 1; fi
  exec "$rustc" "$@" --cfg narsim --extern "std=$s"
fi
exec "$rustc" "$@"
