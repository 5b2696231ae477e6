#!/bin/bash
# check.sh ID quick|thorough : build the checker against /repo's current tree, run one property's check.
here=$(cd "$(dirname "$0")" && pwd)
part=mc; [ "$1" = C23 ] && part=st
log=$(mktemp)
if ! bash "$here/$part/build.sh" >"$log" 2>&1; then
  tail -40 "$log"; rm -f "$log"
  echo "build failed"; exit 2
fi
# Some properties are checked with the feature single-term-leader too.
case "$1" in C01|C02|C03|C04|C07|C15|C17)
  if ! MC_SINGLE_TERM=1 bash "$here/mc/build.sh" >"$log" 2>&1; then
    tail -40 "$log"; rm -f "$log"
    echo "build failed"; exit 2
  fi;;
esac
rm -f "$log"
exec "$here/$part/target/release/$part" check --property "$1" --tier "${2:-${VERIF_TIER:-quick}}"
