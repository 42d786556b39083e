#!/bin/bash
# Builds the harness binaries named on the command line from /repo's working tree.
# Usage: build.sh TARGET...   TARGET: vh | mdb | serve | cli | fake | web
set -e
. "$(dirname "${BASH_SOURCE[0]}")/env.sh"
mkdir -p "$V/.build"
exec 9>"$V/.build/lock"
flock 9
if [ ! -d "$V/.build/target" ] && [ -d /opt/vp/work/target ]; then
  # the dependencies, as /opt/vp/build.sh compiled them
  rm -rf -- "$V/.build/target.tmp"
  cp -a /opt/vp/work/target "$V/.build/target.tmp"
  mv "$V/.build/target.tmp" "$V/.build/target"
fi
[ "$*" = web ] || python3 "$V/lib/sync.py"
for t in "$@"; do
  case $t in
    serve) (cd "$V/.build/ws" && cargo build --offline -q -p aquascope_serve) ;;
    mdb) (cd "$V/.build/ws" && cargo build --offline -q -p mdbook-aquascope --bin mdbook-aquascope) ;;
    fake)
      mkdir -p "$V/.build/fake"
      for n in cargo rustc; do
        [ "$V/.build/fake/$n" -nt "$V/harness/fake/fake.c" ] || gcc -O1 -w -o "$V/.build/fake/$n" "$V/harness/fake/fake.c"
      done ;;
    web)
      mkdir -p "$V/.build/web"
      node "$V/harness/web/run.mjs" "${VERIF_REPO:-/repo}/frontend" "$V/.build/web" build ;;
    cli) (cd "$V/.build/ws" && cargo build --offline -q -p aquascope_front) ;;
    *) (cd "$V/harness/$t" && cargo build --offline -q) ;;
  esac
done
