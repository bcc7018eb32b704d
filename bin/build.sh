#!/bin/bash
# Builds everything the checks need from /repo's current working tree:
#   .build/lib      nntile + nntile_core (cmake/ninja, incremental)
#   .build/py       staged python package (current /repo sources + built core)
#   .build/shim.so  controlled-schedule StarPU replacement
#   .build/tlajava  TLC operator overrides
#   .build/tiledrv.so  C++ driver for tiles, tensors of every type, traits, handles
# Serialised by a lock; prints only on failure.
set -u
V="$(cd "$(dirname "$0")/.." && pwd)"
R="${NNV_REPO:-/repo}"
B="${NNV_BUILD:-$V/.build}"
mkdir -p "$B"
exec 9>"$B/lock"
flock 9
PY=/opt/nntile-venv/bin/python
configure() {
  cmake -S "$R" -B "$B/lib" -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo \
    "-DCMAKE_CXX_FLAGS=-Wno-error -include cmath -D_GLIBCXX_ASSERTIONS" "-DCMAKE_CXX_FLAGS_RELWITHDEBINFO=-O2" \
    -DUSE_CUDA=OFF -DBUILD_TESTS=OFF -DBUILD_EXAMPLES=OFF -DBUILD_DOCS=OFF \
    -DPYTHON_EXECUTABLE=$PY -DFETCHCONTENT_FULLY_DISCONNECTED=ON \
    -DFETCHCONTENT_TRY_FIND_PACKAGE_MODE=ALWAYS >"$B/configure.log" 2>&1
}
build() { ninja -C "$B/lib" -j "${NNV_JOBS:-8}" nntile nntile_core >"$B/build.log" 2>&1; }
if [ ! -f "$B/lib/build.ninja" ]; then configure; fi
# content hash of everything that is compiled: if it changed although ninja sees
# no newer file (restored timestamps), rebuild from scratch
H=$(cd "$R" && find include src wrappers CMakeLists.txt -type f -not -name '*.pyc' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
OLD=$(cat "$B/srchash" 2>/dev/null)
if [ "$H" != "$OLD" ] && [ -n "$OLD" ]; then
  if ninja -C "$B/lib" -n nntile nntile_core 2>/dev/null | grep -q 'no work to do'; then
    HC=$(cd "$R" && find include src wrappers CMakeLists.txt -type f -not -name '*.py*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
    [ "$HC" != "$(cat "$B/cxxhash" 2>/dev/null)" ] && ninja -C "$B/lib" -t clean >/dev/null 2>&1
  fi
fi
if ! build; then
  mv "$B/lib" "$B/lib.bad.$$" 2>/dev/null
  rm -rf "$B/lib.bad.$$"
  if ! { configure && build; }; then
    echo "BUILD FAILED" >&2; tail -40 "$B/build.log" >&2; exit 3
  fi
fi
echo "$H" >"$B/srchash"
(cd "$R" && find include src wrappers CMakeLists.txt -type f -not -name '*.py*' -print0 | sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64) >"$B/cxxhash"
# stage python
rm -rf "$B/py.new"; mkdir -p "$B/py.new"
cp -r "$R/wrappers/python/nntile" "$B/py.new/nntile" || exit 3
find "$B/py.new" -name '__pycache__' -prune -exec rm -rf {} +
cp "$B"/lib/wrappers/python/nntile/nntile_core*.so "$B/py.new/nntile/" || exit 3
if ! diff -rq "$B/py.new" "$B/py" -x __pycache__ >/dev/null 2>&1; then
  rm -rf "$B/py"; mv "$B/py.new" "$B/py"
else rm -rf "$B/py.new"; fi
# shim
if [ "$V/shim/starpu_shim.cc" -nt "$B/shim.so" ]; then
  g++ -O1 -g -fPIC -shared -std=c++17 -I/usr/include/starpu/1.4 "$V/shim/starpu_shim.cc" -o "$B/shim.so.n" -lpthread || exit 3
  mv "$B/shim.so.n" "$B/shim.so"
fi
# TLC overrides; FixMathPure is FixMath under a name they do not apply to
sed 's/MODULE FixMath /MODULE FixMathPure /' "$V/spec/FixMath.tla" | cmp -s - "$V/spec/FixMathPure.tla" || { echo 'spec/FixMathPure.tla is out of step with spec/FixMath.tla' >&2; exit 3; }
if [ "$V/spec/java/FixMath.java" -nt "$B/tlajava/FixMath.class" ]; then
  mkdir -p "$B/tlajava"
  javac -cp /opt/veriftools/tla/tla2tools.jar -d "$B/tlajava" "$V"/spec/java/*.java || exit 3
  touch "$B/tlajava/FixMath.class"
fi
# C++ driver: depends on the headers only
HT=$( (cd "$R" && find include -type f -print0 | sort -z | xargs -0 sha256sum; cat "$B/lib/include/nntile/defs.h" "$V/cxx/tiledrv.cc" "$V/cxx/Makefile") | sha256sum | cut -c1-64)
if [ "$HT" != "$(cat "$B/tiledrvhash" 2>/dev/null)" ] || [ ! -f "$B/tiledrv.so" ]; then
  make -s -C "$V/cxx" B="$B" R="$R" >"$B/tiledrv.log" 2>&1 || { echo "BUILD FAILED (tiledrv)" >&2; tail -40 "$B/tiledrv.log" >&2; exit 3; }
  echo "$HT" >"$B/tiledrvhash"
fi
exit 0
