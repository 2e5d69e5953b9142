# build_targets T...: configure if needed, rebuild from /repo's working tree
build_targets() {
  local H=$V/harness
  (
    flock 9
    if [ ! -f "$B/build.ninja" ]; then
      rm -rf "$B"; mkdir -p "$B"
      cmake -S "$H" -B "$B" -G Ninja -DEKF_CAL_DIR=/repo -DCMAKE_BUILD_TYPE= \
        -DCMAKE_CXX_FLAGS="-O1 -g1 -Wno-error -D_GLIBCXX_ASSERTIONS" > "$B/configure.log" 2>&1 \
        || { cat "$B/configure.log" >&2; exit 1; }
    fi
    # Ninja goes by time stamps: start clean when content changed but time did not
    local S=$B/sources.sha256
    if [ -f "$S" ]; then
      local stale=0
      while read -r f; do
        [ -f "$f" ] && [ ! "$f" -nt "$S" ] && stale=1
      done < <(LC_ALL=C sha256sum -c --quiet "$S" 2>/dev/null | sed -n 's/: FAILED$//p')
      [ $stale = 1 ] && ninja -C "$B" -t clean > /dev/null
    fi
    find /repo/src /repo/CMakeLists.txt "$H" -type f ! -name '*.png' -print0 |
      sort -z | xargs -0 sha256sum > "$S"
    if ! ninja -C "$B" -j8 "$@" > "$B/build.log" 2>&1; then
      tail -60 "$B/build.log" >&2; exit 1
    fi
  ) 9> "$V/.build.lock"
}
