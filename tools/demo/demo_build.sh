# Sourced by demo.sh: demo_build <out> <mpi|nompi> <source...>: compiles the given sources of the
# current directory (the repository) and demo.cc into a scratch directory, then links them.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
demo_build() {
  local mpi=$1
  shift
  local cxx=g++
  cat > "$work/env.cc" <<'X'
#include <string_view>
#include "kaminpar-common/environment.h"
namespace kaminpar {
const std::string_view Environment::GIT_SHA1 = "demo";
const std::string_view Environment::GIT_MODIFIED_FILES = "demo";
const std::string_view Environment::HOSTNAME = "demo";
} // namespace kaminpar
X
  local defs="-DKAMINPAR_ENABLE_TIMERS -DKAMINPAR_COMPRESSION_HIGH_DEGREE_ENCODING -DKAMINPAR_COMPRESSION_INTERVAL_ENCODING -DKAMINPAR_SPARSEHASH_FOUND -DKAMINPAR_USES_GROWT -DKASSERT_ASSERTION_LEVEL=0 -DNDEBUG"
  [ -f "$here/defs" ] && defs=$(cat "$here/defs")
  local flags="-std=c++20 -O1 -msse4.1 -mcx16 -w $defs -I$here/include -I$PWD -I$PWD/external/growt -I$PWD/apps -I$here"
  if [ "$mpi" = mpi ]; then cxx=mpicxx; fi
  local list="$work/list"
  : > "$list"
  local i=0
  for s in "$here/demo.cc" "$work/env.cc" "$@"; do
    i=$((i + 1))
    echo "$cxx $flags -c $s -o $work/$i.o" >> "$list"
  done
  xargs -P 8 -d '\n' -n 1 sh -c < "$list" || exit 99
  $cxx -o "$work/demo" "$work"/*.o -ltbb -ltbbmalloc -latomic -lpthread || exit 99
}
