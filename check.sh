#!/bin/bash
# check.sh ID [--replay FILE | extra harness options]
# Builds the code under test from /repo's working tree (AddressSanitizer, out of tree), builds the property's
# harness, runs it. Objects are cached under .cache/ by a hash of the sources, so a cache hit is the same build.
set -u
export LC_ALL=C.UTF-8
here=$(cd "$(dirname "$0")" && pwd)
cd "$here" || exit 2
repo=${VERIF_REPO:-/repo}
id=$1; shift
src=checks/$id.cpp
[ -f "$src" ] || { echo "no check $id" >&2; exit 2; }
opt() { sed -n "s,^// $1: *,,p" "$src" | head -1; }
libs=$(opt libs); tools=$(opt tools); san=$(opt sanitize); extra=$(opt extra); objs=$(opt objects)
: "${san:=address}"
CC=clang; CXX=clang++
cflags="-O1 -g -fno-omit-frame-pointer -fsanitize=$san -DR_DEBUG_MEMALLOC -I$repo -I$repo/arch/unix -w -fno-strict-aliasing"
srchash=$( { cd "$repo" && find arch/unix rlib rvm rex rpa rexcc rexgrep rpagrep rexjson rexjsonrpc -type f \( -name '*.c' -o -name '*.h' -o -name '*.cpp' -o -name '*.rexcc' \) ! -path '*/win32/*' -print0 | sort -z | xargs -0 sha256sum; echo "$cflags"; clang --version | head -1; } | sha256sum | cut -c1-16)
cache=$here/.cache/$srchash-$san
mkdir -p "$cache"
exec 9>"$cache/.lock"; flock 9
build_list=$(mktemp "$cache/list.XXXXXX")
want() { # want OUT CMD...
	local out=$1; shift
	[ -f "$out" ] || printf '%s\0' "$* -o $out.tmp$$ && mv $out.tmp$$ $out" >>"$build_list"
}
run_builds() {
	if [ -s "$build_list" ]; then
		xargs -0 -P 8 -I{} sh -c '{}' <"$build_list" 2>"$cache/build.log" || { echo "build failed:" >&2; head -50 "$cache/build.log" >&2; rm -f "$build_list"; exit 2; }
	fi
	: >"$build_list"
}
libobjs=""
addlib() { for f in "$repo/$1"/*.c; do o=$cache/$1_$(basename "$f" .c).o; want "$o" $CC $cflags -c "$f"; libobjs="$libobjs $o"; done; }
for l in $libs; do case $l in rlib|rvm|rex|rpa) addlib $l;; esac; done
pbth=$(sha256sum lib/pbt.h lib/pbt.cpp | sha256sum | cut -c1-12)
want "$cache/pbt-$pbth.o" $CXX -O1 -g -fsanitize=$san -std=c++17 -c "$here/lib/pbt.cpp"
need_rexcc=0
case " $tools $libs $objs " in *" rexcc "*|*" rexjson "*|*" rexjsonpp "*|*" rexjsonrpc "*) need_rexcc=1;; esac
tlibs=""
tool_objs() { for l in "$@"; do for f in "$repo/$l"/*.c; do o=$cache/${l}_$(basename "$f" .c).o; [ -f "$o" ] || case " $libs " in *" $l "*) ;; *) want "$o" $CC $cflags -c "$f";; esac; tlibs="$tlibs $o"; done; done; }
[ $need_rexcc = 1 ] && tool_objs rlib rex && rexlibs=$tlibs
case " $tools " in *" rexgrep "*) tlibs=; tool_objs rlib rex; rexlibs=$tlibs;; esac
case " $tools " in *" rpagrep "*) tlibs=; tool_objs rlib rvm rpa; rpalibs=$tlibs;; esac
sort -zu "$build_list" -o "$build_list"
run_builds
if [ $need_rexcc = 1 ]; then
	want "$cache/rexcc" $CC $cflags "$repo"/rexcc/*.c "$repo"/rexcc/unix/*.c -I"$repo/rexcc" -I"$repo/rexcc/unix" $rexlibs -lm
fi
case " $tools " in *" rexgrep "*) want "$cache/rexgrep" $CC $cflags "$repo"/rexgrep/*.c "$repo"/rexgrep/unix/*.c -I"$repo/rexgrep" -I"$repo/rexgrep/unix" $rexlibs -lm;; esac
case " $tools " in *" rpagrep "*) want "$cache/rpagrep" $CC $cflags "$repo"/rpagrep/*.c "$repo"/rpagrep/unix/*.c -I"$repo/rpagrep" -I"$repo/rpagrep/unix" $rpalibs -lm;; esac
run_builds
jobjs=""
case " $objs " in *" rexjson "*|*" rexjsonpp "*|*" rexjsonrpc "*)
	[ -f "$cache/rexjsondfa.h" ] || { ASAN_OPTIONS=detect_leaks=0 "$cache/rexcc" "$repo/rexjson/rexjsondfa.rexcc" -o "$cache/rexjsondfa.h.tmp" >/dev/null 2>&1; [ -s "$cache/rexjsondfa.h.tmp" ] && mv "$cache/rexjsondfa.h.tmp" "$cache/rexjsondfa.h"; } || { echo "rexcc failed" >&2; exit 2; }
	for j in $objs; do case $j in
	rexjson) want "$cache/rexjson.o" $CC $cflags -I"$cache" -I"$repo/rexjson" -c "$repo/rexjson/rexjson.c"; jobjs="$jobjs $cache/rexjson.o";;
	rexjsonpp) want "$cache/rexjsonpp.o" $CXX $cflags -I"$cache" -I"$repo/rexjson" -c "$repo/rexjson/rexjson++.cpp"; jobjs="$jobjs $cache/rexjsonpp.o";;
	rexjsonrpc) want "$cache/rexjsonrpc.o" $CXX $cflags -I"$cache" -I"$repo/rexjson" -c "$repo/rexjsonrpc/property.cpp"; jobjs="$jobjs $cache/rexjsonrpc.o";;
	esac; done
	run_builds;;
esac
hh=$(cat "$src" lib/*.h | sha256sum | cut -c1-12)
bin=$cache/$id-$hh-$pbth
if [ ! -x "$bin" ]; then
	if ! $CXX -O1 -g -fsanitize=$san -std=c++17 -w -DR_DEBUG_MEMALLOC -I"$repo" -I"$repo/arch/unix" -I"$repo/rexjson" -I"$cache" -Ilib $extra "$src" "$cache/pbt-$pbth.o" $libobjs $jobjs -lm -lpthread -o "$bin.tmp$$" 2>"$cache/harness.log"; then
		echo "harness build failed:" >&2; head -50 "$cache/harness.log" >&2; rm -f "$build_list"; exit 2
	fi
	mv "$bin.tmp$$" "$bin"
fi
rm -f "$build_list"
flock -u 9; exec 9>&-
# keep the cache small
ls -1dt "$here"/.cache/*/ 2>/dev/null | tail -n +7 | while read -r d; do rm -rf "${d%/}"; done
export VERIF_TOOLS=$cache VERIF_REPO=$repo
mkdir -p evidence replays
case "${1:-}" in
--replay|--case) exec "$bin" "$@";;
*) exec "$bin" --evidence "${VERIF_EVIDENCE:-$here/evidence/$id.json}" --replays "${VERIF_REPLAYS:-$here/replays}" --known "$here/KNOWN_FINDINGS" "$@";;
esac
