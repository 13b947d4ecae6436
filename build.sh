#!/bin/bash
# build.sh <group>...   builds build/<group> (harness + library from $REPO, default /repo).
# The library and the shim are always rebuilt; harness objects are cached by content.
set -e
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=${REPO:-/repo}
B=${BUILD_DIR:-$HERE/build}
mkdir -p "$B/obj"
CXX=${CXX:-g++}
HF="-std=gnu++17 -O2 -g1 -I$HERE/harness -I$REPO/include -Wno-unused-result"
LF="-std=gnu++11 -O2 -g1 -I$REPO/include -fPIC -w"
# harness object: cached on the hash of everything it includes
hobj() { # src extra-flags suffix
	local h; h=$(cat "$HERE"/harness/*.hpp "$REPO"/include/*.hpp "$1" <(echo "$2 $HF $($CXX -dumpfullversion)") | sha1sum | cut -c1-16)
	local o="$B/obj/$(basename "$1" .cpp)$3-$h.o"
	[ -s "$o" ] || { $CXX $HF $2 -c "$1" -o "$o.tmp$$" && mv "$o.tmp$$" "$o"; } || return 1
	echo "$o"
}
variant() { # name flags -> library + shim objects in $B/lib.$name.$$ ; prints them
	local d="$B/lib.$1.$$"; mkdir -p "$d"
	for s in "$REPO"/src/*.cpp; do echo "$CXX $LF $2 -c $s -o $d/$(basename "$s" .cpp).o"; done > "$d/cmds"
	echo "$CXX -std=gnu++17 -O2 -g1 -fPIC -w -I$HERE/harness -I$REPO/include $2 -c $HERE/harness/sut.cpp -o $d/zz_sut.o" >> "$d/cmds"
	xargs -P 8 -I{} sh -c '{}' < "$d/cmds" >&2 || return 1
	echo "$d"
}
for g in "$@"; do
	case $g in
	p_mem_asan)
		SAN="-fsanitize=address,undefined,bounds-strict,float-cast-overflow -fno-sanitize-recover=all -fno-omit-frame-pointer"
		D=$(variant asan "$SAN")
		O="$(hobj $HERE/harness/pbt.cpp "$SAN" .asan) $(hobj $HERE/harness/p_mem_asan.cpp "$SAN" .asan)"
		$CXX $SAN -o "$B/$g" $O "$D"/*.o -ldl; rm -rf "$D" ;;
	p_mem)
		for v in zero pattern; do
			D=$(variant "$v" "-ftrivial-auto-var-init=$v")
			$CXX -shared -o "$B/libsut_$v.so" "$D"/*.o; rm -rf "$D"
		done
		D=$(variant plain "")
		$CXX -shared -o "$B/libsut_plain.so" "$D"/*.o; rm -rf "$D"
		O="$(hobj $HERE/harness/pbt.cpp "" "") $(hobj $HERE/harness/p_mem.cpp "" "")"
		$CXX -o "$B/$g" $O -ldl ;;
	*)
		( hobj $HERE/harness/pbt.cpp "" "" > /dev/null ) & ( hobj $HERE/harness/$g.cpp "" "" > /dev/null ) &
		D=$(variant plain ""); wait
		O="$(hobj $HERE/harness/pbt.cpp "" "") $(hobj $HERE/harness/$g.cpp "" "")"
		$CXX -o "$B/$g" $O "$D"/*.o; rm -rf "$D" ;;
	esac
done
