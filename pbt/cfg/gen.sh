#!/bin/bash
# fallback when /repo/include/fnft_config.h (generated by cmake, ignored by git) is missing
R=$1; D=$(dirname "$0")
v() { sed -n "s/^set(FNFT_VERSION_$1 \([^)]*\)).*/\1/p" "$R/CMakeLists.txt" | head -1 | tr -d '"'; }
sed -e "s/@FNFT_VERSION_MAJOR@/$(v MAJOR)/" -e "s/@FNFT_VERSION_MINOR@/$(v MINOR)/" -e "s/@FNFT_VERSION_PATCH@/$(v PATCH)/" \
    -e "s/@FNFT_VERSION_SUFFIX@//" -e '/HAVE___THREAD/s/#cmakedefine/#define/' -e '/OFAST/s/#cmakedefine/#define/' -e '/#cmakedefine/d' \
    "$R/include/fnft_config.h.in" > "$D/fnft_config.h"
