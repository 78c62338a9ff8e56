#!/bin/bash
# Builds /tmp/plant/w incrementally with the project's own make system. Needs no network.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin HOME=/root LC_ALL=C
unset MAKEFLAGS MFLAGS TEST NO_DEPEND DEPEND
cd /tmp/plant/w/src || exit 1
OS="$(uname -s | tr A-Z a-z)$(uname -r | sed 's/\..*$//')"

# The makefiles do not rebuild objects when they change themselves: start over then.
stamp=/tmp/plant/w/obj/$OS/config.sum
mkdir -p "${stamp%/*}"
sum=$({ find . \( -name 'Makefile*' -o -name '*.mak' -o -name '*.perl' \) -not -path './tests/*' -type f | sort | xargs sha256sum
        gcc --version; sha256sum "$0"; } | sha256sum)
if [ "$sum" != "$(cat "$stamp" 2>/dev/null)" ]; then
  find . \( -path "*/obj/$OS" -o -path "*/lib/$OS" -o -path "*/bin/$OS" \) -type d -prune -exec rm -rf {} +
  rm -rf /tmp/plant/w/lib/$OS /tmp/plant/w/bin/$OS /tmp/plant/w/include parsers/include
  echo "$sum" > "$stamp"
fi

# Installed headers are symlinks: make them anew, so that one that was taken
# away does not linger. (make looks at the age of what they point to.)
[ -d /tmp/plant/w/include ] && find /tmp/plant/w/include -type l -delete
[ -f parsers/pomdp_spec.y ] && [ -f parsers/pomdp_spec.l ] ||
  rm -rf parsers/include parsers/{obj,lib}/$OS /tmp/plant/w/{lib,bin}/$OS

MK=(make -fMakefile "CC=gcc -fcommon")
"${MK[@]}" headerinstall || exit 1

# Remove objects and .d files that name a source or header that is gone, and then
# all libraries and binaries: .SECONDARY lets make pass over a missing object
# when the library is newer than the source.
find . -path "*/obj/$OS/*.d" | while read -r d; do
  dir=${d%/obj/*}
  for f in $(sed 's/^.*: //; s/\\$//' "$d"); do
    case $f in
      */zmdpMainConfig.cc|*.tab.*|*.yy.*|*:|\\) continue ;;  # generated
      /*) p=$f ;;
      *) p=$dir/$f ;;
    esac
    if [ ! -e "$p" ]; then
      rm -f "$d" "${d%.d}.o"
      find . /tmp/plant/w/lib /tmp/plant/w/bin \( -path "*/lib/$OS/*" -o -path "*/bin/$OS/*" \) -type f -delete
      break
    fi
  done
done

# Every directory's library first, then the binaries: "make -j install" lets
# binaries link before the libraries are there.
if "${MK[@]}" -j8 DEPEND=1 libinstall && "${MK[@]}" -j8 DEPEND=1 bininstall && [ -x /tmp/plant/w/bin/$OS/zmdp ]; then
  exit 0
fi
# Generated sources may be half written.
rm -rf parsers/include /tmp/plant/w/include/zmdpMainConfig.cc
exit 1
