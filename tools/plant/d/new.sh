new(){ mkdir -p $1; printf '%s\n' '#!/bin/bash' "# $2" 'D=$(cd "$(dirname "$0")" && pwd)' 'Z=$(echo "$PWD"/bin/*/zmdp)' 'T=$(mktemp -d); trap '"'"'rm -rf "$T"'"'"' EXIT' > $1/demo.sh; cat >> $1/demo.sh; python3 - "$1" "$3" "$4" "$5" <<'P'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+'/meta.json','w'),indent=1)
P
}
