mk22(){ mkdir -p $1; cp /tmp/x/$1.lifeSurvey $1/m.lifeSurvey; cat > $1/demo.sh <<E
#!/bin/bash
# one entry of the generated model against the one the survey's rules give
D=\$(cd "\$(dirname "\$0")" && pwd)
B=\$(echo "\$PWD"/bin/*/gen_LifeSurvey)
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
cp "\$D/m.lifeSurvey" "\$T"; cd "\$T" || exit 2
"\$B" -f m.lifeSurvey out.pomdp > log 2>&1 || { cat log; exit 3; }
grep -E '^[TR]: *$2 *: *$3 ' out.pomdp | sed 's/ \+/ /g' | sort > got
diff "\$D/expected" got
E
( cd $1; grep -E "^[TR]: *$2 *: *$3 " /tmp/x/$1.pomdp | sed 's/ \+/ /g' | sort > expected; cat expected; printf '{"property": "C22", "needs": "%s", "what_it_breaks": "%s"}\n' "$4" "$5" > meta.json )
}
