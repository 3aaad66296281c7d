#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS: turns the uncommitted change of /tmp/sd (a clone of /repo) and demo.cpp on stdin into /verif/seeded/ID
s=/verif/seeded/$1; mkdir -p $s; git -C /tmp/sd diff > $s/patch.diff; git -C /tmp/sd checkout -q -- .
cat > $s/demo.cpp
cat > $s/demo.sh <<'D'
#!/bin/bash
# compiles demo.cpp against the built library; exit 0: behaviour as specified
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++11 -O1 -DNDEBUG -DEIGEN_MAX_CPP_VER=3 -include string -include functional -w -I include -I /usr/include/eigen3 $(cat "$d/flags" 2>/dev/null) "$d/demo.cpp" -L _build -lldaplusplus -Wl,-rpath,"$PWD/_build" -lpthread -o "$t/demo" || exit 2
cd "$t" && timeout 120 ./demo
D
python3 -c "import json,sys;json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$s/meta.json','w'),indent=1)" "$2" "$3" "$4"
cat $s/patch.diff | grep '^[+-]' 
