mkdemo () 
{ 
    cat > seeded/$1/demo.cpp;
    cat > seeded/$1/demo.sh <<'EOS'
#!/bin/bash
# exit 0: the property holds on this tree; non-zero: it is broken
set -u
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -I/repo/sdk/include "$D/demo.cpp" /repo/_build/sdk/libteiacare_sdk.a -lpthread -o "$T/demo" || exit 3
timeout 120 "$T/demo"
EOS

}
