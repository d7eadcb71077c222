#!/bin/bash
# shows the known finding of C11 on the real code: exits 1 while it is there (needs /opt/vp/build.sh run before)
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 3
trap 'find "$W" -delete' EXIT
C=/opt/thunder_deps/py/casadi
cd "$W" || exit 3
cp "$here/rob.yaml" "$W/rob.yaml" || exit 3
timeout 200 /repo/src/thunder/build/thunder gen rob.yaml > "$W/gen.log" 2>&1   # (exits 1 on success)
G="$W/rob_generatedFiles"
[ -s "$G/thunder_rob.cpp" ] && [ -s "$G/rob_gen.cpp" ] && [ -s "$G/rob_par_REG.yaml" ] || { cat "$W/gen.log"; echo "not generated"; exit 1; }
g++ -w -O0 -std=gnu++17 -I"$G" -I$C/include "$here/demo.cpp" "$G/thunder_rob.cpp" "$G/rob_gen.cpp" -o "$W/demo" -lyaml-cpp || { echo "generated code does not compile"; exit 1; }
timeout 60 ./demo "$G"
