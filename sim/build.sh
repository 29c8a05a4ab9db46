#!/bin/bash
# build.sh OUTDIR [REPO]: compile /repo's current working tree and the simulator.
set -e
OUT=$1; REPO=${2:-/repo}; SIM=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$OUT/lib" "$OUT/sim"
SAN="-fsanitize=address,undefined -fno-sanitize-recover=undefined -fno-sanitize=pointer-overflow"
cat > "$OUT/Makefile" <<M
REPO=$REPO
SIM=$SIM
SAN=$SAN
LIBSRC=\$(shell find \$(REPO)/c/graphLib -name '*.c') \$(shell find \$(REPO)/c/planarityApp -name '*.c')
LIBOBJ=\$(patsubst \$(REPO)/%.c,lib/%.o,\$(LIBSRC))
SIMSRC=\$(wildcard \$(SIM)/core/*.cpp) \$(wildcard \$(SIM)/scen/*.cpp)
SIMOBJ=\$(patsubst \$(SIM)/%.cpp,sim/%.o,\$(SIMSRC))
WRAP=malloc calloc realloc free strdup fopen fclose fseek getcwd chdir time clock rand srand
simulate: \$(LIBOBJ) \$(SIMOBJ)
	clang++ \$(SAN) -o \$@ \$^ \$(foreach w,\$(WRAP),-Wl,--wrap=\$(w))
lib/%.o: \$(REPO)/%.c
	@mkdir -p \$(dir \$@)
	clang -c -O1 -g1 -w \$(SAN) -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern -mllvm -asan-globals=0 -fsanitize-coverage=trace-pc-guard -Dmain=planarity_main -I\$(REPO)/c/graphLib -o \$@ \$<
	objcopy --set-section-flags .bss=alloc,load,contents,data --rename-section .bss=simbss --rename-section .data=simdata \$@
sim/%.o: \$(SIM)/%.cpp
	@mkdir -p \$(dir \$@)
	clang++ -std=c++17 -c -O1 -g1 -w \$(SIMSAN) -fsanitize=address -MMD -I\$(REPO)/c/graphLib -I\$(SIM) -o \$@ \$<
-include \$(SIMOBJ:.o=.d)
M
make -C "$OUT" -j8 -s simulate > "$OUT/build.log" 2>&1 || { tail -40 "$OUT/build.log" >&2; exit 1; }
