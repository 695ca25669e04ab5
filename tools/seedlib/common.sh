# common part of the demonstrations: a scratch directory, a compiled demo program, logging wrappers of the real compilers
D=$(cd "$(dirname "$0")" && pwd)
R=$(pwd)                                 # /repo
T=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$T"' EXIT
mkdir -p "$T/bin" "$T/proj"
export LOG="$T/log"; : > "$LOG"
for t in gcc g++ as ar; do
  cat > "$T/bin/$t" <<X
#!/bin/bash
printf '%s\n' "$t \$*" >> "\$LOG"
if [ -n "\$FAIL" ] && [[ "$t \$*" == *\$FAIL* ]]; then exit 1; fi
if [ -n "\$SLOW" ] && [[ "$t \$*" == *\$SLOW* ]]; then sleep 0.5; fi
exec /usr/bin/$t "\$@"
X
  chmod +x "$T/bin/$t"
done
compile_demo() { # compile_demo <source> <output> [flags]
  local src=$1 out=$2; shift 2
  local inc="-I$R/buildcc"
  for i in $(find "$R/buildcc" -type d -name include | grep -v -e /test/ -e /mock/); do inc="$inc -I$i"; done
  g++ -std=gnu++17 -w -O0 -DFMT_SHARED -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -DSPDLOG_SHARED_LIB $inc -I"$D" "$@" \
    "$src" "$R/buildcc/lib/env/src/execute.cpp" "$R/_build/buildcc/libbuildcc.a" -lfmt -lspdlog -lpthread -o "$out" || { echo "demo does not compile"; exit 3; }
}
check() { if ! eval "$2"; then echo "DEMO FAILS: $1"; exit 1; fi; }
ran() { grep -c -- "$1" "$LOG"; }        # how many commands matched
fresh() { : > "$LOG"; }
