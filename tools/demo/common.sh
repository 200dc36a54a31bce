# Sourced by a demonstration (run with cwd /repo). Builds the program from the sources of /repo, with a small
# stand-in for TensorFlow, in a scratch directory that is removed at the end.
# shellcheck shell=bash
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 2
trap 'rm -rf "$W"' EXIT
export LC_ALL=C TF_CPP_MIN_LOG_LEVEL=3
mkdir -p "$W/obj" "$W/models" "$W/home"
printf 'a\t1\nb\t2\nc\t3\nd\t4\n' > "$W/models/bpe-vocab.tsv"
printf '%s\n' "ABSTRACT	0" "ACKNOWLEDGMENTS	1" "AFFILIATION	2" > "$W/models/roles-vocab.tsv"
CXXFLAGS_DEMO=(-std=c++20 ${DEMO_OPT:--O1} -w -include algorithm -include cstring -I/usr/include/poppler
  -I"$HERE/stub" -I"$REPO/src" "-DCONFIG_SEMANTIC_ROLES_DETECTION_MODELS_DIR=\"$W/models\""
  '-DPROGRAM_NAME="pdftotext++"' '-DPROGRAM_DESCRIPTION="d"' '-DPROGRAM_USAGE="u"' '-DVERSION="0"')
LIBS_DEMO=(-lpoppler -lutf8proc -lboost_program_options)

build_objs() {
  local f
  export W
  (cd "$REPO" && find src -name '*.cpp') | while read -r f; do
    printf '%s\0%s\0' "$REPO/$f" "$W/obj/$(tr / _ <<<"$f").o"
  done | xargs -0 -n 2 -P 8 bash -c 'shift 1; exec g++ "${@:1:$#-2}" -c "${@: -2:1}" -o "${@: -1}"' \
    _ _ "${CXXFLAGS_DEMO[@]}" || { echo "the program does not compile"; exit 2; }
}
build_cli() {
  build_objs
  g++ ${DEMO_LD:-} "$W"/obj/*.o -o "$W/ppp" "${LIBS_DEMO[@]}" || { echo "the program does not link"; exit 2; }
}
# build_prog FILE.cpp: links FILE.cpp instead of the program's main file; result $W/prog
build_prog() {
  build_objs
  g++ "${CXXFLAGS_DEMO[@]}" "$1" $(ls "$W"/obj/*.o | grep -v 'pdftotext++\.cpp\.o$') -o "$W/prog" \
    "${LIBS_DEMO[@]}" || { echo "the test program does not link"; exit 2; }
}
# preload FILE.c: builds a library for LD_PRELOAD; result $W/pre.so
preload() { gcc -O1 -shared -fPIC "$1" -o "$W/pre.so" -ldl || exit 2; }
# p ...: runs the program for at most 60 s
p() { timeout 60 "$W/ppp" "$@"; }
bad() { echo "FAILED: $*"; exit 1; }
