# links $1 (a C file with its own main) with everything of sgrid but main.o
# result: $W/demo ; $W is a scratch directory that is removed at exit
W=$(mktemp -d /tmp/demoXXXXXX); trap 'rm -rf "$W"' EXIT
T=$(pwd)/_build/main/sgrid
gcc -O1 -w -fopenmp -DLEVEL6_Pragmas -DTOPLEVEL_Pragmas $DEFS -I"$T/src/main/main" -I/usr/include/suitesparse $INCS -c -o "$W/d.o" "$1" || exit 99
objcopy --redefine-sym main=sgrid_main_function "$T/lib/obj/main/main.o" "$W/m.o" || exit 99
L=$(ls "$T"/lib/*.a)
g++ -fopenmp -o "$W/demo" "$W/d.o" "$W/m.o" $(ls "$T"/lib/obj/main/*.o | grep -v '/main\.o$') -Wl,--start-group $L -Wl,--end-group \
  $LD -lspqr -lcholmod -lumfpack -lamd -lfftw3 -llapack -lblas -lgsl -lgslcblas -lm || exit 99
cd "$W"
