# usage: mkir.sh libsymlib.a outdir
set -e
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
A=$1; O=$2; rm -rf "$O"; mkdir -p $O; cd $O
$B/llvm-ar x $A
rm -f *compiler_builtins*
M=""
for f in *.rcgu.o; do
  if [ "$(head -c 2 $f)" = "BC" ]; then M="$M $f"; else $B/llvm-objcopy --dump-section .llvmbc=$f.bc $f /dev/null 2>/dev/null && M="$M $f.bc" || true; fi
done
$B/llvm-link $M -o l.bc
$B/opt --strip-debug -passes='internalize,globaldce' -internalize-public-api-list=sym_main,$(for f in write writev lseek64 pwrite64 ftruncate64 fsync fdatasync; do printf '__model_%s,' $f; done) l.bc -o a.bc
L=$($B/llvm-nm a.bc | awk '{print $NF}' | grep -E "4core4hash6Hasher6finish" | sed 's/^/-force-attribute=/; s/$/:noinline/')
$B/opt $L -vectorize-loops=false -vectorize-slp=false -passes="forceattrs,default<${OL:-O2}>" a.bc -o b.bc
$B/opt -S --strip-debug b.bc -o sym.ll
