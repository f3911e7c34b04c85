#!/bin/bash
# build.sh OUTDIR REPO KIND...   builds the harness programs from the sources in REPO
set -e
O=$1; R=$2; shift 2
H=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$O"
cat > "$O/config.h" <<'E'
#define HAVE_BYTESWAP_H
#ifndef KVTREE_FILE_LOCK_USE_FCNTL
#define KVTREE_FILE_LOCK_USE_FLOCK
#endif
#define KVTREE_TEST_BASE "/dev/shm"
E
W="-w -g -O1 -U_FORTIFY_SOURCE -D_FORTIFY_SOURCE=0 -I$O -I$R/src"
SAN="-fsanitize=address,undefined -fno-sanitize=alignment,nonnull-attribute,pointer-overflow,vptr -fno-sanitize-recover=all -fno-omit-frame-pointer"
AL="-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=strdup,--wrap=strndup,--wrap=free"
IO="-Wl,--wrap=open,--wrap=open64,--wrap=creat,--wrap=openat,--wrap=read,--wrap=pread,--wrap=write,--wrap=pwrite,--wrap=close,--wrap=fsync,--wrap=fdatasync,--wrap=flock,--wrap=fcntl,--wrap=lockf,--wrap=lseek,--wrap=ftruncate,--wrap=truncate,--wrap=fstat,--wrap=access,--wrap=usleep,--wrap=readv,--wrap=writev"
L=; M=
for f in "$R"/src/*.c; do
  case $(basename "$f") in
  kvtree_print.c|tv_data_display.c|kvtree_mpi_io.c) ;;
  *mpi*) M="$M $f" ;;
  *) L="$L $f" ;;
  esac
done
for k in "$@"; do
  case $k in
  tree) gcc $W $SAN $H/h_tree.c $L -o "$O/h_tree" $AL -lz -lm & ;;
  io)   gcc $W $SAN $H/h_io.c $L -o "$O/h_io" $AL $IO -lz -lm & ;;
  mpi)  # the size of a segment becomes a variable, so that several levels of maps are reached with few ranks
        sed 's/1024 *\* *1024/kv_segsize/' $R/src/kvtree_mpi_io.c > "$O/kvtree_mpi_io.c"
        gcc $W -I$H/fakempi $SAN -DFAKEMPI -include $H/seg.h $H/h_mpi.c $L $M "$O/kvtree_mpi_io.c" -o "$O/h_mpi" $AL $IO -lz -lm -lpthread & ;;
  print) gcc $W $SAN $R/src/kvtree_print.c $L -o "$O/kvtree_print" -lz -lm & ;;
  esac
done
for j in $(jobs -p); do wait $j; done
