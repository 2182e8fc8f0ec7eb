# gcov line coverage of the headers by the harnesses, input of mutate.py; cov.h makes _exit write the counters
for b in I B L; do for p in $(seq -w 1 23); do echo $b $p; done; done | xargs -P ${1:-3} -L1 bash -c 'b=$0; p=$1
 case $b in I) D="-DLALIB_INTERNAL_BACKEND"; L="";; B) D="-DLALIB_BLAS_BACKEND"; L=-lopenblas;; L) D="-DLALIB_BLAS_BACKEND -DLALIB_LAPACK_BACKEND"; L="-llapacke -lopenblas";; esac
  d=/tmp/cov/$b/C$p; mkdir -p $d; cd $d; rm -f *.gcda
  nice g++ -include /tmp/cov/cov.h -std=gnu++20 -O1 --coverage -fopenmp -I/tmp/rc/include $D /tmp/vw/props/C$p.cpp -o h $L 2>err || { echo fail $b $p; exit; }
  OMP_NUM_THREADS=2 OMP_WAIT_POLICY=passive nice timeout 300 ./h run --variant x --seed 7 --scale 0.2 --shard 0 --shards 1 --seconds 200 --out $d/o >out 2>&1; echo rc $b $p $?
  touch done'
