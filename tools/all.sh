# usage: all.sh root outdir props...
root=$1; out=$2; shift 2; mkdir -p $out
cd /verif
for p in "$@"; do python3 check.py $p --root $root --no-evidence > $out/$p.log 2>&1; echo $? > $out/$p.rc; done
