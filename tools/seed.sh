#!/bin/bash
# seed.sh ID PROP NEEDS BREAKS : makes /verif/seeded/ID from the edit in /tmp/seedwt and /tmp/sb/ID/demo.{py,cc}; verifies it
set -u
ID=$1; PROP=$2; NEEDS=$3; BREAKS=$4; SRC=/tmp/sb/$ID; D=/verif/seeded/$ID
mkdir -p $D; cp $SRC/* $D/
git -C /tmp/seedwt diff > $D/patch.diff
[ -s $D/patch.diff ] || { echo "EMPTY DIFF"; exit 1; }
git -C /repo apply --check $D/patch.diff || { echo "DOES NOT APPLY"; exit 1; }
python3 - "$D" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
if [ -f $D/demo.py ]; then
  cp /verif/tools/seed_support_d.py $D/d.py; cp /verif/lib/exo.py $D/exo.py
  for f in meshgen ref; do grep -q "import.*$f" $D/demo.py && cp /verif/lib/$f.py $D/; done
  cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0 when the property holds for this demonstration's input
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/nimdemo.XXXXXX); trap 'find "$w" -delete' EXIT
PYTHONDONTWRITEBYTECODE=1 python3-vt "$here/demo.py" "$PWD" "$w"
S
else
  cat > $D/demo.sh <<'S'
#!/bin/bash
# exit 0 when the property holds for this demonstration's input
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/nimdemo.XXXXXX); trap 'find "$w" -delete' EXIT
L=/usr/lib/x86_64-linux-gnu; T=""
for t in tpetraext tpetrainout tpetra kokkostsqr tpetraclassiclinalg tpetraclassicnodeapi tpetraclassic epetra kokkoskernels teuchoskokkoscomm \
  teuchoskokkoscompat teuchosremainder teuchosnumerics teuchoscomm teuchosparameterlist teuchosparser teuchoscore kokkosalgorithms \
  kokkoscontainers kokkoscore; do T="$T $L/libtrilinos_$t.so.13.2"; done
g++ -std=c++14 -O1 -w -DNIMBLE_HAVE_TRILINOS -DNIMBLE_HAVE_MPI -DNIMBLE_HAVE_KOKKOS -DNIMBLE_HAVE_EXODUS -DNDEBUG -I"$PWD/src" -I"$PWD/tpl" \
  -isystem /usr/include/trilinos -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi "$here/demo.cc" "$PWD/_build/libnimble.a" -o "$w/demo" \
  -Wl,-rpath,$L/openmpi/lib -L$L/openmpi/lib -lmpi_cxx -lmpi $T -ldl -llapack -lblas $L/libexoIIv2c.so -lpthread || exit 3
cd "$w"
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMP_NUM_THREADS=1 OMPI_MCA_ess_singleton_isolated=1
export OMPI_MCA_btl=self,vader,tcp OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_hwloc_base_binding_policy=none TMPDIR="$w"
NP=$(sed -n 's,^// ranks: *,,p' "$here/demo.cc")
if [ -n "$NP" ]; then timeout 200 mpirun --oversubscribe --bind-to none -np $NP ./demo; else timeout 200 ./demo; fi
S
fi
chmod +x $D/demo.sh
bash /tmp/seedbuild.sh > /tmp/sb.log 2>&1 || { echo "BUILD FAILED"; grep -m5 error /tmp/sb.log; exit 1; }
ctest --test-dir /tmp/seedwt/_build/unit_tests -j8 --timeout 300 2>&1 | grep -E "tests passed|Failed|\*\*\*" | head -5
(cd /tmp/seedwt && timeout 300 bash $D/demo.sh) > /tmp/d1.log 2>&1; r1=$?
(cd /repo && timeout 300 bash $D/demo.sh) > /tmp/d0.log 2>&1; r0=$?
echo "demo: unchanged rc=$r0 ($(tail -1 /tmp/d0.log | cut -c1-150)); changed rc=$r1 ($(tail -1 /tmp/d1.log | cut -c1-200))"
cd /verif; VERIF_REPO=/tmp/seedwt VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3-vt run.py $PROP > /tmp/c1.log 2>&1; echo "check rc=$? $(grep -c VIOLATION /tmp/c1.log) $(grep -m1 VIOLATION /tmp/c1.log | cut -c1-150)"
git -C /tmp/seedwt checkout -q -- .
