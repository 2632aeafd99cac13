# Shared by the demonstrations: builds the library of the current directory (the repository) and a demo program.
# Usage: . lib.sh; build seq|mpi|mpith demo.cpp; run np demo args...
HERE=$(cd "$(dirname "$0")" && pwd)
REPO=$(pwd)
W=$(mktemp -d /tmp/asagi_demo.XXXXXX)
trap 'cd /; rm -rf "${W:?}"' EXIT
export TMPDIR=$W HDF5_USE_FILE_LOCKING=FALSE
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_pml=ob1 \
	OMPI_MCA_btl_vader_single_copy_mechanism=cma OMPI_MCA_osc=^ucx OMPI_MCA_mpi_yield_when_idle=1 \
	OMPI_MCA_hwloc_base_binding_policy=none OMPI_MCA_orte_tmpdir_base=$W OMPI_MCA_rmaps_base_oversubscribe=1 PMIX_MCA_gds=hash
DEFS="-DMAX_DIMENSIONS=4 -DTHREADSAFE -DUSE_PTHREAD -DOMPI_SKIP_MPICXX"
TYPES="-DASAGI_VERIF_TYPELIST=types::ArrayType<float>,types::StructType<int>,types::BasicType<int>,types::BasicType<double>"

# build kind source [flags]: the library as seq (no MPI), mpi (windows) or mpith (communication thread)
build()
{
	kind=$1; src=$2; shift 2
	CXX=g++; skip='^mpi/'
	case $kind in
	seq) D="$DEFS -DROUND_ROBIN -DASAGI_NOMPI" ;;
	mpi) D="$DEFS -DROUND_ROBIN -DUSE_MPI3 -DTHREADSAFE_MPI"; CXX=mpicxx; skip='^$' ;;
	mpith) D="$DEFS -DROUND_ROBIN -DUSE_MPI3"; CXX=mpicxx; skip='^$' ;;
	esac
	pids=
	for s in $(cd "$REPO" && ls *.cpp grid/*.cpp io/*.cpp perf/*.cpp types/*.cpp numa/*.cpp mpi/*.cpp 2>/dev/null \
		| grep -v -e nonuma.cpp -e "$skip"); do
		$CXX -std=c++11 -O0 -w $D "$TYPES" "$@" -I"$REPO" -I"$REPO/include" -I"$HERE/shim" -c "$REPO/$s" -o "$W/$(echo $s | tr / _).o" &
		pids="$pids $!"
	done
	$CXX -std=c++11 -O0 -w $D "$TYPES" "$@" -I"$REPO" -I"$REPO/include" -I"$HERE/shim" -I"$HERE" -c "$HERE/$src" -o "$W/demo_main.o" &
	pids="$pids $!"
	for p in $pids; do wait $p || { echo "demo: does not compile"; exit 2; }; done
	$CXX "$W"/*.o "$@" -lnetcdf -lnuma -lpthread -ldl -o "$W/demo" || { echo "demo: does not link"; exit 2; }
}

# run np args: 0 without mpirun
run()
{
	np=$1; shift
	cd "$W"
	if [ $np = 0 ]; then timeout ${LIMIT:-60} "$W/demo" "$@"
	else timeout ${LIMIT:-60} mpirun --oversubscribe -np $np "$W/demo" "$@"; fi
	rc=$?
	cd "$REPO"
	return $rc
}
