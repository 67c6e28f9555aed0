"""Which explorer decides which property, and from which of /repo's libraries it is built."""
from props import P
HARNESS = {
 "prim": dict(libs=["core"]),
 "fe": dict(libs=["core"]),
 "radial": dict(libs=["core"]),
 "rules": dict(libs=["core","src/general/angular.cpp","src/atomic/basis.cpp"]),
 "special": dict(libs=["core","legendre","src/general/spherical_harmonics.cpp","src/general/lcao.cpp"]),
 "gaunt": dict(libs=["core","src/general/gaunt.cpp"]),
 "twoe": dict(libs=["core"]),
 "jk": dict(libs=["core","qc"]),
 "atomic": dict(libs=["core","qc","general","atomic"]),
 "diatomic": dict(libs=["core","qc","general","legendre","atomic","src/diatomic/basis.cpp","src/diatomic/quadrature.cpp","src/diatomic/twodquadrature.cpp","src/sadatom/basis.cpp","src/sadatom/dftgrid.cpp"]),
 "sadatom": dict(libs=["core","qc","general","legendre","src/sadatom/basis.cpp","src/atomic/TwoDBasis.cpp","src/atomic/basis.cpp"]),
 "dft": dict(libs=["core","qc","general","legendre","src/atomic/TwoDBasis.cpp","src/atomic/basis.cpp","src/atomic/dftgrid.cpp","src/diatomic/basis.cpp","src/diatomic/quadrature.cpp","src/diatomic/dftgrid.cpp","src/diatomic/dftgrid_purem.cpp","src/sadatom/basis.cpp","src/sadatom/dftgrid.cpp"]),
# the OpenMP and race-monitoring runtimes are those of harness/sched_rt.cpp
 "sched": dict(variant="race",extra=["sched_rt"],extraflags="-fno-sanitize=thread -O2",ld="-Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc,--wrap=memcpy,--wrap=memmove,--wrap=memset,--wrap=__cxa_guard_acquire,--wrap=__cxa_guard_release -lpthread -lquadmath",libs=["core","qc","general","legendre","src/atomic/TwoDBasis.cpp","src/atomic/basis.cpp","src/atomic/dftgrid.cpp","src/diatomic/basis.cpp","src/diatomic/quadrature.cpp","src/diatomic/twodquadrature.cpp","src/diatomic/dftgrid.cpp","src/diatomic/dftgrid_purem.cpp","src/sadatom/basis.cpp","src/sadatom/dftgrid.cpp"]),
 "checkpoint": dict(libs=["core","qc","general","legendre","src/atomic/TwoDBasis.cpp","src/atomic/basis.cpp","src/diatomic/basis.cpp","src/diatomic/quadrature.cpp"]),
 "input": dict(libs=["core","qc","general","legendre"],ld="-Wl,--wrap=clock_gettime,--wrap=time -fopenmp -lquadmath"),
# the four self-consistent field programs, driven through shims/openorbitaloptimizer
 "scf": dict(extra=["drv_atomic","drv_diatomic","drv_gensap","drv_aij"],libs=["core","qc","general","legendre","src/atomic/TwoDBasis.cpp","src/atomic/basis.cpp","src/atomic/dftgrid.cpp","src/diatomic/basis.cpp","src/diatomic/quadrature.cpp","src/diatomic/twodquadrature.cpp","src/diatomic/dftgrid.cpp","src/diatomic/dftgrid_purem.cpp","src/sadatom/basis.cpp","src/sadatom/dftgrid.cpp","src/sadatom/scf.cpp"]),
# the one-electron and analysis programs, each an executable of its own beside h_tools
 "tools": dict(libs=["core","qc","general","legendre","src/atomic/TwoDBasis.cpp","src/atomic/basis.cpp","src/atomic/dftgrid.cpp","src/diatomic/basis.cpp","src/diatomic/quadrature.cpp","src/diatomic/twodquadrature.cpp","src/sadatom/basis.cpp","src/sadatom/dftgrid.cpp","src/sadatom/scf.cpp"],
  programs=dict(harmonic="src/harmonic/main.cpp",morse="src/harmonic/morse.cpp",softcoulomb="src/harmonic/softcoulomb.cpp",precision="src/harmonic/precision.cpp",**{"1e_atom":"src/sadatom/1e.cpp"},diatomic_1e="src/diatomic/1e.cpp",diatomic_dline="src/diatomic/density_line.cpp",diatomic_dgrid="src/diatomic/density_grid.cpp",diatomic_cpl="src/diatomic/completeness.cpp",diatomic_cbasis="src/diatomic/corebasis.cpp",atomdb_dump="src/general/atomdb_dump.cpp")),
 # what the generators of the tree write is compiled at run time; the Python interface is built against shims/pybind11
 "tables": dict(hflags='-DVERIF_DIR=\'"@V@"\' -DVERIF_REPO=\'"@R@"\' -DVERIF_INC=\'"@B@/inc"\' -DVERIF_CXX=\'"@C@"\'',ld="-fopenmp -lquadmath -ldl",libs=["core","qc","general","legendre","src/atomic/TwoDBasis.cpp","src/atomic/basis.cpp","src/atomic/dftgrid.cpp","src/sadatom/basis.cpp","src/sadatom/dftgrid.cpp","src/sadatom/scf.cpp","src/diatomic/basis.cpp","src/diatomic/quadrature.cpp","src/diatomic/twodquadrature.cpp","python/bindings.cpp"],
  programs=dict(gensap="src/sadatom/main.cpp",atomdb_dump="src/general/atomdb_dump.cpp",atomic_radial_export="examples/atomic_radial_export.cpp")),
 "potential": dict(libs=["core","qc","general"]),
 "atomdb": dict(libs=["core","qc","general"]),
}
PROPS = {p["id"]: dict(harness=p["harness"], bound=p["bound"], assumptions=p.get("assumptions",[]), **p.get("run",{})) for p in P}
# every source file of the original tree; others are new and taken along
KNOWN = set("""
src/atomic/TwoDBasis.cpp
src/atomic/basis.cpp
src/atomic/dftgrid.cpp
src/atomic/inttest.cpp
src/atomic/main.cpp
src/atomic/precision.cpp
src/atomic/teirank.cpp
src/diatomic/1e.cpp
src/diatomic/basis.cpp
src/diatomic/completeness.cpp
src/diatomic/corebasis.cpp
src/diatomic/density_grid.cpp
src/diatomic/density_line.cpp
src/diatomic/dftgrid.cpp
src/diatomic/dftgrid_purem.cpp
src/diatomic/main.cpp
src/diatomic/purem_test.cpp
src/diatomic/quadrature.cpp
src/diatomic/teirank.cpp
src/diatomic/twodquadrature.cpp
src/general/RadialPotential.cpp
src/general/angular.cpp
src/general/atomdb.cpp
src/general/atomdb_dump.cpp
src/general/atomdb_test.cpp
src/general/checkpoint.cpp
src/general/checkpoint_precision_test.cpp
src/general/dftfuncs.cpp
src/general/dftgrid_common.cpp
src/general/elements.cpp
src/general/gaunt.cpp
src/general/gaunt_test.cpp
src/general/gsz.cpp
src/general/lcao.cpp
src/general/model_potential.cpp
src/general/over_r_test.cpp
src/general/sap.cpp
src/general/scf_helpers.cpp
src/general/spherical_harmonics.cpp
src/general/sphtest.cpp
src/general/timer.cpp
src/legendre/Legendre.cpp
src/legendre/legendre_test.cpp
src/legendre/legendre_unit_test.cpp
src/sadatom/1e.cpp
src/sadatom/aij.cpp
src/sadatom/basis.cpp
src/sadatom/dftgrid.cpp
src/sadatom/main.cpp
src/sadatom/scf.cpp
""".split())
