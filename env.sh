export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C.UTF-8 HOME=${HOME:-/root}
export REPO=${REPO:-/repo} B=${VERIF_OUT:-/verif/build}
export VERIF_OUT=$B
unset PETSC_DIR PETSC_ARCH SCOTCH_DIR PETSC_OPTIONS
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_rmaps_base_oversubscribe=1 OMPI_MCA_hwloc_base_binding_policy=none
export OMPI_MCA_plm=isolated OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_mpi_yield_when_idle=1
export OMP_NUM_THREADS=1 OMP_WAIT_POLICY=passive OMP_DYNAMIC=false OPENBLAS_NUM_THREADS=1
export ASAN_OPTIONS=detect_leaks=0:malloc_context_size=4:detect_stack_use_after_return=0:handle_segv=1:allocator_may_return_null=1:malloc_fill_byte=255:max_malloc_fill_size=16777216:max_free_fill_size=65536
export UBSAN_OPTIONS=print_stacktrace=0
export CCACHE_DIR=${CCACHE_DIR:-/verif/build/ccache} CCACHE_MAXSIZE=600M CCACHE_NOSTATS=1
export TSAN_OPTIONS=halt_on_error=1:ignore_noninstrumented_modules=1:die_after_fork=0:exitcode=66
