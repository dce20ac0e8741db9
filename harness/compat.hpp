// Force-included in every translation unit. Kokkos and KokkosKernels of Trilinos 13.2 (the only Trilinos in apt) have
// dropped three accessors that /repo calls under their old names. The library headers that have something of the same name
// are included first, so only /repo's own code sees the macros.
#pragma once
#include <Teuchos_XMLParameterListHelpers.hpp>
#include <Teuchos_ParameterList.hpp>
#include <Sacado.hpp>
#include <Kokkos_Core.hpp>
#include <KokkosKernels_SparseUtils.hpp>
#include <KokkosSparse_spgemm.hpp>
#include <KokkosSparse_spadd.hpp>
#include <KokkosSparse_CrsMatrix.hpp>
#include <KokkosKernels_IOUtils.hpp>
#include <KokkosBatched_LU_Decl.hpp>
#include <KokkosBatched_LU_Serial_Impl.hpp>
#include <KokkosBatched_Trsm_Decl.hpp>
#include <KokkosBatched_Trsm_Serial_Impl.hpp>
#define dimension_0() extent(0)
#define dimension_1() extent(1)
#define get_max_result_nnz() get_c_nnz()
