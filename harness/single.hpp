// Forced first (-include) when a driver is built for single precision: everything is included before the renaming.
#pragma once
#include <algorithm>
#include <cfenv>
#include <cmath>
#include <complex>
#include <condition_variable>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <htool/basic_types/vector.hpp>
#include <htool/clustering/cluster_output.hpp>
#include <htool/clustering/clustering.hpp>
#include <htool/distributed_operator/utility.hpp>
#include <htool/hmatrix/hmatrix.hpp>
#include <htool/hmatrix/hmatrix_distributed_output.hpp>
#include <htool/hmatrix/hmatrix_output.hpp>
#include <htool/hmatrix/interfaces/virtual_dense_blocks_generator.hpp>
#include <htool/hmatrix/linalg/add_lrmat_hmatrix.hpp>
#include <htool/hmatrix/linalg/factorization.hpp>
#include <htool/hmatrix/linalg/interface.hpp>
#include <htool/hmatrix/linalg/scale.hpp>
#include <htool/hmatrix/lrmat/SVD.hpp>
#include <htool/hmatrix/lrmat/fullACA.hpp>
#include <htool/hmatrix/lrmat/linalg/add_lrmat_lrmat.hpp>
#include <htool/hmatrix/lrmat/linalg/interface.hpp>
#include <htool/hmatrix/lrmat/partialACA.hpp>
#include <htool/hmatrix/lrmat/sympartialACA.hpp>
#include <htool/hmatrix/lrmat/utils/recompression.hpp>
#include <htool/hmatrix/tree_builder/tree_builder.hpp>
#include <htool/local_operators/local_dense_matrix.hpp>
#include <htool/local_operators/local_hmatrix.hpp>
#include <htool/matrix/linalg/factorization.hpp>
#include <htool/matrix/linalg/interface.hpp>
#include <htool/matrix/linalg/transpose.hpp>
#include <htool/matrix/matrix.hpp>
#include <htool/misc/logger.hpp>
#include <htool/misc/misc.hpp>
#include <htool/misc/user.hpp>
#include <htool/solvers/ddm.hpp>
#include <htool/solvers/geneo/coarse_operator_builder.hpp>
#include <htool/solvers/geneo/coarse_space_builder.hpp>
#include <htool/solvers/local_solvers/local_dense_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_plus_overlap_solvers.hpp>
#include <htool/solvers/local_solvers/local_hmatrix_solvers.hpp>
#include <htool/solvers/utility.hpp>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <mpi.h>
#include <mutex>
#include <new>
#include <omp.h>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <unistd.h>
#include <utility>
#include <vector>
#define VF_SINGLE
#define double float
