// Every header of the library.
#pragma once
#include <dataframe/Serie.h>
#include <dataframe/Dataframe.h>
#include <dataframe/functional/algebra/cross.h>
#include <dataframe/functional/algebra/det.h>
#include <dataframe/functional/algebra/dot.h>
#include <dataframe/functional/algebra/eigen.h>
#include <dataframe/functional/algebra/inv.h>
#include <dataframe/functional/algebra/norm.h>
#include <dataframe/functional/algebra/transpose.h>
#include <dataframe/functional/conditional/check.h>
#include <dataframe/functional/conditional/if.h>
#include <dataframe/functional/filter.h>
#include <dataframe/functional/find.h>
#include <dataframe/functional/forEach.h>
#include <dataframe/functional/geo/areas.h>
#include <dataframe/functional/geo/cartesian_grid.h>
#include <dataframe/functional/geo/insar.h>
#include <dataframe/functional/geo/normals.h>
#include <dataframe/functional/map.h>
#include <dataframe/functional/math/add.h>
#include <dataframe/functional/math/div.h>
#include <dataframe/functional/math/equals.h>
#include <dataframe/functional/math/minMax.h>
#include <dataframe/functional/math/mult.h>
#include <dataframe/functional/math/negate.h>
#include <dataframe/functional/math/normalize.h>
#include <dataframe/functional/math/random.h>
#include <dataframe/functional/math/scale.h>
#include <dataframe/functional/math/sub.h>
#include <dataframe/functional/math/weightedSum.h>
#include <dataframe/functional/merge.h>
#include <dataframe/functional/pipe.h>
#include <dataframe/functional/reduce.h>
#include <dataframe/functional/stats/bins.h>
#include <dataframe/functional/stats/covariance.h>
#include <dataframe/functional/stats/mean.h>
#include <dataframe/functional/stats/quantile.h>
#include <dataframe/functional/utils/apply.h>
#include <dataframe/functional/utils/compose.h>
#include <dataframe/functional/utils/concat.h>
#include <dataframe/functional/utils/cut.h>
#include <dataframe/functional/utils/memoize.h>
#include <dataframe/functional/utils/parallel_execute.h>
#include <dataframe/functional/utils/partition.h>
#include <dataframe/functional/utils/partition_n.h>
#include <dataframe/functional/utils/print.h>
#include <dataframe/functional/utils/reject.h>
#include <dataframe/functional/utils/sort.h>
#include <dataframe/functional/utils/unzip.h>
#include <dataframe/functional/utils/zip.h>
