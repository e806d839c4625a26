#include <cblas.h>  // from apt: libopenblas-dev
