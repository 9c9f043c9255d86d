#include "inverted.h"
SCENARIO(inv_cluster_ip) { clustering<IP, float>(); }
SCENARIO(inv_search_ip) { searching<IP, float, inv::DenseStrategy>(); }
