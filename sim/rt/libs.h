#pragma once
#include "dsim.h"
namespace dsim {
struct CurlStats {
  u64 global_init_ok, global_cleanup, easy_init_ok, easy_cleanup, slist_nodes_live, slist_append_fail, performs, init_fail;
  u64 max_concurrent_performs, max_perform_ns;
};
CurlStats curl_stats();
u64 curl_live_handles();
u64 deflate_live();
}
