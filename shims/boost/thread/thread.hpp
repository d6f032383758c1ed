#pragma once
#include <boost/date_time/posix_time/posix_time_types.hpp>
namespace boost { namespace this_thread { template <class T> inline void sleep(const T &) {} } }
