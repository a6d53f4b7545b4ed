// Found before the installed header: the library's own unchecked malloc calls never fail (it is not part
// of the code under test); everything else about it is real.
#pragma once
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <algorithm>
#include <thread>
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <limits>
#include <set>
#include <sstream>
#include <fcntl.h>
#include <omp.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>
#include <zlib.h>
extern "C" void* sim_third_party_malloc(size_t);
#define malloc sim_third_party_malloc
#include_next <tinyexr/tinyexr.h>
#undef malloc
