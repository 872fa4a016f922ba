/* Build configuration used for the verified translation unit: the same option
 * values as the default cmake build of /repo (config.h.in defaults), minus the
 * build-stamp strings. */
#define MDBX_BUILD_CXX 1
#define MDBX_TXN_CHECKOWNER 1
#define MDBX_DISABLE_VALIDATION 0
#define MDBX_AVOID_MSYNC 0
#define MDBX_ENABLE_REFUND 1
#define MDBX_ENABLE_BIGFOOT 1
#define MDBX_ENABLE_PGOP_STAT 1
#define MDBX_ENABLE_PGET_STAT 1
#define MDBX_ENABLE_PROFGC 0
#define MDBX_ENABLE_DBI_SPARSE 1
#define MDBX_ENABLE_DBI_LOCKFREE 1
#define MDBX_ENABLE_FAKE_NESTED_READONLY_TRANSACTIONS 0
#define MDBX_WITHOUT_MSVC_CRT 0
#define MDBX_APPLE_SPEED_INSTEADOF_DURABILITY 0
#define MDBX_DISABLE_GNU_SOURCE 0
#define MDBX_USE_MINCORE 1
#define MDBX_BUILD_TIMESTAMP "vf"
#define MDBX_BUILD_TARGET "x86_64-ELF-Linux"
#define MDBX_BUILD_TYPE "verify"
#define MDBX_BUILD_COMPILER "goto-cc"
#define MDBX_BUILD_FLAGS "vf"
