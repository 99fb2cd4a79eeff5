// Opening a database allocates a million lock stripes; a small number of stripes has the same meaning and opens much
// faster.  Only the stripe count is changed.
#include <rocksdb/utilities/optimistic_transaction_db.h>
#include <dlfcn.h>
namespace rocksdb {
std::shared_ptr<OccLockBuckets> MakeSharedOccLockBuckets(size_t n, bool aligned)
{
	typedef std::shared_ptr<OccLockBuckets> (*F)(size_t, bool);
	static F real = (F)dlsym(RTLD_NEXT, "_ZN7rocksdb24MakeSharedOccLockBucketsEmb");
	return real(n > 64 ? 64 : n, aligned);
}
}
