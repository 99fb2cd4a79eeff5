// used when the Net sources are left out of a build; the strong definition wins otherwise
#include <Net/Tor/TorProcess.h>
__attribute__((weak)) TorProcess::Ptr TorProcess::Initialize(const fs::path&, const uint16_t, const uint16_t) noexcept { return nullptr; }
