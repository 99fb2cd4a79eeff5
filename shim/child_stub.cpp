// The checks never start Tor or any other process: creating one always fails.
namespace reproc { class process {}; }
#include <Common/ChildProcess.h>
ChildProcess::UCPtr ChildProcess::Create(const std::vector<std::string>&) { return nullptr; }
ChildProcess::ChildProcess() : m_pProcess(std::make_unique<reproc::process>()) { }
ChildProcess::~ChildProcess() { }
bool ChildProcess::IsRunning() const noexcept { return false; }
int ChildProcess::GetExitStatus() const noexcept { return 0; }
