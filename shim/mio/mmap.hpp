// Minimal stand-in for the mio library (not installed here): a read-only, real mmap of a whole file.
#pragma once
#include <string>
#include <system_error>
#include <cerrno>
#include <cstddef>
#include <fcntl.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/stat.h>

namespace mio {
enum { map_entire_file = 0 };

class mmap_source
{
public:
	using const_iterator = const char*;
	mmap_source() = default;
	mmap_source(const mmap_source&) = delete;
	mmap_source& operator=(const mmap_source&) = delete;
	mmap_source(mmap_source&& o) noexcept { swap(o); }
	mmap_source& operator=(mmap_source&& o) noexcept { if (this != &o) { unmap(); swap(o); } return *this; }
	~mmap_source() { unmap(); }

	void map(const std::string& path, std::error_code& error)
	{
		error.clear();
		unmap();
		int fd = ::open(path.c_str(), O_RDONLY | O_CLOEXEC);
		if (fd < 0) { error = std::error_code(errno, std::system_category()); return; }
		struct stat st;
		if (::fstat(fd, &st) != 0) { error = std::error_code(errno, std::system_category()); ::close(fd); return; }
		if (st.st_size == 0) {
			// like mio: mapping an empty file is an error (EINVAL)
			error = std::error_code(EINVAL, std::system_category());
			::close(fd);
			return;
		}
		void* p = ::mmap(nullptr, (size_t)st.st_size, PROT_READ, MAP_SHARED, fd, 0);
		int e = errno;
		::close(fd);
		if (p == MAP_FAILED) { error = std::error_code(e, std::system_category()); return; }
		m_data = (const char*)p;
		m_size = (size_t)st.st_size;
	}
	void unmap() noexcept { if (m_data) { ::munmap((void*)m_data, m_size); } m_data = nullptr; m_size = 0; }
	bool is_open() const noexcept { return m_data != nullptr; }
	bool is_mapped() const noexcept { return m_data != nullptr; }
	bool empty() const noexcept { return m_size == 0; }
	size_t size() const noexcept { return m_size; }
	size_t length() const noexcept { return m_size; }
	const char* data() const noexcept { return m_data; }
	const_iterator begin() const noexcept { return m_data; }
	const_iterator end() const noexcept { return m_data + m_size; }
	const_iterator cbegin() const noexcept { return m_data; }
	const_iterator cend() const noexcept { return m_data + m_size; }
	const char& operator[](size_t i) const noexcept { return m_data[i]; }
private:
	void swap(mmap_source& o) noexcept { std::swap(m_data, o.m_data); std::swap(m_size, o.m_size); }
	const char* m_data = nullptr;
	size_t m_size = 0;
};

inline mmap_source make_mmap_source(const std::string& path, std::error_code& error)
{
	mmap_source m;
	m.map(path, error);
	return m;
}
}
