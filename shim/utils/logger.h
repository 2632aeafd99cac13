// Offline stand-in for the TUM-I5/utils submodule (empty in this checkout).
// Same interface ASAGI uses: stream-style loggers with an optional rank; only
// rank 0 prints; logError is fatal (prints, then terminates the process).
#ifndef VERIF_SHIM_UTILS_LOGGER_H
#define VERIF_SHIM_UTILS_LOGGER_H
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <string>
#include <unistd.h>

extern "C" {
// Optional observers defined by the harness (weak: may be absent)
__attribute__((weak)) void verif_log_warning(const char* text);
}

namespace utils
{

class Logger
{
public:
	enum Type { DEBUG, INFO, WARNING, ERROR };

private:
	Type m_type;
	int m_rank;
	std::ostringstream m_stream;

public:
	Logger(Type type, int rank) : m_type(type), m_rank(rank) {}
	Logger(const Logger& o) : m_type(o.m_type), m_rank(o.m_rank) { m_stream << o.m_stream.str(); }

	~Logger()
	{
		if (m_type == ERROR) {
			fprintf(stderr, "ASAGI-FATAL:%s\n", m_stream.str().c_str());
			fflush(stderr);
			fflush(stdout);
			_exit(97);
		}
		if (m_type == WARNING) {
			if (verif_log_warning)
				verif_log_warning(m_stream.str().c_str());
		}
	}

	template<typename T>
	Logger& operator<<(const T& v)
	{
		m_stream << ' ' << v;
		return *this;
	}
};

struct NullLogger
{
	template<typename T>
	NullLogger& operator<<(const T&) { return *this; }
};

}

inline utils::NullLogger logDebug(int = 0) { return utils::NullLogger(); }
inline utils::Logger logInfo(int r = 0) { return utils::Logger(utils::Logger::INFO, r); }
inline utils::Logger logWarning(int r = 0) { return utils::Logger(utils::Logger::WARNING, r); }
inline utils::Logger logError() { return utils::Logger(utils::Logger::ERROR, 0); }

#ifdef NDEBUG
#define NDBG_UNUSED(x) ((void) x)
#else
#define NDBG_UNUSED(x)
#endif

#endif
