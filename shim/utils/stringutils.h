// Offline stand-in for the TUM-I5/utils submodule (empty in this checkout).
#ifndef VERIF_SHIM_UTILS_STRINGUTILS_H
#define VERIF_SHIM_UTILS_STRINGUTILS_H
#include <algorithm>
#include <cctype>
#include <sstream>
#include <string>

namespace utils
{

class StringUtils
{
public:
	static bool startsWith(const std::string& str, const std::string& prefix)
	{
		return str.size() >= prefix.size() && str.compare(0, prefix.size(), prefix) == 0;
	}

	static bool endsWith(const std::string& str, const std::string& suffix)
	{
		return str.size() >= suffix.size()
			&& str.compare(str.size()-suffix.size(), suffix.size(), suffix) == 0;
	}

	static void toUpper(std::string& str)
	{
		for (size_t i = 0; i < str.size(); i++)
			str[i] = toupper(static_cast<unsigned char>(str[i]));
	}

	static void toLower(std::string& str)
	{
		for (size_t i = 0; i < str.size(); i++)
			str[i] = tolower(static_cast<unsigned char>(str[i]));
	}

	template<typename T>
	static std::string toString(T value)
	{
		std::ostringstream ss;
		ss << value;
		return ss.str();
	}

	template<typename T>
	static T parse(const std::string& str)
	{
		T result = T();
		std::istringstream(str) >> result;
		return result;
	}

	template<typename T>
	static T parse(const std::string& str, bool)
	{
		return parse<T>(str);
	}

	static bool trim(std::string& str)
	{
		size_t b = str.find_first_not_of(" \t\r\n");
		if (b == std::string::npos) { str.clear(); return true; }
		size_t e = str.find_last_not_of(" \t\r\n");
		str = str.substr(b, e-b+1);
		return true;
	}
};

template<> inline std::string StringUtils::parse(const std::string& str) { return str; }
template<> inline const char* StringUtils::parse(const std::string& str) { return str.c_str(); }
template<> inline bool StringUtils::parse(const std::string& str)
{
	std::string s = str;
	toLower(s);
	return s == "on" || s == "yes" || s == "true" || s == "1";
}

}

#endif
