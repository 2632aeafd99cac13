// Monitor back end: counts what was actually observed and records violations.
// Thread-safe; one JSON file per process (path from --out).
#ifndef VERIF_REPORT_H
#define VERIF_REPORT_H
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

inline uint64_t mix(uint64_t z)
{
	z += 0x9e3779b97f4a7c15ull;
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
	z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
	return z ^ (z >> 31);
}

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(mix(seed ^ 0x5851f42d4c957f2dull)) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; return mix(s); }
	// [0,n)
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	long range(long a, long b) { return a + (long) below((uint64_t) (b - a + 1)); }
	double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
	bool chance(int percent) { return below(100) < (uint64_t) percent; }
	template<typename C> const typename C::value_type& pick(const C& c) { return c[below(c.size())]; }
};

inline std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline std::string fmt(const char* f, ...)
{
	char buf[4096];
	va_list ap;
	va_start(ap, f);
	vsnprintf(buf, sizeof(buf), f, ap);
	va_end(ap);
	return buf;
}

inline std::string jstr(const std::string& s)
{
	std::string o = "\"";
	for (size_t i = 0; i < s.size(); i++) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c == '\n') o += "\\n";
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c;
	}
	return o + "\"";
}

class Report
{
	// recursive_mutex of its own; never held while calling into ASAGI
	std::mutex m;
	std::string out;
	uint64_t evals;
	std::unordered_set<std::string> sigs;
	std::vector<std::string> smp;
	std::map<std::string, uint64_t> obs;
	std::map<std::string, std::pair<uint64_t, std::string> > viol;
	std::vector<std::string> order;
	std::string ctx;

public:
	Report() : evals(0) {}

	void setOut(const std::string& p) { out = p; }

	/** Context (replay arguments) attached to every violation */
	void context(const std::string& c) { std::lock_guard<std::mutex> l(m); ctx = c; }

	/** One evaluated execution/case; sig != "" when it was non-trivial */
	void eval(const std::string& sig, uint64_t n = 1)
	{
		std::lock_guard<std::mutex> l(m);
		evals += n;
		if (!sig.empty())
			sigs.insert(sig);
	}

	void sample(const std::string& s)
	{
		std::lock_guard<std::mutex> l(m);
		if (smp.size() < 6)
			smp.push_back(s);
	}

	/** Counts an observed monitor event */
	void observe(const std::string& what, uint64_t n = 1)
	{
		std::lock_guard<std::mutex> l(m);
		obs[what] += n;
	}

	void fail(const std::string& key, const std::string& detail)
	{
		std::lock_guard<std::mutex> l(m);
		std::pair<uint64_t, std::string>& v = viol[key];
		if (v.first++ == 0) {
			v.second = detail + " [" + ctx + "]";
			fprintf(stderr, "MONITOR-FAIL %s: %s\n", key.c_str(), v.second.c_str());
			fflush(stderr);
			order.push_back(key);
		}
		if (v.first == 1)
			flush(); // the process may die later on
	}

	bool failed() { std::lock_guard<std::mutex> l(m); return !viol.empty(); }

	void write() { std::lock_guard<std::mutex> l(m); flush(true); }

private:
	void flush(bool complete = false)
	{
		if (out.empty())
			return;
		std::string tmp = out + ".tmp";
		FILE* f = fopen(tmp.c_str(), "w");
		if (!f)
			return;
		fprintf(f, "{\"complete\":%s,\"evaluations\":%llu,\"sigs\":[", complete ? "true" : "false",
				(unsigned long long) evals);
		bool first = true;
		for (std::unordered_set<std::string>::const_iterator i = sigs.begin(); i != sigs.end(); ++i) {
			// hashes are enough to count distinct cases over all processes
			uint64_t h = 1469598103934665603ull;
			for (size_t k = 0; k < i->size(); k++) h = (h ^ (unsigned char) (*i)[k]) * 1099511628211ull;
			fprintf(f, "%s\"%llx\"", first ? "" : ",", (unsigned long long) h);
			first = false;
		}
		fprintf(f, "],\"samples\":[");
		for (size_t i = 0; i < smp.size(); i++)
			fprintf(f, "%s%s", i ? "," : "", jstr(smp[i]).c_str());
		fprintf(f, "],\"observed\":{");
		first = true;
		for (std::map<std::string, uint64_t>::const_iterator i = obs.begin(); i != obs.end(); ++i) {
			fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(i->first).c_str(), (unsigned long long) i->second);
			first = false;
		}
		fprintf(f, "},\"violations\":[");
		for (size_t i = 0; i < order.size(); i++)
			fprintf(f, "%s{\"key\":%s,\"count\":%llu,\"detail\":%s}", i ? "," : "", jstr(order[i]).c_str(),
					(unsigned long long) viol[order[i]].first, jstr(viol[order[i]].second).c_str());
		fprintf(f, "]}\n");
		fclose(f);
		rename(tmp.c_str(), out.c_str());
	}
};

extern Report report;

/** Command line of a harness program */
struct Args
{
	std::map<std::string, std::string> kv;
	Args(int argc, char** argv)
	{
		for (int i = 1; i < argc; i++) {
			std::string a = argv[i];
			if (a.compare(0, 2, "--") == 0) {
				size_t e = a.find('=');
				if (e == std::string::npos) kv[a.substr(2)] = "1";
				else kv[a.substr(2, e - 2)] = a.substr(e + 1);
			}
		}
		report.setOut(str("out", ""));
	}
	std::string str(const std::string& k, const std::string& d) const
	{
		std::map<std::string, std::string>::const_iterator i = kv.find(k);
		return i == kv.end() ? d : i->second;
	}
	long num(const std::string& k, long d) const
	{
		std::map<std::string, std::string>::const_iterator i = kv.find(k);
		return i == kv.end() ? d : atol(i->second.c_str());
	}
};

}
#endif
