// In-memory stand-ins for file streams, console output and directories. Units that take sources which
// write files include this first; from then on std::ofstream, std::cout, std::filesystem, ... in the
// sources name the types below. Numbers written to a file are appended to a log; text, formatting and
// directories are dropped, and nothing reaches the real file system.
#pragma once
#include <cmath>
#include <cstring>
#include <chrono>
#include <fstream>
#include <filesystem>
#include <functional>
#include <iomanip>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_map>
#include <vector>
#include <Eigen/Dense>
#include <Eigen/Sparse>
#include <Eigen/Eigenvalues>
#include <unsupported/Eigen/SparseExtra>
#include <nlohmann/json.hpp>
#include <regex>
extern "C" bool vf_is_concrete(long v);

namespace vfio {
struct Log { int n = 0; double* v = nullptr; int opened = 0, closed = 0, made = 0, removed = 0; bool closed_disk = false; };
inline Log log;
// Files and folders a contract provides: raw bytes, or text as rows of numbers below an optional header.
struct Node { const char* parent = ""; const char* name = ""; bool dir = false; const char* bytes = nullptr; long size = 0; const double* nums = nullptr; int rows = 0, cols = 0; bool header = false; };
struct Disk { int n = 0; Node node[20]; };
inline Disk disk;
inline void start()
{
	log = Log();
	disk.n = 0;
	log.v = static_cast<double*>(vf_unbounded(8));
}
struct Out {
	bool keep = true; int written = 0;
	void put(double x) { if (keep) { if (log.v) log.v[log.n] = x; log.n++; written++; } }
	template <class T> Out& operator<<(const T& x) { if constexpr (std::is_arithmetic<T>::value && sizeof(T) > 1) put(double(x)); return *this; }
	Out& operator<<(std::basic_ostream<char>& (*)(std::basic_ostream<char>&)) { return *this; }
	Out& operator<<(std::ios_base& (*)(std::ios_base&)) { return *this; }
	template <class T> Out& write(const T*, long) { return *this; }
	Out& flush() { return *this; }
	long precision(long p = 6) { return p; }
	template <class T> void setf(T) {} template <class T, class U> void setf(T, U) {}
	bool good() const { return true; } bool fail() const { return false; } explicit operator bool() const { return true; } bool operator!() const { return false; }
};
struct OutFile : Out {
	bool open_ = false;
	OutFile() {}
	template <class P> explicit OutFile(const P& p, std::ios_base::openmode m = std::ios_base::out) { open(p, m); }
	OutFile(OutFile&& o) : open_(o.open_) { o.open_ = false; }
	OutFile& operator=(OutFile&& o) { open_ = o.open_; o.open_ = false; return *this; }
	template <class P> void open(const P&, std::ios_base::openmode = std::ios_base::out) { open_ = !log.closed_disk; if (open_) log.opened++; }
	bool is_open() const { return open_; }
	void close() { open_ = false; log.closed++; }
};
inline Node& file(const char* parent, const char* name) { Node& f = disk.node[disk.n++]; f = Node(); f.parent = parent; f.name = name; return f; }
inline Node& folder(const char* parent, const char* name) { Node& f = file(parent, name); f.dir = true; return f; }
inline int find(const std::string& p) { for (int i = 0; i < disk.n; i++) if (p == std::string(disk.node[i].parent) + "/" + disk.node[i].name) return i; return -1; }
struct InFile {
	int at = -1, row = 0; long pos = 0; bool bad = false;
	InFile() {}
	template <class P> explicit InFile(const P& p, std::ios_base::openmode = std::ios_base::in) { open(p); }
	template <class T> InFile& operator>>(T& x) { if (at < 0) bad = true; else if constexpr (std::is_same<T, double>::value) { const Node& f = disk.node[at]; if (pos >= long(f.rows) * f.cols) bad = true; else x = f.nums[pos++]; } return *this; }
	template <class P> void open(const P& p, std::ios_base::openmode = std::ios_base::in) { at = find(std::string(p)); bad = at < 0; row = 0; pos = 0; }
	bool is_open() const { return at >= 0; } void close() { at = -1; } bool eof() const { return bad; }
	bool good() const { return !bad; } bool fail() const { return bad; } explicit operator bool() const { return at >= 0 && !bad; } bool operator!() const { return at < 0 || bad; }
	template <class T> InFile& read(T* d, long n) { if (at < 0 || pos + n > disk.node[at].size) bad = true; else { memcpy(d, disk.node[at].bytes + pos, n); pos += n; } return *this; }
	int count() const { return at < 0 ? 0 : disk.node[at].rows * disk.node[at].cols; }
	const char* begin() const { return nullptr; } const char* end() const { return nullptr; }
	int peek() { return at < 0 || pos >= disk.node[at].size ? -1 : 0; }
};
// a row of a file is handed on as a short text that names it; the reader of the text finds its numbers
inline InFile& getline(InFile& f, std::string& s)
{
	if (f.at < 0) { f.bad = true; return f; }
	const Node& d = disk.node[f.at];
	int r = f.row - (d.header ? 1 : 0);
	if (r >= d.rows) { f.bad = true; return f; }
	s = r < 0 ? std::string("#") : std::string("@") + char('a' + f.at) + char('a' + r);
	f.row++;
	return f;
}
struct InText {
	int at = -1, row = 0, col = 0; bool bad = false;
	explicit InText(const std::string& s) { if (s.size() == 3 && s[0] == '@') { at = s[1] - 'a'; row = s[2] - 'a'; } else bad = true; }
	InText& operator>>(double& x) { if (bad || col >= disk.node[at].cols) bad = true; else x = disk.node[at].nums[row * disk.node[at].cols + col++]; return *this; }
	template <class T> InText& operator>>(T& x) { double d = 0.0; *this >> d; if constexpr (std::is_arithmetic<T>::value) { if (!bad) x = T(d); } return *this; }
	bool eof() const { return bad || col >= disk.node[at].cols; } bool fail() const { return bad; }
	explicit operator bool() const { return !bad; } bool operator!() const { return bad; }
};
// text put together in memory is only carried as text in native runs
struct OutText : Out {
	OutText() { keep = false; }
#ifdef VF_SYMBOLIC
	std::string str() const { return std::string("#"); } void str(const std::string&) {}
#else
	std::ostringstream s;
	std::string str() const { return s.str(); } void str(const std::string& t) { s.str(t); }
	template <class T> OutText& operator<<(const T& x) { s << x; return *this; }
	OutText& operator<<(std::basic_ostream<char>& (*f)(std::basic_ostream<char>&)) { s << f; return *this; }
	OutText& operator<<(std::ios_base& (*f)(std::ios_base&)) { s << f; return *this; }
#endif
};
// file names such as rank7: literal characters and \d+
struct Pattern { std::string p; Pattern(const char* s) : p(s) {} };
inline bool matches(const std::string& s, const Pattern& r)
{
	size_t i = 0;
	for (size_t j = 0; j < r.p.size();) {
		if (r.p[j] == '\\') { size_t b = i; while (i < s.size() && s[i] >= '0' && s[i] <= '9') i++; if (i == b) return false; j += 3; }
		else { if (i >= s.size() || s[i] != r.p[j]) return false; i++; j++; }
	}
	return i == s.size();
}
inline Out& console() { static Out o; o.keep = false; return o; }
}
namespace std {
using vf_ofstream = ::vfio::OutFile;
using vf_ifstream = ::vfio::InFile;
using vf_ostream = ::vfio::Out;
using ::vfio::getline;
using vf_ostringstream = ::vfio::OutText;
using vf_istringstream = ::vfio::InText;
using vf_regex = ::vfio::Pattern;
inline bool vf_regex_match(const std::string& s, const vf_regex& r) { return ::vfio::matches(s, r); }
inline double vf_stod(const std::string& s) { double x = 0.0; ::vfio::InText(s) >> x; return x; }
inline ::vfio::Out vf_cout = [] { ::vfio::Out o; o.keep = false; return o; }();
inline ::vfio::Out vf_cerr = [] { ::vfio::Out o; o.keep = false; return o; }();
template <class T> std::string vf_to_string(T v)
{
#ifdef VF_SYMBOLIC
	if constexpr (std::is_integral<T>::value) return vf_is_concrete(long(v)) ? std::to_string(v) : std::string("#");
	else return std::string("#");
#else
	return std::to_string(v);
#endif
}
namespace vf_filesystem {
struct path {
	std::string s;
	path() {} path(const std::string& t) : s(t) {} path(const char* t) : s(t) {}
	path operator/(const path& o) const { return path(s + "/" + o.s); }
	path& operator/=(const path& o) { s += "/"; s += o.s; return *this; }
	const std::string& string() const { return s; } const char* c_str() const { return s.c_str(); } operator std::string() const { return s; }
	bool empty() const { return s.empty(); } bool has_parent_path() const { return s.find('/') != std::string::npos; } bool has_extension() const { return !extension().empty(); } bool has_filename() const { return !filename().empty(); }
	path filename() const { auto i = s.find_last_of('/'); return i == std::string::npos ? *this : path(s.substr(i + 1)); }
	path parent_path() const { auto i = s.find_last_of('/'); return i == std::string::npos ? path() : path(s.substr(0, i)); }
	path extension() const { auto f = filename().s; auto i = f.find_last_of('.'); return i == std::string::npos ? path() : path(f.substr(i)); }
	path stem() const { auto f = filename().s; auto i = f.find_last_of('.'); return i == std::string::npos ? path(f) : path(f.substr(0, i)); }
	bool operator<(const path& o) const { return s < o.s; } bool operator==(const path& o) const { return s == o.s; }
};
struct directory_entry { vf_filesystem::path p; int at = -1; const vf_filesystem::path& path() const { return p; } bool is_directory() const { return at >= 0 && ::vfio::disk.node[at].dir; } bool is_regular_file() const { return at >= 0 && !::vfio::disk.node[at].dir; } operator const vf_filesystem::path&() const { return p; } };
struct directory_iterator {
	directory_entry list[20]; int n = 0;
	directory_iterator() {} explicit directory_iterator(const path& p) { for (int i = 0; i < ::vfio::disk.n; i++) if (p.s == ::vfio::disk.node[i].parent) { list[n].p = p / path(::vfio::disk.node[i].name); list[n].at = i; n++; } }
	const directory_entry* begin() const { return list; } const directory_entry* end() const { return list + n; }
};
struct recursive_directory_iterator : directory_iterator { using directory_iterator::directory_iterator; };
inline const directory_entry* begin(const directory_iterator& d) { return d.begin(); }
inline const directory_entry* end(const directory_iterator& d) { return d.end(); }
template <class P> bool exists(const P& p) { return ::vfio::find(std::string(p)) >= 0; }
template <class P> bool is_directory(const P& p) { int i = ::vfio::find(std::string(p)); return i >= 0 && ::vfio::disk.node[i].dir; }
template <class P> bool is_regular_file(const P& p) { int i = ::vfio::find(std::string(p)); return i >= 0 && !::vfio::disk.node[i].dir; }
template <class P> bool create_directories(const P&) { ::vfio::log.made++; return true; }
template <class P> bool create_directory(const P&) { ::vfio::log.made++; return true; }
template <class P> unsigned long remove_all(const P&) { ::vfio::log.removed++; return 0; }
template <class P> bool remove(const P&) { ::vfio::log.removed++; return false; }
inline path current_path() { return path("."); }
}
}
#define ofstream vf_ofstream
#define ifstream vf_ifstream
#define ostream vf_ostream
#define cout vf_cout
#define cerr vf_cerr
#define to_string vf_to_string
#define filesystem vf_filesystem
#define istringstream vf_istringstream
#define ostringstream vf_ostringstream
#define regex vf_regex
#define regex_match vf_regex_match
#define stod vf_stod
