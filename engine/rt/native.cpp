// Replays harness runs with concrete inputs on the unmodified code (no instrumentation, no models): the vp.h API with
// recorded values, real files in a scratch directory, real C locales.
//   native --case N --tier T --input FILE          run one record ("name value" per line); exit 0 when nothing is violated
//   native --case N --tier T --batch FILE          records separated by lines "=="; prints one result line per record
#include "vp.h"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <clocale>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <dirent.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

typedef uint64_t u64;
static int cas, tier, limit_s = 20;
static std::map<std::string, u64> input;
static std::set<std::string> names;
static unsigned nvars;
static u64 digest = 14695981039346656037ull;
static int out_fd = 1;
static std::string scratch;
static bool echo_notes;

[[noreturn]] static void finish (const char* how, std::string const& msg)
{
	char b[64];
	snprintf(b, sizeof b, " %016llx ", (unsigned long long) digest);
	std::string s = std::string("RESULT ") + how + b + msg;
	for (auto& c: s) if (c == '\n') c = ' ';
	s += '\n';
	(void) !write(out_fd, s.data(), s.size());
	_exit(strcmp(how, "violation") ? 0 : 1);
}

static u64 value (const char* name, u64 n)
{
	std::string k = name;
	unsigned idx = nvars++;
	if (!names.insert(k).second) { k += "." + std::to_string(idx); names.insert(k); }
	auto i = input.find(k);
	u64 v = i == input.end() ? 0 : i->second;
	if (n && v >= n) v = n - 1;
	return v;
}

extern "C" {
uint8_t vp_byte (const char* name) { return value(name, 256); }
int64_t vp_range (const char* name, int64_t lo, int64_t hi) { return (int64_t) ((u64) lo + value(name, (u64) hi - (u64) lo + 1)); }
uint8_t vp_char (const char* name, const char* set, unsigned n) { return set[value(name, n)]; }
int vp_choice (const char* name, int n) { return value(name, n); }
void vp_assume (int c) { if (!c) finish("assume", ""); }
void vp_assert (int c, const char* msg) { if (!c) finish("violation", msg); }
void vp_fail (const char* msg) { finish("violation", msg); }
void vp_cover (const char*) {}
void vp_note (const char* label, const char* text) { if (echo_notes) fprintf(stderr, "note %s: %s\n", label, text); }
void vp_observe (uint64_t v) { for (int i = 0; i < 8; ++i) { digest ^= (v >> (8 * i)) & 0xff; digest *= 1099511628211ull; } }
void vp_observe_bytes (const void* p, size_t n) { for (size_t i = 0; i < n; ++i) { digest ^= ((const uint8_t*) p)[i]; digest *= 1099511628211ull; } }
int vp_case (void) { return cas; }
int vp_tier (void) { return tier; }
int vp_symbolic (void) { return 0; }
int vp_has_sym (const void*, size_t) { return 0; }
int vp_is_sym (uint64_t) { return 0; }
int vp_mem_eq (const void* a, const void* b, size_t n) { return memcmp(a, b, n) == 0; }
int vp_mem_cmp (const void* a, const void* b, size_t n) { int r = memcmp(a, b, n); return r < 0 ? -1 : r > 0; }
int64_t vp_concretize (int64_t v) { return v; }
int64_t vp_ite (int c, int64_t a, int64_t b) { return c ? a : b; }
void vp_hint (const char*, int64_t) {}
void vp_stop (void) { finish("stop", ""); }

void vp_vfs_put (const char* path, const void* data, size_t n)
{
	FILE* f = fopen(path, "wb");
	if (!f) finish("error", std::string("cannot write ") + path);
	if (n) fwrite(data, 1, n, f);
	fclose(f);
}
static std::string slurped;
static bool slurp (const char* path)
{
	std::ifstream f(path, std::ios::binary);
	if (!f) return false;
	std::ostringstream s;
	s << f.rdbuf();
	slurped = s.str();
	return true;
}
long vp_vfs_size (const char* path) { return slurp(path) ? (long) slurped.size() : -1; }
const unsigned char* vp_vfs_data (const char* path)
{
	if (!slurp(path)) return nullptr;
	unsigned char* p = (unsigned char*) malloc(slurped.size() + 1);	// lives until the end of the run
	memcpy(p, slurped.data(), slurped.size());
	return p;
}

// a real locale, compiled by localedef
static std::string ucs (const char* s)
{
	std::string o;
	for (const unsigned char* p = (const unsigned char*) s; *p;) {
		unsigned c = *p++;
		int more = c >= 0xe0 ? 2 : c >= 0xc0 ? 1 : 0;
		if (more) c &= more == 2 ? 0xf : 0x1f;
		while (more-- && *p) c = c << 6 | (*p++ & 0x3f);
		char b[16];
		snprintf(b, sizeof b, "<U%04X>", c);
		o += b;
	}
	return o;
}
void vp_set_locale (const char* point, const char* thousands)
{
	if (!strcmp(point, ".") && !*thousands) { setlocale(LC_ALL, "C"); return; }
	bool wide = false;
	for (const char* p = point; *p; ++p) wide |= *p & 0x80;
	for (const char* p = thousands; *p; ++p) wide |= *p & 0x80;
	static int n = 0;
	std::string name = "vploc" + std::to_string(n++);
	std::string src = scratch + "/" + name + ".src";
	std::ofstream f(src);
	f << "comment_char %\nescape_char /\n";
	for (const char* c: {"CTYPE", "COLLATE", "MONETARY", "TIME", "MESSAGES"}) f << "LC_" << c << "\ncopy \"POSIX\"\nEND LC_" << c << "\n";
	f << "LC_NUMERIC\ndecimal_point \"" << ucs(point) << "\"\nthousands_sep \"" << ucs(thousands) << "\"\ngrouping 3;3\nEND LC_NUMERIC\n";
	f.close();
	std::string cmd = "ASAN_OPTIONS=detect_leaks=0 localedef -c -i " + src + " -f " + (wide ? "UTF-8" : "ANSI_X3.4-1968") + " --no-archive " + scratch + "/" + name + " >/dev/null 2>&1";
	(void) !system(cmd.c_str());
	setenv("LOCPATH", scratch.c_str(), 1);
	if (!setlocale(LC_ALL, name.c_str()) || strcmp(localeconv()->decimal_point, point) || strcmp(localeconv()->thousands_sep, thousands)) finish("error", "cannot set locale");
}
}

static void remove_tree (std::string const& d)
{
	// only ever called on the mkdtemp directory made here
	if (DIR* p = opendir(d.c_str())) {
		while (dirent* e = readdir(p)) {
			std::string n = e->d_name;
			if (n == "." || n == "..") continue;
			std::string f = d + "/" + n;
			struct stat st;
			if (lstat(f.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) remove_tree(f);
			else unlink(f.c_str());
		}
		closedir(p);
	}
	rmdir(d.c_str());
}

static void parse (std::string const& text)
{
	input.clear();
	std::istringstream s(text);
	std::string l;
	while (std::getline(s, l)) {
		if (l.empty() || l[0] == '#') continue;
		size_t k = l.rfind(' ');
		if (k != std::string::npos) input[l.substr(0, k)] = strtoull(l.c_str() + k + 1, nullptr, 10);
	}
}

// the record in a child of its own: its result line
static std::string run (std::string const& text, bool quiet)
{
	int p[2];
	if (pipe(p)) return "RESULT error 0 pipe\n";
	char tmpl[] = "/tmp/vpreplay.XXXXXX";
	if (!mkdtemp(tmpl)) return "RESULT error 0 mkdtemp\n";
	scratch = tmpl;
	fflush(stdout); fflush(stderr);
	pid_t pid = fork();
	if (pid == 0) {
		close(p[0]);
		out_fd = p[1];
		setpgid(0, 0);
		if (chdir(tmpl)) _exit(3);
		int n = open("/dev/null", O_RDWR);
		dup2(n, 1);
		if (quiet) dup2(n, 2);
		struct rlimit rl = {(rlim_t) limit_s, (rlim_t) limit_s + 1};
		setrlimit(RLIMIT_CPU, &rl);
		rl = {1u << 28, 1u << 28}; setrlimit(RLIMIT_FSIZE, &rl);
		parse(text);
		try { vp_harness(); }
		catch (std::exception& e) { finish("violation", std::string("unexpected exception: ") + e.what()); }
		catch (...) { finish("violation", "unexpected exception (not derived from std::exception)"); }
		finish("done", "");
	}
	close(p[1]);
	std::string o;
	char b[4096];
	ssize_t k;
	// stdout of the child is not the pipe, so this ends when the child does
	while ((k = read(p[0], b, sizeof b)) > 0 || (k < 0 && errno == EINTR)) if (k > 0) o.append(b, k);
	close(p[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	remove_tree(scratch);
	if (o.empty()) {
		if (WIFSIGNALED(st)) {
			int s = WTERMSIG(st);
			if (s == SIGXCPU || s == SIGKILL) o = "RESULT violation 0 does not terminate (no result after " + std::to_string(limit_s) + " s of CPU time)\n";
			else o = "RESULT violation 0 crash: signal " + std::to_string(s) + " (" + strsignal(s) + ")\n";
		} else o = "RESULT violation 0 crash: exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report)\n";
	}
	return o;
}

int main (int argc, char** argv)
{
	std::string in, batch;
	bool v = false;
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i];
		if (a == "--case") cas = atoi(argv[++i]);
		else if (a == "--tier") tier = atoi(argv[++i]);
		else if (a == "--limit") limit_s = atoi(argv[++i]);
		else if (a == "--input") in = argv[++i];
		else if (a == "--batch") batch = argv[++i];
		else if (a == "-v") v = true;
	}
	echo_notes = v;
	std::ifstream f(batch.empty() ? in : batch);
	std::ostringstream all;
	all << f.rdbuf();
	std::string t = all.str();
	if (batch.empty()) {
		std::string o = run(t, false);
		fputs(o.c_str(), stdout);
		return o.find("RESULT violation") == 0 ? 1 : 0;
	}
	size_t p = 0;
	while (p < t.size()) {
		size_t e = t.find("==\n", p);
		if (e == std::string::npos) e = t.size();
		fputs(run(t.substr(p, e - p), !v).c_str(), stdout);
		fflush(stdout);
		p = e + 3;
	}
	return 0;
}
