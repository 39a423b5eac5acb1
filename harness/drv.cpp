#include "drv.h"
#include <fcntl.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>

extern "C" const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=1:exitcode=77:handle_segv=1:detect_stack_use_after_return=0"; }

double J::d() const {
	if (t == NUM) return n;
	if (t == BOO) return b;
	if (t == STR) {
		if (s == "NaN") return NAN;
		if (s == "Infinity") return INFINITY;
		if (s == "-Infinity") return -INFINITY;
		return strtod(s.c_str(), nullptr);
	}
	return 0;
}
static void qs(const std::string &s, std::string &r) {
	r += '"';
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') { r += '\\'; r += c; }
		else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
		else r += c;
	}
	r += '"';
}
void J::dump(std::string &r) const {
	switch (t) {
		case NUL: r += "null"; break;
		case BOO: r += b ? "true" : "false"; break;
		case NUM: {
			char buf[40];
			if (std::isnan(n)) r += "\"NaN\"";
			else if (std::isinf(n)) r += n > 0 ? "\"Infinity\"" : "\"-Infinity\"";
			else { if (n == std::rint(n) && std::fabs(n) <= 1e9) snprintf(buf, 40, "%ld", (long)n); else snprintf(buf, 40, "%.17g", n); r += buf; }
			break;
		}
		case STR: qs(s, r); break;
		case ARR: r += '['; for (size_t i = 0; i < a.size(); i++) { if (i) r += ','; a[i].dump(r); } r += ']'; break;
		case OBJ: r += '{'; for (size_t i = 0; i < o.size(); i++) { if (i) r += ','; qs(o[i].first, r); r += ':'; o[i].second.dump(r); } r += '}'; break;
	}
}
struct Ps {
	const char *p;
	void ws() { while (*p && (unsigned char)*p <= ' ') p++; }
	std::string str() {
		std::string r; p++;
		while (*p && *p != '"') {
			if (*p == '\\') {
				p++;
				switch (*p) {
					case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break;
					case 'u': { char h[5] = { p[1], p[2], p[3], p[4], 0 }; r += (char)strtol(h, nullptr, 16); p += 4; break; }
					default: r += *p;
				}
				p++;
			} else r += *p++;
		}
		p++; return r;
	}
	J val() {
		ws(); J j;
		if (*p == '{') { j.t = J::OBJ; p++; ws(); if (*p == '}') { p++; return j; } while (true) { ws(); std::string k = str(); ws(); p++; J v = val(); j.o.emplace_back(k, v); ws(); if (*p++ == '}') break; } }
		else if (*p == '[') { j.t = J::ARR; p++; ws(); if (*p == ']') { p++; return j; } while (true) { j.a.push_back(val()); ws(); if (*p++ == ']') break; } }
		else if (*p == '"') { j.t = J::STR; j.s = str(); }
		else if (*p == 't') { j = J(true); p += 4; }
		else if (*p == 'f') { j = J(false); p += 5; }
		else if (*p == 'n') { p += 4; }
		else { char *e; j = J(strtod(p, &e)); if (e == p) { fprintf(stderr, "bad json: %.60s\n", p); _exit(3); } p = e; }
		return j;
	}
};
J J::parse(const std::string &s) { Ps p{ s.c_str() }; return p.val(); }

static std::map<std::string, OpFn> &ops() { static std::map<std::string, OpFn> m; return m; }
OpReg::OpReg(const char *n, OpFn f) { ops()[n] = f; }

struct Shared { volatile long script, ev; volatile int open; };
static std::string scratch;
const char *dom_scratch() { return scratch.c_str(); }

static void wr(int fd, const std::string &s) { size_t k = 0; while (k < s.size()) { ssize_t n = write(fd, s.data() + k, s.size() - k); if (n <= 0) _exit(4); k += n; } }

int main(int argc, char **argv) {
	if (argc < 4) { fprintf(stderr, "usage: drv script.ndjson trace.ndjson scratchdir [cpu_seconds_per_script]\n"); return 2; }
	int cpu = argc > 4 ? atoi(argv[4]) : 20;
	scratch = argv[3];
	std::vector<std::string> lines;
	{ std::ifstream f(argv[1]); std::string l; while (std::getline(f, l)) if (!l.empty()) lines.push_back(l); }
	int fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY, 0644);
	if (fd < 0) { perror(argv[2]); return 2; }
	Shared *sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	memset((void *)sh, 0, sizeof *sh);
	long deaths = 0;
	while (sh->script < (long)lines.size()) {
		pid_t pid = fork();
		if (pid == 0) {
			int err = open((scratch + "/stderr.log").c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644);
			if (err >= 0) dup2(err, 2);
			int nul = open("/dev/null", O_WRONLY);
			dup2(nul, 1);
			if (chdir(scratch.c_str())) _exit(5);
			struct rlimit rc = { 0, 0 }; setrlimit(RLIMIT_CORE, &rc);
			SFWCore::setup();
			dom_reset();
			for (; sh->script < (long)lines.size(); sh->script++) {
				J sc = J::parse(lines[sh->script]);
				struct itimerval tv = {}; tv.it_value.tv_sec = cpu; setitimer(ITIMER_PROF, &tv, nullptr);
				alarm(cpu * 6);
				sh->ev = 0; sh->open = 1;
				wr(fd, std::string("{\"id\":") + sc["id"].dump() + ",\"ev\":[");
				const J &ev = sc["ev"];
				for (int i = 0; i < ev.size(); i++) {
					const J &e = ev[i];
					sh->ev = i;
					auto it = ops().find(e["op"].s);
					J out = J::obj();
					out.set("op", e["op"]); out.set("a", e["a"]);
					if (it == ops().end()) { fprintf(stderr, "unknown op %s\n", e["op"].s.c_str()); _exit(6); }
					J r = it->second(e["a"]);
					out.set("r", r);
					J s = dom_state();
					if (s.t != J::NUL) out.set("s", s);
					std::string l = (i ? "," : "") + out.dump();
					wr(fd, l);
					sh->ev = i + 1;
				}
				dom_reset();
				wr(fd, "]}\n");
				sh->open = 0;
			}
			_exit(0);
		}
		int st = 0; waitpid(pid, &st, 0);
		if (WIFEXITED(st) && WEXITSTATUS(st) == 0) break;
		if (WIFEXITED(st) && WEXITSTATUS(st) >= 2 && WEXITSTATUS(st) <= 6) { fprintf(stderr, "driver error %d (see %s/stderr.log)\n", WEXITSTATUS(st), scratch.c_str()); return 2; }
		if (!sh->open) { fprintf(stderr, "worker died outside a script: status %d\n", st); return 2; }
		J sc = J::parse(lines[sh->script]);
		std::string why = WIFSIGNALED(st) ? (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM ? "TIMEOUT" : "CRASH signal " + std::to_string(WTERMSIG(st))) : "CRASH exit " + std::to_string(WEXITSTATUS(st));
		J out = J::obj();
		long k = sh->ev;
		if (k < sc["ev"].size()) { out.set("op", sc["ev"][(int)k]["op"]); out.set("a", sc["ev"][(int)k]["a"]); } else { out.set("op", "end"); out.set("a", J::arr()); }
		out.set("r", why); out.set("s", J::obj()); out.set("crash", true);
		wr(fd, std::string(k ? "," : "") + out.dump() + "]}\n");
		sh->script++; sh->open = 0;
		if (++deaths > 200) { fprintf(stderr, "too many deaths\n"); break; }
	}
	close(fd);
	return 0;
}
