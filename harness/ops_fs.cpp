// Files and directories below <scratch>/fs.  Calls that change the file system are wrapped: anything outside that folder aborts.
#include "drv.h"
#include "platform/sfw.h"
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <sys/stat.h>
#include <unistd.h>
#include <algorithm>
#include <cstring>
typedef std::vector<int> P;
static std::string root;
static bool armed = false;
// --- containment
static void inside(const char *what, const char *p, bool follow) {
	if (!armed) return;
	char b[PATH_MAX]; std::string s = p, d;
	while (s.size() > 1 && s.back() == '/') s.pop_back();
	if (follow && realpath(s.c_str(), b)) d = b;
	else { size_t k = s.rfind('/'); std::string up = k == std::string::npos ? "." : k == 0 ? "/" : s.substr(0, k); if (!realpath(up.c_str(), b)) return; d = std::string(b) + "/x"; } // a missing directory: the call itself fails
	if (d.compare(0, root.size() + 1, root + "/") == 0) return;
	fprintf(stderr, "%s reaches outside: %s\n", what, p); abort();
}
#define NEXT(f) static auto next = (decltype(&::f))dlsym(RTLD_NEXT, #f)
extern "C" {
int unlink(const char *p) noexcept { NEXT(unlink); inside("unlink", p, false); return next(p); }
int rmdir(const char *p) noexcept { NEXT(rmdir); inside("rmdir", p, false); return next(p); }
int remove(const char *p) noexcept { NEXT(remove); inside("remove", p, false); return next(p); }
int rename(const char *p, const char *q) noexcept { NEXT(rename); inside("rename", p, false); inside("rename", q, false); return next(p, q); }
int mkdir(const char *p, mode_t m) noexcept { NEXT(mkdir); struct stat s; if (armed && lstat(p, &s) == 0) { errno = EEXIST; return -1; } inside("mkdir", p, false); return next(p, m); }
int symlink(const char *p, const char *q) noexcept { NEXT(symlink); inside("symlink", q, false); if (armed && std::string(p).compare(0, root.size() + 1, root + "/")) { fprintf(stderr, "link to the outside: %s\n", p); abort(); } return next(p, q); }
int chmod(const char *p, mode_t m) noexcept { NEXT(chmod); inside("chmod", p, true); return next(p, m); }
FILE *fopen(const char *p, const char *m) { NEXT(fopen); if (strpbrk(m, "wa+")) inside("fopen", p, true); return next(p, m); }
FILE *fopen64(const char *p, const char *m) { NEXT(fopen64); if (strpbrk(m, "wa+")) inside("fopen", p, true); return next(p, m); }
}
// --- names and paths
static const char *NAMES[] = { "a", "b", ".h", "\xc3\xa9 \xe2\x82\xac", "c.txt", "dd" };
static std::string name(int n) { return n >= 100 ? std::string(NAMES[n - 100]) + ".tmp" : n == -1 ? ".." : NAMES[n]; }
static int id(const std::string &s) { if (s == ".") return -2; if (s == "..") return -1; for (int i = 0; i < 6; i++) { if (s == NAMES[i]) return i; if (s == std::string(NAMES[i]) + ".tmp") return 100 + i; } return 999; }
static std::string abs(const P &p) { std::string s = root; for (int n : p) s += "/" + name(n); return s; }
static P path(const J &j) { P p; for (auto &x : j.a) p.push_back(x.i()); return p; }
static J jp(const P &p) { J r = J::arr(); for (int n : p) r.add(n); return r; }
static P parse(const std::string &s) { // a path below the root; anything else shows as 998
	P p; if (s.compare(0, root.size(), root) != 0) return { 998 };
	std::string r = s.substr(root.size()); size_t i = 0;
	while (i < r.size()) { if (r[i] != '/') return { 998 }; size_t k = r.find('/', i + 1); if (k == std::string::npos) k = r.size(); p.push_back(id(r.substr(i + 1, k - i - 1))); i = k; }
	return p;
}
static std::string utf(const String &s) { return s.utf8().get_data(); }
static String gs(const std::string &s) { return String::utf8(s.c_str()); }
static char kind(const P &p) { struct stat s; if (lstat(abs(p).c_str(), &s)) return 0; return S_ISDIR(s.st_mode) ? 'd' : S_ISLNK(s.st_mode) ? 'l' : 'f'; }
static P lnk(const P &p) { char b[PATH_MAX]; ssize_t n = readlink(abs(p).c_str(), b, sizeof b); return n < 0 ? P{ 998 } : parse(std::string(b, n)); }
static const P MISS = { -1 }, NODIR = { -2 };
static bool bad(const P &p) { return p == MISS || p == NODIR; }
static P walk(P rest, bool last) {
	P base;
	for (int fuel = 60; fuel > 0; fuel--) {
		if (rest.empty()) return base;
		P nx = base; nx.push_back(rest[0]); P tail(rest.begin() + 1, rest.end()); char k = kind(nx);
		if (!k) return tail.empty() ? nx : MISS;
		if (k == 'l' && (!tail.empty() || last)) { P r = lnk(nx); r.insert(r.end(), tail.begin(), tail.end()); base.clear(); rest = r; }
		else if (k == 'f' && !tail.empty()) return NODIR;
		else { base = nx; rest = tail; }
	}
	return NODIR;
}
static P res(const P &p) { return walk(p, true); }
static P lres(const P &p) { return walk(p, false); }
static bool there(const P &p) { return !bad(p) && (p.empty() || kind(p)); }
static bool isK(const P &p, char k) { return there(p) && (p.empty() ? 'd' : kind(p)) == k; }
static P tmp(P p) { p.back() += 100; return p; }
static std::string slurp(const P &p) { std::string s; int f = open(abs(p).c_str(), O_RDONLY); if (f < 0) return "?"; char b[65536]; ssize_t n; while ((n = read(f, b, sizeof b)) > 0) s.append(b, n); close(f); return s; }
static std::string pattern(long n) { std::string s(n, 0); for (long i = 0; i < n; i++) s[i] = (char)((i * 31 + i / 251) & 255); return s; }
static J bytes(const std::string &s) { J r = J::arr(); if (s.size() > 3000 && s == pattern(s.size())) { r.add(-1); r.add((long)s.size()); return r; } for (unsigned char c : s) r.add((int)c); return r; }
static bool big(const P &p) { struct stat s; return isK(p, 'f') && stat(abs(p).c_str(), &s) == 0 && s.st_size > 3000; }
// --- objects
struct Del { template <class T> void operator()(T *p) const { memdelete(p); } };
struct H { std::unique_ptr<FileAccess, Del> f; P p, save; int mode = 0; bool dirty = false; std::string src; bool bk = false; };
static H hs[2];
static std::unique_ptr<DirAccess, Del> D;
static H &hnd(const J &j) { return hs[j.s == "f2"]; }
static bool busy(const P &p, const H *but = nullptr) { for (auto &h : hs) if (&h != but && h.mode && (h.p == p || (!h.save.empty() && h.save == p))) return true; return false; }
static bool writing(const P &p, const H *but = nullptr) { for (auto &h : hs) if (&h != but && h.mode > 1 && (h.p == p || (!h.save.empty() && h.save == p))) return true; return false; }
static bool held(const P &p) { for (auto &h : hs) if (h.dirty && h.p == p) return true; return false; }
static bool anyOpen() { return hs[0].mode || hs[1].mode; }
static bool canR(const H &h) { return h.mode == 1 || h.mode == 3 || h.mode == 7; }
static bool canW(const H &h) { return h.mode == 2 || h.mode == 3 || h.mode == 7; }
static P target(const P &p, int mode) { P q = res(p); return FileAccess::is_backup_save_enabled() && mode == 2 ? lres(p) : q; }
static void wipe(const std::string &d) { DIR *s = opendir(d.c_str()); if (!s) return; std::vector<std::string> n; while (dirent *e = readdir(s)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(d + "/" + e->d_name); closedir(s); for (auto &x : n) { struct stat t; if (!lstat(x.c_str(), &t) && S_ISDIR(t.st_mode)) { wipe(x); rmdir(x.c_str()); } else unlink(x.c_str()); } }
static void scan(const P &p, std::vector<P> &out) { DIR *s = opendir(abs(p).c_str()); if (!s) return; std::vector<int> n; while (dirent *e = readdir(s)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) n.push_back(id(e->d_name)); closedir(s); std::sort(n.begin(), n.end()); for (int k : n) { P q = p; q.push_back(k); out.push_back(q); if (k < 900 && kind(q) == 'd') scan(q, out); } }
static void closeH(H &h) { h.mode = 0; h.p.clear(); h.save.clear(); h.dirty = false; }
void dom_reset() {
	if (!MemoryPool::allocs) SFWCore::setup();
	for (auto &h : hs) { h.f.reset(); closeH(h); }
	D.reset(); FileAccess::set_backup_save(false);
	if (root.empty()) {
		char b[PATH_MAX]; if (!realpath(dom_scratch(), b)) _exit(5);
		std::string s = b; root = s + "/fs"; umask(022);
		if (geteuid() == 0) {
			for (int i = 0; i < 3; i++) { size_t k = s.rfind('/'); std::string last = s.substr(k + 1); if (i && last.compare(0, 3, "vf-") && last.compare(0, 4, "run-")) break; chmod(s.c_str(), 0711); s = s.substr(0, k); }
			mkdir(root.c_str(), 0755); if (chown(root.c_str(), 65534, 65534)) {}
			if (setgid(65534) || setuid(65534)) { fprintf(stderr, "cannot drop privileges\n"); _exit(5); }
		} else mkdir(root.c_str(), 0755);
		armed = true;
	}
	wipe(root);
	D.reset(memnew(DirAccess)); if (D->change_dir(gs(root)) != OK) _exit(5);
}
J dom_state() {
	std::vector<P> ps; scan({}, ps); J fs = J::arr();
	for (auto &p : ps) {
		char k = kind(p); J e = J::obj(); e.set("p", jp(p)); e.set("t", std::string(1, k)); struct stat s;
		if (k == 'f') { lstat(abs(p).c_str(), &s); e.set("c", held(p) ? J("held") : bytes(slurp(p))); e.set("m", (int)(s.st_mode & 07777)); } else { e.set("c", k == 'l' ? jp(lnk(p)) : J::arr()); e.set("m", 0); }
		fs.add(e);
	}
	J h = J::obj();
	for (int i = 0; i < 2; i++) { H &x = hs[i]; J e = J::obj(); bool o = x.f && x.f->is_open(); e.set("mode", o ? x.mode : 0); e.set("pos", o ? (long)x.f->get_position() : 0L); e.set("eof", o && x.f->eof_reached()); h.set(i ? "f2" : "f1", e); }
	J r = J::obj(); r.set("fs", fs); r.set("h", h); r.set("d", jp(parse(utf(D->get_current_dir())))); r.set("bk", FileAccess::is_backup_save_enabled());
	return r;
}
static J err(Error e) { switch (e) { case OK: return "ok"; case ERR_FILE_NOT_FOUND: return "notfound"; case ERR_FILE_CANT_OPEN: return "cantopen"; case ERR_INVALID_PARAMETER: return "invalid"; case FAILED: return "failed"; case ERR_ALREADY_EXISTS: return "exists"; case ERR_CANT_CREATE: return "cant"; default: return "error " + std::to_string((int)e); } }
#define REFUSED return "refused"
static String text(const J &j) { String s; for (auto &x : j.a) s += String::chr(x.i()); return s; }
static J out(const String &s) { J r = J::arr(); for (int i = 0; i < s.length(); i++) r.add((long)s[i]); return r; }
static Vector<uint8_t> vec(const J &j) { Vector<uint8_t> v; for (auto &x : j.a) v.push_back((uint8_t)x.i()); return v; }
static std::string str(const Vector<uint8_t> &v) { return std::string((const char *)v.ptr(), v.size()); }
template <class T> static T val(const J &j) { uint8_t b[sizeof(T)]; for (size_t i = 0; i < sizeof(T); i++) b[i] = (uint8_t)j[(int)i].i(); T v; memcpy(&v, b, sizeof v); return v; }
template <class T> static J raw(T v) { uint8_t b[sizeof(T)]; memcpy(b, &v, sizeof v); J r = J::arr(); for (uint8_t x : b) r.add((int)x); return r; }
static J safeOpen(const P &p, int mode, H *but) { // conditions under which the model does not open
	P q = target(p, mode); bool bk = FileAccess::is_backup_save_enabled();
	if (busy(q, but) && !(mode == 1 && !writing(q, but))) return false;
	if (bk && mode == 2 && !bad(q) && !q.empty()) { if (busy(tmp(q), but)) return false; char k = kind(tmp(q)); if (k && (k != 'f' || big(tmp(q)))) return false; }
	return true;
}
OP("F") {
	std::string m = a[0].s; H &h = hnd(a[1]); const J &x = a[2];
	if (m == "open") {
		P p = path(x); int mode = a[3].i(); if (!h.f) h.f.reset(memnew(FileAccess));
		if (mode == 1 || mode == 2 || mode == 3 || mode == 7) { if (!safeOpen(p, mode, &h).b || big(target(p, mode)) || big(res(p))) REFUSED; }
		bool again = h.mode; // reopen and open are the same
		bool bk = FileAccess::is_backup_save_enabled() && mode == 2;
		Error e = again ? h.f->reopen(gs(abs(p)), mode) : h.f->open(gs(abs(p)), mode);
		closeH(h);
		if (e == OK) { h.mode = mode; h.src = abs(p); h.bk = bk; if (bk) { h.save = lres(p); h.p = tmp(h.save); } else h.p = res(p); }
		return err(e);
	}
	if (!h.f) h.f.reset(memnew(FileAccess));
	FileAccess *f = h.f.get(); bool open = f->is_open();
	auto wrote = [&](bool any) { if (any && canW(h)) h.dirty = true; return J("ok"); };
	if (m == "close") { f->close(); closeH(h); return "ok"; }
	if (m == "drop") { h.f.reset(); closeH(h); return "ok"; }
	if (m == "swap") { if (!open) REFUSED; f->set_endian_swap(x.b); return f->get_endian_swap() == x.b ? "ok" : "bad"; }
	if (m == "seek") { f->seek((uint64_t)x.n); return "ok"; }
	if (m == "end") { if (open && (int64_t)f->get_len() + (int64_t)x.n < 0) REFUSED; f->seek_end((int64_t)x.n); return "ok"; }
	if (m == "len") return (long)f->get_len();
	if (m == "flush") { f->flush(); h.dirty = false; return "ok"; }
	if (m == "path") { if (!open) REFUSED; return utf(f->get_path()) == h.src && utf(f->get_path_absolute()) == (h.bk ? h.src + ".tmp" : h.src) ? "ok" : "bad"; }
	if (m == "s8") { f->store_8(val<uint8_t>(x)); return wrote(true); }
	if (m == "s16") { f->store_16(val<uint16_t>(x)); return wrote(true); }
	if (m == "s32") { f->store_32(val<uint32_t>(x)); return wrote(true); }
	if (m == "s64") { f->store_64(val<uint64_t>(x)); return wrote(true); }
	if (m == "sf") { f->store_float(val<float>(x)); return wrote(true); }
	if (m == "sd") { f->store_double(val<double>(x)); return wrote(true); }
	if (m == "sr") { f->store_real((real_t)val<double>(x)); return wrote(true); }
	if (m == "sbuf") { Vector<uint8_t> v = vec(x); f->store_buffer(v.ptr(), v.size()); return wrote(v.size() > 0); }
	if (m == "sbv") { Vector<uint8_t> v = vec(x); f->store_buffer_vec(v); return wrote(v.size() > 0); }
	if (m == "sstr") { f->store_string(text(x)); return wrote(x.size() > 0); }
	if (m == "sline") { f->store_line(text(x)); return wrote(true); }
	if (m == "spas") { f->store_pascal_string(text(x)); return wrote(true); }
	if (m == "scsv") { Vector<String> v; for (auto &y : x.a) v.push_back(text(y)); f->store_csv_line(v, String::chr(a[3].i())); return wrote(true); }
	if (m == "g8") return raw(f->get_8());
	if (m == "g16") return raw(f->get_16());
	if (m == "g32") return raw(f->get_32());
	if (m == "g64") return raw(f->get_64());
	if (m == "gf") return raw(f->get_float());
	if (m == "gd") return raw(f->get_double());
	if (m == "gr") return raw((double)f->get_real());
	if (m == "gbuf") { std::vector<uint8_t> b(x.i() + 1, 7); uint64_t n = f->get_buffer(b.data(), x.i()); if (n == (uint64_t)-1) return "none"; if (n > (uint64_t)x.i()) return "too many"; return bytes(std::string((char *)b.data(), n)); }
	if (m == "gline") return out(f->get_line());
	if (m == "gcsv") { Vector<String> v = f->get_csv_line(String::chr(x.i())); J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(out(v[i])); return r; }
	if (m == "gtok") { if (!canR(h)) REFUSED; return out(f->get_token()); }
	if (m == "gutf") { if (!canR(h) || f->get_position() != 0) REFUSED; return out(f->get_as_utf8_string(x.b)); }
	if (m == "gpas") { if (!canR(h)) REFUSED; uint64_t p = f->get_position(); f->seek(p); uint32_t n = f->get_32(); f->seek(p); if (n > 4095) REFUSED; return out(f->get_pascal_string()); }
	return "unknown";
}
OP("S") {
	std::string m = a[0].s; P p = path(a[1]), q = res(p); const J &x = a[2]; String g = gs(abs(p)); Error e = OK;
	if (m == "exists") return FileAccess::exists(g);
	if (m == "isfile") { FileAccess f; return f.file_exists(g); }
	if (m == "read") { if (!bad(q) && held(q)) REFUSED; Vector<uint8_t> v = FileAccess::get_file_as_array(g, &e); return e == OK ? bytes(str(v)) : err(e); }
	if (m == "text") { if ((!bad(q) && held(q)) || big(q)) REFUSED; String s = FileAccess::get_file_as_string(g, &e); return e == OK ? out(s) : err(e); }
	if (m == "write" || m == "writeb") {
		P t = target(p, 2); if (!bad(t) && !t.empty() && (busy(t) || busy(tmp(t)) || !safeOpen(p, 2, nullptr).b)) REFUSED;
		if (m == "write") FileAccess::write_file(g, text(x), &e); else FileAccess::write_file_buffer(g, vec(x), &e);
		return err(e);
	}
	if (m == "perm") { if (!isK(q, 'f')) REFUSED; return (int)FileAccess::get_unix_permissions(g); }
	if (m == "chmod") { if (there(q) && !isK(q, 'f')) REFUSED; return err(FileAccess::set_unix_permissions(g, x.i())); }
	if (m == "backup") { FileAccess::set_backup_save(x.b); return FileAccess::is_backup_save_enabled() == x.b ? "ok" : "bad"; }
	if (m == "big") {
		if (anyOpen() || bad(q) || isK(q, 'd') || FileAccess::is_backup_save_enabled()) REFUSED;
		std::string s = pattern((long)x.n); int f = ::open(abs(q).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); size_t k = 0; while (f >= 0 && k < s.size()) { ssize_t n = write(f, s.data() + k, s.size() - k); if (n <= 0) break; k += n; } if (f >= 0) close(f);
		return "ok";
	}
	return "unknown";
}
static P cwd() { return parse(utf(D->get_current_dir())); }
static P pathOf(const J &j) { if (j["a"].t == J::ARR) return path(j["a"]); P p = cwd(), r = path(j["r"]); p.insert(p.end(), r.begin(), r.end()); return p; }
static String arg(const J &j) { // the text handed over: absolute, or as written, relative
	if (j["a"].t == J::ARR) return gs(abs(path(j["a"])));
	std::string s; for (auto &n : j["r"].a) s += (s.empty() ? "" : "/") + name(n.i()); return gs(s.empty() ? "." : s);
}
static P lex(const P &p) { P r; for (int n : p) { if (n == -1) { if (r.empty()) return NODIR; r.pop_back(); } else r.push_back(n); } return r; }
OP("D") {
	std::string m = a[0].s; DirAccess *d = D.get(); bool bk = FileAccess::is_backup_save_enabled();
	static const char *MUT[] = { "mk", "mkr", "ren", "rm", "erase", "cp", "cpd", "link" };
	for (auto k : MUT) if (m == k && anyOpen()) REFUSED;
	P p, q; String g; if (m != "ls" && m != "erase" && m != "cwd") { p = pathOf(a[1]); q = res(p); g = arg(a[1]); }
	P p2; String g2; if (m == "ren" || m == "cp" || m == "cpd" || m == "link") { p2 = pathOf(a[2]); g2 = arg(a[2]); }
	static const char *NOD[] = { "mk", "mkr", "ren", "rm", "islink", "rdlink" };
	for (auto k : NOD) if (m == k && g == ".") REFUSED;
	if ((m == "link" || m == "ren") && g2 == ".") REFUSED;
	if (m == "mk") return err(d->make_dir(g));
	if (m == "mkr") { if (p.empty() || (there(lres(p)) && !isK(q, 'd'))) REFUSED; return err(d->make_dir_recursive(g)); }
	if (m == "cd") { P t = lex(p); if (t == NODIR) REFUSED; return err(d->change_dir(g)); }
	if (m == "fe") return d->file_exists(g);
	if (m == "de") return d->dir_exists(g);
	if (m == "ex") return DirAccess::exists(gs(abs(p)));
	if (m == "full") { if (!isK(q, 'd')) REFUSED; P r = parse(utf(DirAccess::get_full_path(gs(abs(p))))); if (r != parse(utf(DirAccess::get_filesystem_abspath_for(gs(abs(p)))))) return "bad"; return jp(r); }
	if (m == "ren") { if (p.empty() || p2.empty()) REFUSED; return err(d->rename(g, g2)); }
	if (m == "rm") { if (p.empty()) REFUSED; return err(d->remove(g)); }
	if (m == "ls") {
		std::vector<std::pair<int, J>> v; Error e = d->list_dir_begin(a[1].b);
		for (String n = d->get_next(); e == OK && n != String(); n = d->get_next()) { int k = id(utf(n)); J r = J::arr(); r.add(k); r.add(d->current_is_dir()); r.add(d->current_is_hidden()); r.add(d->current_is_special_dir()); if (d->current_is_file() == d->current_is_dir()) r.add("file?"); v.emplace_back(k, r); if (v.size() > 100) break; }
		d->list_dir_end(); std::stable_sort(v.begin(), v.end(), [](auto &x, auto &y) { return x.first < y.first; });
		J r = J::arr(); for (auto &x : v) r.add(x.second); return r;
	}
	if (m == "erase") { P c = cwd(); if (there(res(c)) && res(c) != c) REFUSED; return err(d->erase_contents_recursive()); }
	if (m == "cp") { P t = target(p2, 2); if (t == q || res(p2) == q || (bk && !bad(t) && !t.empty() && (tmp(t) == q || !safeOpen(p2, 2, nullptr).b))) REFUSED; return err(d->copy(gs(abs(p)), gs(abs(p2)), a[3].i())); }
	if (m == "cpd") {
		P t = res(p2); auto under = [](const P &x, const P &y) { return y.size() > x.size() && std::equal(x.begin(), x.end(), y.begin()); };
		if (bk || p.empty() || p2.empty() || !isK(res(cwd()), 'd')) REFUSED;
		if (!isK(q, 'd')) return err(d->copy_dir(g, gs(abs(p2)), a[3].i(), a[4].b));
		if (isK(t, 'd')) { std::vector<P> k; scan(t, k); if (!k.empty() || t == q || under(q, t) || under(t, q)) REFUSED; }
		else {
			if (there(lres(p2))) REFUSED;
			P up = p2; bool ok = true; // the deepest existing ancestor must be a directory outside the source
			while (true) { up.pop_back(); if (up.empty()) break; P l = lres(up); if (there(l)) { ok = isK(res(up), 'd'); break; } if (l == NODIR) { ok = false; break; } }
			if (!ok) REFUSED; P r = res(up); if (r == q || under(q, r)) REFUSED;
		}
		if (!a[4].b) { std::vector<P> k; scan(q, k); for (auto &y : k) if (kind(y) == 'l' && !isK(res(y), 'f')) REFUSED; }
		return err(d->copy_dir(g, gs(abs(p2)), a[3].i(), a[4].b));
	}
	if (m == "islink") return d->is_link(g);
	if (m == "rdlink") { String s = d->read_link(g); return s.length() ? jp(parse(utf(s))) : J("none"); }
	if (m == "link") { if (p2.empty()) REFUSED; return err(d->create_link(gs(abs(p)), g2)); }
	if (m == "cwd") return jp(parse(utf(d->get_current_dir_without_drive())));
	return "unknown";
}
