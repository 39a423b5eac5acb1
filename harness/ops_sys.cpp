// Addresses, loopback sockets and child processes.  Signals go to own children only; programs are scripts in the scratch folder.
#include "drv.h"
#include "platform/sfw.h"
#include <arpa/inet.h>
#include <dirent.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <signal.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <unistd.h>
#include <cstring>
// --- containment: a signal reaches a child of this process or nobody
static int escaped = 0;
extern "C" int kill(pid_t p, int s) noexcept {
	siginfo_t i; memset(&i, 0, sizeof i);
	if (p > 1 && waitid(P_PID, p, &i, WEXITED | WNOHANG | WNOWAIT) == 0) return syscall(SYS_kill, p, s);
	escaped++; errno = ESRCH; return -1;
}
static InetAddress *ad[8];
static Socket *sk[8];
static SubProcess *sp[4];
static int base_fds = -1;
static int fds() {
	int n = 0; DIR *d = opendir("/proc/self/fd"); while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++;
	closedir(d); return n;
}
void dom_reset() {
	for (auto &x : ad) { delete x; x = nullptr; }
	for (auto &x : sk) { delete x; x = nullptr; }
	for (auto &x : sp) { if (x) memdelete(x); x = nullptr; }
	escaped = 0; signal(SIGPIPE, SIG_IGN); base_fds = -1;
}
J dom_state() { return J(); }
static J codes(const String &s) { J r = J::arr(); for (int i = 0; i < s.length(); i++) r.add((int)s[i]); return r; }
static String text(const J &a) { String s; for (int i = 0; i < a.size(); i++) s += String::chr(a[i].i()); return s; }
static J bytes(const void *p, int n) { J r = J::arr(); for (int i = 0; i < n; i++) r.add((int)((const unsigned char *)p)[i]); return r; }
static J abytes(const InetAddress &x) { return x.family() == AF_INET6 ? bytes(x.ip6_net_endian(), 16) : bytes([&] { static uint32_t v; v = x.ip_net_endian(); return &v; }(), 4); }
static void put(int i, InetAddress *x) { delete ad[i]; ad[i] = x; }
OP("a.port") { put(a[0].i(), new InetAddress(a[1].i(), a[2].b, a[3].b)); return "none"; }
OP("a.ip") { // over memory that is not zero
	void *m = malloc(sizeof(InetAddress)); memset(m, 0x5a, sizeof(InetAddress)); free(m);
	put(a[0].i(), new InetAddress(text(a[1]), a[2].i(), a[3].b)); return "none"; }
OP("a.sock") {
	void *m = malloc(sizeof(InetAddress)); memset(m, 0x5a, sizeof(InetAddress)); free(m);
	if (a[1].size() == 4) { sockaddr_in s; memset(&s, 0, sizeof s); s.sin_family = AF_INET; s.sin_port = htons(a[2].i()); for (int i = 0; i < 4; i++) ((unsigned char *)&s.sin_addr)[i] = a[1][i].i(); put(a[0].i(), new InetAddress(s)); }
	else { sockaddr_in6 s; memset(&s, 0, sizeof s); s.sin6_family = AF_INET6; s.sin6_port = htons(a[2].i()); for (int i = 0; i < 16; i++) ((unsigned char *)&s.sin6_addr)[i] = a[1][i].i(); put(a[0].i(), new InetAddress(s)); }
	return "none"; }
OP("a.set6") {
	sockaddr_in6 s; memset(&s, 0, sizeof s);
	if (a[1].size() == 4) { sockaddr_in *q = (sockaddr_in *)&s; q->sin_family = AF_INET; q->sin_port = htons(a[2].i()); for (int i = 0; i < 4; i++) ((unsigned char *)&q->sin_addr)[i] = a[1][i].i(); }
	else { s.sin6_family = AF_INET6; s.sin6_port = htons(a[2].i()); for (int i = 0; i < 16; i++) ((unsigned char *)&s.sin6_addr)[i] = a[1][i].i(); }
	ad[a[0].i()]->set_sock_addr_inet6(s); return "none"; }
OP("a.setport") { ad[a[0].i()]->set_port_net_endian(htons(a[1].i())); return "none"; }
OP("a.copy") { put(a[1].i(), new InetAddress(*ad[a[0].i()])); return "none"; }
OP("a.assign") { *ad[a[1].i()] = *ad[a[0].i()]; return "none"; }
OP("a.drop") { put(a[0].i(), nullptr); return "none"; }
OP("a.get") {
	const InetAddress &x = *ad[a[0].i()]; const sockaddr *s = x.get_sock_addr();
	J raw = s->sa_family == AF_INET6 ? bytes(&((const sockaddr_in6 *)s)->sin6_addr, 16) : bytes(&((const sockaddr_in *)s)->sin_addr, 4);
	return J::arr().add(x.family() == AF_INET6).add(x.is_ip_v6()).add(abytes(x)).add((int)x.to_port()).add((int)ntohs(x.port_net_endian())).add(codes(x.to_ip())).add(codes(x.to_ip_port())).add(x.is_intranet_ip()).add(x.is_loopback_ip()).add(raw).add(x.is_unspecified()); }
// --- sockets
static Socket *&S(const J &a) { return sk[a.i()]; }
static void fresh(Socket *&s) { delete s; s = new Socket(); }
static bool ready(int fd, short ev, int ms) { pollfd p = { fd, ev, 0 }; return ::poll(&p, 1, ms) > 0; }
static void count() { if (base_fds < 0) base_fds = fds(); }
OP("s.new") { count(); fresh(S(a[0])); return "none"; }
OP("s.unset") { Socket s; char c; InetAddress x(1, true); J r = J::arr(); r.add(s.connect(x)).add(s.bind_address(x)).add(s.listen()).add(s.close_write()).add(s.get_error()).add(s.set_non_block()).add(s.set_close_on_exit()).add(s.is_self_connect()).add(s.accept(nullptr)); (void)c; return r; }
OP("s.listen") { // bound to a free port of the loopback interface
	count(); fresh(S(a[0])); S(a[0])->create_net_socket(); int b = S(a[0])->bind_address(InetAddress(0, true)); int l = S(a[0])->listen();
	int e = -7; InetAddress at(S(a[0])->get_local_addr(&e)); const sockaddr_in *q = (const sockaddr_in *)at.get_sock_addr();
	return J::arr().add(b).add(l).add(e).add(q->sin_family == AF_INET).add((int)ntohl(q->sin_addr.s_addr) == 0x7f000001).add(q->sin_port != 0).add(S(a[0])->_socket > 0).add((fcntl(S(a[0])->_socket, F_GETFL) & O_NONBLOCK) != 0).add((fcntl(S(a[0])->_socket, F_GETFD) & FD_CLOEXEC) != 0); }
static InetAddress *v4(const sockaddr_in6 &s) { InetAddress *x = new InetAddress(0, true); x->set_sock_addr_inet6(s); return x; }
OP("s.pair") { // listener, client, accepted
	std::unique_ptr<InetAddress> at(v4(S(a[0])->get_local_addr())); fresh(S(a[1])); fresh(S(a[2])); S(a[1])->create_net_socket();
	int c = S(a[1])->connect(*at); bool going = c == 0 || errno == EINPROGRESS; ready(S(a[0])->_socket, POLLIN, 5000);
	int k = S(a[0])->accept(S(a[2])); ready(S(a[1])->_socket, POLLOUT, 5000);
	std::unique_ptr<InetAddress> l1(v4(S(a[1])->get_local_addr())), p1(v4(S(a[1])->get_peer_addr())), l2(v4(S(a[2])->get_local_addr())), p2(v4(S(a[2])->get_peer_addr()));
	return J::arr().add(going).add(k > 0 && k == S(a[2])->_socket).add(l1->to_ip_port() == p2->to_ip_port()).add(p1->to_ip_port() == l2->to_ip_port()).add(p1->to_ip_port() == at->to_ip_port()).add(S(a[2])->_address.to_ip_port() == l1->to_ip_port()).add(S(a[2])->_address.is_ip_v6())
		.add(S(a[1])->is_self_connect()).add(S(a[1])->get_error()).add(S(a[2])->get_error()).add((fcntl(S(a[2])->_socket, F_GETFL) & O_NONBLOCK) != 0).add((fcntl(S(a[2])->_socket, F_GETFD) & FD_CLOEXEC) != 0); }
OP("s.none") { Socket s; int k = S(a[0])->accept(&s); return k < 0 && s._socket == 0; }
OP("s.inuse") { std::unique_ptr<InetAddress> at(v4(S(a[0])->get_local_addr())); Socket s; s.create_net_socket(); return s.bind_address(*at) == EADDRINUSE; }
OP("s.refused") { Socket l, s; l.create_net_socket(); l.bind_address(InetAddress(0, true)); std::unique_ptr<InetAddress> at(v4(l.get_local_addr())); s.create_net_socket(); int c = s.connect(*at); int e = c < 0 ? errno : 0; if (e == EINPROGRESS) { ready(s._socket, POLLOUT, 5000); e = s.get_error(); } return e == ECONNREFUSED; }
OP("s.send") { std::string b; for (int i = 0; i < a[1].size(); i++) b += (char)a[1][i].i(); return S(a[0])->send(b.data(), b.size()); }
OP("s.read") {
	if (a[2].b) ready(S(a[0])->_socket, POLLIN, 5000);
	for (int t = 0, q = 0; t < 5000; t++, usleep(1000)) if (ioctl(S(a[0])->_socket, FIONREAD, &q) != 0 || q >= a[3].i()) break; // everything sent so far has arrived
	std::vector<char> b(a[1].i() + 1, 0x5a); int n = S(a[0])->read(b.data(), a[1].i());
	if (n < 0) return J::arr().add(n).add(J::arr());
	return J::arr().add(n).add(n <= a[1].i() ? bytes(b.data(), n) : J::arr()).add(b[a[1].i()] == 0x5a); }
OP("s.shut") { return S(a[0])->close_write(); }
OP("s.close") { S(a[0])->close_socket(); int z = S(a[0])->_socket; S(a[0])->close_socket(); return z; }
OP("s.del") { delete S(a[0]); S(a[0]) = nullptr; return "none"; }
OP("s.adopt") { Socket *o = S(a[0]), *n = new Socket(o->_socket, o->_address); bool same = n->_address.to_ip_port() == o->_address.to_ip_port() && n->_address.get_sock_addr() != o->_address.get_sock_addr(); o->_socket = 0; delete o; S(a[0]) = nullptr; delete S(a[1]); S(a[1]) = n; return same; }
OP("s.opt") {
	Socket &s = *S(a[0]); std::string o = a[1].s; bool on = a[2].b; int v = -1; socklen_t n = sizeof v;
	if (o == "delay") { s.set_tcp_nodelay(on); getsockopt(s._socket, IPPROTO_TCP, TCP_NODELAY, &v, &n); }
	else if (o == "addr") { s.set_reuse_addr(on); getsockopt(s._socket, SOL_SOCKET, SO_REUSEADDR, &v, &n); }
	else if (o == "port") { s.set_reuse_port(on); getsockopt(s._socket, SOL_SOCKET, SO_REUSEPORT, &v, &n); }
	else if (o == "alive") { s.set_keep_alive(on); getsockopt(s._socket, SOL_SOCKET, SO_KEEPALIVE, &v, &n); }
	else { int f = fcntl(s._socket, F_GETFL); fcntl(s._socket, F_SETFL, f & ~O_NONBLOCK); fcntl(s._socket, F_SETFD, 0); int x = s.set_non_block(), y = s.set_close_on_exit(); v = x >= 0 && y >= 0 && fcntl(s._socket, F_GETFL) == (f | O_NONBLOCK) && fcntl(s._socket, F_GETFD) == FD_CLOEXEC; return v == 1; }
	return (v != 0) == on; }
OP("s.fds") { return fds() - base_fds; }
// --- children
static std::string dir() { return dom_scratch(); }
static const char *PROG[] = { "prog", "my prog.sh", "it's $HOME \"q\" `x`.sh", "back\\slash\\n;#.sh" };
static String prog(int k) {
	std::string p = dir() + "/" + PROG[k]; struct stat s;
	if (stat(p.c_str(), &s) != 0) { // first argument: which way to end; then the lines to print
		FILE *f = fopen(p.c_str(), "w"); fputs("#!/bin/sh\ncase \"$1\" in f*) exec >\"$SYS_OUT\";; esac\nend=${1#?}\nmode=${1%\"$end\"}\nshift\nfor i in \"$@\"; do printf '%s\\n' \"$i\"; done\nprintf 'E\\n' >&2\n[ \"$mode\" = w ] && sleep 20\n[ \"$end\" = k ] && kill -KILL $$\nexit \"$end\"\n", f); fclose(f); chmod(p.c_str(), 0700); }
	return String::utf8(p.c_str()); }
static Vector<String> args(const J &mode, const J &a) { Vector<String> v; v.push_back(String(mode.s.c_str())); for (int i = 0; i < a.size(); i++) v.push_back(text(a[i])); return v; }
static SubProcess *&P(const J &a) { if (!sp[a.i()]) sp[a.i()] = SubProcess::create(); return sp[a.i()]; }
static J look(SubProcess *p, int err) { return J::arr().add(err).add(codes(p->get_data())).add(p->get_exitcode()).add(p->is_process_running()).add(escaped); }
static std::string outfile() { return dir() + "/out"; }
OP("x.run") { // slot, program, mode, lines, output, blocking, stderr, mutex, by setters
	setenv("SYS_OUT", outfile().c_str(), 1); remove(outfile().c_str()); SubProcess *p = P(a[0]); String f = prog(a[1].i()); Vector<String> v = args(a[2], a[3]); int e;
	if (a[8].b) { p->set_executable_path(f); p->set_arguments(v); p->set_read_output(a[4].b); p->set_blocking(a[5].b); p->set_read_std_err(a[6].b); p->set_use_pipe_mutex(a[7].b); bool busy = p->is_process_running(); e = p->start(); if (!busy && (p->get_executable_path() != f || p->get_arguments().size() != v.size() || p->get_blocking() != a[5].b || p->get_read_output() != a[4].b || p->get_read_std_err() != a[6].b || p->get_use_pipe_mutex() != a[7].b)) e = -99; }
	else e = p->run(f, v, a[4].b, a[5].b, a[6].b, a[7].b);
	return J::arr().add(e).add(codes(p->get_data())).add(p->get_exitcode()).add(escaped); }
OP("x.missing") { SubProcess *p = P(a[0]); int e = p->run(String::utf8((dir() + "/no such").c_str()), Vector<String>(), a[1].b, true, false, false); return J::arr().add(e).add(codes(p->get_data())).add(p->get_exitcode() != 0).add(escaped); }
OP("x.empty") { SubProcess *p = P(a[0]); return (int)p->run(String(), Vector<String>(), a[1].b, a[2].b); }
OP("x.poll") { SubProcess *p = P(a[0]); int e = p->poll(); return look(p, e); }
OP("x.running") { return P(a[0])->is_process_running(); }
OP("x.wait") { SubProcess *p = P(a[0]); for (int i = 0; i < 5000 && p->is_process_running(); i++) usleep(1000); return look(p, 0); }
OP("x.stop") { SubProcess *p = P(a[0]); pid_t id = p->get_process_id(); int e = p->stop(); J r = look(p, e); r.add(p->get_process_id() == 0); siginfo_t i; r.add(id > 0 ? waitid(P_PID, id, &i, WEXITED | WNOHANG | WNOWAIT) != 0 : true); return r; }
OP("x.free") { if (sp[a[0].i()]) memdelete(sp[a[0].i()]); sp[a[0].i()] = nullptr; siginfo_t i; return waitid(P_ALL, 0, &i, WEXITED | WNOHANG | WNOWAIT) != 0; }
OP("x.file") { std::string r; if (FILE *f = fopen(outfile().c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) r.append(b, n); fclose(f); } return codes(String::utf8(r.c_str())); }
