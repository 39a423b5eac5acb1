#include "la.h"
std::map<std::string, Ref<MLPPVector>> VS;
std::map<std::string, Ref<MLPPMatrix>> MS;
std::map<std::string, Ref<MLPPTensor3>> TS;
__attribute__((weak)) void dom_reset() { VS.clear(); MS.clear(); TS.clear(); }
__attribute__((weak)) J dom_state() {
	J s = J::obj();
	for (auto &p : VS) s.set(p.first, jv(p.second));
	for (auto &p : MS) s.set(p.first, jm(p.second));
	for (auto &p : TS) s.set(p.first, jt(p.second));
	return s;
}
OP("V.new") { VS[a[0].s] = mkv(a[1]); return J("ok"); }
OP("M.new") { MS[a[0].s] = mkm(a[1]); return J("ok"); }
OP("T.new") { TS[a[0].s] = mkt(a[1]); return J("ok"); }
