// Strings: registers a, b, c; queries "Q" name register args…; texts travel as arrays of code points.
#include "drv.h"
#include "platform/sfw.h"
#include <map>
#include <memory>
#include <vector>
static std::map<std::string, String> R;
typedef std::vector<CharType> Cps;
static Cps cps(const J &j) { Cps v; for (auto &x : j.a) v.push_back((CharType)x.n); v.push_back(0); return v; }
static std::string lat(const J &j) { std::string s; for (auto &x : j.a) s += (char)(unsigned char)x.i(); return s; }
static std::string nar(const J &j) { return lat(j); }
static std::wstring wid(const J &j) { std::wstring s; for (auto &x : j.a) s += (wchar_t)x.i(); return s; }
static String st(const J &j) { Cps v = cps(j); return String(v.data()); }
static J out(const String &s) {
	J r = J::arr(); for (int i = 0; i < s.length(); i++) r.add((long)s[i]);
	if (s.size() > 0 && s.ptr()[s.size() - 1] != 0) r.add(-1); // not terminated
	if (s.get_data()[s.length()] != 0) r.add(-2);
	return r;
}
static J txt(const std::string &s) { J r = J::arr(); for (unsigned char c : s) r.add((int)c); return r; }
static J outs(const Vector<String> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(out(v[i])); return r; }
static Vector<String> sts(const J &j) { Vector<String> v; for (auto &x : j.a) v.push_back(st(x)); return v; }
static J bytes(const Vector<uint8_t> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add((int)v[i]); return r; }
static J limbs(uint64_t h, int n) { J r = J::arr(); for (int i = 0; i < n; i++) { r.add((int)(h & 65535)); h >>= 16; } return r; }
static J i64(int64_t v) { return txt(std::to_string((long long)v)); }
static J arr(std::initializer_list<J> l) { J r = J::arr(); for (auto &x : l) r.add(x); return r; }
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); R.clear(); R["a"]; R["b"]; R["c"]; }
J dom_state() { J r = J::obj(); for (auto &p : R) r.set(p.first, out(p.second)); return r; }
typedef J (*F)(const String &s, const J &a); // a[2].. are the arguments
static std::map<std::string, F> QS;
struct RegQ { RegQ(const char *n, F f) { QS[n] = f; } };
#define Qf(n, ...) static RegQ OP_CAT(rq, __COUNTER__)(n, []([[maybe_unused]] const String &s, [[maybe_unused]] const J &a) -> J __VA_ARGS__)
#define P2 st(a[2])
Qf("length", { return s.length(); }); Qf("empty", { return s.empty(); });
Qf("at", { int i = a[2].i(); String t = s; CharType x = s[i], y = s.get(i), z = t[i]; return x == y && y == z && s.unicode_at(i) == x && s.ord_at(i) == x ? J((long)x) : J(-1); });
Qf("eq", { Cps v = cps(a[2]); std::wstring w = wid(a[2]); return arr({ s == P2, s == v.data(), s == w.c_str(), s == StrRange(v.data(), v.size() - 1) }); });
Qf("ne", { return s != P2; }); Qf("le", { return s <= P2; }); Qf("gt", { return s > P2; }); Qf("ge", { return s >= P2; });
Qf("lt", { Cps v = cps(a[2]); std::wstring w = wid(a[2]); return arr({ s < P2, s < v.data(), s < w.c_str() }); });
Qf("cmp", { return arr({ (int)s.casecmp_to(P2), (int)s.nocasecmp_to(P2) }); });
Qf("natcmp", { return (int)s.naturalnocasecmp_to(P2); });
Qf("eqc", { std::string c = lat(a[2]); return arr({ s == c.c_str(), s != c.c_str(), s < c.c_str(), c.c_str() == s }); });
Qf("hash", { const CharType *p = s.get_data(); std::wstring w(p, p + s.length()); return arr({ limbs(s.hash(), 2), limbs(String::hash(p), 2), limbs(String::hash(p, s.length()), 2), limbs(String::hash(w.c_str()), 2) }); });
Qf("hashc", { std::string c; for (int i = 0; i < s.length(); i++) c += (char)s[i]; return arr({ limbs(String::hash(c.c_str()), 2), limbs(String::hash(c.c_str(), c.size()), 2) }); });
Qf("hash64", { return limbs(s.hash64(), 4); });
Qf("find", { return s.find(P2, a[3].i()); }); Qf("findc", { return s.find(lat(a[2]).c_str(), a[3].i()); }); Qf("findn", { return s.findn(P2, a[3].i()); });
Qf("rfind", { return s.rfind(P2, a[3].i()); }); Qf("rfindn", { return s.rfindn(P2, a[3].i()); }); Qf("find_last", { return s.find_last(P2); });
Qf("find_char", { return s.find_char((CharType)a[2].i(), a[3].i()); });
Qf("findmk", { int k = -7, p = s.findmk(sts(a[2]), a[3].i(), &k); int p2 = s.findmk(sts(a[2]), a[3].i()); J r = J::arr(); r.add(p); if (p >= 0 || p2 != p) r.add(p2 == p ? k : -9); return r; });
Qf("first_diff", { return s.find_first_difference_index(P2); });
Qf("word_at", { return s.is_word_at(a[3].i(), P2); }); Qf("word_atc", { return s.is_word_at(a[3].i(), lat(a[2]).c_str()); });
Qf("match", { return s.match(P2); }); Qf("matchn", { return s.matchn(P2); });
Qf("begins", { return s.begins_with(P2); }); Qf("beginsc", { return s.begins_with(lat(a[2]).c_str()); }); Qf("ends", { return s.ends_with(P2); }); Qf("enclosed", { return s.is_enclosed_in(P2); });
Qf("contains", { return arr({ s.contains(P2), s.contains(lat(a[2]).c_str()) }); });
Qf("subseq", { return s.is_subsequence_of(P2); }); Qf("subseqi", { return s.is_subsequence_ofi(P2); }); Qf("quoted", { return s.is_quoted(); });
Qf("bigrams", { return outs(s.bigrams()); }); Qf("similarity", { return s.similarity(P2); });
Qf("replace", { return out(s.replace(P2, st(a[3]))); }); Qf("replacec", { std::string k = lat(a[2]), w = lat(a[3]); return out(s.replace(k.c_str(), w.c_str())); });
Qf("replacen", { return out(s.replacen(P2, st(a[3]))); }); Qf("replace_first", { return out(s.replace_first(P2, st(a[3]))); }); Qf("br", { return out(s.newline_to_br()); });
Qf("repeat", { return out(s.repeat(a[2].i())); }); Qf("insert", { return out(s.insert(a[2].i(), st(a[3]))); });
Qf("substr", { return out(a[3].i() == -1 ? s.substr(a[2].i()) : s.substr(a[2].i(), a[3].i() == 1000000 ? INT32_MAX : a[3].i())); }); Qf("substr_index", { return out(s.substr_index(a[2].i(), a[3].i())); });
Qf("left", { return out(s.left(a[2].i())); }); Qf("right", { return out(s.right(a[2].i())); });
Qf("pad_decimals", { return out(s.pad_decimals(a[2].i())); }); Qf("pad_zeros", { return out(s.pad_zeros(a[2].i())); });
Qf("trim_prefix", { return out(s.trim_prefix(P2)); }); Qf("trim_suffix", { return out(s.trim_suffix(P2)); });
Qf("lpad", { return out(s.lpad(a[2].i(), st(a[3]))); }); Qf("rpad", { return out(s.rpad(a[2].i(), st(a[3]))); });
Qf("quote", { return out(s.quote(P2)); }); Qf("unquote", { return out(s.unquote()); });
Qf("slice_count", { return s.get_slice_count(P2); }); Qf("slice", { return out(s.get_slice(P2, a[3].i())); }); Qf("slicec", { return out(s.get_slicec((CharType)a[2].i(), a[3].i())); });
Qf("split", { return outs(s.split(P2, a[3].b, a[4].i())); }); Qf("rsplit", { return outs(s.rsplit(P2, a[3].b, a[4].i())); }); Qf("split_spaces", { return outs(s.split_spaces()); });
Qf("pool_join", { PoolVector<String> v; for (auto &x : a[2].a) v.push_back(st(x)); return out(v.join(s)); }); Qf("join", { return out(s.join(sts(a[2]))); }); Qf("count", { return s.count(P2, a[3].i(), a[4].i()); }); Qf("countn", { return s.countn(P2, a[3].i(), a[4].i()); });
static J ints(const Vector<int> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add(i64(v[i])); return r; }
static J flts(const Vector<float> &v) { J r = J::arr(); for (int i = 0; i < v.size(); i++) r.add((double)v[i]); return r; }
Qf("split_ints", { return ints(s.split_ints(P2, a[3].b)); }); Qf("split_ints_mk", { return ints(s.split_ints_mk(sts(a[2]), a[3].b)); });
Qf("split_floats", { return flts(s.split_floats(P2, a[3].b)); }); Qf("split_floats_mk", { return flts(s.split_floats_mk(sts(a[2]), a[3].b)); });
Qf("upper", { String u = s.to_upper(); for (int i = 0; i < s.length(); i++) if (String::char_uppercase(s[i]) != u[i]) return "char"; return out(u); });
Qf("lower", { String u = s.to_lower(); for (int i = 0; i < s.length(); i++) if (String::char_lowercase(s[i]) != u[i]) return "char"; return out(u); });
Qf("dedent", { return out(s.dedent()); }); Qf("is_numeric", { return s.is_numeric(); }); Qf("valid_string", { return s.is_valid_string(); });
Qf("utf", { CharString c = s.utf8(); Char16String w = s.utf16(); J x = J::arr(), y = J::arr(); for (int i = 0; i < c.length(); i++) x.add((int)(unsigned char)c[i]); for (int i = 0; i < w.length(); i++) y.add((int)w[i]); return arr({ x, J(s.utf8_byte_length()), y }); });
Qf("indent", { return out(s.indent(P2)); }); Qf("strip_edges", { return out(s.strip_edges(a[2].b, a[3].b)); }); Qf("strip_escapes", { return out(s.strip_escapes()); });
Qf("lstrip", { return out(s.lstrip(P2)); }); Qf("rstrip", { return out(s.rstrip(P2)); }); Qf("camel", { return out(s.camelcase_to_underscore(a[2].b)); }); Qf("capitalize", { return out(s.capitalize()); });
Qf("utf8", { CharString c = s.utf8(); J b = J::arr(); for (int i = 0; i < c.length(); i++) b.add((int)(uint8_t)c[i]); String p; p.parse_utf8(c.get_data()); return arr({ b, s.utf8_byte_length(), out(String::utf8(c.get_data(), c.length())), out(p) }); });
Qf("utf16", { Char16String c = s.utf16(); J b = J::arr(); for (int i = 0; i < c.length(); i++) b.add((int)c[i]); String p; p.parse_utf16(c.get_data()); return arr({ b, out(String::utf16(c.get_data(), c.length())), out(p) }); });
Qf("ascii", { CharString c = s.ascii(a[2].b); J b = J::arr(); for (int i = 0; i < c.length(); i++) b.add((int)(uint8_t)c[i]); return b; });
Qf("buffers", { return arr({ bytes(s.to_ascii_buffer()), bytes(s.to_utf8_buffer()), bytes(s.to_utf16_buffer()), bytes(s.to_utf32_buffer()) }); });
Qf("to_int", { return i64(s.to_int()); }); Qf("to_int64", { return i64(s.to_int64()); });
Qf("to_ints", { std::string n; std::wstring w; for (int i = 0; i < s.length(); i++) { n += (char)s[i]; w += (wchar_t)s[i]; } return arr({ i64(String::to_int(n.c_str())), i64(String::to_int(w.c_str())), i64(String::to_int(s.get_data(), s.length())), i64(String::to_int(s.get_data(), -1, true)) }); });
Qf("hex", { return i64(s.hex_to_int(a[2].b)); }); Qf("hex64", { return i64(s.hex_to_int64(a[2].b)); }); Qf("bin64", { return i64(s.bin_to_int64(a[2].b)); });
Qf("to_bool", { return s.to_bool(); });
Qf("to_double", { std::string n; std::wstring w; for (int i = 0; i < s.length(); i++) { n += (char)s[i]; w += (wchar_t)s[i]; } return arr({ s.to_double(), String::to_double(n.c_str()), String::to_double(w.c_str()), (double)s.to_float() }); });
Qf("valid_int", { return s.is_valid_integer(); }); Qf("valid_uint", { return s.is_valid_unsigned_integer(); }); Qf("valid_hex", { return s.is_valid_hex_number(a[2].b); }); Qf("valid_float", { return s.is_valid_float(); }); Qf("valid_bool", { return s.is_valid_bool(); });
Qf("valid_id", { return s.is_valid_identifier(); }); Qf("make_id", { return out(s.validate_identifier()); }); Qf("node_name", { return out(s.validate_node_name()); }); Qf("valid_file", { return s.is_valid_filename(); }); Qf("valid_ip", { return s.is_valid_ip_address(); });
Qf("abs_path", { return arr({ s.is_abs_path(), s.is_rel_path() }); }); Qf("file", { return out(s.get_file()); }); Qf("extension", { return out(s.get_extension()); }); Qf("basename", { return out(s.get_basename()); }); Qf("base_dir", { return out(s.get_base_dir()); });
Qf("simplify", { return out(s.simplify_path()); }); Qf("plus_file", { return out(s.plus_file(P2)); }); Qf("append_path", { return out(s.append_path(P2)); }); Qf("append_pathc", { return out(s.append_path(lat(a[2]).c_str())); });
Qf("clean_end", { return out(s.path_clean_end_slash()); }); Qf("ensure_end", { return out(s.path_ensure_end_slash()); }); Qf("prev_dir", { return out(s.path_get_prev_dir()); });
Qf("path_to", { return out(s.path_to(P2)); }); Qf("path_to_file", { return out(s.path_to_file(P2)); });
Qf("c_escape", { String e = s.c_escape(); return arr({ out(e), out(e.c_unescape()) }); }); Qf("c_unescape", { return out(s.c_unescape()); }); Qf("c_multi", { return out(s.c_escape_multiline()); }); Qf("json", { return out(s.json_escape()); });
Qf("xml", { String e = s.xml_escape(a[2].b); return arr({ out(e), out(e.xml_unescape()) }); }); Qf("xml_un", { return out(s.xml_unescape()); });
Qf("http", { String e = s.http_escape(); return arr({ out(e), out(e.http_unescape()) }); }); Qf("uri", { String e = s.uri_encode(); return arr({ out(e), out(e.uri_decode()) }); });
Qf("percent", { String e = s.percent_encode(); return arr({ out(e), out(e.percent_decode()) }); }); Qf("percent_un", { return out(s.percent_decode()); }); Qf("prop_enc", { return out(s.property_name_encode()); });
Qf("wrap", { return out(s.word_wrap(a[2].i())); });
Qf("url", { String sc, h, p; int port = -1; Error e = s.parse_url(sc, h, port, p); if (e != OK) return arr({ "bad" }); return arr({ "ok", out(sc), out(h), i64(port), out(p) }); });
Qf("num64", { std::string d = nar(a[2]); int64_t v = strtoll(d.c_str(), nullptr, 10); return arr({ out(String::num_int64(v, a[3].i(), a[4].b)), a[3].i() == 10 ? out(itos(v)) : J::arr() }); });
Qf("numu64", { std::string d = nar(a[2]); return out(String::num_uint64(strtoull(d.c_str(), nullptr, 10), a[3].i(), a[4].b)); });
Qf("num_chars", { return (int)String::num_characters(strtoll(nar(a[2]).c_str(), nullptr, 10)); });
Qf("hexbuf", { std::string d = lat(a[2]); return out(String::hex_encode_buffer((const uint8_t *)d.data(), d.size())); });
Qf("num", { return out(String::num(a[2].d(), a[3].i())); }); Qf("num_real", { return out(String::num_real(a[2].d())); }); Qf("num_sci", { return out(String::num_scientific(a[2].d())); });
OP("Q") { auto f = QS.find(a[0].s); if (f == QS.end()) abort(); J b = a; return f->second(R[a[1].s], b); }
OP("S.set") { R[a[0].s] = st(a[1]); return "ok"; }
OP("S.setc") { std::string c = lat(a[1]); if (a[2].b) R[a[0].s] = String(c.c_str()); else R[a[0].s] = c.c_str(); return "ok"; }
OP("S.setw") { std::wstring w = wid(a[1]); if (a[2].b) R[a[0].s] = String(w.c_str()); else R[a[0].s] = w.c_str(); return "ok"; }
OP("S.setn") { int n = a[2].i(); switch (a[3].i()) { case 0: R[a[0].s] = String(lat(a[1]).c_str(), n); break; case 1: R[a[0].s] = String(wid(a[1]).c_str(), n); break; case 2: { Cps v = cps(a[1]); R[a[0].s] = String(v.data(), n); } break; default: { Cps v = cps(a[1]); R[a[0].s] = String(StrRange(v.data(), std::min(n, (int)v.size() - 1))); } } return "ok"; }
OP("S.copy") { if (a[2].b) { String t(R[a[1].s]); R[a[0].s] = t; } else R[a[0].s] = R[a[1].s]; return "ok"; }
OP("S.plus") { R[a[0].s] = R[a[1].s] + R[a[2].s]; return "ok"; }
OP("S.plusc") { std::string c = lat(a[2]); std::wstring w = wid(a[2]); String &s = R[a[1].s]; R[a[0].s] = a[3].b ? (a[2].size() == 1 ? (CharType)a[2][0].i() + s : a[2].size() % 2 ? c.c_str() + s : w.c_str() + s) : (s + c.c_str()); return "ok"; }
OP("S.append") { R[a[0].s] += R[a[1].s]; return "ok"; }
OP("S.appendc") { R[a[0].s] += lat(a[1]).c_str(); return "ok"; }
OP("S.appendw") { R[a[0].s] += wid(a[1]).c_str(); return "ok"; }
OP("S.appendu") { Cps v = cps(a[1]); R[a[0].s] += v.data(); return "ok"; }
OP("S.appendch") { R[a[0].s] += (CharType)a[1].i(); return "ok"; }
OP("S.put") { if (a[3].b) R[a[0].s].set(a[1].i(), a[2].i()); else R[a[0].s][a[1].i()] = (CharType)a[2].i(); return "ok"; }
OP("S.putp") { R[a[0].s].ptrw()[a[1].i()] = a[2].i(); return "ok"; }
OP("S.cut") { R[a[0].s].set_length(a[1].i()); return "ok"; }
OP("S.clear") { R[a[0].s].clear(); return "ok"; }
OP("S.remove") { R[a[0].s].remove(a[1].i()); return "ok"; }
OP("S.erase") { R[a[0].s].erase(a[1].i(), a[2].i()); return "ok"; }
OP("S.utf8") { std::string c = lat(a[1]); if (a[2].b) R[a[0].s].parse_utf8(c.c_str()); else R[a[0].s] = String::utf8(c.data(), c.size()); return "ok"; }
static J err(Error e) { return e == OK ? "ok" : e == ERR_INVALID_DATA ? "data" : e == ERR_PARSE_ERROR ? "parse" : "?"; }
// [slot, units, length or -1 (zero-terminated), skip \r]
template <class T> std::unique_ptr<T[]> exact(const J &j, int n) { int k = n < 0 ? j.size() + 1 : n; std::unique_ptr<T[]> p(new T[k ? k : 1]); if (n < 0) p[k - 1] = 0; for (int i = 0; i < k && i < j.size(); i++) p[i] = (T)j[i].i(); return p; }
OP("S.parse8") { int n = a[2].i(); auto p = exact<unsigned char>(a[1], n); return err(R[a[0].s].parse_utf8((const char *)p.get(), n, a[3].b)); }
OP("S.parse16") { int n = a[2].i(); auto p = exact<char16_t>(a[1], n); return err(R[a[0].s].parse_utf16(p.get(), n)); }
OP("S.keep") { J b = J::arr(); b.add(a[2]).add(a[1]); for (int i = 3; i < a.size(); i++) b.add(a[i]); J r = QS[a[2].s](R[a[1].s], b); R[a[0].s] = st(r); return "ok"; }
