// Scalar mathematics, random numbers, byte encodings and hashes. Machine words travel as byte lists, lowest byte first.
#include "drv.h"
#include "platform/sfw.h"
#include <map>
typedef J (*F)(const J &a);
static std::map<std::string, F> MS, HS;
struct RegM { RegM(std::map<std::string, F> &m, const std::string &n, F f) { m[n] = f; } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define M(n, ...) static RegM CAT(regm, __COUNTER__)(MS, n, [](const J &a) -> J __VA_ARGS__);
#define H(n, ...) static RegM CAT(regh, __COUNTER__)(HS, n, [](const J &a) -> J { return wo(__VA_ARGS__); });
static J arr(std::initializer_list<J> l) { J r = J::arr(); for (auto &x : l) r.add(x); return r; }
static J out(const uint8_t *p, int n) { J r = J::arr(); for (int k = 0; k < n; k++) r.add((int)p[k]); return r; }
static J wo(uint32_t v) { uint8_t b[4]; for (int k = 0; k < 4; k++) b[k] = v >> (8 * k); return out(b, 4); }
static J wo(uint64_t v) { uint8_t b[8]; for (int k = 0; k < 8; k++) b[k] = v >> (8 * k); return out(b, 8); }
static uint64_t wi(const J &j) { uint64_t v = 0; for (int k = (int)j.size() - 1; k >= 0; k--) v = v * 256 + j[k].i(); return v; }
static std::vector<uint8_t> by(const J &j) { std::vector<uint8_t> b; for (size_t k = 0; k < j.size(); k++) b.push_back(j[k].i()); return b; }
static RandomPCG gen;
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); gen = RandomPCG(); Math::seed(RandomPCG::DEFAULT_SEED); }
J dom_state() { return J(); }
// --- real functions: double overload, float overload ---------------------------------------------------------------------
#define D(k) (a[1][(k)].d())
#define S(k) ((float)a[1][(k)].d())
#define N(k) ((int64_t)a[1][(k)].d())
#define BOTH1(n, f) M(n, { return arr({ (double)Math::f(D(0)), (double)Math::f(S(0)) }); })
#define BOTH2(n, f) M(n, { return arr({ (double)Math::f(D(0), D(1)), (double)Math::f(S(0), S(1)) }); })
#define BOTH3(n, f) M(n, { return arr({ (double)Math::f(D(0), D(1), D(2)), (double)Math::f(S(0), S(1), S(2)) }); })
#define BOTH5(n, f) M(n, { return arr({ (double)Math::f(D(0), D(1), D(2), D(3), D(4)), (double)Math::f(S(0), S(1), S(2), S(3), S(4)) }); })
BOTH1("sin", sin) BOTH1("cos", cos) BOTH1("tan", tan) BOTH1("sinh", sinh) BOTH1("cosh", cosh) BOTH1("tanh", tanh) BOTH1("atan", atan) BOTH1("sqrt", sqrt) BOTH1("floor", floor) BOTH1("ceil", ceil) BOTH1("round", round)
BOTH1("exp", exp) BOTH1("erf", erf) BOTH1("log10", log10) BOTH1("abs", abs) BOTH1("asin", asin) BOTH1("acos", acos) BOTH2("atan2", atan2) BOTH2("pow", pow) BOTH1("sinc", sinc) BOTH1("sincn", sincn) BOTH1("log", log) BOTH1("log2", log2)
BOTH1("log1p", log1p) BOTH1("exp2", exp2) BOTH2("fmod", fmod) BOTH2("fposmod", fposmod) BOTH2("fposmodp", fposmodp) BOTH1("deg2rad", deg2rad) BOTH1("rad2deg", rad2deg) BOTH3("lerp", lerp) BOTH3("lerp_angle", lerp_angle)
BOTH3("inverse_lerp", inverse_lerp) BOTH5("range_lerp", range_lerp) BOTH5("cubic", cubic_interpolate) BOTH5("bezier", bezier_interpolate) BOTH3("smoothstep", smoothstep) BOTH3("move_toward", move_toward) BOTH1("linear2db", linear2db)
BOTH1("db2linear", db2linear) BOTH3("wrapf", wrapf) BOTH1("fract", fract) BOTH2("pingpong", pingpong) BOTH2("approx", is_equal_approx) BOTH3("approxt", is_equal_approx) BOTH1("zeroa", is_zero_approx)
#define ONE(n, ...) M(n, { return arr({ J((double)(__VA_ARGS__)) }); })
ONE("ease", Math::ease(D(0), D(1))) ONE("step_decimals", Math::step_decimals(D(0))) ONE("range_step_decimals", Math::range_step_decimals(D(0))) ONE("stepify", Math::stepify(D(0), D(1))) ONE("dectime", Math::dectime(D(0), D(1), D(2)))
ONE("snap_scalar", Math::snap_scalar(S(0), S(1), S(2))) ONE("snap_sep", Math::snap_scalar_separation(S(0), S(1), S(2), S(3))) ONE("ratio", Math::is_equal_approx_ratio(D(0), D(1), D(2), D(3)))
ONE("ftoi", Math::fast_ftoi(S(0))) ONE("wrapi", Math::wrapi(N(0), N(1), N(2))) ONE("posmod", Math::posmod(N(0), N(1)))
M("absi", { double x = Math::abs((int)N(0)), y = Math::abs((int64_t)N(0)), z = Math::absi((int)N(0)), w = Math::absi((int64_t)N(0)); return arr({ x == y && y == z && z == w ? J(x) : J("the forms differ") }); })
ONE("larger_prime", Math::larger_prime((uint32_t)N(0))) ONE("next2", next_power_of_2((unsigned)N(0))) ONE("prev2", previous_power_of_2((unsigned)N(0))) ONE("close2", closest_power_of_2((unsigned)N(0)))
ONE("near2", nearest_power_of_2_templated<uint32_t>((uint32_t)N(0)) == nearest_power_of_2_templated<uint64_t>((uint64_t)N(0)) ? (double)nearest_power_of_2_templated<uint32_t>((uint32_t)N(0)) : -1.0)
ONE("nshift", nearest_shift((unsigned)N(0))) ONE("shift2", get_shift_from_power_of_2((unsigned)N(0)))
OP("M") { auto f = MS.find(a[0].s); return f == MS.end() ? J("unknown") : f->second(a); }
// --- hashes ----------------------------------------------------------------------------------------------------------------
#define W(k) wi(a[1][k])
static float fl(uint64_t w) { uint32_t v = w; float f; memcpy(&f, &v, 4); return f; }
static double db(uint64_t w) { double f; memcpy(&f, &w, 8); return f; }
H("djb", ({ auto b = by(a[1][0]); b.push_back(0); hash_djb2((const char *)b.data()); }))
H("djbbuf", ({ auto b = by(a[1][0]); hash_djb2_buffer(b.data(), b.size(), W(1)); }))
H("djb32", hash_djb2_one_32(W(0), W(1))) H("djb64", hash_djb2_one_64(W(0), W(1))) H("wang", hash_one_uint64(W(0))) H("mur32", hash_murmur3_one_32(W(0), W(1))) H("mur64", hash_murmur3_one_64(W(0), W(1)))
H("murbuf", ({ auto b = by(a[1][0]); std::vector<uint32_t> al(b.size() / 4 + 1); memcpy(al.data(), b.data(), b.size()); hash_murmur3_buffer(al.data(), b.size(), W(1)); }))
H("fmix", hash_fmix32(W(0))) H("murf", hash_murmur3_one_float(fl(W(0)))) H("murd", hash_murmur3_one_double(db(W(0)))) H("djbf", hash_djb2_one_float(db(W(0))))
M("isnan", { double d = db(W(0)); float f = (float)d; return arr({ J(Math::is_nan(d) == Math::is_nan(f) ? (int)Math::is_nan(d) : -1) }); })
M("isinf", { double d = db(W(0)); float f = (float)d; return arr({ J(Math::is_inf(d) == Math::is_inf(f) ? (int)Math::is_inf(d) : -1) }); })
OP("H") { auto f = HS.find(a[0].s); return f == HS.end() ? J("unknown") : f->second(a); }
// --- byte encodings --------------------------------------------------------------------------------------------------------
OP("enc") {
	uint8_t b[80]; memset(b, 0xEE, sizeof b); const std::string &k = a[0].s; uint64_t v = k == "s" ? 0 : wi(a[1]); int n; J back;
	if (k == "u2") { n = encode_uint16(v, b); J r = wo((uint32_t)decode_uint16(b)); r.a.resize(2); back = r; }
	else if (k == "u4") { n = encode_uint32(v, b); back = wo(decode_uint32(b)); }
	else if (k == "u8") { n = encode_uint64(v, b); back = wo(decode_uint64(b)); }
	else if (k == "f") { n = encode_float(fl(v), b); back = J((double)decode_float(b)); }
	else if (k == "d") { n = encode_double(db(v), b); back = J(decode_double(b)); }
	else { auto s = by(a[1]); s.push_back(0); int m = encode_cstring((const char *)s.data(), nullptr); n = encode_cstring((const char *)s.data(), b); back = J(m); }
	if (n < 0 || n > 70 || b[n] != 0xEE) return J("wrote beyond the length it returned");
	return arr({ out(b, n), n, back });
}
OP("half") { uint16_t h = Math::make_half_float(fl(wi(a[0]))); return arr({ (int)h, (double)Math::half_to_float(h) }); }
OP("float") { uint16_t h = wi(a[0]); float f = Math::halfptr_to_float(&h), g = Math::half_to_float(h); return memcmp(&f, &g, 4) ? J("the forms differ") : J((double)f); }
// --- random numbers: generator 0 is the caller's, 1 the shared one of Math ----------------------------------------------
#define SH (a[0].i() == 1)
OP("rnew") { gen = RandomPCG(wi(a[1]), wi(a[2])); return "none"; }
OP("rseed") { if (SH) Math::seed(wi(a[1])); else gen.seed(wi(a[1])); return "none"; }
OP("rset") { gen.set_state(wi(a[1])); return "none"; }
OP("state") { return arr({ wo((uint64_t)gen.get_state()), wo((uint64_t)gen.get_seed()) }); }
OP("rand") { return wo(SH ? Math::rand() : gen.rand()); }
OP("bounded") { return J((double)gen.rand((uint32_t)wi(a[1]))); }
OP("randd") { return J(gen.randd()); }
OP("randf") { return J((double)gen.randf()); }
OP("mrandd") { return J(Math::randd()); }
OP("mrandf") { return J((double)Math::randf()); }
OP("randomd") { return J(SH ? Math::random(a[1].d(), a[2].d()) : gen.random(a[1].d(), a[2].d())); }
OP("randomf") { return J((double)(SH ? Math::random((float)a[1].d(), (float)a[2].d()) : gen.random((float)a[1].d(), (float)a[2].d()))); }
OP("randomi") { return J((double)(SH ? (a[1].i() & 1 ? Math::random((int)a[1].i(), (int)a[2].i()) : Math::randomi((int)a[1].i(), (int)a[2].i())) : gen.random((int)a[1].i(), (int)a[2].i()))); }
OP("randfn") { return J(SH ? Math::randfn(a[1].d(), a[2].d()) : gen.randfn(a[1].d(), a[2].d())); }
OP("fromseed") { uint64_t s = wi(a[0]); uint32_t v = Math::rand_from_seed(&s); return arr({ wo(v), wo(s) }); }
