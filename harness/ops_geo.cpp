// Vectors, rectangles, boxes and colours as pure functions: "G" [type, function, value, arguments…].
#include "drv.h"
#include "platform/sfw.h"
#include <map>
#include <vector>
typedef J (*F)(const J &a); // a[2] is the value, a[3].. the arguments
static std::map<std::string, F> GS;
struct RegG { RegG(const std::string &n, F f) { GS[n] = f; } };
static J arr(std::initializer_list<J> l) { J r = J::arr(); for (auto &x : l) r.add(x); return r; }
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); }
J dom_state() { return J(); }
template <class V> struct T;
template <> struct T<Vector2> { typedef real_t S; enum { N = 2, I = 0 }; };
template <> struct T<Vector3> { typedef real_t S; enum { N = 3, I = 0 }; };
template <> struct T<Vector4> { typedef real_t S; enum { N = 4, I = 0 }; };
template <> struct T<Vector2i> { typedef int S; enum { N = 2, I = 1 }; };
template <> struct T<Vector3i> { typedef int S; enum { N = 3, I = 1 }; };
template <> struct T<Vector4i> { typedef int S; enum { N = 4, I = 1 }; };
template <class V> static V in(const J &j) { V v; for (int k = 0; k < T<V>::N; k++) v[k] = (typename T<V>::S)j[k].d(); return v; }
template <class V> static J vout(const V &v) { J r = J::arr(); for (int k = 0; k < T<V>::N; k++) r.add((double)v[k]); return r; }
static J o(const Vector2 &v) { return vout(v); }
static J o(const Vector3 &v) { return vout(v); }
static J o(const Vector4 &v) { return vout(v); }
static J o(const Vector2i &v) { return vout(v); }
static J o(const Vector3i &v) { return vout(v); }
static J o(const Vector4i &v) { return vout(v); }
static J o(double x) { return J(x); }
static J o(bool x) { return J(x); }
static J o(int x) { return J(x); }
static J o(int64_t x) { return J((long)x); }
template <class X, class Y> static J both(const X &x, const Y &y) { // the function and the in-place form agree bit for bit
	std::string p = o(x).dump(), q = o(y).dump();
	return p == q ? o(x) : arr({ "the two forms differ", o(x), o(y) });
}
#define P(k) in<V>(a[3 + (k)])
#define D(k) (a[3 + (k)].d())
#define NUMN(k) ((typename T<V>::S)a[3 + (k)].d())
template <class V> struct Common {
	Common(const std::string &t) {
		GS[t + ".add"] = [](const J &a) { V v = in<V>(a[2]), w = v; w += P(0); V x = v; x += x; return arr({ both(v + P(0), w), o(x) }); };
		GS[t + ".sub"] = [](const J &a) { V v = in<V>(a[2]), w = v; w -= P(0); V x = v; x -= x; return arr({ both(v - P(0), w), o(x) }); };
		GS[t + ".mul"] = [](const J &a) { V v = in<V>(a[2]); return o(v * P(0)); };
		GS[t + ".div"] = [](const J &a) { V v = in<V>(a[2]); return o(v / P(0)); };
		GS[t + ".scale"] = [](const J &a) { V v = in<V>(a[2]), w = v; w *= NUMN(0); return both(v * NUMN(0), w); };
		GS[t + ".unscale"] = [](const J &a) { V v = in<V>(a[2]), w = v; w /= NUMN(0); return both(v / NUMN(0), w); };
		GS[t + ".neg"] = [](const J &a) { return o(-in<V>(a[2])); };
		GS[t + ".cmp"] = [](const J &a) { V v = in<V>(a[2]), w = P(0); return arr({ v == w, v != w, v < w, v > w }); };
		GS[t + ".min_axis"] = [](const J &a) { return o((int)in<V>(a[2]).min_axis()); };
		GS[t + ".max_axis"] = [](const J &a) { return o((int)in<V>(a[2]).max_axis()); };
		GS[t + ".length"] = [](const J &a) { V v = in<V>(a[2]); return arr({ o((double)v.length()), o((double)v.length_squared()) }); };
		GS[t + ".abs"] = [](const J &a) { return o(in<V>(a[2]).abs()); };
		GS[t + ".sign"] = [](const J &a) { return o(in<V>(a[2]).sign()); };
		GS[t + ".set"] = [](const J &a) { V v = in<V>(a[2]); int k = a[3].i(); v[k] = NUMN(1); const V &c = v; typename T<V>::S x = c[k]; return arr({ o(v), o((double)x) }); };
		GS[t + ".set_all"] = [](const J &a) { V v = in<V>(a[2]); v.set_all(NUMN(0)); return o(v); };
		GS[t + ".lerp"] = [](const J &a) { return o(in<V>(a[2]).linear_interpolate(P(0), D(1))); };
	}
};
template <class V> struct Reals {
	Reals(const std::string &t) {
		GS[t + ".le"] = [](const J &a) { V v = in<V>(a[2]), w = P(0); return arr({ v <= w, v >= w }); };
		GS[t + ".lscale"] = [](const J &a) { return o((real_t)D(0) * in<V>(a[2])); };
		GS[t + ".normal"] = [](const J &a) { V v = in<V>(a[2]), w = v; w.normalize(); return both(v.normalized(), w); };
		GS[t + ".is_normal"] = [](const J &a) { return o(in<V>(a[2]).is_normalized()); };
		GS[t + ".limit"] = [](const J &a) { return o(in<V>(a[2]).limit_length(D(0))); };
		GS[t + ".dist"] = [](const J &a) { V v = in<V>(a[2]); return arr({ o((double)v.distance_to(P(0))), o((double)v.distance_squared_to(P(0))) }); };
		GS[t + ".dir"] = [](const J &a) { return o(in<V>(a[2]).direction_to(P(0))); };
		GS[t + ".dot"] = [](const J &a) { return o((double)in<V>(a[2]).dot(P(0))); };
		GS[t + ".posmod"] = [](const J &a) { return o(in<V>(a[2]).posmod(D(0))); };
		GS[t + ".posmodv"] = [](const J &a) { return o(in<V>(a[2]).posmodv(P(0))); };
		GS[t + ".cubic"] = [](const J &a) { return o(in<V>(a[2]).cubic_interpolate(P(0), P(1), P(2), D(3))); };
		GS[t + ".floor"] = [](const J &a) { return o(in<V>(a[2]).floor()); };
		GS[t + ".ceil"] = [](const J &a) { return o(in<V>(a[2]).ceil()); };
		GS[t + ".round"] = [](const J &a) { return o(in<V>(a[2]).round()); };
		GS[t + ".snap"] = [](const J &a) { return o(in<V>(a[2]).snapped(P(0))); };
		GS[t + ".approx"] = [](const J &a) { V v = in<V>(a[2]); return arr({ v.is_equal_approx(P(0)), v.is_zero_approx() }); };
	}
};
template <class V> struct Flat { // two and three dimensions
	Flat(const std::string &t) {
		GS[t + ".bezier"] = [](const J &a) { return o(in<V>(a[2]).bezier_interpolate(P(0), P(1), P(2), D(3))); };
		GS[t + ".toward"] = [](const J &a) { return o(in<V>(a[2]).move_toward(P(0), D(1))); };
		GS[t + ".project"] = [](const J &a) { return o(in<V>(a[2]).project(P(0))); };
		GS[t + ".slide"] = [](const J &a) { return o(in<V>(a[2]).slide(P(0))); };
		GS[t + ".bounce"] = [](const J &a) { return o(in<V>(a[2]).bounce(P(0))); };
		GS[t + ".reflect"] = [](const J &a) { return o(in<V>(a[2]).reflect(P(0))); };
		GS[t + ".angle_to"] = [](const J &a) { return o((double)in<V>(a[2]).angle_to(P(0))); };
		GS[t + ".slerp"] = [](const J &a) { return o(in<V>(a[2]).slerp(P(0), D(1))); };
	}
};
template <class V> struct Clampable { Clampable(const std::string &t) { GS[t + ".clamp"] = [](const J &a) { return o(in<V>(a[2]).clamp(P(0), P(1))); }; } };
template <class V> struct Axes { // set_axis, get_axis, zero
	Axes(const std::string &t) {
		GS[t + ".set_axis"] = [](const J &a) { V v = in<V>(a[2]); v.set_axis(a[3].i(), NUMN(1)); return arr({ o(v), o((double)v.get_axis(a[3].i())) }); };
		GS[t + ".zero"] = [](const J &a) { V v = in<V>(a[2]); v.zero(); return o(v); };
		GS[t + ".imul"] = [](const J &a) { V v = in<V>(a[2]), w = v, x = v; w *= P(0); x /= P(0); return arr({ both(v * P(0), w), both(v / P(0), x) }); };
	}
};
template <class V> struct Mods {
	Mods(const std::string &t) {
		GS[t + ".mod"] = [](const J &a) { V v = in<V>(a[2]), w = v; w %= P(0); return both(v % P(0), w); };
		GS[t + ".mods"] = [](const J &a) { V v = in<V>(a[2]), w = v; w %= a[3].i(); return both(v % a[3].i(), w); };
		GS[t + ".le"] = [](const J &a) { V v = in<V>(a[2]), w = P(0); return arr({ v <= w, v >= w }); };
	}
};
static Common<Vector2> c2("v2"); static Common<Vector3> c3("v3"); static Common<Vector4> c4("v4");
static Common<Vector2i> d2("v2i"); static Common<Vector3i> d3("v3i"); static Common<Vector4i> d4("v4i");
static Reals<Vector2> e2("v2"); static Reals<Vector3> e3("v3"); static Reals<Vector4> e4("v4");
static Flat<Vector2> f2("v2"); static Flat<Vector3> f3("v3");
static Clampable<Vector3> g3("v3"); static Clampable<Vector4> g4("v4"); static Clampable<Vector2i> h2("v2i"); static Clampable<Vector3i> h3("v3i"); static Clampable<Vector4i> h4("v4i");
static Axes<Vector3> k3("v3"); static Axes<Vector4> k4("v4"); static Axes<Vector3i> l3("v3i"); static Axes<Vector4i> l4("v4i");
static Mods<Vector3i> m3("v3i"); static Mods<Vector4i> m4("v4i");
#define G(n, ...) static RegG OP_CAT(rg, __COUNTER__)(n, []([[maybe_unused]] const J &a) -> J __VA_ARGS__);
#define V2(k) in<Vector2>(a[2 + (k)])
#define V3(k) in<Vector3>(a[2 + (k)])
#define I2(k) in<Vector2i>(a[2 + (k)])
#define X(k) (a[2 + (k)].d())
G("v2.imul", { Vector2 v = V2(0), w = v, x = v; w *= V2(1); x /= V2(1); return arr({ both(v * V2(1), w), both(v / V2(1), x) }); })
G("v2.cross", { return o((double)V2(0).cross(V2(1))); })
G("v2.minmax", { return arr({ o(V2(0).min(V2(1))), o(V2(0).max(V2(1))) }); })
G("v2i.minmax", { return arr({ o(I2(0).min(I2(1))), o(I2(0).max(I2(1))) }); })
G("v2.angle", { return o((double)V2(0).angle()); })
G("v2.angle_pt", { return o((double)V2(0).angle_to_point(V2(1))); })
G("v2.rotated", { return o(V2(0).rotated(X(1))); })
G("v2.set_rot", { Vector2 v = V2(0); v.set_rotation(X(1)); return o(v); })
G("v2.tangent", { return both(V2(0).tangent(), V2(0).orthogonal()); })
G("v2.aspect", { return o((double)V2(0).aspect()); })
G("v2i.aspect", { return o((double)I2(0).aspect()); })
G("v2.plane_project", { return o(V2(0).plane_project(X(1), V2(2))); })
G("v2.lerp2", { return o(Vector2::linear_interpolate(V2(0), V2(1), X(2))); })
G("v2.toi", { return o((Vector2i)V2(0)); })
G("v2i.tov", { return both(I2(0).to_vector2(), (Vector2)I2(0)); })
G("v3i.tov", { Vector3i v = in<Vector3i>(a[2]); return both(v.to_vector3(), (Vector3)v); })
G("v4i.tov", { Vector4i v = in<Vector4i>(a[2]); return both(v.to_vector4(), (Vector4)v); })
G("v3.cross", { return both(V3(0).cross(V3(1)), vec3_cross(V3(0), V3(1))); })
G("v3.vdot", { return o((double)vec3_dot(V3(0), V3(1))); })
G("v3.signed_angle", { return o((double)V3(0).signed_angle_to(V3(1), V3(2))); })
G("v3.rotated", { Vector3 v = V3(0); v.rotate(V3(1), X(2)); return both(V3(0).rotated(V3(1), X(2)), v); })
G("v3.inverse", { return o(V3(0).inverse()); })
G("v4.inverse", { return o(in<Vector4>(a[2]).inverse()); })
G("v3.snapi", { Vector3 v = V3(0); v.snap(V3(1)); return o(v); })
G("v4.snapi", { Vector4 v = in<Vector4>(a[2]); v.snap(in<Vector4>(a[3])); return o(v); })
G("v3.outer", { Basis b = V3(0).outer(V3(1)), c = V3(0).to_diagonal_matrix(); return arr({ arr({ o(b.rows[0]), o(b.rows[1]), o(b.rows[2]) }), arr({ o(c.rows[0]), o(c.rows[1]), o(c.rows[2]) }) }); })
G("v3.approx_tol", { return o(V3(0).is_equal_approx(V3(1), X(2))); })
// Boxes
template <class B> struct Bx;
template <> struct Bx<Rect2> { typedef Vector2 V; };
template <> struct Bx<Rect2i> { typedef Vector2i V; };
template <> struct Bx<AABB> { typedef Vector3 V; };
template <class B> static B bin(const J &j) { B b; b.position = in<typename Bx<B>::V>(j[0]); b.size = in<typename Bx<B>::V>(j[1]); return b; }
template <class B> static J bout(const B &b) { return arr({ o(b.position), o(b.size) }); }
static J o(const Rect2 &b) { return bout(b); }
static J o(const Rect2i &b) { return bout(b); }
static J o(const AABB &b) { return bout(b); }
template <class X, class Y> static J bothb(const X &x, const Y &y) { return o(x).dump() == o(y).dump() ? o(x) : arr({ "the two forms differ", o(x), o(y) }); }
#define BB bin<B>(a[2])
#define B1 bin<B>(a[3])
#define BV in<typename Bx<B>::V>(a[3])
template <class B> struct Boxes {
	Boxes(const std::string &t) {
		typedef typename Bx<B>::V V;
		GS[t + ".intersects"] = [](const J &a) { return o((bool)BB.intersects(B1)); };
		GS[t + ".encloses"] = [](const J &a) { return o((bool)BB.encloses(B1)); };
		GS[t + ".has_point"] = [](const J &a) { return o((bool)BB.has_point(BV)); };
		GS[t + ".intersection"] = [](const J &a) { return o(BB.intersection(B1)); };
		GS[t + ".merge"] = [](const J &a) { return o(BB.merge(B1)); };
		GS[t + ".grow"] = [](const J &a) { B b = BB; b.grow_by(a[3].d()); return bothb(BB.grow(a[3].d()), b); };
		GS[t + ".expand"] = [](const J &a) { B b = BB; b.expand_to(BV); return bothb(BB.expand(BV), b); };
		GS[t + ".babs"] = [](const J &a) { return o(BB.abs()); };
		GS[t + ".end"] = [](const J &a) { B b = BB, c = b; V e = b.get_end(); c.set_end(BV); return arr({ o(e), o(c) }); };
		GS[t + ".acc"] = [](const J &a) { B b = BB; b.set_position(BV); b.set_size(in<V>(a[4])); return arr({ o(b), o(b.get_position()), o(b.get_size()) }); };
		GS[t + ".beq"] = [](const J &a) { return arr({ BB == B1, BB != B1 }); };
	}
};
static Boxes<Rect2> b2("r2"); static Boxes<Rect2i> b2i("r2i"); static Boxes<AABB> b3("bb");
template <class B> struct Rects {
	Rects(const std::string &t) {
		GS[t + ".clip"] = [](const J &a) { return o(BB.clip(B1)); };
		GS[t + ".area"] = [](const J &a) { return arr({ o((double)BB.get_area()), BB.has_no_area() }); };
		GS[t + ".grow_ind"] = [](const J &a) { return o(BB.grow_individual(X(1), X(2), X(3), X(4))); };
		GS[t + ".grow_side"] = [](const J &a) { return bothb(BB.grow_side((Side)a[3].i(), X(2)), BB.grow_margin((Margin)a[3].i(), X(2))); };
		GS[t + ".center"] = [](const J &a) { return o(BB.get_center()); };
	}
};
static Rects<Rect2> q2("r2"); static Rects<Rect2i> q2i("r2i");
#define R2 bin<Rect2>(a[2])
#define AB bin<AABB>(a[2])
static Plane pl(const J &j) { Plane p; p.normal = in<Vector3>(j[0]); p.d = j[1].d(); return p; }
G("r2.touches", { return o(R2.intersects(bin<Rect2>(a[3]), true)); })
G("r2.bapprox", { return o(R2.is_equal_approx(bin<Rect2>(a[3]))); })
G("bb.bapprox", { return o(AB.is_equal_approx(bin<AABB>(a[3]))); })
G("r2.support", { return o(R2.get_support(V2(1))); })
G("bb.support", { return o(AB.get_support(V3(1))); })
G("r2.segment", { Vector2 p, n; bool h = R2.intersects_segment(V2(1), V2(2), &p, &n); bool g = R2.intersects_segment(V2(1), V2(2)); if (h != g) return J("differ"); return h ? arr({ true, o(p), o(n) }) : arr({ false }); })
G("bb.segment", { Vector3 p, n; bool h = AB.intersects_segment(V3(1), V3(2), &p, &n); bool g = AB.intersects_segment(V3(1), V3(2)); if (h != g) return J("differ"); return h ? arr({ true, o(p), o(n) }) : arr({ false }); })
G("bb.ray", { return o(AB.intersects_ray(V3(1), V3(2))); })
G("bb.smits", { return o(AB.smits_intersect_ray(V3(1), V3(2), X(3), X(4))); })
G("r2.xform", { Transform2D t; t.columns[0] = in<Vector2>(a[3][0]); t.columns[1] = in<Vector2>(a[3][1]); t.columns[2] = in<Vector2>(a[3][2]); return o(R2.intersects_transformed(t, bin<Rect2>(a[4]))); })
G("r2i.to2", { Rect2i r = bin<Rect2i>(a[2]); return bothb(r.to_rect2(), (Rect2)r); })
G("bb.center", { return o(AB.get_center()); })
G("bb.volume", { return arr({ o((double)AB.get_volume()), AB.has_no_volume(), AB.has_no_surface() }); })
G("bb.touches", { return o(AB.intersects_inclusive(bin<AABB>(a[3]))); })
G("bb.merge_with", { AABB b = AB; b.merge_with(bin<AABB>(a[3])); return o(b); })
G("bb.plane", { return o(AB.intersects_plane(pl(a[3]))); })
G("bb.range", { real_t lo, hi; AB.project_range_in_plane(pl(a[3]), lo, hi); return arr({ (double)lo, (double)hi }); })
G("bb.longest", { AABB b = AB; return arr({ b.get_longest_axis_index(), (double)b.get_longest_axis_size(), o(b.get_longest_axis()), b.get_shortest_axis_index(), (double)b.get_shortest_axis_size(), o(b.get_shortest_axis()) }); })
G("bb.corners", { AABB b = AB; J r = J::arr(); for (int k = 0; k < 8; k++) r.add(o(b.get_endpoint(k))); return r; })
G("bb.edges", { AABB b = AB; J r = J::arr(); for (int k = 0; k < 12; k++) { Vector3 p, q; b.get_edge(k, p, q); r.add(arr({ o(p), o(q) })); } return r; })
G("bb.points", { Vector<Vector3> v; for (auto &x : a[2].a) v.push_back(in<Vector3>(x)); AABB b; bool k = b.create_from_points(v); return k ? arr({ true, o(b) }) : arr({ false }); })
G("bb.quantized", { AABB b = AB; b.quantize(X(1)); return bothb(AB.quantized(X(1)), b); })
G("bb.inside", { std::vector<Plane> p; for (auto &x : a[3].a) p.push_back(pl(x)); return o(AB.inside_convex_shape(p.data(), p.size())); })
G("bb.convex", { std::vector<Plane> p; for (auto &x : a[3].a) p.push_back(pl(x)); std::vector<Vector3> v; for (auto &x : a[4].a) v.push_back(in<Vector3>(x)); return o(AB.intersects_convex_shape(p.data(), p.size(), v.data(), v.size())); })
// Colours
static Color ci(const J &j) { return Color(j[0].d(), j[1].d(), j[2].d(), j[3].d()); }
static J o(const Color &c) { return arr({ (double)c.r, (double)c.g, (double)c.b, (double)c.a }); }
#define C0 ci(a[2])
#define C1 ci(a[3])
static J limbs(uint64_t v, int w, int n) { J r = J::arr(); for (int k = n - 1; k >= 0; k--) r.add((int)((v >> (w * k)) & ((1ull << w) - 1))); return r; }
static uint64_t unlimb(const J &j, int w) { uint64_t v = 0; for (auto &x : j.a) v = (v << w) | (uint64_t)x.i(); return v; }
static String str(const J &j) { String s; for (auto &x : j.a) s += (CharType)x.i(); return s; }
static J cps(const String &s) { J r = J::arr(); for (int k = 0; k < s.length(); k++) r.add((int)s[k]); return r; }
template <class A, class B> static J bothc(const A &x, const B &y) { return o(x).dump() == o(y).dump() ? o(x) : arr({ "the two forms differ", o(x), o(y) }); }
G("col.add", { Color c = C0; c += C1; return bothc(C0 + C1, c); })
G("col.sub", { Color c = C0; c -= C1; return bothc(C0 - C1, c); })
G("col.mul", { Color c = C0; c *= C1; return bothc(C0 * C1, c); })
G("col.div", { Color c = C0; c /= C1; return bothc(C0 / C1, c); })
G("col.scale", { Color c = C0; c *= (real_t)X(1); return bothc(C0 * (real_t)X(1), c); })
G("col.unscale", { Color c = C0; c /= (real_t)X(1); return bothc(C0 / (real_t)X(1), c); })
G("col.neg", { return o(-C0); })
G("col.inverted", { Color c = C0; c.invert(); return bothc(C0.inverted(), c); })
G("col.contrasted", { Color c = C0; c.contrast(); return bothc(C0.contrasted(), c); })
G("col.clamp", { return o(C0.clamp(C1, ci(a[4]))); })
G("col.clamp01", { return o(C0.clamp()); })
G("col.lerp", { return o(C0.linear_interpolate(C1, X(2))); })
G("col.shade", { return arr({ o(C0.darkened(X(1))), o(C0.lightened(X(1))) }); })
G("col.blend", { return o(C0.blend(C1)); })
G("col.lum", { return o((double)C0.get_luminance()); })
G("col.hsv", { return arr({ (double)C0.get_h(), (double)C0.get_s(), (double)C0.get_v() }); })
G("col.from_hsv", { Color c; c.set_hsv(X(0), X(1), X(2), X(3)); return bothc(Color().from_hsv(X(0), X(1), X(2), X(3)), c); })
G("col.set_hsv1", { Color h = C0, s = C0, v = C0; h.set_h(X(1)); s.set_s(X(1)); v.set_v(X(1)); return arr({ o(h), o(s), o(v) }); })
G("col.pack", { Color c = C0; return arr({ limbs(c.to_rgba32(), 8, 4), limbs(c.to_argb32(), 8, 4), limbs(c.to_abgr32(), 8, 4), limbs(c.to_rgba64(), 16, 4), limbs(c.to_argb64(), 16, 4), limbs(c.to_abgr64(), 16, 4) }); })
G("col.hex", { return o(Color::hex((uint32_t)unlimb(a[2], 8))); })
G("col.hex64", { return o(Color::hex64(unlimb(a[2], 16))); })
G("col.html", { return arr({ o(Color::html(str(a[2]))), Color::html_is_valid(str(a[2])) }); })
G("col.to_html", { return arr({ cps(C0.to_html()), cps(C0.to_html(false)) }); })
G("col.get8", { Color c = C0; return arr({ (int)c.get_r8(), (int)c.get_g8(), (int)c.get_b8(), (int)c.get_a8() }); })
G("col.set8", { Color c(.5, .5, .5, .5); c.set_r8(a[2][0].i()); c.set_g8(a[2][1].i()); c.set_b8(a[2][2].i()); c.set_a8(a[2][3].i()); return o(c); })
G("col.color8", { return arr({ o(Color::color8(a[2][0].i(), a[2][1].i(), a[2][2].i(), a[2][3].i())), o(Color::color8(a[2][0].i(), a[2][1].i(), a[2][2].i())) }); })
G("col.rgbe", { return o(Color::from_rgbe9995(C0.to_rgbe9995())); })
G("col.linear", { return o(C0.to_linear()); })
G("col.srgb", { return o(C0.to_srgb()); })
G("col.cmp", { return arr({ C0 == C1, C0 != C1, C0 < C1, C0.is_equal_approx(C1) }); })
G("col.alpha", { return arr({ o(Color(C0, X(1))), o(Color(X(1), X(1), X(1))), o(Color()) }); })
G("col.at", { Color c = C0; c[a[3].i()] = X(2); const Color &k = c; return arr({ o(c), (double)k[a[3].i()] }); })
OP("G") { auto f = GS.find(a[0].s + "." + a[1].s); return f == GS.end() ? J("unknown") : f->second(a); }
