// Projections and triangles as pure functions: "J" [type, function, value, arguments…].
#include "drv.h"
#include "platform/sfw.h"
#include <map>
typedef J (*F)(const J &a); // a[2] is the value, a[3].. the arguments
static std::map<std::string, F> XS;
struct RegJ { RegJ(const std::string &n, F f) { XS[n] = f; } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define JF(n, ...) static RegJ CAT(regj, __COUNTER__)(n, [](const J &a) -> J __VA_ARGS__);
static J arr(std::initializer_list<J> l) { J r = J::arr(); for (auto &x : l) r.add(x); return r; }
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); }
J dom_state() { return J(); }
static Vector2 v2(const J &j) { return Vector2(j[0].d(), j[1].d()); }
static Vector3 v3(const J &j) { return Vector3(j[0].d(), j[1].d(), j[2].d()); }
static Vector2i w2(const J &j) { return Vector2i(j[0].i(), j[1].i()); }
static Vector3i w3(const J &j) { return Vector3i(j[0].i(), j[1].i(), j[2].i()); }
static Basis bi(const J &j) { return Basis(v3(j[0]), v3(j[1]), v3(j[2])); }
static Quaternion qi(const J &j) { return Quaternion(j[0].d(), j[1].d(), j[2].d(), j[3].d()); }
static Plane pi(const J &j) { return Plane(v3(j[0]), (real_t)j[1].d()); }
static Transform2D ti(const J &j) { return Transform2D(v2(j[0]), v2(j[1]), v2(j[2])); }
static Transform fi(const J &j) { return Transform(bi(j[0]), v3(j[1])); }
static AABB ai(const J &j) { return AABB(v3(j[0]), v3(j[1])); }
static Rect2 ri(const J &j) { return Rect2(v2(j[0]), v2(j[1])); }
static J o(double x) { return J(x); }
static J o(const Vector2 &v) { return arr({ (double)v.x, (double)v.y }); }
static J o(const Vector3 &v) { return arr({ (double)v.x, (double)v.y, (double)v.z }); }
static J o(const Vector2i &v) { return arr({ v.x, v.y }); }
static J o(const Vector3i &v) { return arr({ v.x, v.y, v.z }); }
static J o(const Quaternion &q) { return arr({ (double)q.x, (double)q.y, (double)q.z, (double)q.w }); }
static J o(const Basis &b) { return arr({ o(b.rows[0]), o(b.rows[1]), o(b.rows[2]) }); }
static J o(const Plane &p) { return arr({ o(p.normal), (double)p.d }); }
static J o(const Transform2D &t) { return arr({ o(t.columns[0]), o(t.columns[1]), o(t.columns[2]) }); }
static J o(const Transform &t) { return arr({ o(t.basis), o(t.origin) }); }
static J o(const AABB &b) { return arr({ o(b.position), o(b.size) }); }
static J o(const Rect2 &b) { return arr({ o(b.position), o(b.size) }); }
template <class V> static J o(const PoolVector<V> &p) { J r = J::arr(); for (int k = 0; k < p.size(); k++) r.add(o(p[k])); return r; }
template <class A, class B> static J both(const A &x, const B &y) { return o(x).dump() == o(y).dump() ? o(x) : arr({ "the two forms differ", o(x), o(y) }); }
template <class A, class B, class C> static J all3(const A &x, const B &y, const C &z) { return o(x).dump() == o(z).dump() ? both(x, y) : arr({ "the forms differ", o(x), o(y), o(z) }); }
#define R_(k) ((real_t)a[2 + (k)].d())
#define B_(k) (a[2 + (k)].b)
#define V3(k) v3(a[2 + (k)])
static Vector4 v4(const J &j) { return Vector4(j[0].d(), j[1].d(), j[2].d(), j[3].d()); }
static J o(const Vector4 &v) { return arr({ (double)v.x, (double)v.y, (double)v.z, (double)v.w }); }
static J o(const Projection &p) { return arr({ o(p.matrix[0]), o(p.matrix[1]), o(p.matrix[2]), o(p.matrix[3]) }); }
static Projection pj(const J &j) { return Projection(v4(j[0]), v4(j[1]), v4(j[2]), v4(j[3])); }
static Face3 fc(const J &j) { return Face3(v3(j[0]), v3(j[1]), v3(j[2])); }
static J o(const Face3 &f) { return arr({ o(f.vertex[0]), o(f.vertex[1]), o(f.vertex[2]) }); }
typedef Projection P;
#define P0 pj(a[2])
#define IN(call) ({ P z = P0; z.call; z; })
#define MK(call) ({ P z; z.call; z; })
JF("p.identity", { P z = P0; z.set_identity(); P w = P0; w.set_zero(); return arr({ both(z, P()), o(w) }); })
JF("p.mul", { return o(P0 * pj(a[3])); })
JF("p.det", { return o((double)P0.determinant()); })
JF("p.inverse", { return both(P0.inverse(), IN(invert())); })
JF("p.xform4", { return arr({ o(P0.xform(v4(a[3]))), o(P0.xform_inv(v4(a[3]))) }); })
JF("p.xform3", { return o(P0.xform(V3(1))); })
JF("p.xformp", { return o(P0.xform(pi(a[3]))); })
JF("p.frustum", { if (R_(2) <= R_(1) || R_(4) <= R_(3) || R_(6) <= R_(5)) return both(IN(set_frustum(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))), IN(set_frustum1(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))));
	return all3(IN(set_frustum(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))), IN(set_frustum1(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))), P::create_frustum(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))); })
JF("p.frustum2", { return all3(IN(set_frustum(R_(1), R_(2), v2(a[5]), R_(4), R_(5), B_(6))), IN(set_frustum2(R_(1), R_(2), v2(a[5]), R_(4), R_(5), B_(6))), P::create_frustum_aspect(R_(1), R_(2), v2(a[5]), R_(4), R_(5), B_(6))); })
JF("p.ortho", { return all3(IN(set_orthogonal(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))), IN(set_orthogonal1(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))), P::create_orthogonal(R_(1), R_(2), R_(3), R_(4), R_(5), R_(6))); })
JF("p.ortho2", { return all3(IN(set_orthogonal(R_(1), R_(2), R_(3), R_(4), B_(5))), IN(set_orthogonal2(R_(1), R_(2), R_(3), R_(4), B_(5))), P::create_orthogonal_aspect(R_(1), R_(2), R_(3), R_(4), B_(5))); })
JF("p.persp", { if (R_(3) == R_(4) || R_(1) == 0) return both(IN(set_perspective(R_(1), R_(2), R_(3), R_(4), B_(5))), IN(set_perspective1(R_(1), R_(2), R_(3), R_(4), B_(5))));
	return all3(IN(set_perspective(R_(1), R_(2), R_(3), R_(4), B_(5))), IN(set_perspective1(R_(1), R_(2), R_(3), R_(4), B_(5))), P::create_perspective(R_(1), R_(2), R_(3), R_(4), B_(5))); })
#define EYE R_(1), R_(2), R_(3), R_(4), B_(5), a[8].i(), R_(7), R_(8)
JF("p.eye", { return all3(IN(set_perspective(EYE)), IN(set_perspective2(EYE)), P::create_perspective_hmd(EYE)); })
#define HMD a[3].i(), R_(2), R_(3), R_(4), R_(5), R_(6), R_(7), R_(8)
JF("p.hmd", { return both(IN(set_for_hmd(HMD)), P::create_for_hmd(HMD)); })
JF("p.znear", { return both(IN(adjust_perspective_znear(R_(1))), P0.perspective_znear_adjusted(R_(1))); })
JF("p.planes", { Vector<Plane> v = P0.get_projection_planes(fi(a[3])); J r = J::arr(); for (int k = 0; k < v.size(); k++) r.add(o(v[k])); return r; })
JF("p.plane", { return o(P0.get_projection_plane((P::Planes)a[3].i())); })
JF("p.ends", { Vector3 p[8]; bool ok = P0.get_endpoints(fi(a[3]), p); J r = J::arr(); for (auto &x : p) r.add(o(x)); return arr({ ok, r }); })
JF("p.gets", { P p = P0; return arr({ (double)p.get_z_near(), (double)p.get_z_far(), o(p.get_viewport_half_extents()), o(p.get_far_plane_half_extents()), (double)p.get_aspect(), (double)p.get_fov(), p.is_orthogonal(), (double)p.get_lod_multiplier() }); })
JF("p.fov2", { return o((double)P0.get_fov()); })
JF("p.fovy", { return both((double)P::get_fovy(R_(1), R_(2)), (double)P0.calculate_fovy(R_(1), R_(2))); })
JF("p.flip", { return both(IN(flip_y()), P0.flipped_y()); })
JF("p.jitter", { return both(IN(add_jitter_offset(v2(a[3]))), P0.jitter_offseted(v2(a[3]))); })
JF("p.scale", { return o(IN(make_scale(V3(1)))); })
JF("p.fit", { return both(IN(scale_translate_to_fit(ai(a[3]))), P::create_fit_aabb(ai(a[3]))); })
JF("p.bias", { return o(IN(set_light_bias())); })
JF("p.depth", { return both(IN(set_depth_correction(B_(1))), P::create_depth_correction(B_(1))); })
JF("p.atlas", { return both(IN(set_light_atlas_rect(ri(a[3]))), P::create_light_atlas_rect(ri(a[3]))); })
JF("p.totr", { return o((Transform)P0); })
JF("p.fromtr", { return o(P(fi(a[3]))); })
JF("p.eq", { bool e = P0 == pj(a[3]), n = P0 != pj(a[3]); return e == n ? J("== and != agree") : arr({ e }); })
JF("p.ppm", { return J(P0.get_pixels_per_meter(a[3].i())); })
// --- triangles -------------------------------------------------------------------------------------------------------------
#define T0 fc(a[2])
JF("f.plane", { return arr({ both(T0.get_plane(), T0.get_plane(CLOCKWISE)), o(T0.get_plane(COUNTERCLOCKWISE)) }); })
JF("f.area", { return arr({ (double)T0.get_area(), (double)T0.get_twice_area_squared() }); })
JF("f.median", { return o(T0.get_median_point()); })
JF("f.degenerate", { return J(T0.is_degenerate()); })
JF("f.side", { return J((int)T0.get_side_of(fc(a[3]), B_(2) ? COUNTERCLOCKWISE : CLOCKWISE)); })
JF("f.closest", { return o(T0.get_closest_point_to(V3(1))); })
JF("f.box", { return o(T0.get_aabb()); })
JF("f.range", { real_t x = 77, y = -77; T0.project_range(V3(1), fi(a[4]), x, y); return arr({ (double)x, (double)y }); })
JF("f.split", { Face3 p[4]; bool v[4] = {}; int n = T0.split_by_plane(pi(a[3]), p, v); if (n < 0 || n > 3) return J("more than three pieces"); J r = J::arr(); for (int k = 0; k < n; k++) r.add(arr({ o(p[k]), v[k] })); return r; })
JF("f.hits", { return arr({ T0.intersects_aabb(ai(a[3])), T0.intersects_aabb2(ai(a[3])) }); })
JF("f.random", { Math::seed(a[3].i()); J r = J::arr(); for (int k = 0; k < 16; k++) r.add(o(T0.get_random_point_inside())); return r; })
JF("f.support", { Vector3 v[4]; int n = 0; T0.get_support(V3(1), fi(a[4]), v, &n, a[5].i()); J r = J::arr(); for (int k = 0; k < n; k++) r.add(o(v[k])); return r; })
OP("J") { auto f = XS.find(a[0].s + "." + a[1].s); return f == XS.end() ? J("unknown") : f->second(a); }
