// Matrices, quaternions, planes and transforms as pure functions: "X" [type, function, value, arguments…].
#include "drv.h"
#include "platform/sfw.h"
#include <map>
typedef J (*F)(const J &a); // a[2] is the value, a[3].. the arguments
static std::map<std::string, F> XS;
struct RegX { RegX(const std::string &n, F f) { XS[n] = f; } };
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
#define X(n, ...) static RegX CAT(regx, __COUNTER__)(n, [](const J &a) -> J __VA_ARGS__);
static J arr(std::initializer_list<J> l) { J r = J::arr(); for (auto &x : l) r.add(x); return r; }
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); }
J dom_state() { return J(); }
static Vector2 v2(const J &j) { return Vector2(j[0].d(), j[1].d()); }
static Vector3 v3(const J &j) { return Vector3(j[0].d(), j[1].d(), j[2].d()); }
static Vector2i w2(const J &j) { return Vector2i(j[0].i(), j[1].i()); }
static Vector3i w3(const J &j) { return Vector3i(j[0].i(), j[1].i(), j[2].i()); }
static Basis bi(const J &j) { return Basis(v3(j[0]), v3(j[1]), v3(j[2])); }
static Quaternion qi(const J &j) { return Quaternion(j[0].d(), j[1].d(), j[2].d(), j[3].d()); }
static Plane pi(const J &j) { return Plane(v3(j[0]), (real_t)j[1].d()); }
static Transform2D ti(const J &j) { return Transform2D(v2(j[0]), v2(j[1]), v2(j[2])); }
static Transform fi(const J &j) { return Transform(bi(j[0]), v3(j[1])); }
static AABB ai(const J &j) { return AABB(v3(j[0]), v3(j[1])); }
static Rect2 ri(const J &j) { return Rect2(v2(j[0]), v2(j[1])); }
static J o(double x) { return J(x); }
static J o(const Vector2 &v) { return arr({ (double)v.x, (double)v.y }); }
static J o(const Vector3 &v) { return arr({ (double)v.x, (double)v.y, (double)v.z }); }
static J o(const Vector2i &v) { return arr({ v.x, v.y }); }
static J o(const Vector3i &v) { return arr({ v.x, v.y, v.z }); }
static J o(const Quaternion &q) { return arr({ (double)q.x, (double)q.y, (double)q.z, (double)q.w }); }
static J o(const Basis &b) { return arr({ o(b.rows[0]), o(b.rows[1]), o(b.rows[2]) }); }
static J o(const Plane &p) { return arr({ o(p.normal), (double)p.d }); }
static J o(const Transform2D &t) { return arr({ o(t.columns[0]), o(t.columns[1]), o(t.columns[2]) }); }
static J o(const Transform &t) { return arr({ o(t.basis), o(t.origin) }); }
static J o(const AABB &b) { return arr({ o(b.position), o(b.size) }); }
static J o(const Rect2 &b) { return arr({ o(b.position), o(b.size) }); }
template <class V> static J o(const PoolVector<V> &p) { J r = J::arr(); for (int k = 0; k < p.size(); k++) r.add(o(p[k])); return r; }
template <class A, class B> static J both(const A &x, const B &y) { return o(x).dump() == o(y).dump() ? o(x) : arr({ "the two forms differ", o(x), o(y) }); }
template <class A, class B, class C> static J all3(const A &x, const B &y, const C &z) { return o(x).dump() == o(z).dump() ? both(x, y) : arr({ "the forms differ", o(x), o(y), o(z) }); }
#define R_(k) ((real_t)a[2 + (k)].d())
#define V3(k) v3(a[2 + (k)])
#define V2(k) v2(a[2 + (k)])
// --- Basis -------------------------------------------------------------------------------------------------------------
#define B0 bi(a[2])
#define B1 bi(a[3])
#define INPLACE(T, v, call) ({ T z = v; z.call; z; })
X("b.mul", { Basis b = B0; b *= B1; return both(B0 * B1, b); })
X("b.square", { Basis b = B0; b *= b; return o(b); })
X("b.add", { Basis b = B0; b += B1; return both(B0 + B1, b); })
X("b.sub", { Basis b = B0; b -= B1; return both(B0 - B1, b); })
X("b.smul", { Basis b = B0; b *= R_(1); return both(B0 * R_(1), b); })
X("b.det", { return o((double)B0.determinant()); })
X("b.inverse", { return both(B0.inverse(), INPLACE(Basis, B0, invert())); })
X("b.transpose", { return both(B0.transposed(), INPLACE(Basis, B0, transpose())); })
X("b.tmul", { return o(B0.transpose_xform(B1)); })
X("b.xform", { return o(B0.xform(V3(1))); })
X("b.tdot", { Basis b = B0; return both(b.xform_inv(V3(1)), Vector3(b.tdotx(V3(1)), b.tdoty(V3(1)), b.tdotz(V3(1)))); })
X("b.xformi", { return arr({ o(B0.xform(w3(a[3]))), o(B0.xform_inv(w3(a[3]))) }); })
X("b.normal_xform", { return arr({ o(B0.get_normal_xform_basis()), o(B0.xform_normal(V3(1))) }); })
X("b.from_axis", { return both(Basis(V3(1), R_(2)), INPLACE(Basis, B0, set_axis_angle(V3(1), R_(2)))); })
X("b.axis_angle", { Vector3 v; real_t p; B0.get_axis_angle(v, p); return arr({ o(v), (double)p }); })
X("b.from_quat", { return both(Basis(qi(a[3])), INPLACE(Basis, B0, set_quaternion(qi(a[3])))); })
X("b.quat", { return both(B0.get_quaternion(), (Quaternion)B0); })
X("b.rotated", { Basis b = B0; return both(b.rotated(V3(1), R_(2)), INPLACE(Basis, b, rotate(V3(1), R_(2)))); })
X("b.rotated_local", { return both(B0.rotated_local(V3(1), R_(2)), INPLACE(Basis, B0, rotate_local(V3(1), R_(2)))); })
X("b.rotatede", { return all3(B0.rotated(V3(1)), INPLACE(Basis, B0, rotate(V3(1))), B0.rotatedv(V3(1))); })
X("b.rotatedq", { return all3(B0.rotated(qi(a[3])), INPLACE(Basis, B0, rotate(qi(a[3]))), INPLACE(Basis, B0, rotateq(qi(a[3])))); })
X("b.rot_euler", { return both(B0.get_rotation_euler(), B0.get_rotation()); })
X("b.rot_axis", { Vector3 v; real_t p; B0.get_rotation_axis_angle(v, p); return arr({ o(v), (double)p }); })
X("b.rot_axis_local", { Vector3 v; real_t p; B0.get_rotation_axis_angle_local(v, p); return arr({ o(v), (double)p }); })
X("b.rot_quat", { return o(B0.get_rotation_quaternion()); })
X("b.align", { return o(INPLACE(Basis, B0, rotate_to_align(V3(1), V3(2)))); })
X("b.decomp", { Basis r; Vector3 s = B0.rotref_posscale_decomposition(r); return arr({ o(r), o(s) }); })
X("b.euler", { Basis b = B0; std::string s = a[3].s; return o(s == "xyz" ? b.get_euler_xyz() : s == "xzy" ? b.get_euler_xzy() : s == "yzx" ? b.get_euler_yzx() : s == "yxz" ? b.get_euler_yxz() : s == "zxy" ? b.get_euler_zxy() : s == "zyx" ? b.get_euler_zyx() : b.get_euler()); })
X("b.from_euler", {
	Basis b = B0; std::string s = a[3].s; Vector3 e = v3(a[4]);
	if (s == "xyz") b.set_euler_xyz(e); else if (s == "xzy") b.set_euler_xzy(e); else if (s == "yzx") b.set_euler_yzx(e); else if (s == "yxz") b.set_euler_yxz(e); else if (s == "zxy") b.set_euler_zxy(e); else if (s == "zyx") b.set_euler_zyx(e); else { b.set_euler(e); return both(b, Basis(e)); }
	return o(b);
})
X("b.scaled", { return both(B0.scaled(V3(1)), INPLACE(Basis, B0, scale(V3(1)))); })
X("b.scaled_local", { return both(B0.scaled_local(V3(1)), INPLACE(Basis, B0, scale_local(V3(1)))); })
X("b.scaled_orth", { return both(B0.scaled_orthogonal(V3(1)), INPLACE(Basis, B0, scale_orthogonal(V3(1)))); })
X("b.uniform", { return arr({ o(INPLACE(Basis, B0, make_scale_uniform())), (double)B0.get_uniform_scale() }); })
X("b.scale", { return arr({ o(B0.get_scale()), o(B0.get_scale_abs()), o(B0.get_scale_local()) }); })
X("b.set_axis_scale", { return both(Basis(V3(1), R_(2), V3(3)), INPLACE(Basis, B0, set_axis_angle_scale(V3(1), R_(2), V3(3)))); })
X("b.set_euler_scale", { return both(Basis(V3(1), V3(2)), INPLACE(Basis, B0, set_euler_scale(V3(1), V3(2)))); })
X("b.set_quat_scale", { return both(Basis(qi(a[3]), V3(2)), INPLACE(Basis, B0, set_quaternion_scale(qi(a[3]), V3(2)))); })
X("b.diag", { return arr({ both(Basis::from_scale(V3(1)), INPLACE(Basis, B0, set_diagonal(V3(1)))), o(B0.get_main_diagonal()), o(INPLACE(Basis, B0, set_zero())), o(Basis()) }); })
X("b.approx", { return arr({ B0.is_equal_approx(B1), B0 == B1, B0 != B1 }); })
X("b.kind", { return arr({ B0.is_orthogonal(), B0.is_diagonal(), B0.is_rotation(), B0.is_symmetric() }); })
X("b.orth_index", { Basis b = B0; int k = b.get_orthogonal_index(); Basis c = b; c.set_orthogonal_index(k); b.set_orthogonal_index(a[3].i()); return arr({ k, o(c), o(b), b.get_orthogonal_index() }); })
X("b.slerp", { return o(B0.slerp(B1, R_(2))); })
X("b.lerp", { return o(B0.lerp(B1, R_(2))); })
X("b.ortho", { return both(B0.orthonormalized(), INPLACE(Basis, B0, orthonormalize())); })
X("b.orthog", { return both(B0.orthogonalized(), INPLACE(Basis, B0, orthogonalize())); })
X("b.diagonalize", { Basis b = B0; Basis r = b.diagonalize(); return arr({ o(b), o(r) }); })
X("b.look", { return o(Basis::looking_at(V3(1), V3(2), a[5].b)); })
X("b.from_z", { return o(INPLACE(Basis, B0, from_z(V3(1)))); })
X("b.parts", {
	int k = a[3].i(); Basis b = B0, r = b, c = b, x = b; r.set_row(k, V3(2)); c.set_column(k, V3(2)); x.set_axis(k, V3(2)); const Basis &q = b; Basis s; s.set_columns(b.get_column(0), b.get_column(1), b.get_column(2)); Basis u; u.set(b.get_column(0), b.get_column(1), b.get_column(2)); Basis w = b; w[k] = V3(2);
	return arr({ all3(b.get_row(k), b[k], q[k]), both(b.get_column(k), b.get_axis(k)), both(r, w), both(c, x), both(s, u), o(Basis(b[0][0], b[0][1], b[0][2], b[1][0], b[1][1], b[1][2], b[2][0], b[2][1], b[2][2])) });
})
// --- Quaternion --------------------------------------------------------------------------------------------------------
#define Q0 qi(a[2])
#define Q1 qi(a[3])
X("q.mul", { Quaternion q = Q0; q *= Q1; Quaternion s = Q0; s *= s; return arr({ both(Q0 * Q1, q), o(s) }); })
X("q.add", { Quaternion q = Q0; q += Q1; return both(Q0 + Q1, q); })
X("q.sub", { Quaternion q = Q0; q -= Q1; return both(Q0 - Q1, q); })
X("q.neg", { return o(-Q0); })
X("q.smul", { Quaternion q = Q0; q *= R_(1); return both(Q0 * R_(1), q); })
X("q.sdiv", { Quaternion q = Q0; q /= R_(1); return both(Q0 / R_(1), q); })
X("q.vmul", { return o(Q0 * V3(1)); })
X("q.dot", { return o((double)Q0.dot(Q1)); })
X("q.length", { return arr({ (double)Q0.length(), (double)Q0.length_squared() }); })
X("q.normal", { return both(Q0.normalized(), INPLACE(Quaternion, Q0, normalize())); })
X("q.is_normal", { return J(Q0.is_normalized()); })
X("q.inverse", { return o(Q0.inverse()); })
X("q.xform", { return o(Q0.xform(V3(1))); })
X("q.from_axis", { return both(Quaternion(V3(1), R_(2)), INPLACE(Quaternion, Q0, set_axis_angle(V3(1), R_(2)))); })
X("q.axis_angle", { Vector3 v; real_t p; Q0.get_axis_angle(v, p); return arr({ o(v), (double)p, o(Q0.get_axis()), (double)Q0.get_angle() }); })
X("q.from_euler", { return arr({ all3(Quaternion(V3(1)), INPLACE(Quaternion, Q0, set_euler(V3(1))), INPLACE(Quaternion, Q0, set_euler_yxz(V3(1)))), o(INPLACE(Quaternion, Q0, set_euler_xyz(V3(1)))) }); })
X("q.euler", { return arr({ both(Q0.get_euler(), Q0.get_euler_yxz()), o(Q0.get_euler_xyz()) }); })
X("q.angle_to", { return o((double)Q0.angle_to(Q1)); })
X("q.slerp", { return o(Q0.slerp(Q1, R_(2))); })
X("q.slerpni", { return o(Q0.slerpni(Q1, R_(2))); })
X("q.cubic", { return o(Q0.cubic_slerp(Q1, qi(a[4]), qi(a[5]), R_(4))); })
X("q.scubic", { return o(Q0.spherical_cubic_interpolate(Q1, qi(a[4]), qi(a[5]), R_(4))); })
X("q.explog", { return arr({ o(Q0.exp()), o(Q0.log()) }); })
X("q.approx", { return arr({ Q0.is_equal_approx(Q1), Q0 == Q1, Q0 != Q1 }); })
X("q.parts", { Quaternion q = Q0; const Quaternion &c = q; int k = a[3].i(); double v = c[k]; q[k] = R_(2); Quaternion z; z = q; Quaternion w; w.set(q.x, q.y, q.z, q.w); return arr({ v, all3(q, z, w), o(Quaternion()) }); })
X("q.arc", { return o(Quaternion(V3(1), V3(2))); })
// --- Plane -------------------------------------------------------------------------------------------------------------
#define P0 pi(a[2])
X("p.normal", { return both(P0.normalized(), INPLACE(Plane, P0, normalize())); })
X("p.dist", { return arr({ (double)P0.distance_to(V3(1)), P0.is_point_over(V3(1)), P0.has_point(V3(1)), P0.has_point(V3(1), (real_t).5) }); })
X("p.project", { return o(P0.project(V3(1))); })
X("p.center", { return arr({ o(P0.center()), o(P0.get_any_point()), o(P0.get_any_perpendicular_normal()), o(P0.get_normal()), o(-P0) }); })
X("p.set_normal", { return o(INPLACE(Plane, P0, set_normal(V3(1)))); })
X("p.meet3", { Vector3 v; bool k = P0.intersect_3(pi(a[3]), pi(a[4]), &v); bool n = P0.intersect_3(pi(a[3]), pi(a[4])); if (k != n) return J("differ"); return k ? arr({ true, o(v) }) : arr({ false }); })
X("p.ray", { Vector3 v; bool k = P0.intersects_ray(V3(1), V3(2), &v); return k ? arr({ true, o(v) }) : arr({ false }); })
X("p.segment", { Vector3 v; bool k = P0.intersects_segment(V3(1), V3(2), &v); return k ? arr({ true, o(v) }) : arr({ false }); })
X("p.approx", { return arr({ P0.is_equal_approx(pi(a[3])), P0.is_equal_approx_any_side(pi(a[3])), P0 == pi(a[3]), P0 != pi(a[3]) }); })
X("p.make", { return arr({ o(Plane(V3(1), V3(2))), o(Plane(V3(1), V3(2), V3(3))), o(Plane(V3(1), V3(2), V3(3), COUNTERCLOCKWISE)) }); })
// --- Transform2D -------------------------------------------------------------------------------------------------------
#define T0 ti(a[2])
#define T1 ti(a[3])
#define T2 Transform2D
X("t.mul", { T2 t = T0; t *= T1; T2 s = T0; s *= s; return arr({ both(T0 * T1, t), o(s) }); })
X("t.smul", { T2 t = T0; t *= R_(1); return both(T0 * R_(1), t); })
X("t.det", { return o((double)T0.basis_determinant()); })
X("t.inverse", { return both(T0.inverse(), INPLACE(T2, T0, invert())); })
X("t.ainverse", { return both(T0.affine_inverse(), INPLACE(T2, T0, affine_invert())); })
X("t.xform", { return arr({ o(T0.xform(V2(1))), o(T0.xform_inv(V2(1))), o(T0.basis_xform(V2(1))), both(T0.basis_xform_inv(V2(1)), Vector2(T0.columns[0].dot(V2(1)), T0.columns[1].dot(V2(1)))), both(T0.basis_xform(V2(1)), Vector2(T0.tdotx(V2(1)), T0.tdoty(V2(1)))) }); })
X("t.xformi", { return arr({ o(T0.xform(w2(a[3]))), o(T0.xform_inv(w2(a[3]))), o(T0.basis_xform(w2(a[3]))), o(T0.basis_xform_inv(w2(a[3]))) }); })
X("t.xformr", { return arr({ o(T0.xform(ri(a[3]))), o(T0.xform_inv(ri(a[3]))) }); })
X("t.xforma", { PoolVector<Vector2> p; for (auto &j : a[3].a) p.append(v2(j)); J before = o(p); J r = arr({ o(T0.xform(p)), o(T0.xform_inv(p)) }); return o(p).dump() == before.dump() ? r : J("input changed"); })
X("t.xformai", { PoolVector<Vector2i> p; for (auto &j : a[3].a) p.append(w2(j)); return arr({ o(T0.xform(p)), o(T0.xform_inv(p)) }); })
X("t.get", { return arr({ (double)T0.get_rotation(), o(T0.get_scale()), (double)T0.get_skew(), o(T0.get_origin()) }); })
X("t.set_rotation", { return o(INPLACE(T2, T0, set_rotation(R_(1)))); })
X("t.set_scale", { return o(INPLACE(T2, T0, set_scale(V2(1)))); })
X("t.set_skew", { return o(INPLACE(T2, T0, set_skew(R_(1)))); })
X("t.set_origin", { return o(INPLACE(T2, T0, set_origin(V2(1)))); })
X("t.set_rs", { return o(INPLACE(T2, T0, set_rotation_and_scale(R_(1), V2(2)))); })
X("t.set_rss", { return o(INPLACE(T2, T0, set_rotation_scale_and_skew(R_(1), V2(2), R_(3)))); })
X("t.make", { return arr({ o(T2(R_(1), V2(4))), o(T2(R_(1), V2(2), R_(3), V2(4))), o(T2()), o(T2(1, 2, 3, 4, 5, 6)) }); })
X("t.rotated", { return both(T0.rotated(R_(1)), INPLACE(T2, T0, rotate(R_(1)))); })
X("t.rotated_local", { return o(T0.rotated_local(R_(1))); })
X("t.scaled", { return both(T0.scaled(V2(1)), INPLACE(T2, T0, scale(V2(1)))); })
X("t.scaled_basis", { return both(T0.basis_scaled(V2(1)), INPLACE(T2, T0, scale_basis(V2(1)))); })
X("t.scaled_local", { return o(T0.scaled_local(V2(1))); })
X("t.translate", { Vector2 v = V2(1); return arr({ all3(T0.translated(v), INPLACE(T2, T0, translate(v)), INPLACE(T2, T0, translate(v.x, v.y))), both(INPLACE(T2, T0, translater(v.x, v.y)), INPLACE(T2, T0, translatev(v))) }); })
X("t.translate_local", { Vector2 v = V2(1); return arr({ all3(T0.translated_local(v), INPLACE(T2, T0, translate_local(v)), INPLACE(T2, T0, translate_local(v.x, v.y))), both(INPLACE(T2, T0, translate_localr(v.x, v.y)), INPLACE(T2, T0, translate_localv(v))) }); })
X("t.untranslated", { return o(T0.untranslated()); })
X("t.ortho", { return both(T0.orthonormalized(), INPLACE(T2, T0, orthonormalize())); })
X("t.approx", { return arr({ T0.is_equal_approx(T1), T0 == T1, T0 != T1 }); })
X("t.look", { return o(T0.looking_at(V2(1))); })
X("t.interp", { return o(T0.interpolate_with(T1, R_(2))); })
X("t.parts", { int k = a[3].i(); T2 t = T0, u = t, w = t; t.set_axis(k, V2(2)); u.set_column(k, V2(2)); w[k] = V2(2); T2 q = T0; const T2 &c = q; return arr({ all3(q.get_axis(k), q.get_column(k), c[k]), all3(t, u, w) }); })
// --- Transform ---------------------------------------------------------------------------------------------------------
#define F0 fi(a[2])
#define F1 fi(a[3])
#define TF Transform
X("f.mul", { TF t = F0; t *= F1; TF s = F0; s *= s; return arr({ both(F0 * F1, t), o(s) }); })
X("f.smul", { TF t = F0; t *= R_(1); return both(F0 * R_(1), t); })
X("f.inverse", { return both(F0.inverse(), INPLACE(TF, F0, invert())); })
X("f.ainverse", { return both(F0.affine_inverse(), INPLACE(TF, F0, affine_invert())); })
X("f.inverse_xform", { return o(F0.inverse_xform(F1)); })
X("f.xform", { return arr({ o(F0.xform(V3(1))), o(F0.xform_inv(V3(1))) }); })
X("f.xformi", { return arr({ o(F0.xform(w3(a[3]))), o(F0.xform_inv(w3(a[3]))) }); })
X("f.xformb", { return arr({ o(F0.xform(ai(a[3]))), o(F0.xform_inv(ai(a[3]))) }); })
X("f.xformp", { TF t = F0; Plane p = pi(a[3]); return arr({ both(t.xform(p), t.xform_fast(p, t.basis.inverse().transposed())), both(t.xform_inv(p), TF::xform_inv_fast(p, t.affine_inverse(), t.basis.transposed())) }); })
X("f.xforma", { PoolVector<Vector3> p; for (auto &j : a[3].a) p.append(v3(j)); J before = o(p); J r = arr({ o(F0.xform(p)), o(F0.xform_inv(p)) }); return o(p).dump() == before.dump() ? r : J("input changed"); })
X("f.xformai", { PoolVector<Vector3i> p; for (auto &j : a[3].a) p.append(w3(j)); return arr({ o(F0.xform(p)), o(F0.xform_inv(p)) }); })
X("f.rotated", { return both(F0.rotated(V3(1), R_(2)), INPLACE(TF, F0, rotate(V3(1), R_(2)))); })
X("f.rotated_local", { return both(F0.rotated_local(V3(1), R_(2)), INPLACE(TF, F0, rotate_local(V3(1), R_(2)))); })
X("f.rotate_basis", { return o(INPLACE(TF, F0, rotate_basis(V3(1), R_(2)))); })
X("f.scaled", { return both(F0.scaled(V3(1)), INPLACE(TF, F0, scale(V3(1)))); })
X("f.scaled_local", { return o(F0.scaled_local(V3(1))); })
X("f.scale_basis", { return o(INPLACE(TF, F0, scale_basis(V3(1)))); })
X("f.translated", { return o(F0.translated(V3(1))); })
X("f.translated_local", { Vector3 v = V3(1); return arr({ all3(F0.translated_local(v), INPLACE(TF, F0, translate_local(v)), INPLACE(TF, F0, translate_local(v.x, v.y, v.z))), both(INPLACE(TF, F0, translate_localr(v.x, v.y, v.z)), INPLACE(TF, F0, translate_localv(v))) }); })
X("f.look", { return arr({ o(F0.looking_at(V3(1), V3(2))), o(INPLACE(TF, F0, set_look_at(V3(3), V3(1), V3(2)))) }); })
X("f.ortho", { return both(F0.orthonormalized(), INPLACE(TF, F0, orthonormalize())); })
X("f.orthog", { return both(F0.orthogonalized(), INPLACE(TF, F0, orthogonalize())); })
X("f.approx", { return arr({ F0.is_equal_approx(F1), F0 == F1, F0 != F1 }); })
X("f.interp", { return both(F0.interpolate_with(F1, R_(2)), F0.spherical_interpolate_with(F1, R_(2))); })
X("f.make", { TF t = F0; TF u; u.set(t.basis[0][0], t.basis[0][1], t.basis[0][2], t.basis[1][0], t.basis[1][1], t.basis[1][2], t.basis[2][0], t.basis[2][1], t.basis[2][2], t.origin.x, t.origin.y, t.origin.z); TF w; w.set_basis(t.get_basis()); w.set_origin(t.get_origin());
	TF z(t.basis[0][0], t.basis[0][1], t.basis[0][2], t.basis[1][0], t.basis[1][1], t.basis[1][2], t.basis[2][0], t.basis[2][1], t.basis[2][2], t.origin.x, t.origin.y, t.origin.z);
	return arr({ all3(u, w, z), o(TF(t.basis.get_column(0), t.basis.get_column(1), t.basis.get_column(2), t.origin)), o(TF()) }); })
OP("X") { auto f = XS.find(a[0].s + "." + a[1].s); return f == XS.end() ? J("unknown") : f->second(a); }
