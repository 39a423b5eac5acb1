// MLPPConvolutions: event F [function, destination, arguments...]
#include "la.h"
#include "core/convolutions.h"
typedef MLPPConvolutions C;
OP("F") {
	std::string f = a[0].s; Ref<C> c; c.instance();
#define PT(k) ((C::PoolType)a[k].i())
	if (f == "convolve_2d") return put(MS, a[1], a[5].i() == 0 ? c->convolve_2d(M(a[2]), M(a[3]), a[4].i()) : c->convolve_2d(M(a[2]), M(a[3]), a[4].i(), a[5].i()));
	if (f == "convolve_3d") return put(TS, a[1], c->convolve_3d(T(a[2]), T(a[3]), a[4].i(), a[5].i()));
	if (f == "pool_2d") return put(MS, a[1], c->pool_2d(M(a[2]), a[3].i(), a[4].i(), PT(5)));
	if (f == "pool_3d") return put(TS, a[1], c->pool_3d(T(a[2]), a[3].i(), a[4].i(), PT(5)));
	if (f == "global_pool_2d") return J(c->global_pool_2d(M(a[2]), PT(3)));
	if (f == "global_pool_3d") return put(VS, a[1], c->global_pool_3d(T(a[2]), PT(3)));
	if (f == "gaussian_2d") return J(c->gaussian_2d(a[2].d(), a[3].d(), a[4].d()));
	if (f == "gaussian_filter_2d") return put(MS, a[1], c->gaussian_filter_2d(a[2].i(), a[3].d()));
#define D1(n) if (f == #n) return put(MS, a[1], c->n(M(a[2])));
	D1(dx) D1(dy) D1(grad_magnitude) D1(grad_orientation)
	if (f == "compute_m") return put(TS, a[1], c->compute_m(M(a[2])));
	if (f == "compute_mv") { Vector<Ref<MLPPMatrix>> v = c->compute_mv(M(a[2])); if (v.size() != 3) return J("size"); J r; for (int i = 0; i < 3; i++) { r = put(MS, a[1][i], v[i]); if (r.s != "ok") return r; } return r; }
	if (f == "harris") {
		Vector<Vector<CharType>> h = c->harris_corner_detection(M(a[2])); J r = J::arr();
		for (int i = 0; i < h.size(); i++) { J w = J::arr(); for (int j = 0; j < h[i].size(); j++) w.add(J(std::string(1, (char)h[i][j]))); r.add(w); }
		return r;
	}
#define FL(n) if (a[2].s == #n) return put(MS, a[1], c->get_##n());
	if (f == "filter") { FL(prewitt_horizontal) FL(prewitt_vertical) FL(sobel_horizontal) FL(sobel_vertical) FL(scharr_horizontal) FL(scharr_vertical) FL(roberts_horizontal) FL(roberts_vertical) }
	return J("?");
}
