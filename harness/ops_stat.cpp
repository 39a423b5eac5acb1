// MLPPStat: event S [function, arguments..., destination]
#include "la.h"
#include "core/stat.h"
OP("S") {
	std::string f = a[0].s; MLPPStat g;
#define S1(n) if (f == #n) return J(g.n(V(a[1])));
#define S2(n) if (f == #n) return J(g.n(V(a[1]), V(a[2])));
#define SP(n) if (f == #n) return J(g.n(V(a[1]), a[2].d()));
#define N2(n) if (f == #n) return J(g.n(a[1].d(), a[2].d()));
#define N3(n) if (f == #n) return J(g.n(a[1].d(), a[2].d(), a[3].d()));
	S1(meanv) S1(median) S1(range) S1(midrange) S1(abs_avg_deviation) S1(variancev) S1(standard_deviationv) S1(geometric_mean) S1(harmonic_mean) S1(rms) S1(contra_harmonic_mean)
	S2(covariancev) S2(correlation) S2(r2) S2(b1_estimation) S2(b0_estimation) S2(weighted_mean)
	SP(power_mean) SP(lehmer_mean)
	if (f == "weighted_lehmer_mean") return J(g.weighted_lehmer_mean(V(a[1]), V(a[2]), a[3].d()));
	N2(heronian_mean) N2(neuman_sandor_mean) N2(identric_mean) N2(log_mean) N3(heinz_mean) N3(stolarsky_mean)
	if (f == "chebyshev_ineq") return J(g.chebyshev_ineq(a[1].d()));
	if (f == "mode") return put(VS, a[2], g.mode(V(a[1])));
	return J("?");
}
