// Images: registers i1, i2, i3. A colour travels as four whole numbers in units of 1/79050, which every
// integer format divides (255, 31, 15 and 1 levels); an image as its levels, all mipmaps one after the other.
#include "drv.h"
#include "platform/image.h"
#include "core/mlpp_matrix.h"
#include "core/mlpp_tensor3.h"
#include <cstring>
#include <set>
#include <unistd.h>
static const double U = 79050;
static std::map<std::string, Ref<Image>> R;
static const char *KS[] = { "i1", "i2", "i3" };
static int nch(int f) { static const int n[] = { 1, 2, 1, 2, 3, 4, 4, 4, 1, 2, 3, 4 }; return n[f]; }
static int bpp(int f) { static const int n[] = { 1, 2, 1, 2, 3, 4, 2, 2, 4, 8, 12, 16 }; return n[f]; }
static J levels(const Ref<Image> &i) {
	Vector<uint8_t> v = i->get_data(); int f = i->get_format(), n = v.size(); const uint8_t *p = v.ptr(); J d = J::arr();
	if (n != i->get_data_size() || (n && memcmp(p, i->datar(), n))) return J::arr().add(-7777);
	if (n % bpp(f)) return J::arr().add(-7778);
	for (int k = 0; k < n; k += bpp(f)) {
		if (f < 6) for (int c = 0; c < bpp(f); c++) d.add((int)p[k + c]);
		else if (f < 8) { unsigned u; uint16_t w; memcpy(&w, p + k, 2); u = w; if (f == 6) { d.add(u >> 12); d.add(u >> 8 & 15); d.add(u >> 4 & 15); d.add(u & 15); } else { d.add(u >> 11); d.add(u >> 6 & 31); d.add(u >> 1 & 31); d.add(u & 1); } }
		else for (int c = 0; c < nch(f); c++) { float x; memcpy(&x, p + k + 4 * c, 4); double y = x * U; d.add(std::isfinite(y) && std::fabs(y) < 8e6 ? J((long)llround(y)) : J(8000000l)); }
	}
	return d;
}
static void pack(Vector<uint8_t> &v, int f, const J &d) {
	int n = d.size();
	if (f < 6 || f > 11) { for (auto &b : d.a) v.push_back((uint8_t)b.i()); return; }
	if (f > 7) { for (auto &b : d.a) { float x = b.d() / U; uint8_t p[4]; memcpy(p, &x, 4); for (uint8_t q : p) v.push_back(q); } return; }
	for (int k = 0; k + 4 <= n; k += 4) { unsigned r = d[k].i(), g = d[k + 1].i(), b = d[k + 2].i(), a = d[k + 3].i(), u = f == 6 ? r << 12 | g << 8 | b << 4 | a : r << 11 | g << 6 | b << 1 | a; uint16_t w = u; uint8_t p[2]; memcpy(p, &w, 2); v.push_back(p[0]); v.push_back(p[1]); }
	if (n % 4) v.push_back(0);
}
static J img(const Ref<Image> &i) {
	if (!i.is_valid()) return "null";
	J r = J::obj(); r.set("w", i->get_width()); r.set("h", i->get_height()); r.set("f", (int)i->get_format()); r.set("mm", i->has_mipmaps()); r.set("lk", i->write_lock);
	r.set("d", levels(i)); return r;
}
void dom_reset() { if (!MemoryPool::allocs) SFWCore::setup(); for (auto k : KS) R[k] = Ref<Image>(memnew(Image)); }
J dom_state() { J r = J::obj(); for (auto k : KS) r.set(k, img(R[k])); return r; }
static Color col(const J &j) { return Color(j[0].d() / U, j[1].d() / U, j[2].d() / U, j[3].d() / U); }
static J whole(double x) { double y = x * U; return std::isfinite(y) && std::fabs(y) < 8e6 ? J((long)llround(y)) : J(8000000l); }
static J jc(const Color &c) { J r = J::arr(); for (int i = 0; i < 4; i++) r.add(whole(c[i])); return r; }
static Rect2 rect(const J &j) { return Rect2(j[0].d(), j[1].d(), j[2].d(), j[3].d()); }
static J ji(std::initializer_list<long> l) { J r = J::arr(); for (long x : l) r.add(x); return r; }
static Ref<MLPPMatrix> mat(const J &j) { Ref<MLPPMatrix> m; m.instance(); int h = j.size(), w = h ? j[0].size() : 0; m->resize(Size2i(w, h)); for (int y = 0; y < h; y++) for (int x = 0; x < w; x++) m->element_set(y, x, j[y][x].d() / U); return m; }
static J jm(const Ref<MLPPMatrix> &m) { J r = J::arr(); Size2i s = m->size(); for (int y = 0; y < s.y; y++) { J q = J::arr(); for (int x = 0; x < s.x; x++) q.add(whole(m->element_get(y, x))); r.add(q); } return r; }
static Ref<MLPPTensor3> ten(const J &j) { Ref<MLPPTensor3> t; t.instance(); int x = j["x"].i(), y = j["y"].i(), z = j["z"].i(); t->resize(Size3i(x, y, z)); const J &d = j["d"]; for (int i = 0; i < x * y * z; i++) t->element_set_index(i, d[i].d() / U); return t; }
static J jt(const Ref<MLPPTensor3> &t) { J r = J::obj(), d = J::arr(); Size3i s = t->size(); r.set("x", s.x); r.set("y", s.y); r.set("z", s.z); for (int i = 0; i < s.x * s.y * s.z; i++) d.add(whole(t->element_get_index(i))); r.set("d", d); return r; }
static std::string file(int n) { return std::string(dom_scratch()) + "/img" + std::to_string(n); }
static J err(Error e) { return e == OK ? "ok" : e == FAILED ? "failed" : e == ERR_UNAVAILABLE ? "unavailable" : "error"; }
static const std::set<std::string> lockok = { "lock", "unlock", "info", "sizes", "set", "get", "conv", "resize", "crop", "shrink", "genmm", "bump" };
static const J none;
OP("I") {
	std::string m = a[0].s; Ref<Image> &g = R[a[1].s]; const J &x = a.size() > 2 ? a[2] : none; int f = g->get_format();
	auto lk = [&](int k) { return R[a[k].s]->write_lock; };
	if (!lockok.count(m)) {
		bool any = lk(1);
		if (m == "blit" || m == "blend" || m == "copyto" || m == "getrect" || m == "blitm" || m == "blendm") any |= lk(2);
		if (m == "blitm" || m == "blendm" || m == "saveload") any |= lk(3);
		if (any) return "refused";
	}
	if (m[0] == 'b' && m[1] == 'l') { if (a[2].s == a[1].s || (m.back() == 'm' && a[3].s == a[1].s) || (m[2] == 'e' && f > 5)) return "refused"; }
	if ((m == "resize" && x[2].i() == 3 && f > 7) || (m == "po2" && x[1].i() == 3 && f > 7)) return "refused";
	if (m == "saveload" && (f == 6 || f == 7) && g->get_width() && g->get_height()) return "refused";
	if (m == "new") { if (x.size() == 5) g = Ref<Image>(memnew(Image(x[0].i(), x[1].i(), x[2].b, (Image::Format)x[3].i()))); else g->create(x[0].i(), x[1].i(), x[2].b, (Image::Format)x[3].i()); return "none"; }
	if (m == "data") { Vector<uint8_t> v; pack(v, x[3].i(), a[3]); if (x.size() == 5) g = Ref<Image>(memnew(Image(x[0].i(), x[1].i(), x[2].b, (Image::Format)x[3].i(), v))); else g->create(x[0].i(), x[1].i(), x[2].b, (Image::Format)x[3].i(), v); return "none"; }
	if (m == "xpm") {
		std::vector<std::string> s; int w = x["w"].i(), h = x["h"].i(), cpp = x["cpp"].i(); const J &pal = x["pal"], &px = x["px"]; char b[64];
		auto key = [&](int k) { std::string t; for (int c = 0; c < cpp; c++) { t += (char)('a' + k % 16); k /= 16; } return t; };
		snprintf(b, 64, "%d %d %d %d", w, h, (int)pal.size(), cpp); s.push_back(b);
		for (int k = 0; k < (int)pal.size(); k++) { snprintf(b, 64, x["up"].b ? "\tc #%02X%02X%02X" : " c #%02x%02x%02x", pal[k][0].i(), pal[k][1].i(), pal[k][2].i()); s.push_back(key(k) + b); }
		for (int y = 0; y < h; y++) { std::string l; for (int u = 0; u < w; u++) l += key(px[y * w + u].i()); s.push_back(l); }
		std::vector<const char *> p; for (auto &l : s) p.push_back(l.c_str()); if (a[3].b) { char *mem = (char *)memalloc(1); memfree(mem); g = Ref<Image>(memnew(Image(p.data()))); } else g->create(p.data()); return "none"; }
	if (m == "lock") { g->lock(); return "none"; }
	if (m == "unlock") { g->unlock(); return "none"; }
	if (m == "info") {
		Ref<Image> i = g; J r = J::arr(); r.add(ji({ (long)i->get_size().x, (long)i->get_size().y, i->get_mipmap_count(), i->is_size_po2(), i->is_compressed(), i->empty() }));
		for (int k = 0; k <= i->get_mipmap_count(); k++) { int o, s, o2, s2, w, h; i->get_mipmap_offset_and_size(k, o, s); i->get_mipmap_offset_size_and_dimensions(k, o2, s2, w, h); r.add(ji({ i->get_mipmap_offset(k), o, s, o2, s2, w, h })); }
		return r;
	}
	if (m == "sizes") { int w = x[0].i(), h = x[1].i(); Image::Format f = (Image::Format)x[3].i(); String n = Image::get_format_name(f); std::string s; for (int i = 0; i < n.length(); i++) s += (char)n[i]; J r = ji({ Image::get_image_data_size(w, h, f, x[2].b), Image::get_image_required_mipmaps(w, h, f), Image::get_image_mipmap_offset(w, h, f, x[4].i()), Image::get_format_pixel_size(f) }); r.add(s); return r; }
	if (m == "set") { if (a[4].b) g->set_pixelv(Vector2(x[0].i(), x[1].i()), col(a[3])); else g->set_pixel(x[0].i(), x[1].i(), col(a[3])); return "none"; }
	if (m == "get") { Color c = g->get_pixel(x[0].i(), x[1].i()), d = g->get_pixelv(Vector2(x[0].i(), x[1].i())); return c == d ? jc(c) : J("differ"); }
	if (m == "copyto") { R[a[2].s] = g->duplicate(); return "none"; }
	if (m == "getrect") { Ref<Image> r = g->get_rect(rect(a[3])); R[a[2].s] = r; return "none"; }
	if (m == "conv") { g->convert((Image::Format)x.i()); return "none"; }
	if (m == "fill") { g->fill(col(x)); return "none"; }
	if (m == "fillr") { g->fill_rect(rect(x), col(a[3])); return "none"; }
	if (m == "flipx") { g->flip_x(); return "none"; }
	if (m == "flipy") { g->flip_y(); return "none"; }
	if (m == "crop") { if (x[0].i() == 0 && x[1].i() == 0 && a[3].b) g->crop(x[2].i(), x[3].i()); else g->crop_from_point(x[0].i(), x[1].i(), x[2].i(), x[3].i()); return "none"; }
	if (m == "resize") { g->resize(x[0].i(), x[1].i(), (Image::Interpolation)x[2].i()); return "none"; }
	if (m == "po2") { g->resize_to_po2(x[0].b, (Image::Interpolation)x[1].i()); return "none"; }
	if (m == "shrink") { g->shrink_x2(); return "none"; }
	if (m == "genmm") return g->generate_mipmaps(false);
	if (m == "clrmm") { g->clear_mipmaps(); return "none"; }
	if (m == "clear") { g->clear(); return "none"; }
	if (m == "used") { Rect2 r = g->get_used_rect(); return ji({ (long)r.position.x, (long)r.position.y, (long)r.size.x, (long)r.size.y }); }
	if (m == "alpha") return (int)g->detect_alpha();
	if (m == "invis") return g->is_invisible();
	if (m == "chan") return (int)g->get_detected_channels();
	if (m == "opt") { g->optimize_channels(); return "none"; }
	if (m == "premul") { g->premultiply_alpha(); return "none"; }
	if (m == "linear") { g->srgb_to_linear(); return "none"; }
	if (m == "toxy") { g->normalmap_to_xy(); return "none"; }
	if (m == "bump") { g->bumpmap_to_normalmap(x.d()); return "none"; }
	if (m == "edges") { g->fix_alpha_edges(); return "none"; }
	if (m == "blit" || m == "blend") { Vector2 d(a[5][0].d(), a[5][1].d()); if (m == "blit") g->blit_rect(R[a[2].s], rect(a[4]), d); else g->blend_rect(R[a[2].s], rect(a[4]), d); return "none"; }
	if (m == "blitm" || m == "blendm") { Vector2 d(a[5][0].d(), a[5][1].d()); if (m == "blitm") g->blit_rect_mask(R[a[2].s], R[a[3].s], rect(a[4]), d); else g->blend_rect_mask(R[a[2].s], R[a[3].s], rect(a[4]), d); return "none"; }
	if (m == "saveload") { // written, then read into another register
		std::string p = file(0); unlink(p.c_str()); String q(p.c_str()); Error e = x.s == "png" ? g->save_png(q) : x.s == "bmp" ? g->save_bmp(q) : g->save_tga(q);
		if (e == OK) R[a[3].s]->load_from_file(q, (Image::Format)a[4].i()); unlink(p.c_str()); return err(e);
	}
	if (m == "frommat") { Ref<MLPPMatrix> t = mat(x); if (a[3].b) g = t->get_as_image(); else t->get_into_image(g); return "none"; }
	if (m == "tomat") { Ref<MLPPMatrix> t = mat(a[3]); t->set_from_image(g, x.i()); return jm(t); }
	Ref<MLPPTensor3> t = ten(x); const J &y = a[3];
	if (m == "zget" || m == "xget" || m == "yget") { Ref<Image> r = m == "zget" ? t->z_slice_get_image(y.i()) : m == "xget" ? t->x_slice_get_image(y.i()) : t->y_slice_get_image(y.i()); if (!r.is_valid()) return "null"; g = r; return "none"; }
	if (m == "zsget") { Ref<Image> r = t->z_slices_get_image(y[0].i(), y[1].i(), y[2].i(), y[3].i()); if (!r.is_valid()) return "null"; g = r; return "none"; }
	if (m == "zinto") { t->z_slice_get_into_image(g, y.i(), a[4].i()); return "none"; }
	if (m == "xinto") { t->x_slice_get_into_image(g, y.i(), a[4].i()); return "none"; }
	if (m == "yinto") { t->y_slice_get_into_image(g, y.i(), a[4].i()); return "none"; }
	if (m == "zsinto") { t->z_slices_get_into_image(g, y[0].i(), y[1].i(), y[2].i(), y[3].i()); return "none"; }
	if (m == "zadd") { t->z_slices_add_image(g, y.i()); return jt(t); }
	if (m == "zset") { t->z_slice_set_image(g, y.i(), a[4].i()); return jt(t); }
	if (m == "xset") { t->x_slice_set_image(g, y.i(), a[4].i()); return jt(t); }
	if (m == "yset") { t->y_slice_set_image(g, y.i(), a[4].i()); return jt(t); }
	if (m == "zsset") { t->z_slices_set_image(g, y[0].i(), y[1].i(), y[2].i(), y[3].i()); return jt(t); }
	if (m == "tfrom") { t->set_from_image(g, y.i()); return jt(t); }
	return "?";
}
