// C35: satellite orbits
#include <math.h>
#include "hcv.h"
extern "C" {
#include "satellite/hypercv_satellite.h"
}
typedef long double L;
static const L GM = 3.986005e14L, WE = 7.2921151467e-5L, PI_ = 3.14159265358979323846264338327950288L;
struct Par { L as, es, omega, ws, M0, i0, idot, dn, toe, t, cus, cuc, crs, crc, cis, cic, od; };
static L sunit() { return (L)range(-1000000, 1000000) / 1000000; }
static L angle() { int w = (int)draw(8); if (w == 0) return 0; if (w == 1) return pick({1, -1}) * PI_ / 2; if (w == 2) return pick({1, -1}) * PI_; return sunit() * (w == 3 ? 2 : 1) * PI_; }
static L small(L m) { return chance(1, 4) ? 0 : sunit() * m; }
static Par gen() {
  Par p; p.as = (L)range(6500000, 60000000); p.es = chance(1, 5) ? 0 : chance(1, 2) ? (L)range(0, 30000) / 1000000 : chance(2, 3) ? (L)range(0, 250000) / 1000000 : (L)range(250000, 900000) / 1000000;
  p.omega = angle(); p.ws = angle(); p.M0 = angle(); p.i0 = chance(1, 6) ? 0 : fabsl(angle()); if (p.i0 > PI_) p.i0 = PI_;
  p.idot = small(1e-9L); p.dn = small(1e-8L); p.toe = (L)range(0, 604799); int w = (int)draw(4); p.t = p.toe + (w == 0 ? 0 : w == 1 ? (L)range(-7200, 7200) : w == 2 ? (chance(1, 3) ? (L)range(-2500000, 2500000) : (L)range(-302400, 302400)) : (L)range(-72000000, 72000000) / 10000);
  bool big = chance(1, 3); p.cus = small(big ? 0.1L : 1e-4L); p.cuc = small(big ? 0.1L : 1e-4L); p.crs = small(big ? 100000 : 500); p.crc = small(big ? 100000 : 500); p.cis = small(big ? 0.1L : 1e-4L); p.cic = small(big ? 0.1L : 1e-4L); p.od = small(1e-7L);
  return p;
}
static sat_orbit make(const Par& p) { return hypercv_create_orbit(p.as, p.es, p.omega, p.ws, p.M0, p.i0, p.idot, p.dn, p.toe, p.t, p.cus, p.cuc, p.crs, p.crc, p.cis, p.cic, p.od); }
struct Pos { L x, y, z, r, tol; };
static Pos model(const Par& p) {
  L tk = p.t - p.toe, M = p.M0 + (sqrtl(GM / p.as) / p.as + p.dn) * tk, E = M;
  for (int i = 0; i < 60; i++) E -= (E - p.es * sinl(E) - M) / (1 - p.es * cosl(E));
  // in the plane of the orbit, from the centre of the earth; then the angle from the node
  L X = p.as * (cosl(E) - p.es), Y = p.as * sqrtl(1 - p.es * p.es) * sinl(E), f = atan2l(Y, X), phi = f + p.ws, s2 = sinl(2 * phi), c2 = cosl(2 * phi);
  L u = phi + p.cus * s2 + p.cuc * c2, r = hypotl(X, Y) + p.crs * s2 + p.crc * c2, i = p.i0 + p.idot * tk + p.cis * s2 + p.cic * c2, node = p.omega + p.od * tk - WE * p.t;
  L a[3] = {r * cosl(u), r * sinl(u), 0}, b[3] = {a[0], a[1] * cosl(i), a[1] * sinl(i)};          // about the line of nodes
  Pos q{b[0] * cosl(node) - b[1] * sinl(node), b[0] * sinl(node) + b[1] * cosl(node), b[2], r, 0};   // about the axis of the earth
  q.tol = p.as * (2e-11L + 1e-14L / powl(1 - p.es, 3)); return q;
}
static std::string show(const Par& p) { char b[600]; snprintf(b, sizeof b, "a %.0Lf e %.6Lf node %.9Lf perigee %.9Lf M0 %.9Lf i %.9Lf idot %.3Le dn %.3Le toe %.0Lf t %.4Lf cu %.3Le %.3Le cr %.3Lf %.3Lf ci %.3Le %.3Le node rate %.3Le", p.as, p.es, p.omega, p.ws, p.M0, p.i0, p.idot, p.dn, p.toe, p.t, p.cus, p.cuc, p.crs, p.crc, p.cis, p.cic, p.od); return b; }
static void near(const Pos& q, const ECEF& c, const char* what) {
  L d = sqrtl((q.x - c.ecefx) * (q.x - c.ecefx) + (q.y - c.ecefy) * (q.y - c.ecefy) + (q.z - c.ecefz) * (q.z - c.ecefz));
  REQUIRE(d <= q.tol, "%s: %.4f %.4f %.4f, should be %.4Lf %.4Lf %.4Lf (off by %.6Lf m)", what, c.ecefx, c.ecefy, c.ecefz, q.x, q.y, q.z, d);
}
static void body() {
  int n = chance(1, 4) ? (int)range(2, 4) : 1; std::vector<Par> p; std::vector<sat_orbit> o; std::vector<Bytes> raw;
  for (int i = 0; i < n; i++) { Par a = gen(); if (i && chance(1, 2)) { L k = p[0].t; a = p[0]; a.t = k + (L)range(-3600, 3600); } p.push_back(a); describe("%s", show(a).c_str()); o.push_back(make(a)); REQUIRE(o[i] != NULL, "no orbit"); raw.push_back(Bytes((uint8_t*)o[i], (uint8_t*)o[i] + offsetof(SATELLITE_ORBIT, omegak))); 
    sat_orbit s = o[i]; REQUIRE(s->as == a.as && s->es == a.es && s->omega == a.omega && s->ws == a.ws && s->M0 == a.M0 && s->i0 == a.i0 && s->idot == a.idot && s->delta_n == a.dn && s->toe == a.toe && s->t == a.t && s->cus == a.cus && s->cuc == a.cuc && s->crs == a.crs && s->crc == a.crc && s->cis == a.cis && s->cic == a.cic && s->omegadot == a.od, "an element of the orbit is not the one given"); }
  int m = n + (int)draw(n + 1);
  for (int k = 0; k < m; k++) { int i = k < n ? k : (int)draw(n); Pos q = model(p[i]); near(q, get_satellite_position_ecef(o[i]), n > 1 ? "one of several satellites" : "the satellite");
    REQUIRE(fabsl(o[i]->r - q.r) <= q.tol, "distance %.4Lf, should be %.4Lf", o[i]->r, q.r); REQUIRE(fabsl(o[i]->tk - (p[i].t - p[i].toe)) < 1e-6L, "time since the epoch %.6Lf", o[i]->tk);
    L kep = o[i]->E - p[i].es * sinl(o[i]->E) - o[i]->Mk; REQUIRE(fabsl(kep) <= 1e-12L + 1e-13L * fabsl(o[i]->Mk), "the eccentric anomaly misses Kepler's equation by %.3Le", kep); }
  for (int i = 0; i < n; i++) { REQUIRE(!memcmp(raw[i].data(), o[i], raw[i].size()), "computing a position changed an orbit"); free(o[i]); }
  label_if(p[0].es == 0, "circular"); label_if(p[0].es > 0.1L, "eccentricity above 0.1"); label_if(p[0].es > 0.25L, "eccentricity above 0.25"); label_if(fabsl(p[0].t - p[0].toe) > 302400, "more than half a week from the epoch"); label_if(p[0].t == p[0].toe, "at the epoch"); label_if(fabsl(p[0].t - p[0].toe) > 7200, "more than two hours from the epoch"); label_if(n > 1, "several satellites"); label_if(p[0].i0 == 0, "equatorial");
  nontrivial();
}
namespace pbt { Property property_under_test = {"C35",
  "one to four orbits with generated elements (semi-major axis, eccentricity up to 0.9, angles including multiples of a right angle, rates, six corrections, times within four weeks of the epoch) compared with a model in extended precision that solves Kepler's equation by Newton's method and rotates the position vector; every case is non-trivial",
  800000, 4800000, 500, body, {"the module is built by the check; the repository's default build leaves it out", "sines and roots in the library are those of double precision, which bounds the accuracy asked for"}}; }
