// A number type whose every operation is visible to the simulator: it can throw at a seeded
// operation (like a user's arbitrary-precision type running out of memory) and it is a yield point.
#ifndef VERIF_SCALAR_H
#define VERIF_SCALAR_H
#include "sim.h"
#include <cmath>
#include <limits>
#include <iostream>
namespace TooN { namespace Internal { struct One; } }
namespace sim {
struct Interrupt { uint64_t at; };
struct ScalarEnv {
	static long live;            // constructed minus destroyed
	static uint64_t ops;         // operations so far
	static uint64_t throw_at;    // 0: never
	static bool thrown;
	static bool yields;
	static double blank;         // value of a default-constructed scalar
	static void reset() { ops = 0; throw_at = 0; thrown = false; yields = false; }
	static void tick() {
		++ops;
		if (throw_at && ops == throw_at) { thrown = true; throw Interrupt{ops}; }
		if (yields) yield_point();
	}
};
struct Num {
	double v;
	Num() : v(ScalarEnv::blank) { ++ScalarEnv::live; }
	Num(double d) : v(d) { ++ScalarEnv::live; }
	Num(int d) : v(d) { ++ScalarEnv::live; }
	Num(const TooN::Internal::One&) : v(1) { ++ScalarEnv::live; }
	Num(const Num& o) : v((ScalarEnv::tick(), o.v)) { ++ScalarEnv::live; }
	~Num() { --ScalarEnv::live; }
	Num& operator=(const Num& o) { ScalarEnv::tick(); v = o.v; return *this; }
	Num& operator+=(const Num& o) { ScalarEnv::tick(); v += o.v; return *this; }
	Num& operator-=(const Num& o) { ScalarEnv::tick(); v -= o.v; return *this; }
	Num& operator*=(const Num& o) { ScalarEnv::tick(); v *= o.v; return *this; }
	Num& operator/=(const Num& o) { ScalarEnv::tick(); v /= o.v; return *this; }
	Num operator-() const { ScalarEnv::tick(); return Num(-v); }
	Num operator+() const { return Num(v); }
	operator double() const { return v; }
};
#define SIM_BIN(op) \
	inline Num operator op(const Num& a, const Num& b) { ScalarEnv::tick(); return Num(a.v op b.v); } \
	inline Num operator op(const Num& a, double b) { ScalarEnv::tick(); return Num(a.v op b); } \
	inline Num operator op(double a, const Num& b) { ScalarEnv::tick(); return Num(a op b.v); } \
	inline Num operator op(const Num& a, int b) { ScalarEnv::tick(); return Num(a.v op b); } \
	inline Num operator op(int a, const Num& b) { ScalarEnv::tick(); return Num(a op b.v); }
SIM_BIN(+) SIM_BIN(-) SIM_BIN(*) SIM_BIN(/)
#undef SIM_BIN
#define SIM_CMP(op) \
	inline bool operator op(const Num& a, const Num& b) { ScalarEnv::tick(); return a.v op b.v; } \
	inline bool operator op(const Num& a, double b) { ScalarEnv::tick(); return a.v op b; } \
	inline bool operator op(double a, const Num& b) { ScalarEnv::tick(); return a op b.v; } \
	inline bool operator op(const Num& a, int b) { ScalarEnv::tick(); return a.v op b; } \
	inline bool operator op(int a, const Num& b) { ScalarEnv::tick(); return a op b.v; }
SIM_CMP(<) SIM_CMP(>) SIM_CMP(<=) SIM_CMP(>=) SIM_CMP(==) SIM_CMP(!=)
#undef SIM_CMP
#define SIM_FN(f) inline Num f(const Num& a) { ScalarEnv::tick(); return Num(std::f(a.v)); }
SIM_FN(sqrt) SIM_FN(fabs) SIM_FN(sin) SIM_FN(cos) SIM_FN(tan) SIM_FN(acos) SIM_FN(asin) SIM_FN(atan) SIM_FN(exp) SIM_FN(log) SIM_FN(floor) SIM_FN(ceil)
#undef SIM_FN
inline Num abs(const Num& a) { ScalarEnv::tick(); return Num(std::fabs(a.v)); }
inline Num atan2(const Num& a, const Num& b) { ScalarEnv::tick(); return Num(std::atan2(a.v, b.v)); }
inline Num hypot(const Num& a, const Num& b) { ScalarEnv::tick(); return Num(std::hypot(a.v, b.v)); }
inline Num pow(const Num& a, const Num& b) { ScalarEnv::tick(); return Num(std::pow(a.v, b.v)); }
inline Num pow(const Num& a, double b) { ScalarEnv::tick(); return Num(std::pow(a.v, b)); }
inline Num max(const Num& a, const Num& b) { return a.v < b.v ? Num(b.v) : Num(a.v); }
inline bool isnan(const Num& a) { return std::isnan(a.v); }
inline bool isfinite(const Num& a) { return std::isfinite(a.v); }
inline std::ostream& operator<<(std::ostream& o, const Num& n) { return o << n.v; }
inline std::istream& operator>>(std::istream& i, Num& n) { return i >> n.v; }
inline double value(const Num& n) { return n.v; }
inline double value(double d) { return d; }
inline double value(float d) { return d; }
inline double value(int d) { return d; }
}
namespace std {
template<> struct numeric_limits<sim::Num> {
	static const bool is_specialized = true, is_signed = true, is_integer = false, is_exact = false, has_infinity = true, has_quiet_NaN = true, has_signaling_NaN = true;
	static const int digits = 53, digits10 = 15, max_digits10 = 17, radix = 2;
	static sim::Num epsilon() { return sim::Num(numeric_limits<double>::epsilon()); }
	static sim::Num min() { return sim::Num(numeric_limits<double>::min()); }
	static sim::Num max() { return sim::Num(numeric_limits<double>::max()); }
	static sim::Num lowest() { return sim::Num(numeric_limits<double>::lowest()); }
	static sim::Num infinity() { return sim::Num(numeric_limits<double>::infinity()); }
	static sim::Num quiet_NaN() { return sim::Num(numeric_limits<double>::quiet_NaN()); }
	static sim::Num signaling_NaN() { return sim::Num(numeric_limits<double>::quiet_NaN()); }
};
}
#endif
