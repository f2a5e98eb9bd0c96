// P31: numeric and text operations keep their documented relations.
#include "build.h"
#include <algorithm>
#include <cstring>
using namespace pbt;

typedef std::vector<std::string> Strings;
static const double inf = std::numeric_limits<double>::infinity();
static const double nan_ = std::numeric_limits<double>::quiet_NaN();

// Comparisons ---------------------------------------------------------------------------------------------------------

struct Global {  // restores the settings of the library
    double macheps = fl::fuzzylite::macheps(), atol = fl::fuzzylite::absoluteTolerance();
    int decimals = fl::fuzzylite::decimals();
    std::ios_base::fmtflags format = fl::fuzzylite::scalarFormat();
    ~Global() {
        fl::fuzzylite::setMachEps(macheps);
        fl::fuzzylite::setAbsoluteTolerance(atol);
        fl::fuzzylite::setDecimals(decimals);
        fl::fuzzylite::setScalarFormat(format);
    }
};

static void comparisons(Case& c) {
    Src& s = c.src;
    Global g;
    double tolerance = s.oneOf<double>({1e-6, 1e-3, 0.5, 1e-12, 0});
    double a = s.anyDouble(), b;
    int how = s.u(4);
    if (how == 0)
        b = s.anyDouble();
    else if (how == 1)
        b = a;
    else
        b = a + (s.coin() ? 1 : -1) * tolerance * s.oneOf<double>({0, 0.25, 0.5, 0.9, 0.999, 1.001, 1.1, 2, 10, 1000});
    c.note([&] { return strf("a = %.17g, b = %.17g, tolerance %g", a, b, tolerance); });
    c.nontrivial(!(std::isfinite(a) && std::isfinite(b)) || how > 1);
    double distance = std::fabs(a - b);
    if (distance == tolerance && tolerance > 0)
        c.discard();
    bool eq = a == b || distance < tolerance || (a != a && b != b);
    bool lt = !eq && a < b, gt = !eq && a > b;
    bool byDefault = s.coin();
    if (byDefault)
        fl::fuzzylite::setMachEps(tolerance);
    auto say = [&](const char* op) { return strf("%s(%.17g, %.17g) with tolerance %g", op, a, b, tolerance); };
#define COMPARE(op, expected) \
    c.checkf((byDefault ? fl::Op::op(a, b) : fl::Op::op(a, b, tolerance)) == (expected), #op, [&] { return say(#op); });
    COMPARE(isEq, eq)
    COMPARE(isClose, eq)
    COMPARE(isLt, lt)
    COMPARE(isGt, gt)
    COMPARE(isLE, eq || lt)
    COMPARE(isGE, eq || gt)
#undef COMPARE
    if (byDefault) {
        c.checkf(fl::Op::eq(a, b) == (eq ? 1 : 0), "eq", [&] { return say("eq"); });
        c.checkf(fl::Op::neq(a, b) == (eq ? 0 : 1), "neq", [&] { return say("neq"); });
        c.checkf(fl::Op::lt(a, b) == (lt ? 1 : 0), "lt", [&] { return say("lt"); });
        c.checkf(fl::Op::gt(a, b) == (gt ? 1 : 0), "gt", [&] { return say("gt"); });
        c.checkf(fl::Op::le(a, b) == (lt || eq ? 1 : 0), "le", [&] { return say("le"); });
        c.checkf(fl::Op::ge(a, b) == (gt || eq ? 1 : 0), "ge", [&] { return say("ge"); });
        bool a1 = a == 1 || std::fabs(a - 1) < tolerance, b1 = b == 1 || std::fabs(b - 1) < tolerance;
        if (std::fabs(a - 1) != tolerance && std::fabs(b - 1) != tolerance) {
            c.checkf(fl::Op::logicalAnd(a, b) == (a1 && b1), "logicalAnd", [&] { return say("and"); });
            c.checkf(fl::Op::logicalOr(a, b) == (a1 || b1), "logicalOr", [&] { return say("or"); });
            c.checkf(fl::Op::logicalNot(a) == !a1, "logicalNot", [&] { return say("not"); });
        }
        // within an interval: closed or open at each end
        double x = s.coin() ? s.anyDouble() : a + tolerance * s.oneOf<double>({0, 0.5, -0.5, 2, -2});
        if (std::fabs(x - a) == tolerance || std::fabs(x - b) == tolerance)
            return;
        auto near = [&](double p, double q) { return p == q || std::fabs(p - q) < tolerance || (p != p && q != q); };
        bool low = s.coin(), high = s.coin();
        bool expected = (low ? near(x, a) || x > a : !near(x, a) && x > a) && (high ? near(x, b) || x < b : !near(x, b) && x < b);
        c.checkf(fl::Op::in(x, a, b, low, high) == expected, "in", [&] {
            return strf("in(%.17g, %.17g, %.17g, %d, %d) with tolerance %g", x, a, b, low, high, tolerance);
        });
    }
}

// Arithmetic -----------------------------------------------------------------------------------------------------------

static bool identical(double a, double b) { return (a != a && b != b) || a == b; }

static void numbers(Case& c) {
    Src& s = c.src;
    double a = s.coin() ? s.num(-100, 100) : s.anyDouble(), b = s.coin() ? s.num(-100, 100) : s.anyDouble();
    double x = s.coin() ? s.num(-100, 100) : s.anyDouble();
    c.note([&] { return strf("a = %.17g, b = %.17g, x = %.17g", a, b, x); });
    c.nontrivial(!(std::isfinite(a) && std::isfinite(b) && std::isfinite(x)) || x == std::floor(x) + 0.5 || x <= a || x >= b);
    auto expect = [&](const char* what, double got, double expected) {
        c.checkf(identical(got, expected), what, [&] {
            return strf("%s is %.17g and not %.17g for a = %.17g, b = %.17g, x = %.17g", what, got, expected, a, b, x);
        });
    };
    bool none = a != a || b != b;
    expect("min(a,b)", fl::Op::min(a, b), none ? nan_ : (a < b ? a : b));
    expect("max(a,b)", fl::Op::max(a, b), none ? nan_ : (a > b ? a : b));
    expect("a+b", fl::Op::add(a, b), a + b);
    expect("a-b", fl::Op::subtract(a, b), a - b);
    expect("a*b", fl::Op::multiply(a, b), a * b);
    expect("a/b", fl::Op::divide(a, b), a / b);
    expect("a%b", fl::Op::modulo(a, b), std::fmod(a, b));
    expect("-a", fl::Op::negate(a), -a);
    expect("round(x)", fl::Op::round(x), x > 0 ? std::floor(x + 0.5) : std::ceil(x - 0.5));
    c.check(fl::Op::isNaN(x) == (bool)std::isnan(x), "isNaN", strf("isNaN(%g)", x));
    c.check(fl::Op::isInf(x) == (bool)std::isinf(x), "isInf", strf("isInf(%g)", x));
    c.check(fl::Op::isFinite(x) == (bool)std::isfinite(x), "isFinite", strf("isFinite(%g)", x));
    double lo = std::min(a, b), hi = std::max(a, b);
    if (a == a && b == b) {
        expect("bound", fl::Op::bound(x, lo, hi), x != x ? x : x < lo ? lo : x > hi ? hi : x);
        if (lo < hi && std::isfinite(hi - lo) && hi - lo > 1e-9 && hi - lo < 1e9 && std::fabs(x) < 1e9) {
            double c0 = s.num(-100, 100), c1 = s.num(-100, 100);
            auto near = [&](const char* what, double got, double expected) {
                double scale = std::max(std::fabs(c0), std::fabs(c1)) * (1 + (std::fabs(x) + std::fabs(lo) + std::fabs(hi)) / (hi - lo)) + 1;
                c.checkf(std::fabs(got - expected) <= 1e-9 * scale, what, [&] {
                    return strf("%s: scale(%.17g, %.17g, %.17g, %.17g, %.17g) is %.17g and not %.17g", what, x, lo, hi, c0, c1, got, expected);
                });
            };
            double t = (x - lo) / (hi - lo);
            double linear = c0 * (1 - t) + c1 * t;
            near("scale", fl::Op::scale(x, lo, hi, c0, c1), linear);
            near("scale unbounded", fl::Op::scale(x, lo, hi, c0, c1, false), linear);
            if (c0 <= c1) {
                double bounded = fl::Op::scale(x, lo, hi, c0, c1, true);
                near("scale bounded", bounded, std::min(c1, std::max(c0, linear)));
                c.check(bounded >= c0 && bounded <= c1, "scale-out", strf("bounded scale gives %.17g out of [%g, %g]", bounded, c0, c1));
            }
        }
    }
    int ia = s.range(-5, 5), ib = s.range(-5, 5);
    c.check(fl::Op::min(ia, ib) == std::min(ia, ib) && fl::Op::max(ia, ib) == std::max(ia, ib), "int", strf("extremes of %d and %d", ia, ib));
}

static void statistics(Case& c) {
    Src& s = c.src;
    std::vector<double> v;
    std::vector<int> w;
    for (int i = s.range(0, 12); i > 0; --i) {
        v.push_back(s.num(-100, 100));
        w.push_back(s.range(-50, 50));
    }
    // large in relation to their differences
    const double base = s.oneOf<double>({0, 0, 0, 1e6, -1e6, 1e9});
    for (double& i : v)
        i += base;
    c.note([&] { return "values " + fl::Op::join(v, " "); });
    c.nontrivial(v.size() > 1);
    auto check = [&](const char* kind, const std::vector<double>& x, double sum, double mean, double variance, double deviation, double offset,
                     double varianceAt, double deviationAt) {
        size_t n = x.size();
        long double total = 0, squares = 0, squaresAt = 0;
        for (double i : x)
            total += i;
        for (double i : x) {
            squares += (i - total / n) * (i - total / n);
            squaresAt += (i - (long double)offset) * (i - (long double)offset);
        }
        auto expect = [&](const char* what, double got, double expected) {
            c.checkf(close(got, expected, base != 0 ? 1e-6 : 1e-9, 1e-9) || (got != got && expected != expected), what, [&] {
                return strf("%s of %s %zu values is %.17g and not %.17g", what, kind, n, got, expected);
            });
        };
        expect("sum", sum, (double)total);
        expect("mean", mean, n ? (double)(total / n) : nan_);
        double var = n == 0 ? nan_ : n == 1 ? 0 : (double)(squares / (n - 1)), varAt = n == 0 ? nan_ : n == 1 ? 0 : (double)(squaresAt / (n - 1));
        expect("variance", variance, var);
        expect("deviation", deviation, std::sqrt(var));
        expect("variance at", varianceAt, varAt);
        expect("deviation at", deviationAt, std::sqrt(varAt));
    };
    double at = base + s.num(-10, 10);
    check("real", v, fl::Op::sum(v), fl::Op::mean(v), fl::Op::variance(v), fl::Op::standardDeviation(v), at, fl::Op::variance(v, at), fl::Op::standardDeviation(v, at));
    check("integer", std::vector<double>(w.begin(), w.end()), fl::Op::sum(w), fl::Op::mean(w), fl::Op::variance(w), fl::Op::standardDeviation(w), at,
          fl::Op::variance(w, at), fl::Op::standardDeviation(w, at));
    double from = s.num(-10, 10), to = from + s.num(0, 20);
    int n = s.oneOf<int>({1, 2, 3, 10, 100, 0});
    std::vector<double> m = fl::Op::midpoints(from, to, n);
    c.check(m.size() == (size_t)n, "midpoints", strf("%zu midpoints instead of %d", m.size(), n));
    for (int i = 0; i < n; ++i)
        c.check(close(m[i], from + (2 * i + 1) * (to - from) / (2 * n), 1e-9, 1e-9), "midpoint", strf("midpoint %d of %d in [%g, %g] is %.17g", i, n, from, to, m[i]));
}

// Counting: the sequence enumerates the whole box in lexicographical order, and returns to the start
static void counting(Case& c) {
    Src& s = c.src;
    int n = s.range(1, 4);
    std::vector<int> lo(n), hi(n), x;
    long total = 1;
    for (int i = 0; i < n; ++i) {
        lo[i] = s.range(-2, 2);
        hi[i] = lo[i] + s.range(0, 4);
        total *= hi[i] - lo[i] + 1;
    }
    int position = s.coin() ? n - 1 : s.range(0, n - 1);
    long span = 1;
    for (int i = 0; i <= position; ++i)
        span *= hi[i] - lo[i] + 1;
    c.note([&] { return "from " + fl::Op::join(lo, " ") + " to " + fl::Op::join(hi, " ") + strf(" at %d", position); });
    c.nontrivial(n > 1 && span > 1);
    x = lo;
    for (int i = position + 1; i < n; ++i)
        x[i] = s.range(lo[i], hi[i]);
    std::vector<int> start = x;
    for (long step = 1; step <= span; ++step) {
        std::vector<int> was = x, mins = lo, maxs = hi;
        bool more = position == n - 1 && s.coin() ? fl::Op::increment(x, mins, maxs) : fl::Op::increment(x, position, mins, maxs);
        c.check(mins == lo && maxs == hi, "bounds", "increment changes the bounds");
        c.checkf(more == (step < span), "more", [&] { return strf("step %ld of %ld gives %d", step, span, more) + " after " + fl::Op::join(was, " "); });
        if (more) {
            c.checkf(was < x, "order", [&] { return fl::Op::join(was, " ") + " is followed by " + fl::Op::join(x, " "); });
            for (int i = 0; i < n; ++i)
                c.check(x[i] >= lo[i] && x[i] <= hi[i] && (i <= position || x[i] == start[i]), "box", "out of the box: " + fl::Op::join(x, " "));
        } else
            c.check(x == start, "restart", "it does not return to the start but to " + fl::Op::join(x, " "));
    }
    std::vector<int> empty;
    c.check(!fl::Op::increment(empty, empty, empty), "empty", "increment of nothing");
}

// Numbers as text ------------------------------------------------------------------------------------------------------

static void numerals(Case& c) {
    Src& s = c.src;
    Global g;
    int decimals = s.range(0, 12);
    double x = s.coin() ? s.num(-1000, 1000) : s.anyDouble();
    if (s.chance(1, 4))
        x = (s.coin() ? 1 : -1) * std::pow(10.0, -decimals) * s.oneOf<double>({0.4, 0.5, 0.6, 0.999, 1.001, 1.5, 10});
    bool fixed = s.chance(3, 4), byDefault = s.coin();
    auto format = fixed ? std::ios_base::fixed : std::ios_base::scientific;
    if (byDefault) {
        fl::fuzzylite::setDecimals(decimals);
        fl::fuzzylite::setScalarFormat(format);
        fl::fuzzylite::setMachEps(s.oneOf<double>({1e-6, 0.5, 1e-12}));
    }
    std::string text = byDefault ? fl::Op::str(x) : fl::Op::str(x, decimals, format);
    c.note([&] { return strf("%.17g with %d decimals is ", x, decimals) + text; });
    c.nontrivial(!std::isfinite(x) || std::fabs(x) < std::pow(10.0, -decimals) || std::fabs(x) > 1e9);
    auto say = [&] { return strf("%.17g with %d decimals%s prints ", x, decimals, fixed ? "" : " (scientific)") + text; };
    if (x != x)
        c.checkf(text == "nan", "nan", say);
    else if (std::isinf(x))
        c.checkf(text == (x < 0 ? "-inf" : "inf"), "inf", say);
    double back = 0;
    try {
        back = fl::Op::toScalar(text);
    } catch (fl::Exception& e) {
        if (std::fabs(x) < 1e308)  // the printed number might be rounded over the largest
            c.fail("not-read", say() + " which is not a number");
        return;
    }
    bool ok = false;
    double again = fl::Op::toScalar(text, 12345, &ok);
    c.checkf(ok && identical(again, back), "lenient", say);
    c.checkf(fl::Op::isNumeric(text), "numeric", say);
    if (!std::isfinite(x)) {
        c.checkf(identical(back, x), "special", say);
        return;
    }
    double unit = std::pow(10.0, -decimals);
    double bound = fixed || std::fabs(x) < unit ? unit : std::fabs(x) * unit;
    if (std::fabs(x) >= unit)
        bound /= 2;
    bound += 4 * std::numeric_limits<double>::epsilon() * std::fabs(x);
    c.checkf(std::fabs(back - x) <= bound, "precision", [&] { return say() + strf(" which is %.17g", back); });
    if (fixed) {
        size_t dot = text.find('.');
        size_t shown = dot == std::string::npos ? 0 : text.size() - dot - 1;
        c.checkf(shown == (size_t)decimals, "decimals", say);
        // printing what was read gives the same text
        std::string twice = fl::Op::str(back, decimals, std::ios_base::fixed);
        c.checkf(twice == text || std::fabs(back) < 1.5 * unit || std::fabs(back) > 1e12, "stable", [&] { return say() + " and then " + twice; });
    }
    // without format: shortest significant digits
    std::string general = fl::Op::str(x, decimals, std::ios_base::fmtflags(0));
    std::string full = fl::Op::str(x, -1, std::ios_base::fmtflags(0));
    if (std::fabs(x) < 1e308) {
        double v = fl::Op::toScalar(full);
        c.checkf(std::fabs(v - x) <= 5e-6 * std::fabs(x), "general", [&] { return strf("%.17g prints ", x) + full; });
        double u = fl::Op::toScalar(general);
        c.checkf(std::fabs(u - x) <= std::max(std::fabs(x) * 5 * std::pow(10.0, -std::max(1, decimals)), unit), "general-decimals",
                 [&] { return strf("%.17g prints %d significant digits ", x, decimals) + general; });
    }
    int i = (int)s.range(-2000, 2000);
    c.check(fl::Op::str(i) == strf("%d", i), "integer", strf("%d prints ", i) + fl::Op::str(i));
}

// A text that spells a number, or nearly
static std::string numeral(Src& s, bool& valid, double& value) {
    std::string t;
    if (s.chance(1, 6)) {
        static const std::vector<std::pair<const char*, double>> specials = {{"nan", nan_}, {"inf", inf}, {"-inf", -inf}};
        auto p = s.oneOf(specials);
        t = p.first;
        value = p.second;
    } else {
        if (s.chance(1, 3))
            t += s.coin() ? "-" : "+";
        std::string digits;
        for (int i = s.range(1, 6); i > 0; --i)
            digits += (char)('0' + s.u(10));
        if (s.coin()) {
            size_t dot = s.u((uint32_t)digits.size() + 1);
            digits.insert(dot, ".");
        }
        t += digits;
        if (s.chance(1, 4))
            t += std::string(s.coin() ? "e" : "E") + s.oneOf<std::string>({"", "-", "+"}) + std::to_string(s.u(30));
        value = std::strtod(t.c_str(), nullptr);
    }
    valid = true;
    if (s.chance(1, 2)) {
        valid = false;
        switch (s.u(7)) {
            case 0: t += s.oneOf<std::string>({"x", " ", "e", "-", ",", "f", "\t", ";"}); break;
            case 1: t = s.oneOf<std::string>({"", " ", "-", "+", ".", "e5", "--1", "NaN", "INF", "Inf", "infinity", "nans", "0x10", "-nan(1)", "1e", "1e+", "a"}); break;
            case 2: t.insert(s.u((uint32_t)t.size()), s.oneOf<std::string>({"x", "$", "_"})); break;
            case 3: t += " " + t; break;
            case 4: t = "(" + t + ")"; break;
            case 5: t = t + "." + t + "."; break;
            case 6: t = "1e400"; break;
        }
    }
    return t;
}

static void reading(Case& c) {
    Src& s = c.src;
    Strings texts;
    std::vector<double> values;
    bool all = true;
    for (int i = s.range(1, 4); i > 0; --i) {
        bool valid;
        double value = 0;
        std::string t = numeral(s, valid, value);
        c.note([&] { return "text <" + t + ">" + (valid ? strf(" is %.17g", value) : " is not a number"); });
        c.nontrivial(!valid || !std::isfinite(value));
        bool ok = !valid;
        double got = fl::Op::toScalar(t, -7.5, &ok);
        c.check(ok == valid, "ok", "text <" + t + "> is a number: " + (ok ? "true" : "false"));
        c.checkf(identical(got, valid ? value : -7.5), "value", [&] { return "text <" + t + "> gives " + str(got); });
        c.checkf(identical(fl::Op::toScalar(t, -7.5), got), "without-ok", [&] { return "text <" + t + ">"; });
        c.check(fl::Op::isNumeric(t) == valid, "isNumeric", "text <" + t + ">");
        try {
            double strict = fl::Op::toScalar(t);
            c.check(valid && identical(strict, value), "strict", "text <" + t + "> is taken as " + str(strict));
        } catch (fl::Exception&) {
            c.check(!valid, "strict", "text <" + t + "> is not taken");
        }
        // several
        std::istringstream parts(t);
        std::string part;
        while (parts >> part) {
            texts.push_back(part);
            bool good;
            values.push_back(fl::Op::toScalar(part, 99, &good));
            all = all && good;
        }
    }
    std::string joined;
    for (auto& t : texts)
        joined += s.oneOf<std::string>({" ", "  ", "\t", " \n"}) + t;
    if (s.coin())
        joined += " ";
    bool ok = !all;
    std::vector<double> got = fl::Op::toScalars(joined, 99, &ok);
    c.check(ok == all && got.size() == values.size() && std::equal(got.begin(), got.end(), values.begin(), identical), "scalars", "texts <" + joined + ">");
    try {
        got = fl::Op::toScalars(joined);
        c.check(all && got.size() == values.size() && std::equal(got.begin(), got.end(), values.begin(), identical), "scalars-strict", "texts <" + joined + ">");
    } catch (fl::Exception&) {
        c.check(!all, "scalars-strict", "texts <" + joined + "> are not taken");
    }
}

// Text -----------------------------------------------------------------------------------------------------------------

static std::string anyText(Src& s, int most) {
    static const Strings alphabet = {"a", "b", " ", ",", "ab", ", ", "_", ".", "9", "Z", "\t", "\n", "-", "!", "\xc3\xa9", "aa", "\r"};
    std::string t;
    for (int i = s.range(0, most); i > 0; --i)
        t += s.oneOf(alphabet);
    return t;
}

static std::string show(const std::string& t) {
    std::string r;
    for (unsigned char ch : t)
        r += ch < 32 || ch > 126 ? strf("\\x%02x", ch) : std::string(1, (char)ch);
    return "<" + r + ">";
}
static std::string show(const Strings& v) {
    std::string r;
    for (auto& t : v)
        r += show(t);
    return "{" + r + "}";
}

static std::string referenceReplace(const std::string& text, const std::string& find, const std::string& by, bool all) {
    if (find.empty())
        return text;
    std::string r;
    bool done = false;
    for (size_t i = 0; i < text.size();) {
        if (!done && text.compare(i, find.size(), find) == 0) {
            r += by;
            i += find.size();
            done = !all;
        } else
            r += text[i++];
    }
    return r;
}

static Strings referenceSplit(const std::string& text, const std::string& delimiter, bool ignoreEmpty) {
    if (text.empty() || delimiter.empty())
        return {text};
    Strings all(1), r;
    for (size_t i = 0; i < text.size();) {
        if (text.compare(i, delimiter.size(), delimiter) == 0) {
            all.push_back("");
            i += delimiter.size();
        } else
            all.back() += text[i++];
    }
    for (auto& t : all)
        if (!(ignoreEmpty && t.empty()))
            r.push_back(t);
    return r;
}

static bool blank(char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); }

static void texts(Case& c) {
    Src& s = c.src;
    std::string text = anyText(s, 12), find = anyText(s, 2), by = anyText(s, 2), delimiter = anyText(s, 2);
    c.note([&] { return "text " + show(text) + ", find " + show(find) + ", by " + show(by) + ", delimiter " + show(delimiter); });
    c.nontrivial(!find.empty() && text.find(find) != std::string::npos || !delimiter.empty() && text.find(delimiter) != std::string::npos);
    std::string all = referenceReplace(text, find, by, true), first = referenceReplace(text, find, by, false);
    auto expect = [&](const char* what, const std::string& got, const std::string& expected) {
        c.checkf(got == expected, what, [&] { return std::string(what) + " gives " + show(got) + " and not " + show(expected); });
    };
    expect("findReplace", fl::Op::findReplace(text, find, by), all);
    expect("findReplace-all", fl::Op::findReplace(text, find, by, true), all);
    expect("replaceAll", fl::Op::replaceAll(text, find, by), all);
    expect("findReplace-first", fl::Op::findReplace(text, find, by, false), first);
    expect("replaceFirst", fl::Op::replaceFirst(text, find, by), first);
    for (bool ignore : {true, false}) {
        Strings got = fl::Op::split(text, delimiter, ignore), expected = referenceSplit(text, delimiter, ignore);
        c.checkf(got == expected, "split", [&] {
            return "split of " + show(text) + " by " + show(delimiter) + (ignore ? "" : " with empty parts") + " gives " + show(got) + " and not " + show(expected);
        });
        if (!ignore)
            expect("join-split", fl::Op::join(got, delimiter), text);
    }
    c.checkf(fl::Op::split(text, delimiter) == referenceSplit(text, delimiter, true), "split-default", [&] { return show(text); });
    c.checkf(fl::Op::split(text) == referenceSplit(text, " ", true), "split-blank", [&] { return show(text); });
    size_t b = 0, e = text.size();
    while (b < e && blank(text[b]))
        ++b;
    while (e > b && blank(text[e - 1]))
        --e;
    expect("trim", fl::Op::trim(text), text.substr(b, e - b));
    // names
    std::string name;
    for (char ch : text)
        if ((ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '_' || ch == '.')
            name += ch;
    std::string valid = fl::Op::validName(text);
    if (name.empty())
        expect("validName", valid, "_");
    else
        expect("validName", valid, name);
    expect("validName-twice", fl::Op::validName(valid), valid);
}

static void joining(Case& c) {
    Src& s = c.src;
    Global g;
    Strings parts;
    std::vector<double> numbers;
    std::vector<int> integers;
    for (int i = s.range(0, 5); i > 0; --i) {
        parts.push_back(anyText(s, 3));
        numbers.push_back(s.coin() ? s.num(-100, 100) : s.anyDouble());
        integers.push_back(s.range(-100, 100));
    }
    fl::fuzzylite::setDecimals(s.range(0, 9));
    std::string separator = anyText(s, 2);
    c.note([&] { return "parts " + show(parts) + " separator " + show(separator); });
    c.nontrivial(parts.size() > 1);
    auto joined = [&](const Strings& v) {
        std::string r;
        for (size_t i = 0; i < v.size(); ++i)
            r += (i ? separator : "") + v[i];
        return r;
    };
    auto expect = [&](const char* what, const std::string& got, const std::string& expected) {
        c.checkf(got == expected, what, [&] { return std::string(what) + " gives " + show(got) + " and not " + show(expected); });
    };
    Strings fromNumbers, fromIntegers;
    for (double x : numbers)
        fromNumbers.push_back(fl::Op::str(x));
    for (int x : integers)
        fromIntegers.push_back(strf("%d", x));
    expect("join", fl::Op::join(parts, separator), joined(parts));
    expect("join-numbers", fl::Op::join(numbers, separator), joined(fromNumbers));
    expect("join-integers", fl::Op::join(integers, separator), joined(fromIntegers));
    if (parts.size() >= 3) {
        int n = s.range(1, 3);
        parts.resize(n);
        fromNumbers.resize(n);
        fromIntegers.resize(n);
        const char *p0 = parts[0].c_str(), *p1 = n > 1 ? parts[1].c_str() : "", *p2 = n > 2 ? parts[2].c_str() : "";
        expect("join-list", fl::Op::join(n, separator, p0, p1, p2), joined(parts));
        expect("join-list-numbers", fl::Op::join(n, separator, numbers[0], numbers[1], numbers[2]), joined(fromNumbers));
        expect("join-list-integers", fl::Op::join(n, separator, integers[0], integers[1], integers[2]), joined(fromIntegers));
    }
    expect("text", fl::Op::str<const std::string&>(separator), separator);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P31",
                     {{"comparisons", comparisons, 60000, 2000000, "a special value, or two numbers at the tolerance"},
                      {"numbers", numbers, 60000, 2000000, "a special value, a half, or a value at or out of the bounds"},
                      {"statistics", statistics, 20000, 500000, "at least two values"},
                      {"counting", counting, 20000, 400000, "at least two positions and two steps"},
                      {"numerals", numerals, 60000, 2000000, "a special, tiny or large number"},
                      {"reading", reading, 40000, 1500000, "a text that is not a number, or a special value"},
                      {"texts", texts, 60000, 2000000, "the text has what is looked for or the delimiter inside"},
                      {"joining", joining, 30000, 1000000, "at least two parts"}});
}
