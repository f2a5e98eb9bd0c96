// P09: terms compute their documented membership functions.
#include "build.h"
using namespace pbt;

static bool bounded(const std::string& c) { return c != "Constant"; }

static void genRange(Src& s, double& lo, double& hi) {
    static const std::vector<std::pair<double, double>> simple = {{0, 1}, {-1, 1}, {0, 10}, {-10, 10}, {0, 100}, {-5, 5}, {1000, 5000}, {-2e4, 3e4}, {0, 0.05}};
    if (s.coin()) {
        auto p = s.oneOf(simple);
        lo = p.first;
        hi = p.second;
    } else {
        lo = s.num(-50, 50);
        hi = lo + s.num(0.5, 60);
    }
}

static void membership(Case& c) {
    Src& s = c.src;
    double lo, hi;
    genRange(s, lo, hi);
    model::GenOptions o;
    std::vector<std::string> all(model::mamdaniTerms());
    all.push_back("Constant");
    model::Term t = model::genTerm(s, s.oneOf(all), "t", lo, hi, o);
    if (t.cls == "Constant")
        t.height = 1;
    else if (s.chance(1, 6))
        t.height = s.oneOf(std::vector<double>{2.0, 10.0, 0.125, 0.6});
    if (s.chance(1, 8)) {  // unusual, but within the documented formulas
        if (t.cls == "Spike" || t.cls == "Gaussian" || t.cls == "Bell")
            t.p[1] = -t.p[1];
        else if (t.cls == "Rectangle")
            std::swap(t.p[0], t.p[1]);
        else if (t.cls == "Concave")
            t.p[1] = t.p[0];
    }
    c.note([&] { return model::describe(t); });
    std::unique_ptr<fl::Term> term(build::term(t, nullptr));
    std::string params = term->parameters();
    c.check(term->className() == t.cls && term->getName() == "t", "class", "class or name is wrong");
    c.check(close(term->getHeight(), t.height, 0, 0), "height", "height is wrong");
    if (t.cls == "Constant" && s.chance(1, 4))
        term->setHeight(s.num(0.1, 3));  // which is no matter
    model::Variable v;
    v.min = lo;
    v.max = hi;
    v.terms = {t};
    int n = s.range(1, 12);
    bool nontrivial = false;
    for (int i = 0; i < n; ++i) {
        double x = model::genInput(s, v);
        if (s.chance(1, 12))
            x = s.oneOf(std::vector<double>{model::NaN, model::Inf, -model::Inf, 1e9, -1e9});
        else if (s.chance(1, 8) && (!t.p.empty())) {  // between two parameters
            double a = s.oneOf(t.p), b = s.oneOf(t.p);
            if (std::isfinite(a + b))
                x = a + (b - a) * s.oneOf(std::vector<double>{0.5, 0.25, 0.75, 0.1, 0.9});
        }
        double y;
        try {
            y = term->membership(x);
        } catch (fl::Exception& e) {
            c.fail("exception", std::string("membership raised ") + e.what());
        }
        c.note([&] { return "membership(" + str(x) + ") = " + str(y); });
        if (std::isnan(x)) {
            c.check(t.cls == "Constant" ? close(y, t.p[0], 0, 0) : std::isnan(y), "nan", "membership of nan is " + str(y));
            continue;
        }
        if (bounded(t.cls))
            c.checkf(y >= -1e-12 && y <= t.height + 1e-9, "bounds", [&] { return "membership(" + str(x) + ") = " + str(y) + " is not between 0 and the height " + str(t.height); });
        if (t.cls == "Concave" && t.p[0] == t.p[1] && x != t.p[1] && std::fabs(x - t.p[1]) < 1e-5)
            continue;
        model::fragile = false;
        double want = model::membership(t, x);
        if (model::fragile || std::isnan(want))
            continue;
        c.checkf(close(y, want, 1e-7, 1e-9), "value", [&] { return "membership(" + str(x) + ") = " + str(y) + " instead of " + str(want); });
        nontrivial = nontrivial || (y > 1e-6 && y < t.height - 1e-6);
        c.check(same(term->membership(x), y), "again", "evaluating again gives another value");
    }
    c.check(term->parameters() == params, "changed", "evaluating changes the term");
    c.label(t.cls);
    c.nontrivial(nontrivial);
}

// relations between values that need no formula
static void shapes(Case& c) {
    Src& s = c.src;
    double lo, hi;
    genRange(s, lo, hi);
    model::GenOptions o;
    o.infiniteTerms = false;
    model::Term t = model::genMamdaniTerm(s, "t", lo, hi, o);
    if (s.chance(1, 4))
        t.height = s.oneOf(std::vector<double>{0.5, 2.0, 0.3});
    c.note([&] { return model::describe(t); });
    std::unique_ptr<fl::Term> term(build::term(t, nullptr));
    double h = t.height, tol = 1e-6 * h, x = s.num(lo, hi), d = s.num(0, hi - lo), w = hi - lo;
    auto mu = [&](double q) { return term->membership(q); };
    const auto& p = t.p;
    auto is = [&](double at, double value, const char* what) {
        c.checkf(close(mu(at), value, 0, tol), "point", [&] { return std::string(what) + ": membership(" + str(at) + ") = " + str(mu(at)) + " instead of " + str(value); });
    };
    auto symmetric = [&](double at) {
        model::fragile = false;
        for (double q : p) {
            model::cmp(at + d, q);
            model::cmp(at - d, q);
        }
        if (t.cls == "Cosine")
            model::cmp(d, p[1] / 2);
        if (!model::fragile)
            c.checkf(close(mu(at + d), mu(at - d), 1e-6, tol), "symmetry", [&] { return "membership differs at " + str(at - d) + " and " + str(at + d) + ": " + str(mu(at - d)) + " " + str(mu(at + d)); });
    };
    if (t.cls == "Bell" || t.cls == "Gaussian" || t.cls == "Spike" || t.cls == "Cosine") {
        is(p[0], h, "top");
        symmetric(p[0]);
        if (t.cls == "Bell") {
            is(p[0] + p[1], h / 2, "crossover");
            is(p[0] - p[1], h / 2, "crossover");
        }
        if (t.cls == "Gaussian")
            is(p[0] + p[1], h * std::exp(-0.5), "one standard deviation");
        if (t.cls == "Cosine") {
            is(p[0] + p[1] * 0.75, 0, "outside");
            is(p[0] + p[1] / 4, h / 2, "half way");
        }
        // farther from the centre is never higher
        double e = d * s.oneOf(std::vector<double>{0.1, 0.5, 0.9});
        c.check(mu(p[0] + e) >= mu(p[0] + d) - tol && mu(p[0] - e) >= mu(p[0] - d) - tol, "unimodal", "membership grows away from the centre");
    } else if (t.cls == "Triangle") {
        is(p[1], h, "vertex b");
        if (p[0] < p[1]) {
            is(p[0], 0, "vertex a");
            is((p[0] + p[1]) / 2, p[1] - p[0] > 1e-3 ? h / 2 : mu((p[0] + p[1]) / 2), "middle of left side");
        }
        if (p[2] > p[1])
            is(p[2], 0, "vertex c");
        is(p[0] - w, 0, "left");
        is(p[2] + w, 0, "right");
    } else if (t.cls == "Trapezoid") {
        is(p[1], h, "vertex b");
        is(p[2], h, "vertex c");
        is((p[1] + p[2]) / 2, h, "top");
        if (p[0] < p[1])
            is(p[0], 0, "vertex a");
        if (p[3] > p[2])
            is(p[3], 0, "vertex d");
        is(p[0] - w, 0, "left");
        is(p[3] + w, 0, "right");
    } else if (t.cls == "Rectangle") {
        is(p[0], h, "start");
        is(p[1], h, "end");
        is((p[0] + p[1]) / 2, h, "inside");
        is(p[0] - w, 0, "left");
        is(p[1] + w, 0, "right");
    } else if (t.cls == "Ramp") {
        is(p[0], 0, "start");
        is(p[1], h, "end");
        is((p[0] + p[1]) / 2, std::fabs(p[1] - p[0]) > 1e-3 ? h / 2 : mu((p[0] + p[1]) / 2), "middle");
        is(p[0] + 2 * (p[1] - p[0]), h, "beyond the end");
        is(p[0] - (p[1] - p[0]), 0, "before the start");
    } else if (t.cls == "SShape" || t.cls == "ZShape") {
        bool S = t.cls == "SShape";
        is(p[0], S ? 0 : h, "start");
        is(p[1], S ? h : 0, "end");
        is((p[0] + p[1]) / 2, h / 2, "middle");
        is(p[0] - w, S ? 0 : h, "before the start");
        is(p[1] + w, S ? h : 0, "after the end");
    } else if (t.cls == "PiShape") {
        is(p[0], 0, "bottom left");
        is(p[1], h, "top left");
        is(p[2], h, "top right");
        is(p[3], 0, "bottom right");
        is((p[0] + p[1]) / 2, h / 2, "middle left");
        is((p[2] + p[3]) / 2, h / 2, "middle right");
    } else if (t.cls == "Sigmoid") {
        is(p[0], h / 2, "inflection");
        c.checkf(close(mu(p[0] + d) + mu(p[0] - d), h, 1e-6, tol), "symmetry", [&] { return "sigmoid is not symmetric at " + str(d); });
    } else if (t.cls == "GaussianProduct") {
        if (p[0] <= p[2]) {
            is(p[0], h, "mean a");
            is(p[2], h, "mean b");
            is((p[0] + p[2]) / 2, h, "top");
        }
    } else if (t.cls == "Binary") {
        is(p[0], h, "start");
        is(p[0] + (p[1] > p[0] ? w : -w), h, "in the direction");
        is(p[0] - (p[1] > p[0] ? w : -w), 0, "against the direction");
    } else if (t.cls == "Concave") {
        is(p[1], h, "end");
        is(p[0], h * 0.5, "inflection");
    } else if (t.cls == "Discrete") {
        for (auto& q : t.xy)
            is(q.first, h * q.second, "point");
        for (size_t i = 1; i < t.xy.size(); ++i)
            is((t.xy[i - 1].first + t.xy[i].first) / 2, h * (t.xy[i - 1].second + t.xy[i].second) / 2, "between points");
        is(t.xy.front().first - w, h * t.xy.front().second, "left");
        is(t.xy.back().first + w, h * t.xy.back().second, "right");
    } else if (t.cls == "SigmoidDifference") {
        std::unique_ptr<fl::Term> a(new fl::Sigmoid("a", p[0], p[1])), b(new fl::Sigmoid("b", p[3], p[2]));
        c.checkf(close(mu(x), h * std::fabs(a->membership(x) - b->membership(x)), 1e-9, 1e-9), "difference", [&] { return "not the difference of sigmoids at " + str(x); });
    } else if (t.cls == "SigmoidProduct") {
        std::unique_ptr<fl::Term> a(new fl::Sigmoid("a", p[0], p[1])), b(new fl::Sigmoid("b", p[3], p[2]));
        c.checkf(close(mu(x), h * a->membership(x) * b->membership(x), 1e-9, 1e-9), "product", [&] { return "not the product of sigmoids at " + str(x); });
    }
    // height scales
    std::unique_ptr<fl::Term> other(term->clone());
    other->setHeight(h * 2);
    c.checkf(close(other->membership(x), 2 * mu(x), 1e-9, 1e-12), "scaling", [&] { return "membership does not scale with the height at " + str(x); });
    c.check(close(term->getHeight(), h, 0, 0), "clone", "changing a clone changes the term");
    c.label(t.cls);
    c.nontrivial(mu(x) > tol && mu(x) < h - tol);
}

// discrete terms: construction from points, from text, from other terms
static void discrete(Case& c) {
    Src& s = c.src;
    double lo = s.num(-20, 20), hi = lo + s.num(1, 40);
    model::GenOptions o;
    o.infiniteTerms = false;
    model::Term src = model::genMamdaniTerm(s, "src", lo, hi, o);
    std::unique_ptr<fl::Term> base(build::term(src, nullptr));
    int res = s.range(1, 40);
    c.note([&] { return model::describe(src) + " over [" + str(lo) + ", " + str(hi) + "] in " + std::to_string(res); });
    std::unique_ptr<fl::Discrete> d(fl::Discrete::discretize(base.get(), lo, hi, res, false));
    double dx = (hi - lo) / res;
    c.check((int)d->xy().size() == res + 1, "discretize-size", "discretized in " + std::to_string(d->xy().size()) + " points instead of " + std::to_string(res + 1));
    for (int i = 0; i <= res; ++i) {
        double x = lo + i * dx, y = base->membership(x);
        c.checkf(close(d->xy()[i].first, x, 1e-9, 1e-9) && close(d->xy()[i].second, y, 1e-6, 1e-6 + (src.cls == "Rectangle" || src.cls == "Binary" || src.cls == "Triangle" || src.cls == "Trapezoid" ? 10 : 0)), "discretize",
            [&] { return "point " + std::to_string(i) + " is (" + str(d->xy()[i].first) + ", " + str(d->xy()[i].second) + ") instead of (" + str(x) + ", " + str(y) + ")"; });
    }
    // the discrete term interpolates between its own points
    double x = s.num(lo, hi);
    for (int i = 0; i < res; ++i) {
        double a = d->xy()[i].first, b = d->xy()[i + 1].first;
        if (x > a + 1e-5 && x < b - 1e-5) {
            double y = d->xy()[i].second + (d->xy()[i + 1].second - d->xy()[i].second) * (x - a) / (b - a);
            c.checkf(close(d->membership(x), y, 1e-7, 1e-7), "interpolate", [&] { return "membership(" + str(x) + ") = " + str(d->membership(x)) + " instead of " + str(y); });
        }
    }
    // x and y values, and conversions of pairs
    std::vector<double> xs = d->x(), ys = d->y();
    c.check(xs.size() == ys.size() && xs.size() == d->xy().size(), "xy", "different numbers of x and y");
    for (size_t i = 0; i < xs.size(); ++i) {
        const fl::Discrete& k = *d;
        c.checkf(xs[i] == d->xy()[i].first && ys[i] == d->xy()[i].second && k.x(i) == xs[i] && k.y(i) == ys[i] && d->x(i) == xs[i] && d->y(i) == ys[i] && k.xy(i) == d->xy()[i], "values",
            [&] { return "the values of point " + std::to_string(i) + " are not those of its pair"; });
    }
    {
        fl::Discrete other(*d);
        size_t i = s.u((uint32_t)xs.size());
        other.x(i) = 1.5;
        other.y(i) = 0.25;
        c.check(other.xy()[i] == fl::Discrete::Pair(1.5, 0.25) && other.xy().size() == xs.size(), "change", "changing x and y of a point does not change the point");
        other.setXY(d->xy());
        c.check(other.xy() == d->xy(), "setXY", "the points are not those that were set");
        std::string want;
        auto f = [](double v) { return fl::Op::str(v); };
        for (size_t k = 0; k < xs.size(); ++k)
            want += (k ? "; " : "") + ("<" + f(xs[k])) + "|" + f(ys[k]) + ">";
        std::string got = fl::Discrete::formatXY(d->xy(), "<", "|", ">", "; ");
        c.check(got == want, "format", "the points are written " + got + " instead of " + want);
    }
    std::unique_ptr<fl::Term> high(base->clone());
    high->setHeight(base->getHeight() * s.oneOf<double>({1, 2, 4, -1}));
    std::unique_ptr<fl::Discrete> bounded(fl::Discrete::discretize(high.get(), lo, hi, res)), free(fl::Discrete::discretize(high.get(), lo, hi, res, false));
    for (size_t i = 0; i < xs.size(); ++i) {
        double y = free->xy()[i].second;
        c.checkf(bounded->xy()[i].first == free->xy()[i].first && bounded->xy()[i].second == (y > 1 ? 1 : y < 0 ? 0 : y), "bounded",
            [&] { return "point " + std::to_string(i) + " has " + str(bounded->xy()[i].second) + " when bounded, " + str(y) + " otherwise"; });
    }
    std::vector<double> flat = fl::Discrete::toVector(d->xy());
    c.check(flat.size() == 2 * xs.size() && flat[0] == xs[0] && flat[1] == ys[0] && flat.back() == ys.back(), "vector", "the vector of points is not x1 y1 x2 y2 ...");
    std::vector<fl::Discrete::Pair> pairs = fl::Discrete::toPairs(flat);
    c.check(pairs == d->xy(), "pairs", "converting pairs to a vector and back changes them");
    flat.push_back(1);
    bool raised = false;
    try {
        fl::Discrete::toPairs(flat);
    } catch (fl::Exception&) {
        raised = true;
    }
    c.check(raised, "odd", "an odd number of values is accepted");
    pairs = fl::Discrete::toPairs(flat, 0.125);
    c.check(pairs.size() == xs.size() + 1 && pairs.back() == fl::Discrete::Pair(1, 0.125) && pairs[0] == d->xy()[0], "missing", "the missing value is not the one given");
    flat.pop_back();
    c.check(fl::Discrete::toPairs(flat, 0.125) == d->xy(), "missing", "a value is added although none is missing");
    // sorting
    std::vector<fl::Discrete::Pair> shuffled = d->xy();
    for (size_t i = shuffled.size() - 1; i > 0; --i)
        std::swap(shuffled[i], shuffled[s.u((uint32_t)i + 1)]);
    fl::Discrete e("e", shuffled);
    e.sort();
    c.check(e.xy() == d->xy(), "sort", "sorting does not put the points in order");
    fl::Discrete empty("empty");
    raised = false;
    try {
        empty.membership(x);
    } catch (fl::Exception&) {
        raised = true;
    }
    c.check(raised, "empty", "a discrete term without points has a membership");
    c.nontrivial(res > 1);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P09", {
        {"membership", membership, 150000, 5000000, "a value with membership strictly between 0 and the height"},
        {"shapes", shapes, 80000, 2000000, "a value with membership strictly between 0 and the height"},
        {"discrete", discrete, 20000, 300000, "at least two points"},
    });
}
