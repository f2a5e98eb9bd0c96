// P07: integral defuzzifiers return the point they are named for.
#include "build.h"
#include <algorithm>
using namespace pbt;

struct Set {  // a fuzzy set held by the library, with what it needs to stay alive
    std::vector<std::unique_ptr<fl::Term>> owned;
    std::vector<std::unique_ptr<fl::TNorm>> norms;
    fl::Term* term = nullptr;
    std::string text;
};

// a fuzzy set with a stretch where it is not defined
struct Gap : fl::Term {
    const fl::Term* term;
    double a, b;
    Gap(const fl::Term* t, double from, double to) : fl::Term("gap"), term(t), a(from), b(to) {}
    std::string className() const override { return "Gap"; }
    std::string parameters() const override { return ""; }
    void configure(const std::string&) override {}
    double membership(double x) const override { return x >= a && x <= b ? model::NaN : term->membership(x); }
    fl::Term* clone() const override { return new Gap(*this); }
};

static void genSet(Src& s, Set& set, double lo, double hi, int kind) {
    model::GenOptions o;
    if (kind == 0) {
        model::Term t = model::genMamdaniTerm(s, "t", lo, hi, o);
        set.owned.emplace_back(build::term(t, nullptr));
        set.term = set.owned.back().get();
        set.text = model::describe(t);
        return;
    }
    auto* a = new fl::Aggregated("a", lo, hi, build::snorm(s.oneOf(model::snorms())));
    int n = s.range(kind == 2 ? 0 : 1, 4);
    for (int i = 0; i < n; ++i) {
        model::Term t = s.coin() ? model::genTerm(s, s.oneOf(std::vector<std::string>{"Triangle", "Trapezoid", "Rectangle", "Binary", "Ramp"}), "t" + std::to_string(i), lo, hi, o)
                                 : model::genMamdaniTerm(s, "t" + std::to_string(i), lo, hi, o);
        set.owned.emplace_back(build::term(t, nullptr));
        set.norms.emplace_back(build::tnorm(s.oneOf(model::tnorms())));
        static const std::vector<double> grid = {0, 0.25, 0.5, 0.75, 1};
        double degree = s.coin() ? s.oneOf(grid) : s.unit();
        a->addTerm(set.owned.back().get(), degree, set.norms.back().get());
        set.text += model::describe(t) + " at " + str(degree) + "\n";
    }
    set.text += a->toString();
    set.owned.emplace_back(a);
    set.term = a;
}

static void definitions(Case& c) {
    Src& s = c.src;
    double lo, hi;
    static const std::vector<std::pair<double, double>> simple = {{0, 1}, {-1, 1}, {0, 10}, {-10, 10}, {0, 100}, {-1000, -900}, {0, 1e-3}, {1e4, 5e4}};
    if (s.coin()) {
        auto p = s.oneOf(simple);
        lo = p.first;
        hi = p.second;
    } else {
        lo = s.num(-50, 50);
        hi = lo + s.num(0.1, 60);
    }
    Set set;
    genSet(s, set, lo, hi, (int)s.u(3));
    double tl = lo, th = hi;
    if (s.chance(1, 6)) {  // a range other than that of the terms
        tl = lo + s.num(-1, 1) * (hi - lo);
        th = tl + s.num(0.1, 2) * (hi - lo);
    }
    if (s.chance(1, 30))
        (s.coin() ? tl : th) = s.oneOf(std::vector<double>{model::Inf, -model::Inf, model::NaN});
    int res = s.chance(1, 3) ? s.range(1, 12) : s.chance(1, 6) ? s.range(100, 400) : s.range(13, 100);
    model::Variable v;
    v.defuzzifier = s.oneOf(model::integralDefuzzifiers());
    v.resolution = res;
    c.note([&] { return set.text + "\n" + v.defuzzifier + " " + std::to_string(res) + " over [" + str(tl) + ", " + str(th) + "]"; });
    std::unique_ptr<fl::Defuzzifier> d(build::defuzzifier(v));
    // samples where the fuzzy set is not defined are passed over
    bool gap = v.defuzzifier != "Centroid" && s.chance(1, 10);
    if (gap) {
        double from = lo + s.num(-0.1, 1) * (hi - lo);
        set.owned.emplace_back(new Gap(set.term, from, from + s.num(0, 0.4) * (hi - lo)));
        set.term = set.owned.back().get();
        c.note([&] { return "not defined in [" + str(from) + ", " + str(dynamic_cast<Gap*>(set.term)->b) + "]"; });
        c.label("gap");
    }
    double got = d->defuzzify(set.term, tl, th);
    c.note([&] { return "result " + str(got); });
    c.label(v.defuzzifier);
    if (!std::isfinite(tl) || !std::isfinite(th)) {
        c.checkf(std::isnan(got), "unbounded", [&] { return "an unbounded range gives " + str(got); });
        return;
    }
    double dx = (th - tl) / res, ymax = 0, mass = 0, tolx = 1e-9 * std::max({1.0, std::fabs(tl), std::fabs(th)});
    std::vector<double> x(res), y(res);
    bool finite = true, constant = true, edge = false;
    for (int i = 0; i < res; ++i) {
        x[i] = tl + (i + 0.5) * dx;
        y[i] = set.term->membership(x[i]);
        for (double side : {x[i] - tolx, x[i] + tolx}) {  // how samples are rounded must not matter
            double z = set.term->membership(side);
            if (std::isnan(z) != std::isnan(y[i]) || std::fabs(z - y[i]) > 1e-4)
                edge = true;
        }
        if (gap && std::isnan(y[i]))
            y[i] = 0;
        finite = finite && std::isfinite(y[i]);
        if (y[i] > ymax)
            ymax = y[i];
        mass += std::fabs(y[i]);
        constant = constant && y[i] == y[0];
    }
    if (!finite || ymax > 1e6 || edge)
        c.discard();
    bool negative = false;
    for (double q : y)
        negative = negative || q < 0;
    if (mass == 0) {
        c.checkf(std::isnan(got), "zero", [&] { return "an all-zero fuzzy set gives " + str(got); });
        c.label("all zero");
        return;
    }
    if (negative || mass < 1e-9)  // rounding of norms only
        c.discard();
    c.checkf(!std::isnan(got), "nan", [&] { return "a fuzzy set with positive membership gives nan"; });
    c.checkf(got >= tl - tolx && got <= th + tolx, "range", [&] { return str(got) + " is out of the range"; });
    if (v.defuzzifier == "Centroid") {
        double m = 0, a = 0;
        for (int i = 0; i < res; ++i) {
            m += x[i] * y[i];
            a += y[i];
        }
        c.checkf(close(got, m / a, 1e-9, tolx), "centroid", [&] { return "centroid " + str(got) + " instead of " + str(m / a); });
    } else if (v.defuzzifier == "Bisector") {
        // samples whose cumulative share is nearest to one half, up to rounding
        double cum = 0, best = model::Inf;
        std::vector<double> q(res);
        for (int i = 0; i < res; ++i) {
            cum += y[i];
            q[i] = std::fabs(cum / mass - 0.5);
            best = std::min(best, q[i]);
        }
        std::vector<double> near;
        bool exact = true;
        for (int i = 0; i < res; ++i)
            if (q[i] <= best + 1e-9) {
                near.push_back(x[i]);
                if (q[i] != best)
                    exact = false;
            }
        // equal shares are certain when nothing is added between them
        for (int i = 0; i < res; ++i)
            if (x[i] > near.front() && x[i] <= near.back() && y[i] != 0)
                exact = false;
        double mean = 0;
        for (double n : near)
            mean += n;
        mean /= near.size();
        if (exact)
            c.checkf(close(got, mean, 1e-9, tolx), "bisector", [&] { return "bisector " + str(got) + " instead of " + str(mean); });
        else
            c.checkf(got >= near.front() - tolx && got <= near.back() + tolx, "bisector", [&] { return "bisector " + str(got) + " is not in [" + str(near.front()) + ", " + str(near.back()) + "]"; });
    } else {
        std::vector<double> near, top;
        for (int i = 0; i < res; ++i) {
            if (y[i] >= ymax - 1e-9)
                near.push_back(x[i]);
            if (y[i] == ymax)
                top.push_back(x[i]);
        }
        bool exact = near.size() == top.size();
        auto isNear = [&](double g) {
            for (double n : near)
                if (close(g, n, 0, tolx))
                    return true;
            return false;
        };
        if (v.defuzzifier == "SmallestOfMaximum")
            c.checkf(isNear(got) && got <= top.front() + tolx && (!exact || close(got, top.front(), 0, tolx)), "som", [&] { return "smallest of maximum " + str(got) + " instead of " + str(top.front()); });
        else if (v.defuzzifier == "LargestOfMaximum")
            c.checkf(isNear(got) && got >= top.back() - tolx && (!exact || close(got, top.back(), 0, tolx)), "lom", [&] { return "largest of maximum " + str(got) + " instead of " + str(top.back()); });
        else {
            double mean = 0;
            for (double n : near)
                mean += n;
            mean /= near.size();
            c.checkf(exact ? close(got, mean, 1e-9, tolx) : got >= near.front() - tolx && got <= near.back() + tolx, "mom", [&] { return "mean of maximum " + str(got) + " instead of " + str(mean); });
        }
    }
    // the settings: clone and text parameters yield the same
    if (s.chance(1, 4)) {
        std::unique_ptr<fl::Defuzzifier> k(d->clone());
        c.check(same(k->defuzzify(set.term, tl, th), got), "clone", "a clone of the defuzzifier gives another value");
        auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(k.get());
        c.check(i && i->getResolution() == res, "resolution", "resolution not kept");
        std::unique_ptr<fl::Defuzzifier> f(fl::FactoryManager::instance()->defuzzifier()->constructDefuzzifier(v.defuzzifier, res, fl::WeightedDefuzzifier::Automatic));
        c.check(f && same(f->defuzzify(set.term, tl, th), got), "factory", "a defuzzifier from the factory gives another value");
        k.reset(d->clone());
        dynamic_cast<fl::IntegralDefuzzifier*>(k.get())->setResolution(res + 7);
        c.check(same(d->defuzzify(set.term, tl, th), got), "again", "defuzzifying again gives another value");
    }
    c.nontrivial(!constant);
}

// known relations between fuzzy sets imply relations between their crisp values
static void relations(Case& c) {
    Src& s = c.src;
    double lo = s.num(-20, 20), hi = lo + s.num(1, 40);
    model::GenOptions o;
    o.infiniteTerms = false;
    static const std::vector<std::string> shapes = {"Triangle", "Trapezoid", "Gaussian", "Bell", "Cosine", "Spike", "Rectangle", "PiShape"};
    model::Term t = model::genTerm(s, s.oneOf(shapes), "t", lo, hi, o);
    model::Variable v;
    v.defuzzifier = s.oneOf(model::integralDefuzzifiers());
    v.resolution = s.range(5, 150);
    c.note([&] { return model::describe(t) + " over [" + str(lo) + ", " + str(hi) + "] " + v.defuzzifier + " " + std::to_string(v.resolution); });
    std::unique_ptr<fl::Defuzzifier> d(build::defuzzifier(v));
    std::unique_ptr<fl::Term> a(build::term(t, nullptr));
    double base = d->defuzzify(a.get(), lo, hi);
    if (std::isnan(base))
        c.discard();
    double dx = (hi - lo) / v.resolution;
    // ties of samples may be resolved differently after moving; the difference is then not more than the plateau
    double x0 = model::NaN, x1 = model::NaN, ym = 0;
    for (int i = 0; i < v.resolution; ++i)
        ym = std::max(ym, a->membership(lo + (i + 0.5) * dx));
    int count = 0;
    if (ym < 0.01 * t.height)
        c.discard();
    for (int i = 0; i < v.resolution; ++i) {
        double x = lo + (i + 0.5) * dx;
        if (a->membership(x) >= ym - 1e-7 * ym) {
            if (std::isnan(x0))
                x0 = x;
            x1 = x;
            ++count;
        }
    }
    bool maxima = v.defuzzifier.find("Maximum") != std::string::npos;
    double slack = v.defuzzifier == "Centroid" ? 1e-6 * (hi - lo) : dx + (maxima ? x1 - x0 : 0) + 1e-6;
    if (maxima && t.cls == "Rectangle")
        slack += dx;
    // translation
    double by = s.num(-30, 30);
    model::Term u = t;
    if (t.cls == "Gaussian" || t.cls == "Bell" || t.cls == "Cosine" || t.cls == "Spike")
        u.p[0] += by;
    else
        for (double& p : u.p)
            p += by;
    std::unique_ptr<fl::Term> b(build::term(u, nullptr));
    double moved = d->defuzzify(b.get(), lo + by, hi + by);
    bool jump = t.cls == "Rectangle";
    if (t.cls == "Triangle" || t.cls == "Trapezoid")
        for (size_t i = 1; i < t.p.size(); ++i)
            jump = jump || t.p[i] == t.p[i - 1];
    if (!jump && v.defuzzifier != "Bisector")  // rounding may resolve ties of bisectors differently
        c.checkf(close(moved, base + by, 1e-6, slack), "translation", [&] { return "moved by " + str(by) + ": " + str(moved) + ", before " + str(base); });
    // halving the height moves nothing
    model::Term h = t;
    h.height = t.height / 2;
    std::unique_ptr<fl::Term> hh(build::term(h, nullptr));
    double halved = d->defuzzify(hh.get(), lo, hi);
    c.checkf(close(halved, base, 1e-9, v.defuzzifier == "Centroid" ? 1e-9 : slack), "scaling", [&] { return "with half the height: " + str(halved) + ", before " + str(base); });
    // symmetric sets around the middle of the range
    double mid = (lo + hi) / 2, w = (hi - lo) * (0.1 + 0.1 * s.u(4));
    model::Term y;
    y.cls = s.oneOf(std::vector<std::string>{"Triangle", "Trapezoid", "Gaussian", "Bell", "Spike", "Cosine"});
    y.name = "s";
    if (y.cls == "Triangle")
        y.p = {mid - w, mid, mid + w};
    else if (y.cls == "Trapezoid")
        y.p = {mid - 2 * w, mid - w, mid + w, mid + 2 * w};
    else if (y.cls == "Bell")
        y.p = {mid, w, 3};
    else
        y.p = {mid, w};
    std::unique_ptr<fl::Term> sym(build::term(y, nullptr));
    double z = d->defuzzify(sym.get(), lo, hi);
    if (w < 3 * dx)
        ;  // narrower than the samples
    else if (v.defuzzifier == "Centroid")
        c.checkf(close(z, mid, 1e-7, 1e-7 * (hi - lo)), "symmetry", [&] { return model::describe(y) + ": centroid " + str(z) + " is not " + str(mid); });
    else if (v.defuzzifier == "SmallestOfMaximum")
        c.checkf(z <= mid + dx, "symmetry", [&] { return model::describe(y) + ": " + str(z); });
    else if (v.defuzzifier == "LargestOfMaximum")
        c.checkf(z >= mid - dx, "symmetry", [&] { return model::describe(y) + ": " + str(z); });
    else
        c.checkf(std::fabs(z - mid) <= dx * 1.0001 + (v.defuzzifier == "MeanOfMaximum" ? dx : 0), "symmetry", [&] { return model::describe(y) + ": " + str(z) + " is not near " + str(mid); });
    // order of the maxima
    fl::SmallestOfMaximum som(v.resolution);
    fl::LargestOfMaximum lom(v.resolution);
    fl::MeanOfMaximum mom(v.resolution);
    double A = som.defuzzify(a.get(), lo, hi), B = mom.defuzzify(a.get(), lo, hi), C = lom.defuzzify(a.get(), lo, hi);
    c.checkf(A <= B + 1e-9 && B <= C + 1e-9, "order", [&] { return "smallest, mean and largest of maximum " + str(A) + " " + str(B) + " " + str(C); });
    c.nontrivial(true);
    c.label(v.defuzzifier);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P07", {
        {"definitions", definitions, 80000, 3000000, "a fuzzy set that is not constant, with a crisp value"},
        {"relations", relations, 30000, 1000000, "a fuzzy set with a crisp value"},
    });
}
