// P10: monotonic terms are monotonic and their inverse undoes the membership.
#include "build.h"
using namespace pbt;

static void monotonic(Case& c) {
    Src& s = c.src;
    double lo = s.num(-50, 50), hi = lo + s.oneOf(std::vector<double>{1, 0.5, 10, 60, 1000});
    model::GenOptions o;
    model::Term t = model::genTerm(s, s.oneOf(model::monotonicTerms()), "t", lo, hi, o);
    if (s.chance(1, 8))
        t.height = s.oneOf(std::vector<double>{2.0, 0.6});
    c.note([&] { return model::describe(t); });
    std::unique_ptr<fl::Term> term(build::term(t, nullptr));
    c.check(term->isMonotonic(), "flag", t.cls + " does not report being monotonic");
    double h = t.height, w = hi - lo;
    // direction
    bool up = t.cls == "SShape" ? true : t.cls == "ZShape" ? false : t.cls == "Sigmoid" ? t.p[1] > 0 : t.p[1] > t.p[0];
    bool nontrivial = false;
    for (int i = 0; i < 4; ++i) {
        double a = s.num(lo - w / 2, hi + w / 2), b = a + s.num(0, w);
        if (s.chance(1, 6))  // far away
            b += w * s.oneOf<double>({100, 1e4, 1e6, 1e9, HUGE_VAL});
        if (s.chance(1, 6))
            a -= w * s.oneOf<double>({100, 1e4, 1e6, 1e9, HUGE_VAL});
        double ya = term->membership(a), yb = term->membership(b);
        c.checkf(up ? ya <= yb + 1e-9 : ya >= yb - 1e-9, "monotonic",
            [&] { return "membership(" + str(a) + ") = " + str(ya) + ", membership(" + str(b) + ") = " + str(yb); });
        nontrivial = nontrivial || std::fabs(ya - yb) > 1e-6;
    }
    // inverse
    for (int i = 0; i < 4; ++i) {
        double y = h * s.num(0.001, 0.999), x;
        if (s.chance(1, 8)) {  // near the ends
            y = h * s.oneOf<double>({1e-4, 1e-6, 1e-8});
            if (s.coin())
                y = h - y;
        }
        if (!(y > 0 && y < h))
            continue;
        try {
            x = term->tsukamoto(y);
        } catch (fl::Exception& e) {
            c.fail("exception", std::string("inverse raised ") + e.what());
        }
        double back = term->membership(x);
        c.note([&] { return "inverse(" + str(y) + ") = " + str(x) + ", membership of it " + str(back); });
        c.checkf(std::isfinite(x), "finite", [&] { return "inverse(" + str(y) + ") = " + str(x); });
        // the comparisons of membership with its parameters are within 1e-6
        model::fragile = false;
        model::membership(t, x);
        if (!model::fragile)
            c.checkf(close(back, y, 1e-5, 1e-5 * h), "inverse", [&] { return "membership(inverse(" + str(y) + ")) = " + str(back) + ", inverse " + str(x); });
        model::fragile = false;
        double want = model::tsukamoto(t, y);
        if (!model::fragile)
            c.checkf(close(x, want, 1e-7 * (1 + std::fabs(x)), 1e-7 * w), "formula", [&] { return "inverse(" + str(y) + ") = " + str(x) + " instead of " + str(want); });
        double z = term->tsukamoto(y * 0.9);
        c.checkf(up ? z <= x + 1e-9 * (w + std::fabs(x)) : z >= x - 1e-9 * (w + std::fabs(x)), "inverse-order", [&] { return "inverse(" + str(y * 0.9) + ") = " + str(z) + ", inverse(" + str(y) + ") = " + str(x); });
    }
    c.label(t.cls);
    c.nontrivial(nontrivial);
}

static void others(Case& c) {
    Src& s = c.src;
    std::vector<std::string> all(model::mamdaniTerms());
    all.insert(all.end(), {"Constant", "Linear", "Function"});
    std::string cls = s.oneOf(all);
    std::unique_ptr<fl::Term> t;
    model::Term m;
    if (cls == "Linear")
        t.reset(new fl::Linear("l", {1.0, 2.0}));
    else if (cls == "Function")
        t.reset(fl::Function::create("f", "x + 1"));
    else {
        m = model::genTerm(s, cls, "t", -5, 5, model::GenOptions());
        t.reset(build::term(m, nullptr));
    }
    bool mono = model::isMonotonic(cls);
    c.check(t->isMonotonic() == mono, "flag", cls + " reports being monotonic: " + std::to_string(t->isMonotonic()));
    if (!mono && cls != "Constant" && cls != "Linear" && cls != "Function") {
        // it really is not (or it has no documented inverse), and asking for an inverse is rejected
        bool raised = false;
        try {
            t->tsukamoto(0.5);
        } catch (fl::Exception&) {
            raised = true;
        }
        c.check(raised, "inverse-of-non-monotonic", cls + " has an inverse");
    }
    c.label(cls);
    c.nontrivial(true);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P10", {
        {"monotonic", monotonic, 150000, 5000000, "two values with different memberships"},
        {"others", others, 3000, 20000, "every class of term"},
    });
}
