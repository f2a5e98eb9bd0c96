// P11: norms satisfy the laws of T-norms and S-norms and their own formulas.
#include "build.h"
using namespace pbt;

static double degree(Src& s) {
    if (s.chance(1, 3))
        return s.oneOf(std::vector<double>{0, 1, 0.5, 0.25, 0.75, 0.1, 0.9});
    if (s.chance(1, 6))
        return s.oneOf(std::vector<double>{1e-7, 1e-3, 1 - 1e-3, 1 - 1e-7, 1e-12, 0.5 + 1e-9});
    return s.unit();
}
static bool in(double x) { return x >= -1e-9 && x <= 1 + 1e-9; }

static void laws(Case& c, bool t) {
    Src& s = c.src;
    std::string n = s.oneOf(t ? model::tnorms() : model::snorms());
    std::unique_ptr<fl::Norm> norm(build::norm(n));
    double a = degree(s), b = degree(s), d = degree(s);
    c.note([&] { return n + " " + str(a) + " " + str(b) + " " + str(d); });
    c.check(norm->className() == n, "class", "class of " + n + " is " + norm->className());
    double ab = norm->compute(a, b);
    // jumps of the drastic and nilpotent norms are within the tolerance of comparisons
    model::fragile = false;
    double want = model::norm(n, a, b);
    bool hamacherNear = n == "HamacherSum" && a * b > 1 - 1e-4;
    if (!model::fragile || hamacherNear)
        c.checkf(close(ab, want, 1e-9, hamacherNear ? 1e-4 : 1e-9), "formula", [&] { return n + "(" + str(a) + ", " + str(b) + ") = " + str(ab) + " instead of " + str(want); });
    c.checkf(close(norm->compute(b, a), ab, 1e-9, 1e-9), "commutative", [&] { return n + "(" + str(b) + ", " + str(a) + ") = " + str(norm->compute(b, a)) + ", reversed " + str(ab); });
    if (n != "UnboundedSum")
        c.checkf(in(ab), "bounds", [&] { return n + "(" + str(a) + ", " + str(b) + ") = " + str(ab) + " is not in [0, 1]"; });
    double neutral = t ? 1 : 0, zero = t ? 0 : 1;
    c.checkf(close(norm->compute(a, neutral), a, 1e-9, 1.1e-6) && close(norm->compute(neutral, a), a, 1e-9, 1.1e-6), "neutral",
        [&] { return n + "(" + str(a) + ", " + str(neutral) + ") = " + str(norm->compute(a, neutral)); });
    if (n != "UnboundedSum")
        c.checkf(close(norm->compute(a, zero), zero, 1e-9, 1.1e-6), "annihilator", [&] { return n + "(" + str(a) + ", " + str(zero) + ") = " + str(norm->compute(a, zero)); });
    if (t)
        c.checkf(ab <= std::min(a, b) + 1.1e-6, "minimum", [&] { return n + "(" + str(a) + ", " + str(b) + ") = " + str(ab) + " exceeds the minimum"; });
    else
        c.checkf(ab >= std::max(a, b) - 1.1e-6, "maximum", [&] { return n + "(" + str(a) + ", " + str(b) + ") = " + str(ab) + " is below the maximum"; });
    double lo = std::min(b, d), hi = std::max(b, d);
    c.checkf(norm->compute(a, lo) <= norm->compute(a, hi) + 1.1e-6, "monotonic",
        [&] { return n + "(" + str(a) + ", " + str(lo) + ") = " + str(norm->compute(a, lo)) + " > " + n + "(" + str(a) + ", " + str(hi) + ") = " + str(norm->compute(a, hi)); });
    // clone and factory give the same norm
    std::unique_ptr<fl::Norm> k(norm->clone());
    c.check(same(k->compute(a, b), ab) && k->className() == n, "clone", "a clone of " + n + " computes another value");
    fl::FactoryManager* f = fl::FactoryManager::instance();
    std::unique_ptr<fl::Norm> q(t ? (fl::Norm*)f->tnorm()->constructObject(n) : (fl::Norm*)f->snorm()->constructObject(n));
    c.check(q && same(q->compute(a, b), ab) && q->className() == n, "factory", "the " + n + " of the factory computes another value");
    c.label(n);
    c.nontrivial(a > 1e-6 && a < 1 - 1e-6 && b > 1e-6 && b < 1 - 1e-6);
}

static void duals(Case& c) {
    Src& s = c.src;
    static const std::vector<std::pair<std::string, std::string>> pairs = {
        {"Minimum", "Maximum"}, {"AlgebraicProduct", "AlgebraicSum"}, {"BoundedDifference", "BoundedSum"}, {"DrasticProduct", "DrasticSum"},
        {"EinsteinProduct", "EinsteinSum"}, {"HamacherProduct", "HamacherSum"}, {"NilpotentMinimum", "NilpotentMaximum"}};
    auto p = s.oneOf(pairs);
    double a = degree(s), b = degree(s);
    c.note([&] { return p.first + " " + p.second + " " + str(a) + " " + str(b); });
    std::unique_ptr<fl::TNorm> T(build::tnorm(p.first));
    std::unique_ptr<fl::SNorm> S(build::snorm(p.second));
    model::fragile = false;
    model::cmp(a + b, 1);
    for (double q : {a, b}) {
        model::cmp(q, 0);
        model::cmp(q, 1);
    }
    if (model::fragile || std::fabs(a + b - 1) < 1e-5)
        c.discard();
    double t = T->compute(a, b), u = 1 - S->compute(1 - a, 1 - b);
    c.checkf(close(t, u, 1e-7, 1e-7), "dual", [&] { return p.first + "(" + str(a) + ", " + str(b) + ") = " + str(t) + ", complement of " + p.second + " of complements " + str(u); });
    c.nontrivial(a > 1e-6 && a < 1 - 1e-6 && b > 1e-6 && b < 1 - 1e-6);
    c.label(p.first);
}

static void formulas(Case& c) {
    Src& s = c.src;
    model::ExprP e = model::genTameFormula(s, {"a", "b"}, 3), e2 = model::genTameFormula(s, {"a", "b"}, 2);
    std::string text = model::infix(e, &s), text2 = model::infix(e2);
    double a = degree(s), b = degree(s);
    c.note([&] { return text + " at " + str(a) + " " + str(b) + "; then " + text2; });
    auto value = [&](const model::ExprP& x, double p, double q) {
        model::Env env = {{"a", p}, {"b", q}};
        return model::eval(x, env);
    };
    bool t = s.coin();
    auto set = [&](fl::Norm* n, const std::string& f) { t ? static_cast<fl::TNormFunction*>(n)->setFormula(f) : static_cast<fl::SNormFunction*>(n)->setFormula(f); };
    auto get = [&](fl::Norm* n) { return t ? static_cast<fl::TNormFunction*>(n)->getFormula() : static_cast<fl::SNormFunction*>(n)->getFormula(); };
    std::unique_ptr<fl::Norm> n(t ? (fl::Norm*)new fl::TNormFunction(text) : (fl::Norm*)new fl::SNormFunction(text));
    auto at = [&](fl::Norm* x, const model::ExprP& ex, const char* what) {
        for (int i = 0; i < 2; ++i) {
            double p = i ? b : a, q = i ? a : b, want = value(ex, p, q), got = x->compute(p, q);
            c.checkf(close(got, want, 1e-9, 1e-9), "function", [&] { return std::string(what) + " at " + str(p) + ", " + str(q) + " is " + str(got) + " instead of " + str(want); });
        }
    };
    at(n.get(), e, "norm by formula");
    c.check(get(n.get()) == text, "formula-text", "formula not kept");
    std::unique_ptr<fl::Norm> k(n->clone());
    at(k.get(), e, "clone");
    set(n.get(), text2);
    at(n.get(), e2, "norm by second formula");
    at(k.get(), e, "clone after changing the original");
    n.reset();
    at(k.get(), e, "clone after deleting the original");
    c.nontrivial(text.find("a") != std::string::npos && text.find("b") != std::string::npos);
    c.label(t ? "TNormFunction" : "SNormFunction");
}

int main(int argc, char** argv) {
    std::string rule = "both degrees strictly between 0 and 1";
    return pbt::main(argc, argv, "P11", {
        {"t-norms", [](Case& c) { laws(c, true); }, 200000, 5000000, rule},
        {"s-norms", [](Case& c) { laws(c, false); }, 200000, 5000000, rule},
        {"duals", duals, 60000, 1000000, rule},
        {"formulas", formulas, 20000, 500000, "the formula depends on both degrees"},
    });
}
