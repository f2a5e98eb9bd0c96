// P12: hedges compute their documented modifiers.
#include "build.h"
using namespace pbt;

static fl::Hedge* make(const std::string& n) {
    if (n == "any") return new fl::Any;
    if (n == "not") return new fl::Not;
    if (n == "very") return new fl::Very;
    if (n == "somewhat") return new fl::Somewhat;
    if (n == "extremely") return new fl::Extremely;
    return new fl::Seldom;
}
static double degree(Src& s) {
    if (s.chance(1, 3))
        return s.oneOf(std::vector<double>{0, 1, 0.5, 0.25, 0.75, 0.1, 0.9});
    if (s.chance(1, 4))
        return s.oneOf(std::vector<double>{1e-7, 1e-3, 1 - 1e-3, 1 - 1e-7, 1e-12, 0.5 + 1e-9, 0.5 - 1e-9, 0.5 + 2e-6, 0.501, 0.499});
    return s.unit();
}

static void hedges(Case& c) {
    Src& s = c.src;
    std::vector<std::string> names(model::hedges());
    names.push_back("any");
    std::string n = s.oneOf(names);
    std::unique_ptr<fl::Hedge> h(make(n));
    double a = degree(s), b = degree(s);
    if (s.chance(1, 12)) {  // beyond the degrees, which weights over one lead to, the formulas hold as well
        double x = s.num(-1, 3), y = h->hedge(x), z = model::hedge(n, x);
        c.checkf(std::isnan(z) ? std::isnan(y) : close(y, z, 1e-9, 1e-9 + (std::fabs(x - 0.5) < 1e-5 ? 1e-5 : 0)), "value", [&] { return n + "(" + str(x) + ") = " + str(y) + " instead of " + str(z); });
        return;
    }
    c.note([&] { return n + " " + str(a) + " " + str(b); });
    c.check(h->name() == n, "name", "hedge " + n + " is named " + h->name());
    double ya = h->hedge(a), yb = h->hedge(b), want = model::hedge(n, a);
    c.checkf(close(ya, want, 1e-9, 1e-9 + (std::fabs(a - 0.5) < 1e-5 ? 1e-5 : 0)), "value", [&] { return n + "(" + str(a) + ") = " + str(ya) + " instead of " + str(want); });
    c.checkf(ya >= 0 && ya <= 1, "bounds", [&] { return n + "(" + str(a) + ") = " + str(ya); });
    if (n != "any" && a != b) {
        double lo = std::min(a, b) == a ? ya : yb, hi = std::min(a, b) == a ? yb : ya;
        c.checkf(n == "not" ? lo >= hi - 1e-9 : lo <= hi + 1e-6, "order", [&] { return n + " changes the order of " + str(a) + " and " + str(b); });
    }
    if (n == "any")
        c.check(h->hedge(model::NaN) == 1.0, "any", "any of nan is not one");
    if (n == "not")
        c.check(close(h->hedge(ya), a, 1e-12, 1e-12), "involution", "not not " + str(a) + " = " + str(h->hedge(ya)));
    if (n == "very" || n == "extremely") {
        std::unique_ptr<fl::Hedge> inv(make(n == "very" ? "somewhat" : "seldom"));
        c.checkf(close(inv->hedge(ya), a, 1e-6, 2e-6), "inverse", [&] { return inv->name() + " " + n + " " + str(a) + " = " + str(inv->hedge(ya)); });
    }
    std::unique_ptr<fl::Hedge> k(h->clone());
    c.check(same(k->hedge(a), ya) && k->name() == n, "clone", "a clone of " + n + " is another hedge");
    std::unique_ptr<fl::Hedge> f(fl::FactoryManager::instance()->hedge()->constructObject(n));
    c.check(f && same(f->hedge(a), ya) && f->name() == n, "factory", "the factory's " + n + " is another hedge");
    c.label(n);
    c.nontrivial(a > 1e-6 && a < 1 - 1e-6);
}

static void formulas(Case& c) {
    Src& s = c.src;
    model::ExprP e = model::genTameFormula(s, {"x"}, 3), e2 = model::genTameFormula(s, {"x"}, 2);
    std::string text = model::infix(e, &s), text2 = model::infix(e2);
    double x = degree(s);
    c.note([&] { return text + " at " + str(x) + "; then " + text2; });
    std::unique_ptr<fl::HedgeFunction> h(new fl::HedgeFunction(text));
    auto at = [&](fl::HedgeFunction* q, const model::ExprP& ex, const char* what) {
        double want = model::eval(ex, {{"x", x}}), got = q->hedge(x);
        c.checkf(close(got, want, 1e-9, 1e-9), "function", [&] { return std::string(what) + " is " + str(got) + " instead of " + str(want); });
    };
    at(h.get(), e, "hedge by formula");
    c.check(h->getFormula() == text, "formula-text", "formula not kept");
    std::unique_ptr<fl::HedgeFunction> k(h->clone());
    at(k.get(), e, "clone");
    h->setFormula(text2);
    at(h.get(), e2, "hedge by second formula");
    at(k.get(), e, "clone after changing the original");
    h.reset();
    at(k.get(), e, "clone after deleting the original");
    c.nontrivial(text.find("x") != std::string::npos);
    c.label("HedgeFunction");
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P12", {
        {"hedges", hedges, 300000, 5000000, "the degree is strictly between 0 and 1"},
        {"formulas", formulas, 20000, 500000, "the formula depends on x"},
    });
}
