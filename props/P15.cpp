// P15: term parameters, configuration and copies round-trip.
#include "build.h"
using namespace pbt;

static const std::vector<std::string>& classes() {
    static std::vector<std::string> v;
    if (v.empty()) {
        v = model::mamdaniTerms();
        for (auto& x : {"Constant", "Linear", "Function"})
            v.push_back(x);
    }
    return v;
}
struct Decimals {
    explicit Decimals(int d) { fl::fuzzylite::setDecimals(d); }
    ~Decimals() { fl::fuzzylite::setDecimals(3); }
};
static fl::Engine& engine() {
    static fl::Engine* e = nullptr;
    if (!e) {
        e = new fl::Engine("e");
        for (auto& n : {"a", "b"}) {
            e->addInputVariable(new fl::InputVariable(n, 0, 1));
            e->getInputVariable(n)->setValue(n[0] == 'a' ? 0.25 : -3);
        }
    }
    return *e;
}
static model::Term gen(Src& s, const std::string& cls, int decimals) {
    model::GenOptions o;
    o.tall = true;
    double lo = s.num(-20, 20), hi = lo + s.oneOf(std::vector<double>{1, 10, 100, 2000});
    model::Term t;
    if (cls == "Linear") {
        t.cls = cls;
        int n = s.range(1, 4);
        for (int i = 0; i < n; ++i)
            t.p.push_back(s.num(-9, 9));
    } else if (cls == "Function") {
        t.cls = cls;
        t.formula = model::genTameFormula(s, {"a", "b", "x"}, 3);
        t.formulaText = model::infix(t.formula, &s);
    } else
        t = model::genTerm(s, cls, "t", lo, hi, o);
    t.name = s.oneOf(std::vector<std::string>{"t", "high", "x_1", "A.b"});
    if (cls != "Constant" && cls != "Linear" && cls != "Function" && s.chance(1, 4))
        t.height = s.oneOf(std::vector<double>{0.5, 2, 0.001, 1.5, 0.999});
    if (cls != "Function" && s.chance(1, 6)) {  // unusual numbers
        double x = s.oneOf(std::vector<double>{model::NaN, model::Inf, -model::Inf, 1e6, -123456.789, 0.001, -0.001, 0.0});
        if (std::isnan(x) && (cls == "Triangle" || cls == "Trapezoid"))
            x = 7;  // their constructors complete missing vertices
        if (cls == "Discrete")
            t.xy[s.u(t.xy.size())].second = x;
        else
            t.p[s.u(t.p.size())] = x;
    }
    if (decimals > 3) {  // more digits than usual
        double scale = std::pow(10.0, decimals);
        auto more = [&](double& x) {
            if (std::isfinite(x) && std::fabs(x) < 1e5)
                x = std::round((x + s.u(1000) * 1e-6) * scale) / scale;
        };
        for (double& x : t.p)
            more(x);
        for (auto& x : t.xy)
            more(x.second);
    }
    return t;
}
static double member(const fl::Term* t, double x, std::string& error) {
    try {
        return t->membership(x);
    } catch (fl::Exception& e) {
        error = e.what();
        return model::NaN;
    }
}
static std::string compare(const fl::Term* a, const fl::Term* b, const std::vector<double>& xs, bool exact, bool* nontrivial = nullptr) {
    for (double x : xs) {
        std::string ea, eb;
        double ya = member(a, x, ea), yb = member(b, x, eb);
        if (ea.empty() != eb.empty())
            return "membership(" + str(x) + ") raises in one only: " + ea + eb;
        if (exact ? !same(ya, yb) : !(close(ya, yb, 1e-9, 1e-9) || same(ya, yb)))
            return "membership(" + str(x) + ") is " + str(ya) + " and " + str(yb);
        if (nontrivial && ya > 0 && ya < 1)
            *nontrivial = true;
    }
    return "";
}
static std::vector<double> points(Src& s, const model::Term& t) {
    std::vector<double> r;
    for (double p : t.p)
        r.push_back(p);
    for (auto& p : t.xy)
        r.push_back(p.first);
    for (int i = 0; i < 6; ++i)
        r.push_back(s.num(-40, 120));
    size_t n = r.size();
    for (size_t i = 1; i < n; ++i)
        r.push_back((r[i] + r[i - 1]) / 2);
    r.push_back(model::NaN);
    r.push_back(model::Inf);
    return r;
}
static fl::Term* construct(const std::string& cls, const fl::Engine* e) {
    fl::Term* t = fl::FactoryManager::instance()->term()->constructObject(cls);
    t->updateReference(e);
    return t;
}

static void roundtrip(Case& c) {
    Src& s = c.src;
    std::string cls = s.oneOf(classes());
    int decimals = s.chance(1, 3) ? s.range(3, 9) : 3;
    Decimals d(decimals);
    model::Term m = gen(s, cls, decimals);
    std::unique_ptr<fl::Term> t(build::term(m, &engine()));
    std::string text = t->parameters();
    c.note([&] { return strf("decimals %d, ", decimals) + cls + " " + m.name + ": " + text; });
    c.check(t->className() == cls && t->getName() == m.name, "name", "class or name of " + cls + " " + m.name + " is " + t->className() + " " + t->getName());
    if (decimals == 3)
        c.check(text == model::termParameters(m), "text", cls + " reports <" + text + "> instead of <" + model::termParameters(m) + ">");
    // configure a fresh one
    std::unique_ptr<fl::Term> f(construct(cls, &engine()));
    f->setName("fresh");
    try {
        f->configure(text);
    } catch (fl::Exception& e) {
        c.fail("rejected", cls + " rejects its own parameters <" + text + ">: " + e.what());
    }
    c.check(f->parameters() == text, "fixpoint", cls + " configured with <" + text + "> reports <" + f->parameters() + ">");
    c.check(f->getName() == "fresh", "name", "configuring changed the name of " + cls);
    if (cls != "Constant" && cls != "Linear" && cls != "Function")
        c.checkf(same(f->getHeight(), m.height), "height", [&] { return cls + " configured with <" + text + "> has height " + str(f->getHeight()) + " instead of " + str(m.height); });
    auto xs = points(s, m);
    bool nontrivial = false;
    std::string diff = compare(t.get(), f.get(), xs, false, &nontrivial);
    c.check(diff.empty(), "membership", cls + " <" + text + "> and the one configured with it: " + diff);
    // through the native language
    if (!t->getName().empty()) {
        std::string line = t->toString();
        c.check(line == "term: " + m.name + " " + cls + (text.empty() ? "" : " " + text), "line", "text of the term is <" + line + ">");
    }
    // default configuration text does nothing
    if (cls != "Function") {
        f->configure("");
        c.check(f->parameters() == text, "empty", cls + " changes with empty parameters");
    }
    c.nontrivial(m.height != 1 || !m.p.empty() || !m.xy.empty() || cls == "Function");
    c.label(cls);
    c.label(nontrivial ? "strictly between 0 and 1" : "crisp");
}

static void copies(Case& c) {
    Src& s = c.src;
    std::string cls = s.oneOf(classes());
    model::Term m = gen(s, cls, 3), m2 = gen(s, cls, 3);
    std::unique_ptr<fl::Term> t(build::term(m, &engine()));
    std::unique_ptr<fl::Term> k(t->clone());
    auto xs = points(s, m);
    c.note([&] { return model::describe(m) + " then " + model::describe(m2); });
    auto equalTo = [&](fl::Term* a, const char* what) {
        std::unique_ptr<fl::Term> fresh(build::term(m, &engine()));
        c.check(a->className() == cls && a->getName() == m.name && same(a->getHeight(), fresh->getHeight()) && a->parameters() == fresh->parameters(), what,
            std::string(what) + ": " + a->toString() + " instead of " + fresh->toString());
        std::string diff = compare(a, fresh.get(), xs, true);
        c.check(diff.empty(), what, std::string(what) + " " + model::describe(m) + ": " + diff);
        c.check(a->isMonotonic() == fresh->isMonotonic(), what, std::string(what) + ": monotonic");
    };
    equalTo(k.get(), "clone");
    std::unique_ptr<fl::Term> other(build::term(m2, &engine()));
    auto assign = [&](fl::Term* a, fl::Term* b) {
        // assignment of the concrete class
#define T(X) if (auto* p = dynamic_cast<fl::X*>(a)) { *p = *static_cast<fl::X*>(b); return; }
        T(Bell) T(Binary) T(Concave) T(Constant) T(Cosine) T(Discrete) T(Function) T(Gaussian) T(GaussianProduct) T(Linear) T(PiShape) T(Ramp)
        T(Rectangle) T(SShape) T(Sigmoid) T(SigmoidDifference) T(SigmoidProduct) T(Spike) T(Trapezoid) T(Triangle) T(ZShape)
#undef T
    };
    assign(other.get(), t.get());
    equalTo(other.get(), "assigned");
    // change the original, and the copies stay
    t->setName("changed");
    t->setHeight(0.125);
    std::string p2;
    {
        std::unique_ptr<fl::Term> x(build::term(m2, &engine()));
        p2 = x->parameters();
    }
    t->configure(p2);
    equalTo(k.get(), "clone after changing the original");
    equalTo(other.get(), "assigned after changing the original");
    bool changed = t->parameters() != k->parameters();
    t.reset();
    equalTo(k.get(), "clone after deleting the original");
    // a clone of a clone, changed
    std::unique_ptr<fl::Term> kk(k->clone());
    kk->configure(p2);
    equalTo(k.get(), "original after changing the clone");
    k.reset();
    equalTo(other.get(), "assigned after deleting everything else");
    c.nontrivial(changed);
    c.label(cls);
}

static void rejected(Case& c) {
    Src& s = c.src;
    std::string cls = s.oneOf(classes());
    if (cls == "Function")
        cls = "Triangle";
    model::Term m = gen(s, cls, 3);
    m.height = s.coin() ? 1 : 0.5;
    if (cls == "Constant" || cls == "Linear")
        m.height = 1;
    std::string text = model::termParameters(m);
    std::vector<std::string> t;
    std::istringstream in(text);
    for (std::string w; in >> w;)
        t.push_back(w);
    std::string kind;
    size_t required = cls == "Discrete" || cls == "Linear" ? 1 : m.p.size();
    if (required > 1 && s.coin()) {
        t.resize(1 + s.u(required - 1));
        kind = "too few parameters";
    } else {
        t[s.u(t.size())] = s.oneOf(std::vector<std::string>{"abc", "1.2.3", "--1", "1,5", "NaN?", "five", "1e", "1.0x", "+-2", "true", "(1)"});
        kind = "not a number";
    }
    text = fl::Op::join(t, " ");
    c.note([&] { return kind + ": " + cls + " <" + text + ">"; });
    std::unique_ptr<fl::Term> f(construct(cls, &engine()));
    bool raised = false;
    try {
        f->configure(text);
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    } catch (std::exception& e) {
        c.fail("foreign-exception", cls + " <" + text + "> raised " + e.what());
    }
    c.check(raised, "accepted", kind + ": " + cls + " accepts <" + text + ">, and reports <" + f->parameters() + ">");
    // and still works with correct ones
    m.height = m.height == 1 ? 0.5 : m.height;
    if (cls == "Constant" || cls == "Linear")
        m.height = 1;
    f->configure(model::termParameters(m));
    c.check(f->parameters() == model::termParameters(m), "recovery", cls + " reports <" + f->parameters() + "> after a failed configuration and <" + model::termParameters(m) + ">");
    c.nontrivial(true);
    c.label(kind);
    c.label(cls);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P15", {
        {"roundtrip", roundtrip, 60000, 2000000, "a parameter or height that is not a default"},
        {"copies", copies, 30000, 1000000, "the original was changed to other parameters"},
        {"rejected", rejected, 30000, 500000, "every text has exactly one fault"},
    });
}
