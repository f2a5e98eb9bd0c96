// P30: fuzzification reports the memberships of all terms, and the highest one.
#include "build.h"
#include <algorithm>
using namespace pbt;

struct Decimals {
    int d;
    explicit Decimals(int n) : d(n) { fl::fuzzylite::setDecimals(n); }
    ~Decimals() { fl::fuzzylite::setDecimals(3); }
};
static std::string number(double x, int decimals) {
    if (std::isnan(x))
        return "nan";
    if (std::isinf(x))
        return "inf";
    if (x < std::pow(10.0, -decimals))
        x = 0;
    return strf("%.*f", decimals, x);
}
// the documented text: magnitude/term, joined by signs
static std::string render(const std::vector<std::pair<double, std::string>>& v, int decimals) {
    std::string r;
    for (size_t i = 0; i < v.size(); ++i) {
        bool negative = v[i].first < 0;
        r += i == 0 ? (negative ? "-" : "") : negative ? " - " : " + ";
        r += number(std::fabs(v[i].first), decimals) + "/" + v[i].second;
    }
    return r;
}

// a term that answers what it is told
struct Told : fl::Term {
    double y;
    bool raises;
    Told(const std::string& n, double v, bool r) : fl::Term(n), y(v), raises(r) {}
    std::string className() const override { return "Told"; }
    std::string parameters() const override { return ""; }
    void configure(const std::string&) override {}
    double membership(double) const override {
        if (raises)
            throw fl::Exception("no membership");
        return y;
    }
    Told* clone() const override { return new Told(*this); }
};

static void check(Case& c, const fl::Variable& v, double x, const std::vector<double>& mu, int decimals) {
    std::vector<std::pair<double, std::string>> parts;
    for (size_t i = 0; i < mu.size(); ++i)
        parts.push_back({mu[i], v.getTerm(i)->getName()});
    std::string expect = render(parts, decimals), got = v.fuzzify(x);
    c.checkf(got == expect, "text", [&] { return str(x) + " is <" + got + "> instead of <" + expect + ">"; });
    auto all = v.activations(x);
    c.check(all.size() == mu.size(), "activations", "another number of activations");
    double best = 0;
    for (size_t i = 0; i < mu.size(); ++i) {
        c.checkf(all[i].getTerm() == v.getTerm(i) && same(all[i].getDegree(), mu[i]), "activations", [&] { return "activation " + std::to_string(i) + " at " + str(x); });
        if (mu[i] > best)
            best = mu[i];
    }
    std::vector<const fl::Term*> top, listed;
    if (best > 0)
        for (size_t i = 0; i < mu.size(); ++i)
            if (mu[i] == best)
                top.push_back(v.getTerm(i));
    for (auto& a : v.maxActivations(x)) {
        listed.push_back(a.getTerm());
        c.checkf(a.getDegree() == best, "highest", [&] { return "a listed term has degree " + str(a.getDegree()) + " instead of " + str(best); });
    }
    c.checkf(listed == top, "highest", [&] { return std::to_string(listed.size()) + " terms are listed as highest at " + str(x) + " instead of " + std::to_string(top.size()) + " terms, or others"; });
    double y = 17;
    const fl::Term* h = v.highestMembership(x, &y);
    c.check(v.highestMembership(x) == h, "highest", "asking for the degree changes the answer");
    if (top.empty())
        c.checkf(!h && std::isnan(y), "highest", [&] { return "all memberships are zero, but " + (h ? h->getName() : "none") + " is highest with " + str(y); });
    else
        c.checkf(h && std::find(top.begin(), top.end(), h) != top.end() && y == best, "highest", [&] { return "highest is " + (h ? h->getName() : "none") + " with " + str(y) + " instead of " + top[0]->getName() + " with " + str(best); });
}

static void variables(Case& c) {
    Src& s = c.src;
    int decimals = s.coin() ? 3 : s.range(0, 9);
    Decimals d(decimals);
    bool output = s.coin();
    std::unique_ptr<fl::Variable> v(output ? (fl::Variable*)new fl::OutputVariable("v", 0, 1) : new fl::InputVariable("v", 0, 1));
    v->setEnabled(!s.chance(1, 6));
    std::vector<model::Term> terms;
    model::GenOptions o;
    fl::Engine e;
    e.addInputVariable(new fl::InputVariable("a", 0, 1));
    e.getInputVariable(0)->setValue(s.num(-2, 2));
    static const std::vector<std::string> names = {"low", "high", "t", "x1", "low"};
    for (int i = s.range(0, 5); i > 0; --i) {
        std::string n = s.oneOf(names);
        switch (s.u(7)) {
            case 0: v->addTerm(new fl::Constant(n, s.num(-2, 2))); break;
            case 1: v->addTerm(new fl::Linear(n, {s.num(-2, 2), s.num(-1, 1)}, &e)); break;
            case 2: v->addTerm(new fl::Function(n, "a * x")); break;  // not loaded: no membership
            case 3: v->addTerm(fl::Function::create(n, "a * x - 0.25", &e)); break;
            default: v->addTerm(build::term(model::genMamdaniTerm(s, n, 0, 1, o), nullptr));
        }
        c.note([&] { return v->terms().back()->toString(); });
    }
    bool positive = false;
    for (int i = s.range(1, 4); i > 0; --i) {
        double x = s.chance(1, 10) ? model::NaN : s.chance(1, 15) ? model::Inf : s.num(-0.5, 1.5);
        std::vector<double> mu;
        int count = 0;
        for (auto* t : v->terms()) {
            try {
                mu.push_back(t->membership(x));
            } catch (fl::Exception&) {
                mu.push_back(model::NaN);
            }
            count += mu.back() > 0;
        }
        check(c, *v, x, mu, decimals);
        positive = positive || count > 1;
        // of the current value
        if (fl::InputVariable* in = dynamic_cast<fl::InputVariable*>(v.get())) {
            in->setLockValueInRange(s.coin());
            in->setValue(x);
            double now = in->isLockValueInRange() ? (x < 0 ? 0 : x > 1 ? 1 : x) : x;
            c.check(same(in->getValue(), now), "value", "the value is " + str(in->getValue()) + " instead of " + str(now));
            c.checkf(in->fuzzyInputValue() == in->fuzzify(now), "value", [&] { return "the fuzzy value of " + str(now) + " is " + in->fuzzyInputValue(); });
        }
    }
    c.label(output ? "output" : "input");
    c.nontrivial(positive);
}

// any memberships: ties, negative, special values
static void told(Case& c) {
    Src& s = c.src;
    int decimals = s.coin() ? 3 : s.range(0, 9);
    Decimals d(decimals);
    fl::InputVariable v("v", 0, 1);
    std::vector<double> mu;
    static const std::vector<double> values = {0, -0.0, 0.5, 0.25, 1, -1, -0.5, 2, 1e-9, -1e-9, 0.0004, 0.0005, 0.9995, 1e-300, 0.5000000001, 0.1, 0.001};
    int positive = 0;
    for (int i = s.range(0, 6); i > 0; --i) {
        bool raises = s.chance(1, 8);
        double y = raises ? model::NaN : s.chance(1, 8) ? s.anyDouble() : s.oneOf(values);
        if (std::fabs(y) > 1e15 && std::isfinite(y))
            y = 1e6;
        mu.push_back(y);
        v.addTerm(new Told("t" + std::to_string(i), y, raises));
        c.note([&] { return str(y); });
        positive += y > 0;
    }
    check(c, v, s.num(0, 1), mu, decimals);
    c.nontrivial(positive > 1);
}

// fuzzy values of outputs: all terms in order, with their aggregated activation degrees
static void outputs(Case& c) {
    Src& s = c.src;
    int decimals = s.coin() ? 3 : s.range(0, 9);
    Decimals d(decimals);
    fl::OutputVariable v("v", 0, 1);
    int n = s.range(1, 4);
    model::fragile = false;
    for (int i = 0; i < n; ++i)
        v.addTerm(new fl::Triangle("t" + std::to_string(i), 0, 0.5, 1));
    std::string agg = s.coin() ? s.oneOf(model::snorms()) : "";
    v.setAggregation(build::snorm(agg));
    std::vector<double> degree(n, 0);
    std::vector<int> count(n, 0);
    for (int i = s.range(0, 6); i > 0; --i) {
        int k = (int)s.u(n);
        double y = s.unit();
        v.fuzzyOutput()->addTerm(v.getTerm(k), y, nullptr);
        degree[k] = !count[k] ? y : agg.empty() ? degree[k] + y : model::snorm(agg, degree[k], y);
        ++count[k];
        c.note([&] { return "t" + std::to_string(k) + " activated with " + str(y); });
    }
    if (model::fragile)
        c.discard();
    std::string before = v.fuzzyOutput()->toString();
    std::string got = v.fuzzyOutputValue();
    // numbers are read back, as the reference may differ in the last digit
    std::string shape, expect;
    std::vector<double> read;
    std::istringstream in(got);
    std::string token;
    while (in >> token) {
        size_t slash = token.find('/');
        if (slash == std::string::npos) {
            shape += token + " ";
            continue;
        }
        read.push_back(strtod(token.c_str(), nullptr));
        c.checkf(number(read.back(), decimals) == token.substr(0, slash), "text", [&] { return "number " + token + " in " + got; });
        shape += token.substr(slash) + " ";
    }
    for (int i = 0; i < n; ++i)
        expect += (i ? "+ /t" : "/t") + std::to_string(i) + " ";
    c.checkf(shape == expect, "text", [&] { return "<" + got + "> does not have all terms in order"; });
    int two = 0;
    for (int i = 0; i < n; ++i) {
        double e = degree[i] < std::pow(10.0, -decimals) ? 0 : degree[i];
        bool edge = std::fabs(degree[i] - std::pow(10.0, -decimals)) < 1e-12;
        c.checkf(edge || std::fabs(read[i] - e) <= 0.5000001 * std::pow(10.0, -decimals) + 1e-12, "degree", [&] { return "term " + std::to_string(i) + " has " + str(degree[i]) + " but the fuzzy output is " + got; });
        two += count[i] > 1;
    }
    c.check(v.fuzzyOutput()->toString() == before, "changed", "asking changed the fuzzy output");
    c.nontrivial(two > 0);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P30", {
        {"variables", variables, 40000, 1500000, "at least two terms with positive membership at some value"},
        {"memberships", told, 40000, 1500000, "at least two positive memberships"},
        {"outputs", outputs, 30000, 1000000, "a term was activated more than once"},
    });
}
