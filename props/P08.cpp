// P08: weighted defuzzifiers average or add the activated terms.
#include "build.h"
#include <algorithm>
using namespace pbt;

static void weighted(Case& c, int kind) {
    Src& s = c.src;
    fl::Engine engine("e");
    int ni = s.range(1, 3);
    model::World w;
    std::vector<std::string> names;
    for (int i = 0; i < ni; ++i) {
        std::string n = "in" + std::to_string(i);
        double x = s.num(-5, 5);
        engine.addInputVariable(new fl::InputVariable(n, -10, 10));
        engine.getInputVariable(i)->setValue(x);
        w.inputs.push_back(x);
        w.env[n] = x;
        names.push_back(n);
    }
    double lo = -10, hi = 20;
    int nt = s.range(1, 5);
    std::vector<model::Term> terms;
    model::GenOptions o;
    for (int i = 0; i < nt; ++i) {
        std::string n = "t" + std::to_string(i);
        int k = kind == 3 ? (int)s.u(3) : kind;
        if (k == 1)
            terms.push_back(model::genTerm(s, s.oneOf(model::monotonicTerms()), n, lo, hi, o));
        else if (k == 2)
            terms.push_back(model::genMamdaniTerm(s, n, lo, hi, o));
        else {
            int q = (int)s.u(3);
            model::Term t;
            t.name = n;
            if (q == 0) {
                t.cls = "Constant";
                t.p = {s.num(lo, hi)};
            } else if (q == 1) {
                t.cls = "Linear";
                int m = s.range(1, ni + 1);
                for (int z = 0; z < m; ++z)
                    t.p.push_back(s.num(-5, 5));
            } else {
                t.cls = "Function";
                std::vector<std::string> vars(names);
                vars.push_back("x");
                t.formula = model::genTameFormula(s, vars, 2);
                t.formulaText = model::infix(t.formula);
            }
            terms.push_back(t);
        }
    }
    std::vector<std::unique_ptr<fl::Term>> owned;
    for (auto& t : terms)
        owned.emplace_back(build::term(t, &engine));
    std::string aggregation = s.coin() ? "" : s.oneOf(model::snorms());
    model::Variable v;
    v.defuzzifier = s.coin() ? "WeightedSum" : "WeightedAverage";
    v.weightedType = s.chance(1, 2) ? "Automatic" : kind == 1 ? "Tsukamoto" : "TakagiSugeno";
    if (kind == 3)
        v.weightedType = s.chance(3, 4) ? "Automatic" : "TakagiSugeno";
    fl::Aggregated a("a", lo, hi, build::snorm(aggregation));
    int n = s.chance(1, 20) ? 0 : s.range(1, 6);
    std::vector<model::Activated> list;
    static const std::vector<double> grid = {0, 0.125, 0.25, 0.5, 0.75, 1};
    fl::Minimum min;
    for (int i = 0; i < n; ++i) {
        int t = (int)s.u(nt);
        double degree = s.coin() ? s.oneOf(grid) : std::round(s.unit() * 1e4) / 1e4;
        list.push_back({&terms[t], degree, ""});
        a.addTerm(owned[t].get(), degree, s.coin() ? &min : nullptr);
        c.note([&] { return str(degree) + "/" + model::describe(terms[t]); });
    }
    c.note([&] { return v.defuzzifier + " " + v.weightedType + " aggregation " + aggregation + " inputs " + build::show(w.inputs); });
    std::unique_ptr<fl::Defuzzifier> d(build::defuzzifier(v));
    auto eval = [&](const fl::Term* t) {
        try {
            return d->defuzzify(t, lo, hi);
        } catch (fl::Exception& x) {
            throw model::RefError{x.what()};
        }
    };
    bool refRejects = false, rejects = false;
    double want = model::NaN, got = model::NaN;
    model::fragile = false;
    try {
        want = model::weightedDefuzzify(v.defuzzifier, v.weightedType, aggregation, list, w);
    } catch (model::RefError&) {
        refRejects = true;
    }
    try {
        got = eval(&a);
    } catch (model::RefError& x) {
        rejects = true;
    }
    c.note([&] { return "result " + str(got) + " reference " + str(want); });
    c.checkf(rejects == refRejects, "rejection", [&] { return rejects ? "rejected" : "accepted although the type cannot be inferred"; });
    c.label(v.defuzzifier + (rejects ? " rejected" : ""));
    if (rejects)
        return;
    if (n == 0)
        c.check(std::isnan(got), "empty", "an empty fuzzy set gives " + str(got));
    if (model::fragile)
        return;
    double scale = 1;
    for (auto& g : list) {
        double z = 0;
        try {
            z = model::isTakagiSugeno(g.term->cls) ? model::membership(*g.term, g.degree, &w) : 50;
        } catch (model::RefError&) {
        }
        if (std::isfinite(z))
            scale = std::max(scale, std::fabs(z));
    }
    c.checkf(close(got, want, 1e-8, 1e-8 * scale), "value", [&] { return "result " + str(got) + " instead of " + str(want); });
    // permutation of the activations
    fl::Aggregated p("p", lo, hi, build::snorm(aggregation));
    std::vector<int> idx(n);
    for (int i = 0; i < n; ++i)
        idx[i] = i;
    for (int i = n - 1; i > 0; --i)
        std::swap(idx[i], idx[s.u((uint32_t)i + 1)]);
    for (int i : idx)
        p.addTerm(a.getTerm(i));
    double other = eval(&p);
    bool associative = aggregation != "NilpotentMaximum" && aggregation != "DrasticSum" && aggregation != "NormalizedSum";
    if (associative && !model::fragile)
        c.checkf(close(other, got, 1e-6, 1e-6 * scale) , "order", [&] { return "after permuting the activations " + str(other) + " instead of " + str(got); });
    // bounds of averages
    int positive = 0;
    double zmin = model::Inf, zmax = -model::Inf;
    bool tsk = v.weightedType == "TakagiSugeno" || (v.weightedType == "Automatic" && n && model::isTakagiSugeno(list[0].term->cls));
    bool dependsOnDegree = false;
    for (auto& g : list) {
        positive += g.degree > 1e-6;
        if (!tsk || !model::isTakagiSugeno(g.term->cls) || g.term->cls == "Function") {
            dependsOnDegree = true;
            continue;
        }
        double z = model::membership(*g.term, g.degree, &w);
        zmin = std::min(zmin, z);
        zmax = std::max(zmax, z);
    }
    if (v.defuzzifier == "WeightedAverage" && !dependsOnDegree && positive && std::isfinite(zmin + zmax))
        c.checkf(got >= zmin - 1e-6 * scale && got <= zmax + 1e-6 * scale, "bounds", [&] { return "average " + str(got) + " is not in [" + str(zmin) + ", " + str(zmax) + "]"; });
    c.check(same(eval(&a), got), "again", "defuzzifying again gives another value");
    std::unique_ptr<fl::Defuzzifier> k(d->clone());
    c.check(same(k->defuzzify(&a, lo, hi), got), "clone", "a clone gives another value");
    c.nontrivial(positive > 1);
}

static void types(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    // the inferred type of a variable's terms
    fl::OutputVariable v("v", 0, 1);
    int n = s.range(0, 4);
    std::set<std::string> want;
    for (int i = 0; i < n; ++i) {
        model::Term t;
        int k = (int)s.u(3);
        if (k == 0)
            t = model::genTerm(s, "Constant", "t", 0, 1, o);
        else if (k == 1)
            t = model::genTerm(s, s.oneOf(model::monotonicTerms()), "t", 0, 1, o);
        else
            t = model::genMamdaniTerm(s, "t", 0, 1, o);
        want.insert(k == 0 ? "TakagiSugeno" : model::isMonotonic(t.cls) ? "Tsukamoto" : "Automatic");
        v.addTerm(build::term(t, nullptr));
        c.note([&] { return model::describe(t); });
    }
    std::unique_ptr<fl::WeightedDefuzzifier> d(s.coin() ? (fl::WeightedDefuzzifier*)new fl::WeightedAverage : new fl::WeightedSum);
    std::string got;
    try {
        got = fl::WeightedDefuzzifier::typeName(d->inferType(&v));
    } catch (fl::Exception&) {
        got = "rejected";
    }
    std::string expect = n == 0 ? "Automatic" : want.size() > 1 ? "rejected" : *want.begin();
    c.checkf(got == expect, "infer", [&] { return "inferred " + got + " instead of " + expect; });
    // anything but an aggregated term is rejected
    fl::Triangle t("t", 0, 1, 2);
    bool raised = false;
    try {
        d->defuzzify(&t, 0, 1);
    } catch (fl::Exception&) {
        raised = true;
    }
    c.check(raised, "not-aggregated", "a term that is not a fuzzy output was defuzzified");
    std::string name = s.oneOf(std::vector<std::string>{"Automatic", "TakagiSugeno", "Tsukamoto", "automatic", "", "Sugeno"});
    raised = false;
    try {
        d->setType(name);
    } catch (fl::Exception&) {
        raised = true;
    }
    bool valid = name == "Automatic" || name == "TakagiSugeno" || name == "Tsukamoto";
    c.check(raised != valid, "type-name", "type <" + name + ">" + (raised ? " rejected" : " accepted"));
    if (valid)
        c.check(d->getTypeName() == name, "type-kept", "type <" + name + "> not kept");
    c.nontrivial(n > 1);
}

int main(int argc, char** argv) {
    std::string rule = "at least two activations with positive degrees";
    return pbt::main(argc, argv, "P08", {
        {"takagi-sugeno", [](Case& c) { weighted(c, 0); }, 60000, 2000000, rule},
        {"tsukamoto", [](Case& c) { weighted(c, 1); }, 50000, 2000000, rule},
        {"mixed", [](Case& c) { weighted(c, 3); }, 30000, 1000000, rule},
        {"types", types, 20000, 500000, "at least two terms"},
    });
}
