// P36: fuzzy outputs combine activated terms by implication and aggregation.
#include "build.h"
#include <algorithm>
using namespace pbt;

struct Item {
    size_t term = 0;
    double degree = 0;
    std::string implication;  // "" is none
};

struct Bench {
    std::vector<model::Term> specs;
    std::vector<std::unique_ptr<fl::Term>> terms;
    std::map<std::string, std::unique_ptr<fl::TNorm>> implications;
    Bench(Src& s, Case& c) {
        model::GenOptions o;
        static const std::vector<std::string> names = {"low", "high", "mid", "low"};
        for (int i = s.range(1, 4); i > 0; --i) {
            std::string n = s.oneOf(names);
            specs.push_back(s.chance(1, 6) ? model::genTerm(s, "Constant", n, 0, 1, o) : model::genMamdaniTerm(s, n, 0, 1, o));
            terms.emplace_back(build::term(specs.back(), nullptr));
            c.note([&] { return "term " + std::to_string(specs.size() - 1) + ": " + model::describe(specs.back()); });
        }
        for (auto& n : model::tnorms())
            implications[n].reset(build::tnorm(n));
    }
    const fl::TNorm* implication(const std::string& n) { return n.empty() ? nullptr : implications[n].get(); }
    Item gen(Src& s, bool none) {
        Item i;
        i.term = s.u((uint32_t)terms.size());
        i.degree = s.chance(1, 15) ? 1 + s.num(0, 2) : s.unit();
        i.implication = none && s.chance(1, 6) ? "" : s.oneOf(model::tnorms());
        return i;
    }
};
static std::string three(double x) { return strf("%.3f", x < 0.001 ? 0 : x); }

static void history(Case& c) {
    Src& s = c.src;
    model::fragile = false;
    Bench b(s, c);
    std::string aggregation = s.coin() ? s.oneOf(model::snorms()) : "";
    fl::Aggregated a("out", s.num(-1, 0), s.num(1, 2), build::snorm(aggregation));
    std::vector<Item> items;
    bool none = s.chance(1, 4);
    auto activated = [&](const Item& i) { return fl::Activated(b.terms[i.term].get(), i.degree, b.implication(i.implication)); };
    auto text = [&](const Item& i) {
        std::string n = b.specs[i.term].name;
        return i.implication.empty() ? "(" + three(i.degree) + "*" + n + ")" : i.implication + "(" + three(i.degree) + "," + n + ")";
    };
    bool two = false;
    int steps = s.range(1, 10);
    for (int step = 0; step < steps; ++step) {
        std::string what;
        switch (s.u(10)) {
            case 0:
            case 1:
            case 2: {
                Item i = b.gen(s, none);
                what = "add " + text(i);
                if (s.coin())
                    a.addTerm(b.terms[i.term].get(), i.degree, b.implication(i.implication));
                else
                    a.addTerm(activated(i));
                items.push_back(i);
                break;
            }
            case 3: {
                Item i = b.gen(s, none);
                what = "term " + text(i);
                fl::Aggregated& self = a.term(b.terms[i.term].get(), i.degree, b.implication(i.implication));
                c.check(&self == &a, "self", "term() returned another object");
                items.push_back(i);
                break;
            }
            case 4: {
                std::vector<fl::Activated> v;
                for (int n = s.range(0, 3); n > 0; --n) {
                    items.push_back(b.gen(s, none));
                    v.push_back(activated(items.back()));
                }
                what = "append " + std::to_string(v.size());
                a.terms(v);
                break;
            }
            case 5:
                if (!items.empty()) {
                    size_t k = s.u((uint32_t)items.size());
                    what = "remove " + std::to_string(k);
                    fl::Activated removed = a.removeTerm(k);
                    c.checkf(removed.getTerm() == b.terms[items[k].term].get() && same(removed.getDegree(), items[k].degree) && removed.getImplication() == b.implication(items[k].implication), "removed",
                        [&] { return what + " returned " + removed.toString() + " instead of " + text(items[k]); });
                    items.erase(items.begin() + k);
                }
                break;
            case 6:
                if (s.chance(1, 3)) {
                    what = "clear";
                    a.clear();
                    items.clear();
                }
                break;
            case 7: {
                what = "set";
                std::vector<fl::Activated> v;
                items.clear();
                for (int n = s.range(0, 4); n > 0; --n) {
                    items.push_back(b.gen(s, none));
                    v.push_back(activated(items.back()));
                }
                a.setTerms(v);
                break;
            }
            case 8:
                aggregation = s.chance(1, 4) ? "" : s.oneOf(model::snorms());
                what = "aggregation " + aggregation;
                a.setAggregation(build::snorm(aggregation));
                break;
            case 9:
                if (!items.empty()) {
                    size_t k = s.u((uint32_t)items.size());
                    items[k].degree = s.unit();
                    what = "degree of " + std::to_string(k);
                    a.terms()[k].setDegree(items[k].degree);
                }
                break;
        }
        if (what.empty())
            continue;
        c.say(what);
        // contents
        const fl::Aggregated& k = a;
        c.checkf(k.numberOfTerms() == items.size() && k.terms().size() == items.size() && k.isEmpty() == items.empty(), "contents", [&] { return "after " + what + ", " + std::to_string(k.numberOfTerms()) + " activations"; });
        std::string expect;
        for (size_t i = 0; i < items.size(); ++i) {
            const fl::Activated& x = k.getTerm(i);
            c.checkf(x.getTerm() == b.terms[items[i].term].get() && same(x.getDegree(), items[i].degree) && x.getImplication() == b.implication(items[i].implication), "contents",
                [&] { return "after " + what + ", activation " + std::to_string(i) + " is " + x.toString() + " instead of " + text(items[i]); });
            c.checkf(x.toString() == text(items[i]) && x.getName() == b.specs[items[i].term].name, "text", [&] { return "activation " + x.toString() + " instead of " + text(items[i]); });
            expect += (i ? (aggregation.empty() ? "+" : ",") : "") + text(items[i]);
        }
        expect = "out: Aggregated " + (aggregation.empty() ? "" : aggregation) + "[" + expect + "]";
        c.checkf(a.toString() == expect, "text", [&] { return a.toString() + " instead of " + expect; });
    }
    // what follows from the activations
    auto sum = [&](double x, double y) { return aggregation.empty() ? x + y : model::snorm(aggregation, x, y); };
    std::vector<double> degree(b.terms.size(), 0);
    for (auto& i : items)
        degree[i.term] = sum(degree[i.term], i.degree);
    std::vector<std::pair<std::string, double>> groups;
    for (auto& i : items) {
        const std::string& n = b.specs[i.term].name;
        bool found = false;
        for (auto& g : groups)
            if (g.first == n) {
                g.second = sum(g.second, i.degree);
                found = true;
            }
        if (!found)
            groups.push_back({n, i.degree});
    }
    double best = 0;
    for (auto& i : items)
        best = std::max(best, i.degree);
    if (model::fragile)
        c.discard();
    for (size_t t = 0; t < b.terms.size(); ++t)
        c.checkf(close(a.activationDegree(b.terms[t].get()), degree[t]), "activation-degree", [&] { return "term " + std::to_string(t) + " has activation degree " + str(a.activationDegree(b.terms[t].get())) + " instead of " + str(degree[t]); });
    std::vector<size_t> top;
    for (size_t i = 0; i < items.size(); ++i)
        if (best > 0 && items[i].degree == best)
            top.push_back(i);
    auto most = a.maximallyActivatedTerms();
    c.checkf(most.size() == top.size(), "highest", [&] { return std::to_string(most.size()) + " terms are maximally activated instead of " + std::to_string(top.size()); });
    for (size_t i = 0; i < top.size(); ++i)
        c.check(most[i].getTerm() == b.terms[items[top[i]].term].get() && same(most[i].getDegree(), best) && most[i].getImplication() == b.implication(items[top[i]].implication), "highest", "another maximally activated term");
    fl::Activated h = a.highestActivatedTerm();
    if (top.empty())
        c.check(!h.getTerm() && h.getDegree() == 0.0, "highest", "nothing is activated, but something is highest");
    else
        c.check(h.getTerm() == b.terms[items[top[0]].term].get() && same(h.getDegree(), best), "highest", "the highest activated term is not the first of the highest");
    auto grouped = a.groupedTerms();
    fl::Aggregated g = a.grouped();
    c.check(grouped.size() == groups.size() && g.numberOfTerms() == groups.size(), "grouped", std::to_string(grouped.size()) + " groups instead of " + std::to_string(groups.size()));
    c.check(g.getName() == "out" && same(g.getMinimum(), a.getMinimum()) && same(g.getMaximum(), a.getMaximum()), "grouped", "the grouped output has another name or range");
    c.check(g.getAggregation() ? aggregation == g.getAggregation()->className() : aggregation.empty(), "grouped", "the grouped output has another aggregation");
    for (size_t i = 0; i < groups.size(); ++i)
        c.checkf(grouped[i].getName() == groups[i].first && close(grouped[i].getDegree(), groups[i].second) && g.getTerm(i).getTerm() == grouped[i].getTerm(), "grouped",
            [&] { return "group " + std::to_string(i) + " is " + grouped[i].toString() + " instead of " + str(groups[i].second) + " " + groups[i].first; });
    // membership
    bool missing = aggregation.empty() && !items.empty(), noImplication = false;
    for (auto& i : items)
        noImplication = noImplication || i.implication.empty();
    int positive = 0;
    for (auto& i : items)
        positive += i.degree > 0;
    two = positive > 1;
    c.check(std::isnan(a.membership(model::NaN)), "membership", "the membership of NaN is " + str(a.membership(model::NaN)));
    for (int p = 0; p < 6; ++p) {
        model::fragile = false;
        double x = s.chance(1, 10) ? (s.coin() ? model::Inf : -model::Inf) : s.num(-0.5, 1.5), expect = 0;
        bool special = false;
        for (auto& i : items)
            if (!i.implication.empty()) {
                double m = model::membership(b.specs[i.term], x);
                special = special || std::isnan(m);
                double y = model::tnorm(i.implication, m, i.degree);
                if (!missing && !noImplication)
                    expect = model::snorm(aggregation, expect, y);
            }
        if (model::fragile)
            continue;
        for (auto& i : items) {
            fl::Activated act = activated(i);
            try {
                double got = act.membership(x), m = model::membership(b.specs[i.term], x);
                c.check(!i.implication.empty(), "activated", "an activated term without implication has a membership");
                double y = model::tnorm(i.implication, m, i.degree);
                c.checkf(special || close(got, y, 1e-9, 1e-6), "activated", [&] { return act.toString() + " at " + str(x) + " is " + str(got) + " instead of " + str(y); });
            } catch (fl::Exception&) {
                c.check(i.implication.empty(), "activated", "an activated term raised an exception");
            }
        }
        try {
            double got = a.membership(x);
            c.check(!missing && !noImplication, "membership", "a membership without aggregation or implication: " + str(got));
            c.checkf(special || close(got, expect, 1e-9, 1e-6), "membership", [&] { return "the membership of " + str(x) + " is " + str(got) + " instead of " + str(expect); });
        } catch (fl::Exception& e) {
            c.checkf(missing || noImplication, "membership", [&] { return std::string("the membership of ") + str(x) + " raised " + e.what(); });
        }
    }
    c.label(items.empty() ? "empty" : missing ? "no aggregation" : noImplication ? "no implication" : "complete");
    c.nontrivial(two);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P36", {
        {"history", history, 60000, 2500000, "at least two activations with positive degree at the end"},
    });
}
