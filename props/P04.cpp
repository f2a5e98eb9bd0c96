// P04: every conclusion of a triggered rule is applied on its own.
#include "build.h"
using namespace pbt;

static void conclusions(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.lockPrevious = false;
    o.maxInputs = o.maxBlocks = o.maxRules = 1;
    o.maxOutputs = 4;
    o.activations = false;
    model::Engine e = model::genEngine(s, o);
    e.blocks.clear();
    for (auto& v : e.outputs)
        v.enabled = !s.chance(1, 5);
    EngineP engine = build::engine(e);
    struct R {
        std::vector<model::Proposition> then;
        double degree;
        bool enabled;
        std::string implication;
    };
    std::vector<std::vector<model::Activated>> want(e.outputs.size());
    bool nontrivial = false;
    int nr = s.range(1, 3);
    for (int k = 0; k < nr; ++k) {
        model::Rule r;
        r.antecedent = std::make_shared<model::Cond>();
        r.antecedent->prop.var = e.inputs[0].name;
        r.antecedent->prop.hedges = {"any"};
        int nc = s.range(1, 5);
        bool leak = false, hedged = false;
        for (int i = 0; i < nc; ++i) {
            const model::Variable& v = s.oneOf(e.outputs);
            model::Proposition p;
            p.var = v.name;
            int nh = s.chance(1, 2) ? s.range(1, 3) : 0;
            for (int q = 0; q < nh; ++q)
                p.hedges.push_back(s.chance(1, 10) ? "any" : s.oneOf(model::hedges()));
            p.term = s.oneOf(v.terms).name;
            r.consequent.push_back(p);
        }
        std::string text = model::ruleText(r);
        double degree = s.chance(1, 6) ? 0.0 : s.unit();
        bool enabled = !s.chance(1, 6);
        std::string impl = s.chance(1, 5) ? "" : s.oneOf(model::tnorms());
        c.note([&] { return text + "  degree " + str(degree) + (enabled ? "" : " DISABLED") + " implication " + impl; });
        std::unique_ptr<fl::Rule> rule(fl::Rule::parse(text, engine.get()));
        std::unique_ptr<fl::TNorm> implication(build::tnorm(impl));
        rule->setEnabled(enabled);
        rule->setActivationDegree(degree);
        model::fragile = false;
        bool fires = enabled && model::gt(degree, 0);
        if (model::fragile)
            c.discard();
        std::vector<size_t> before;
        for (size_t i = 0; i < e.outputs.size(); ++i)
            before.push_back(engine->getOutputVariable(i)->fuzzyOutput()->numberOfTerms());
        rule->trigger(implication.get());
        c.check(rule->isTriggered() == fires, "triggered", "triggered flag is wrong for <" + text + ">");
        c.check(same(rule->getActivationDegree(), degree), "degree-changed", "triggering changed the activation degree of <" + text + ">");
        // expected, and what the listed finding yields: the degree of a conclusion starts from that of the previous one
        std::vector<std::vector<double>> own(e.outputs.size()), leaked(e.outputs.size());
        std::vector<std::vector<const model::Term*>> terms(e.outputs.size());
        double run = degree;
        for (auto& p : r.consequent) {
            const model::Variable* v = e.find(p.var);
            if (!v->enabled)
                continue;
            double d = degree;
            leak = leak || hedged;
            for (size_t q = p.hedges.size(); q-- > 0;) {
                d = model::hedge(p.hedges[q], d);
                run = model::hedge(p.hedges[q], run);
                hedged = true;
            }
            size_t i = v - e.outputs.data();
            own[i].push_back(d);
            leaked[i].push_back(run);
            for (auto& t : v->terms)
                if (t.name == p.term) {
                    terms[i].push_back(&t);
                    break;
                }
        }
        bool equalOwn = true, equalLeaked = true;
        std::string detail;
        for (size_t i = 0; i < e.outputs.size(); ++i) {
            fl::OutputVariable* ov = engine->getOutputVariable(i);
            const std::vector<fl::Activated>& got = ov->fuzzyOutput()->terms();
            size_t n = fires ? own[i].size() : 0;
            c.checkf(got.size() == before[i] + n, "count", [&] {
                return "rule <" + text + "> added " + std::to_string((long)got.size() - (long)before[i]) + " activations to " + ov->getName() + " instead of " + std::to_string(n);
            });
            for (size_t q = 0; q < n; ++q) {
                const fl::Activated& a = got[before[i] + q];
                c.checkf(a.getTerm() && a.getTerm()->getName() == terms[i][q]->name && a.getTerm() == ov->getTerm(terms[i][q]->name), "term",
                    [&] { return "activated term of " + ov->getName() + " is not " + terms[i][q]->name; });
                c.check(a.getImplication() == implication.get(), "implication", "activated with another implication");
                equalOwn = equalOwn && close(a.getDegree(), own[i][q], 1e-9, 1e-9);
                equalLeaked = equalLeaked && close(a.getDegree(), leaked[i][q], 1e-9, 1e-9);
                if (!close(a.getDegree(), own[i][q], 1e-9, 1e-9) && detail.empty())
                    detail = ov->getName() + " activated " + terms[i][q]->name + " with " + str(a.getDegree()) + " instead of " + str(own[i][q]);
            }
        }
        if (fires && !equalOwn && !model::fragile) {
            if (leak && equalLeaked)
                c.known("hedge-leak", "the hedges of a conclusion modify the conclusions after it: " + detail);
            c.fail("conclusion-degree", detail);
        }
        nontrivial = nontrivial || (fires && (hedged || nc > 1));
        if (leak)
            c.label("hedged conclusion followed by another");
        // once more: deactivating forgets
        rule->deactivate();
        c.check(!rule->isTriggered() && rule->getActivationDegree() == 0.0, "deactivate", "deactivated rule remembers its activation");
    }
    c.nontrivial(nontrivial);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P04", {
        {"conclusions", conclusions, 150000, 4000000, "the rule fired with hedges or at least two conclusions"},
    });
}
