// P02: a rule's antecedent degree is the value of its logical expression.
#include "build.h"
using namespace pbt;
using model::CondP;

static int size(const CondP& c) { return c->op.empty() ? 1 : size(c->left) + size(c->right); }
static int hedges(const CondP& c) { return c->op.empty() ? (int)c->prop.hedges.size() : hedges(c->left) + hedges(c->right); }
static bool uses(const CondP& c, const std::string& op) {
    return !c->op.empty() && (c->op == op || uses(c->left, op) || uses(c->right, op));
}

// chain of propositions with mixed operators and no parentheses: the tree is derived here
static CondP chain(Src& s, const std::vector<const model::Variable*>& vars, const model::GenOptions& o, std::string& text) {
    int n = s.range(2, 7);
    std::vector<CondP> ors;
    CondP current;
    for (int i = 0; i < n; ++i) {
        CondP p = model::genCond(s, vars, 0, o);
        if (i == 0) {
            current = p;
            text = model::propText(p->prop);
            continue;
        }
        bool isAnd = s.coin();
        text += std::string(isAnd ? " and " : " or ") + model::propText(p->prop);
        if (isAnd) {
            auto c = std::make_shared<model::Cond>();
            c->op = "and";
            c->left = current;
            c->right = p;
            current = c;
        } else {
            ors.push_back(current);
            current = p;
        }
    }
    ors.push_back(current);
    CondP r = ors[0];
    for (size_t i = 1; i < ors.size(); ++i) {
        auto c = std::make_shared<model::Cond>();
        c->op = "or";
        c->left = r;
        c->right = ors[i];
        r = c;
    }
    return r;
}

static std::string postfix(const CondP& c) {
    if (c->op.empty())
        return model::propText(c->prop);
    return postfix(c->left) + " " + postfix(c->right) + " " + c->op;
}
static std::string prefix(const CondP& c) {
    if (c->op.empty())
        return model::propText(c->prop);
    return c->op + " " + prefix(c->left) + " " + prefix(c->right);
}
static std::string infix(const CondP& c) {
    if (c->op.empty())
        return model::propText(c->prop);
    return infix(c->left) + " " + c->op + " " + infix(c->right);
}
static std::string squeeze(const std::string& x) {
    std::istringstream i(x);
    std::string t, r;
    while (i >> t)
        r += (r.empty() ? "" : " ") + t;
    return r;
}

static void antecedent(Case& c, bool chains, bool outputs) {
    Src& s = c.src;
    model::GenOptions o;
    o.lockPrevious = false;
    o.maxBlocks = o.maxRules = 1;
    o.activations = false;
    model::Engine e = model::genEngine(s, o);
    std::vector<const model::Variable*> vars;
    for (auto& v : e.inputs)
        vars.push_back(&v);
    if (outputs)
        for (auto& v : e.outputs)
            vars.push_back(&v);
    model::Rule r;
    std::string text;
    if (chains)
        r.antecedent = chain(s, vars, o, text);
    else {
        r.antecedent = model::genCond(s, vars, 4, o);
        text = model::condText(r.antecedent, &s);
    }
    if (s.chance(1, 3))
        r.weight = s.oneOf(std::vector<double>{0.5, 0.25, 0.0, 0.1, 0.333, 0.999});
    model::Block b;
    b.conjunction = s.oneOf(model::tnorms());
    b.disjunction = s.oneOf(model::snorms());
    text = "if " + text + " then " + e.outputs[0].name + " is " + e.outputs[0].terms[0].name
           + (r.weight != 1 || s.chance(1, 4) ? " with " + model::num(r.weight) : "");
    e.blocks.clear();
    c.note([&] { return model::describe(e) + text + " [" + b.conjunction + " " + b.disjunction + "]"; });
    EngineP engine = build::engine(e);
    std::unique_ptr<fl::Rule> rule;
    try {
        rule.reset(fl::Rule::parse(text, engine.get()));
    } catch (fl::Exception& x) {
        c.fail("rejected", std::string("well-formed rule rejected: ") + x.what());
    }
    std::unique_ptr<fl::TNorm> conj(build::tnorm(b.conjunction));
    std::unique_ptr<fl::SNorm> disj(build::snorm(b.disjunction));
    c.checkf(close(rule->getWeight(), r.weight), "weight", [&] { return "weight " + str(rule->getWeight()); });
    // the expression held has the shape of the text
    c.checkf(squeeze(rule->getAntecedent()->toPostfix()) == postfix(r.antecedent), "postfix",
        [&] { return "postfix <" + rule->getAntecedent()->toPostfix() + "> expected <" + postfix(r.antecedent) + ">"; });
    c.checkf(squeeze(rule->getAntecedent()->toPrefix()) == prefix(r.antecedent), "prefix",
        [&] { return "prefix <" + rule->getAntecedent()->toPrefix() + "> expected <" + prefix(r.antecedent) + ">"; });
    c.checkf(squeeze(rule->getAntecedent()->toInfix()) == infix(r.antecedent), "infix",
        [&] { return "infix <" + rule->getAntecedent()->toInfix() + "> expected <" + infix(r.antecedent) + ">"; });
    model::Machine m(e);
    int steps = s.range(1, 4);
    bool interesting = false;
    for (int k = 0; k < steps; ++k) {
        model::fragile = false;
        for (size_t i = 0; i < e.inputs.size(); ++i) {
            double x = model::genInput(s, e.inputs[i]);
            engine->getInputVariable(i)->setValue(x);
            m.setInput(i, x);
            c.note([&] { return e.inputs[i].name + " = " + str(x); });
        }
        if (k > 0 && s.chance(1, 4)) {  // toggle a variable
            size_t n = e.inputs.size(), i = s.u((uint32_t)(n + e.outputs.size()));
            model::Variable& v = i < n ? e.inputs[i] : e.outputs[i - n];
            v.enabled = !v.enabled;
            if (i < n)
                engine->getInputVariable(i)->setEnabled(v.enabled);
            else
                engine->getOutputVariable(i - n)->setEnabled(v.enabled);
            c.note([&] { return v.name + (v.enabled ? " enabled" : " disabled"); });
        }
        for (size_t i = 0; i < e.outputs.size(); ++i) {
            fl::OutputVariable* ov = engine->getOutputVariable(i);
            ov->fuzzyOutput()->clear();
            m.out[i].fuzzy.clear();
            if (outputs && s.coin()) {  // a crisp value, as left by an earlier step, says nothing about the fuzzy output
                ov->setValue(model::genInput(s, e.outputs[i]));
                m.out[i].value = ov->getValue();
                c.note([&] { return ov->getName() + " := " + str(m.out[i].value); });
            }
            int n = outputs ? s.range(0, 4) : 0;
            std::vector<double> grid = {0, 0.125, 0.3, 0.5, 0.7, 0.9, 1};
            for (int q = 0; q < n; ++q) {
                size_t t = s.u((uint32_t)e.outputs[i].terms.size());
                double degree = s.oneOf(grid);
                ov->fuzzyOutput()->addTerm(ov->getTerm(t), degree, nullptr);
                m.out[i].fuzzy.push_back({&e.outputs[i].terms[t], degree, ""});
                c.note([&] { return ov->getName() + " += " + str(degree) + "/" + ov->getTerm(t)->getName(); });
            }
        }
        double want = r.weight * m.evalCond(r.antecedent, b), got;
        try {
            got = rule->activateWith(conj.get(), disj.get());
        } catch (fl::Exception& x) {
            c.fail("exception", std::string("activation raised ") + x.what());
        }
        if (model::fragile)
            continue;
        c.checkf(close(got, want, 1e-9, 1e-9), "degree",
            [&] { return "degree of <" + text + "> = " + str(got) + ", reference " + str(want); });
        c.checkf(same(rule->getActivationDegree(), got), "stored", [&] { return "stored degree " + str(rule->getActivationDegree()) + " is not " + str(got); });
        double again = rule->getAntecedent()->activationDegree(conj.get(), disj.get());
        c.checkf(close(rule->getWeight() * again, got, 1e-12, 1e-12), "antecedent", [&] { return "antecedent " + str(again) + ", rule " + str(got); });
        interesting = interesting || (want > 1e-6 && want < 1 - 1e-6);
    }
    // norms are needed exactly by the operators used, when their operands are evaluated
    if (steps == 1 && uses(r.antecedent, "and") != uses(r.antecedent, "or")) {
        bool isAnd = uses(r.antecedent, "and");
        try {
            rule->activateWith(isAnd ? conj.get() : nullptr, isAnd ? nullptr : disj.get());
        } catch (fl::Exception& x) {
            c.fail("norm-not-needed", std::string("an operator that is not used was required: ") + x.what());
        }
        bool raised = false;
        try {
            rule->activateWith(isAnd ? nullptr : conj.get(), isAnd ? disj.get() : nullptr);
        } catch (fl::Exception&) {
            raised = true;
        }
        c.check(raised, "norm-missing", "activation without the operator used raised no exception");
    }
    c.label("propositions " + std::to_string(std::min(8, size(r.antecedent))));
    c.nontrivial(interesting && (size(r.antecedent) > 1 || hedges(r.antecedent) > 0));
}

int main(int argc, char** argv) {
    std::string rule = "at least two propositions or a hedge, and a degree strictly between 0 and 1";
    return pbt::main(argc, argv, "P02", {
        {"tree", [](Case& c) { antecedent(c, false, false); }, 60000, 1500000, rule},
        {"chain", [](Case& c) { antecedent(c, true, false); }, 40000, 1000000, rule},
        {"outputs", [](Case& c) { antecedent(c, false, true); }, 60000, 1500000, rule},
    });
}
