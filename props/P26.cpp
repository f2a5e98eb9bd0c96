// P26: an engine reports being ready exactly when nothing needed to process is missing.
#include "build.h"
#include <algorithm>
#include <set>
using namespace pbt;

static bool joins(const model::CondP& c, const std::string& op) { return c && (c->op == op || (!c->op.empty() && (joins(c->left, op) || joins(c->right, op)))); }
static bool integral(const model::Variable& v) { return !v.defuzzifier.empty() && v.defuzzifier.compare(0, 8, "Weighted") != 0; }

// whitespace of the text of a rule, as accepted when loading it
static std::string respace(Src& s, const std::string& text) {
    std::string r;
    for (size_t i = 0; i < text.size(); ++i) {
        bool tight = (text[i] == ' ') && ((i + 1 < text.size() && text[i + 1] == '(') || (i && text[i - 1] == ')')) && i > 2 && text.compare(i + 1, 4, "then") != 0;
        if (text[i] == ' ' && s.chance(1, 4)) {
            if (tight && s.coin())
                continue;
            r += s.oneOf(std::vector<std::string>{"\t", "  ", "\n", " \t "});
        } else
            r += text[i];
    }
    return r;
}

static void ready(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxResolution = 15;
    o.maxInputs = 2;
    o.maxRules = 4;
    o.outputsInAntecedent = true;
    model::Engine e = model::genEngine(s, o);
    bool respaced = s.coin();
    // what is left out
    std::string removed;
    auto drop = [&](std::string& x, const char* what) {
        if (!x.empty() && s.chance(1, 6)) {
            x = "";
            removed += std::string(what) + " ";
        }
    };
    bool complete = s.chance(1, 4);
    if (!complete) {
        for (auto& v : e.outputs) {
            drop(v.aggregation, "aggregation");
            drop(v.defuzzifier, "defuzzifier");
        }
        for (auto& b : e.blocks) {
            drop(b.conjunction, "conjunction");
            drop(b.disjunction, "disjunction");
            drop(b.implication, "implication");
        }
    }
    for (auto& b : e.blocks)
        for (auto& r : b.rules)
            if (respaced)
                r.text = respace(s, r.text);
    int without = complete ? 0 : (int)s.u(12);  // 1..6: structural removals
    if (without == 1 && !e.blocks.empty()) {
        removed += "rules ";
        e.blocks[s.u((uint32_t)e.blocks.size())].rules.clear();
    } else if (without == 2) {
        removed += "blocks ";
        e.blocks.clear();
    }
    c.note([&] { return model::describe(e) + "\nremoved " + removed; });
    EngineP engine;
    try {
        engine = build::engine(e);
    } catch (fl::Exception& x) {
        c.fail("rules", std::string("a rule cannot be loaded: ") + x.what());
    }
    bool structural = false;
    if (without == 3) {  // as nothing refers to them any more
        for (auto* b : engine->ruleBlocks())
            b->unloadRules();
        while (engine->numberOfInputVariables())
            delete engine->removeInputVariable(0);
        structural = true;
        removed += "inputs ";
    } else if (without == 4) {
        for (auto* b : engine->ruleBlocks())
            b->unloadRules();
        while (engine->numberOfOutputVariables())
            delete engine->removeOutputVariable(0);
        structural = true;
        removed += "outputs ";
    } else if (without == 5) {
        size_t i = s.u((uint32_t)e.outputs.size());
        for (auto* b : engine->ruleBlocks())
            b->unloadRules();
        fl::OutputVariable* v = engine->getOutputVariable(i);
        while (v->numberOfTerms())
            delete v->removeTerm(0);
        e.outputs[i].terms.clear();
        structural = true;
        removed += "terms ";
    }
    // unloaded rules need no implication until they are loaded
    if (!structural && s.chance(1, 8)) {
        for (auto* b : engine->ruleBlocks())
            b->unloadRules();
        structural = true;
    }

    std::set<std::string> missing;  // "<owner> what"
    if (engine->numberOfInputVariables() == 0)
        missing.insert("<" + e.name + "> input variables");
    if (engine->numberOfOutputVariables() == 0)
        missing.insert("<" + e.name + "> output variables");
    else
        for (auto& v : e.outputs) {
            std::string w = "<" + v.name + "> ";
            if (v.terms.empty())
                missing.insert(w + "terms");
            if (v.defuzzifier.empty())
                missing.insert(w + "defuzzifier");
            if (v.aggregation.empty() && integral(v))
                missing.insert(w + "aggregation operator");
        }
    if (e.blocks.empty())
        missing.insert("<" + e.name + "> rule blocks");
    std::map<std::string, int> users;
    for (size_t i = 0; i < e.blocks.size(); ++i) {
        auto& b = e.blocks[i];
        std::string w = std::to_string(i + 1) + " <" + b.name + "> ";
        if (b.rules.empty())
            missing.insert(w + "rules");
        for (auto& r : b.rules) {
            bool impl = false;
            for (auto& p : r.consequent)
                impl = impl || integral(*e.find(p.var));
            if (joins(r.antecedent, "and") && b.conjunction.empty())
                users[w + "conjunction operator"]++;
            if (joins(r.antecedent, "or") && b.disjunction.empty())
                users[w + "disjunction operator"]++;
            if (impl && b.implication.empty() && !structural)
                users[w + "implication operator"]++;
        }
    }
    for (auto& u : users)
        missing.insert(u.first);

    std::string before = engine->toString();
    std::string status = s.coin() ? "something" : "";
    bool r = engine->isReady(&status), again = engine->isReady();
    c.check(r == again, "status", "the answer depends on asking for the status");
    c.check(engine->toString() == before, "changed", "asking changed the engine");
    c.checkf(r == missing.empty(), r ? "ready" : "not-ready", [&] {
        std::string m;
        for (auto& x : missing)
            m += x + "; ";
        return r ? "ready, without: " + m : "nothing is missing, but " + status;
    });
    if (r)
        c.checkf(status.empty(), "status", [&] { return "ready, but " + status; });
    // every line tells of something missing, everything missing is told of
    std::istringstream lines(status);
    std::string line;
    std::set<std::string> told;
    while (std::getline(lines, line)) {
        size_t has = line.find("> has ");
        c.checkf(has != std::string::npos, "status", [&] { return "line without a subject: " + line; });
        std::string what = line.substr(has + 6);
        size_t open = line.rfind('<', has);
        std::string owner = line.substr(open, has + 1 - open);
        if (line.compare(0, 13, "- Rule block ") == 0)
            owner = line.substr(13, has + 1 - 13);
        if (what.compare(0, 3, "no ") == 0) {
            std::string key = owner + " " + what.substr(3);
            c.checkf(missing.count(key), "status", [&] { return "not missing: " + line; });
            c.checkf(told.insert(key).second, "status", [&] { return "told twice: " + line; });
        } else {
            size_t at = what.find(" rules that require ");
            c.checkf(at != std::string::npos, "status", [&] { return "unknown line " + line; });
            std::string key = owner + " " + what.substr(at + 20);
            c.checkf(users.count(key) && what.substr(0, at) == std::to_string(users[key]), "status",
                [&] { return line + ", but " + std::to_string(users.count(key) ? users[key] : 0) + " do"; });
        }
    }
    for (auto& m : missing)
        c.checkf(told.count(m), "status", [&] { return "not told of " + m + " in " + status; });
    c.label(r ? "ready" : "not ready");
    c.nontrivial(!removed.empty());
    if (!r)
        return;
    // processes anything; rules that are unloaded are loaded first
    if (structural)
        return;
    for (auto& row : build::genInputs(s, e, 4, true)) {
        build::setInputs(*engine, row);
        try {
            engine->process();
        } catch (fl::Exception& x) {
            c.fail("process", "ready, but processing " + build::show(row) + " raised " + x.what());
        }
    }
    // also with everything enabled
    for (auto* v : engine->inputVariables())
        v->setEnabled(true);
    for (auto* v : engine->outputVariables())
        v->setEnabled(true);
    for (auto* b : engine->ruleBlocks()) {
        b->setEnabled(true);
        for (auto* x : b->rules())
            x->setEnabled(true);
    }
    for (auto& row : build::genInputs(s, e, 2, true)) {
        build::setInputs(*engine, row);
        try {
            engine->process();
        } catch (fl::Exception& x) {
            c.fail("process", "ready, but processing " + build::show(row) + " with everything enabled raised " + x.what());
        }
    }
    c.nontrivial();
}

// components that are null, and components given by configure
static void nulls(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxResolution = 15;
    model::Engine e = model::genEngine(s, o);
    EngineP engine = build::engine(e);
    int kind = (int)s.u(4);
    size_t at = 0;
    std::string expect;
    auto put = [&](auto& v) {
        at = s.u((uint32_t)v.size() + 1);
        v.insert(v.begin() + at, nullptr);
    };
    if (e.blocks.empty())
        kind = kind == 3 ? 0 : kind;
    size_t b = 0;
    switch (kind) {
        case 0: put(engine->inputVariables()); expect = "input variable at index <"; break;
        case 1: put(engine->outputVariables()); expect = "output variable at index <"; break;
        case 2: put(engine->ruleBlocks()); expect = "rule block at index <"; break;
        default: b = s.u((uint32_t)e.blocks.size()); put(engine->getRuleBlock(b)->rules()); expect = "rule at index <";
    }
    expect += std::to_string(at) + ">";
    c.say(expect);
    std::string status;
    bool r = engine->isReady(&status);
    c.check(!r, "ready", "ready with a null " + expect);
    c.check(status.find(expect) != std::string::npos, "status", "not told of the null " + expect + " in " + status);
    c.label(expect.substr(0, expect.find(" at")));
    c.nontrivial();
}
static void configured(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxResolution = 15;
    o.takagi = o.tsukamoto = o.hybrid = false;
    o.integralOnly = true;
    model::Engine e = model::genEngine(s, o);
    bool bare = s.coin();  // or with operators that are replaced
    if (bare) {
        for (auto& v : e.outputs)
            v.aggregation = v.defuzzifier = "";
        for (auto& b : e.blocks)
            b.conjunction = b.disjunction = b.implication = "";
    }
    EngineP engine = build::engine(e);
    for (auto* v : engine->outputVariables())
        if (s.chance(1, 5))
            v->setEnabled(false);
    for (auto* b : engine->ruleBlocks())
        if (s.chance(1, 5))
            b->setEnabled(false);
    bool rules = !e.blocks.empty();
    for (auto& b : e.blocks)
        rules = rules && !b.rules.empty();
    std::vector<std::string> args = {s.oneOf(model::tnorms()), s.oneOf(model::snorms()), s.oneOf(model::tnorms()), s.oneOf(model::snorms()), s.oneOf(model::integralDefuzzifiers()), "General"};
    static const std::vector<std::string> activations = {"General", "First", "Last", "Highest", "Lowest", "Proportional", "Threshold"};
    if (s.coin())
        args[5] = s.oneOf(activations);
    bool weighted = s.chance(1, 3);  // whether or not it fits the terms
    if (weighted)
        args[4] = s.coin() ? "WeightedAverage" : "WeightedSum";
    int without = (int)s.u(8);  // 0..4 the argument left out
    if (without < 5)
        args[without] = "";
    if (s.coin()) {
        model::Variable v;
        v.defuzzifier = args[4];
        model::Activation a;
        a.cls = args[5];
        engine->configure(build::tnorm(args[0]), build::snorm(args[1]), build::tnorm(args[2]), build::snorm(args[3]), args[4].empty() ? nullptr : build::defuzzifier(v), s.chance(1, 6) ? (args[5] = "General", nullptr) : build::activation(a));
        c.label("by objects");
    } else
        engine->configure(args[0], args[1], args[2], args[3], args[4], args[5]);
    // each block and output has what was given, and nothing that was not
    auto is = [&](const auto* x, const std::string& want, const char* what) {
        c.check((x ? x->className() : "") == want, "configured", std::string(what) + " is <" + (x ? x->className() : "") + "> instead of <" + want + ">");
    };
    std::set<const void*> objects;
    size_t count = 0;
    auto own = [&](const void* x) {
        count += x != nullptr;
        if (x)
            objects.insert(x);
    };
    for (auto* b : engine->ruleBlocks()) {
        is(b->getConjunction(), args[0], "conjunction");
        is(b->getDisjunction(), args[1], "disjunction");
        is(b->getImplication(), args[2], "implication");
        is(b->getActivation(), args[5], "activation");
        own(b->getConjunction());
        own(b->getDisjunction());
        own(b->getImplication());
        own(b->getActivation());
    }
    for (auto* v : engine->outputVariables()) {
        is(v->getAggregation(), args[3], "aggregation");
        is(v->getDefuzzifier(), args[4], "defuzzifier");
        own(v->getAggregation());
        own(v->getDefuzzifier());
    }
    c.check(objects.size() == count, "configured", "an operator belongs to two components");
    for (auto* v : engine->outputVariables())
        if (auto* d = dynamic_cast<fl::IntegralDefuzzifier*>(v->getDefuzzifier()))
            d->setResolution(15);
    bool needAnd = false, needOr = false;
    for (auto& b : e.blocks)
        for (auto& r : b.rules) {
            needAnd = needAnd || joins(r.antecedent, "and");
            needOr = needOr || joins(r.antecedent, "or");
        }
    bool expect = rules && (without >= 5 || (without == 0 && !needAnd) || (without == 1 && !needOr) || (weighted && (without == 2 || without == 3)));
    std::string status;
    bool r = engine->isReady(&status);
    c.note([&] { return model::describe(e) + "\nwithout " + std::to_string(without); });
    c.checkf(r == expect, r ? "ready" : "not-ready", [&] { return "configured without argument " + std::to_string(without) + ": " + (r ? "ready" : status); });
    c.nontrivial(without < 5);
    if (r && !weighted)
        for (auto& row : build::genInputs(s, e, 2, true)) {
            build::setInputs(*engine, row);
            try {
                engine->process();
            } catch (fl::Exception& x) {
                c.fail("process", "ready, but processing " + build::show(row) + " raised " + x.what());
            }
        }
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P26", {
        {"ready", ready, 25000, 1000000, "something was removed, or the engine was processed"},
        {"nulls", nulls, 3000, 100000, "all"},
        {"configured", configured, 5000, 200000, "an operator is left out"},
    });
}
