// P03: rule texts are accepted exactly when well formed, and failed loads leave nothing.
#include "build.h"
using namespace pbt;
typedef std::vector<std::string> Tokens;

static std::string squeeze(const std::string& x) {
    std::istringstream i(x);
    std::string t, r;
    while (i >> t)
        r += (r.empty() ? "" : " ") + t;
    return r;
}
static std::string postfix(const model::CondP& c) {
    if (c->op.empty())
        return model::propText(c->prop);
    return postfix(c->left) + " " + postfix(c->right) + " " + c->op;
}
static std::string thenText(const model::Rule& r) {
    std::string t;
    for (size_t i = 0; i < r.consequent.size(); ++i)
        t += (i ? " and " : "") + model::propText(r.consequent[i]);
    return t;
}
static Tokens tokens(const std::string& text) {  // parentheses on their own
    Tokens r;
    std::string x;
    for (char ch : text) {
        if (ch == '(' || ch == ')')
            x += std::string(" ") + ch + " ";
        else
            x += ch;
    }
    std::istringstream i(x);
    while (i >> x)
        r.push_back(x);
    return r;
}
static std::string layout(const Tokens& t, Src& s) {
    static const std::vector<std::string> gaps = {" ", "  ", "\t", "\n", " \t "};
    std::string r;
    for (size_t i = 0; i < t.size(); ++i) {
        bool paren = t[i] == "(" || t[i] == ")" || (i && (t[i - 1] == "(" || t[i - 1] == ")"));
        if (i)
            r += paren && s.coin() ? "" : s.chance(1, 5) ? s.oneOf(gaps) : " ";
        // "if(" and ")then" would not be the keywords
        if (i && ((t[i - 1] == "if" && r.back() == 'f') || (t[i] == "then" && r.back() == ')')))
            r += " ";
        r += t[i];
    }
    return r;
}

static model::Rule genRule(Src& s, model::Engine& e, const model::GenOptions& o) {
    model::Rule r;
    std::vector<const model::Variable*> vars;
    for (auto& v : e.inputs)
        vars.push_back(&v);
    for (auto& v : e.outputs)
        vars.push_back(&v);
    r.antecedent = model::genCond(s, vars, 3, o);
    int nc = s.range(1, 3);
    for (int i = 0; i < nc; ++i) {
        const model::Variable& v = s.oneOf(e.outputs);
        model::Proposition p;
        p.var = v.name;
        int nh = s.chance(1, 3) ? s.range(1, 2) : 0;
        for (int q = 0; q < nh; ++q)
            p.hedges.push_back(s.oneOf(model::hedges()));
        p.term = s.oneOf(v.terms).name;
        r.consequent.push_back(p);
    }
    if (s.coin())
        r.weight = s.oneOf(std::vector<double>{0.5, 0.0, 1.0, 0.25, 0.123});
    return r;
}

// breaks a well-formed rule; returns what was done, or "" if not applicable
static std::string corrupt(Src& s, Tokens& t, const model::Engine& e) {
    auto positions = [&](const std::string& w) {
        std::vector<size_t> r;
        for (size_t i = 0; i < t.size(); ++i)
            if (t[i] == w)
                r.push_back(i);
        return r;
    };
    auto at = [&](const std::string& w) {
        auto p = positions(w);
        return p.empty() ? t.size() : p[s.u((uint32_t)p.size())];
    };
    size_t then = positions("then")[0];
    auto erase = [&](size_t i) { t.erase(t.begin() + i); };
    auto insert = [&](size_t i, const std::string& w) { t.insert(t.begin() + i, w); };
    bool weighted = t.size() > 2 && t[t.size() - 2] == "with";
    size_t end = weighted ? t.size() - 2 : t.size();
    switch (s.u(34)) {
        case 0: {  // unknown variable
            size_t i = at("is");
            t[i - 1] = "unknownVariable";
            return "unknown variable";
        }
        case 1: {  // unknown term: last word of the consequent
            t[end - 1] = "unknownTerm";
            return "unknown term in consequent";
        }
        case 2: {
            size_t i = at("is");
            insert(i + 1, "unknownHedge");
            return "unknown hedge";
        }
        case 3: erase(0); return "no if";
        case 4: erase(then); return "no then";
        case 5: t.erase(t.begin() + 1, t.begin() + then); return "empty antecedent";
        case 6: t.erase(t.begin() + then + 1, t.begin() + end); return "empty consequent";
        case 7: erase(at("is")); return "no is";
        case 8: {
            size_t i = at("is");
            insert(i, "is");
            return "duplicated is";
        }
        case 9: insert(then, s.coin() ? "and" : "or"); return "trailing connective in antecedent";
        case 10: insert(1, s.coin() ? "and" : "or"); return "leading connective in antecedent";
        case 11: insert(end, "and"); return "trailing connective in consequent";
        case 12: {
            Tokens copy(t.begin() + then + 1, t.begin() + end);
            copy.insert(copy.begin(), "or");
            t.insert(t.begin() + end, copy.begin(), copy.end());
            return "or in consequent";
        }
        case 13: insert(then, ")"); return "closing parenthesis too many";
        case 14: insert(1, "("); return "opening parenthesis too many";
        case 15: {
            size_t i = at(s.coin() ? "(" : ")");
            if (i == t.size())
                return "";
            erase(i);
            return "parenthesis removed";
        }
        case 16: {
            if (!weighted)
                return "";
            t.back() = s.oneOf(Tokens{"half", "0,5", "1.2.3", "0.5x", "--1", "with"});
            return "weight is not a number";
        }
        case 17: {
            if (!weighted)
                return "";
            t.pop_back();
            return "no weight after with";
        }
        case 18: {
            if (!weighted)
                return "";
            t.push_back(s.oneOf(Tokens{"0.5", "and", "with", "extra"}));
            return "words after the weight";
        }
        case 19: {  // input variable in the consequent
            if (e.find(t[then + 1])->output && e.inputs.size()) {
                t[then + 1] = e.inputs[0].name;
                return "input variable in consequent";
            }
            return "";
        }
        case 20: {  // two operands without connective
            size_t n = then - 1;
            Tokens copy(t.begin() + 1, t.begin() + 1 + n);
            t.insert(t.begin() + then, copy.begin(), copy.end());
            return "connective missing in antecedent";
        }
        case 21: {  // connective without right operand inside
            Tokens and_ = {s.coin() ? "and" : "or"};
            size_t i = at("and");
            if (i >= then)
                return "";
            insert(i, and_[0]);
            return "two connectives";
        }
        case 22: t.insert(t.begin(), s.oneOf(Tokens{"rule", "IF", "then", "1"})); return "words before if";
        case 23: {
            t[0] = "If";
            return "keyword in upper case";
        }
        case 24: {  // the connective of the consequent is missing
            Tokens copy(t.begin() + then + 1, t.begin() + end);
            t.insert(t.begin() + end, copy.begin(), copy.end());
            return "connective missing in consequent";
        }
        case 25: case 26: {  // one word more after a complete proposition
            size_t i = at("is"), k = i + 1;
            while (k < t.size() && t[k] != "and" && t[k] != "or" && t[k] != "then" && t[k] != "with" && t[k] != ")")
                ++k;
            const model::Variable* v = e.find(t[i - 1]);
            std::string word;
            switch (s.u(4)) {
                case 0: word = s.oneOf(model::hedges()); break;
                case 1: word = "is"; break;
                case 2: word = "unknownWord"; break;
                default:
                    if (v && !v->terms.empty())
                        word = s.oneOf(v->terms).name;
            }
            if (word.empty())
                return "";
            insert(k, word);
            return "a word after a complete proposition";
        }
        case 27: {  // proposition of the antecedent without its term
            size_t i = at("is"), k = i + 1;
            if (i >= then)
                return "";
            while (t[k] != "and" && t[k] != "or" && t[k] != "then" && t[k] != ")")
                ++k;
            if (t[k - 1] == "any" || t[k - 2] == "any")
                return "";
            erase(k - 1);
            return "no term in antecedent";
        }
        case 28: {  // only a variable as operand
            insert(then, t[at("is") - 1]);
            insert(then, s.coin() ? "and" : "or");
            return "variable alone in antecedent";
        }
        case 29: insert(end, "then"); return "a second then in consequent";
        case 30: {  // input variable in another conclusion
            auto p = positions("and");
            if (p.empty() || p.back() < then || e.inputs.empty())
                return "";
            t[p.back() + 1] = e.inputs[0].name;
            return "input variable in consequent";
        }
        case 31: {  // a conclusion in parentheses
            insert(end, ")");
            insert(then + 1, "(");
            return "parentheses in consequent";
        }
        case 32: {  // an unknown term anywhere
            size_t i = at("is"), k = i + 1;
            while (k < t.size() && t[k] != "and" && t[k] != "or" && t[k] != "then" && t[k] != "with" && t[k] != ")")
                ++k;
            std::string word = s.coin() ? "unknownTerm" : t[i - 1];
            const model::Variable* v = e.find(t[i - 1]);
            for (auto& x : v ? v->terms : std::vector<model::Term>())
                if (x.name == word)
                    return "";
            t[k - 1] = word;
            return i < then ? "unknown term in antecedent" : "unknown term in consequent";
        }
        default: {  // term of the consequent removed (a hedge or is at the end)
            erase(end - 1);
            return "no term in consequent";
        }
    }
}

static bool contains(const Tokens& t, const std::string& w) {
    for (auto& x : t)
        if (x == w)
            return true;
    return false;
}

static void checkUnloaded(Case& c, fl::Rule& r, const std::string& what) {
    c.check(!r.isLoaded() , "loaded-after-failure", "a rule is loaded after failing to load (" + what + ")");
    c.check(!r.getAntecedent()->isLoaded() && !r.getConsequent()->isLoaded(), "part-loaded-after-failure",
        "a part of the rule is loaded after failing to load (" + what + ")");
    c.check(r.getActivationDegree() == 0.0 && !r.isTriggered(), "active-after-failure", "an unloaded rule is active");
    fl::Minimum min;
    fl::Maximum max;
    bool raised = false;
    try {
        r.activateWith(&min, &max);
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    }
    c.check(raised, "unloaded-activated", "an unloaded rule was activated");
    raised = false;
    try {
        r.setActivationDegree(1.0);
        r.trigger(&min);
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    }
    c.check(raised && !r.isTriggered(), "unloaded-triggered", "an unloaded rule was triggered");
}

static void checkLoaded(Case& c, fl::Rule& r, const model::Rule& want, const std::string& text) {
    c.check(r.isLoaded(), "not-loaded", "the rule is not loaded: " + text);
    c.checkf(squeeze(r.getAntecedent()->toPostfix()) == postfix(want.antecedent), "antecedent",
        [&] { return "antecedent <" + r.getAntecedent()->toPostfix() + "> instead of <" + postfix(want.antecedent) + ">"; });
    c.checkf(squeeze(r.getConsequent()->toString()) == thenText(want), "consequent",
        [&] { return "consequent <" + r.getConsequent()->toString() + "> instead of <" + thenText(want) + ">"; });
    c.checkf(close(r.getWeight(), want.weight, 0, 1e-12), "weight", [&] { return "weight " + str(r.getWeight()) + " in " + text; });
    c.check(r.isEnabled(), "disabled", "a loaded rule is disabled");
    c.checkf(same(r.getActivationDegree(), 0.0) && !r.isTriggered(), "active", [&] { return "a rule just loaded is active with " + str(r.getActivationDegree()) + (r.isTriggered() ? ", triggered: " : ": ") + text; });
}

static void rules(Case& c, bool blockMode) {
    Src& s = c.src;
    model::GenOptions o;
    o.lockPrevious = false;
    o.maxBlocks = o.maxRules = 1;
    o.takagi = o.tsukamoto = o.hybrid = false;
    o.activations = false;
    o.disabled = false;
    o.maxTerms = 3;
    model::Engine e = model::genEngine(s, o);
    e.blocks.clear();
    EngineP engine = build::engine(e);
    c.note([&] { return model::describe(e); });
    bool nontrivial = false;
    if (!blockMode) {
        fl::Rule rule;
        int steps = s.range(1, 4);
        for (int k = 0; k < steps; ++k) {
            model::Rule r = genRule(s, e, o);
            Tokens t = tokens(model::ruleText(r, &s));
            bool bad = s.coin();
            std::string what;
            if (bad) {
                what = corrupt(s, t, e);
                if (what.empty())
                    bad = false;
            }
            std::string text = layout(t, s);
            if (!bad && s.chance(1, 6))
                text += s.coin() ? " # a comment then with 3" : "#comment";
            c.note([&] { return (bad ? "malformed (" + what + "): " : "well formed: ") + text; });
            if (s.chance(1, 8))
                text = s.oneOf<std::string>({" ", "  ", "\t", "\n"}) + text;
            if (s.chance(1, 8))
                text += s.oneOf<std::string>({" ", "  ", "\t", "\n"});
            double weight = rule.getWeight();
            bool accepted = true;
            std::string error;
            bool viaParse = s.chance(1, 3);
            try {
                if (viaParse) {
                    std::unique_ptr<fl::Rule> p(fl::Rule::parse(text, engine.get()));
                    checkLoaded(c, *p, r, text);
                } else if (s.coin()) {
                    rule.setText(text);
                    rule.load(engine.get());
                } else
                    rule.load(text, engine.get());
            } catch (fl::Exception& x) {
                accepted = false;
                error = x.what();
                c.check(build::says(x), "message", "an exception without a message");
            } catch (std::exception& x) {
                c.fail("other-exception", std::string("not the library's exception: ") + x.what());
            }
            c.checkf(accepted == !bad, bad ? "accepted" : "rejected", [&] {
                return bad ? "malformed rule (" + what + ") accepted: <" + text + ">" : "well-formed rule rejected: <" + text + ">: " + error;
            });
            c.label(bad ? "malformed: " + what : "well formed");
            nontrivial = nontrivial || bad || !r.antecedent->op.empty() || !r.antecedent->prop.hedges.empty();
            if (viaParse)
                continue;
            if (bad) {
                checkUnloaded(c, rule, what);
                c.check(rule.getText() == text, "text", "the text of the rule is not the one that was given");
                c.check(same(rule.getWeight(), weight), "weight-after-failure", "a text that failed to load changed the weight to " + str(rule.getWeight()));
            } else {
                checkLoaded(c, rule, r, text);
                c.check(rule.getText() == text, "text", "the text of the rule is not the one loaded");
                std::unique_ptr<fl::Rule> again(fl::Rule::parse(rule.getText(), engine.get()));
                checkLoaded(c, *again, r, rule.getText());
                std::string shown = fl::FllExporter().toString(&rule);
                if (text.find('\n') == std::string::npos) {
                    c.check(shown.compare(0, 6, "rule: ") == 0, "shown", "displayed text <" + shown + ">");
                    again.reset(fl::Rule::parse(shown.substr(6), engine.get()));
                    checkLoaded(c, *again, r, shown);
                }
                fl::Minimum min;
                fl::Maximum max;
                if (s.coin())
                    rule.activateWith(&min, &max);
                if (s.coin()) {
                    rule.setActivationDegree(0.5);
                    rule.trigger(&min);
                }
                if (s.chance(1, 4)) {
                    bool disabled = s.chance(1, 3);
                    if (disabled)
                        rule.setEnabled(false);
                    rule.unload();
                    c.check(rule.isEnabled() == !disabled, "unload", "unloading a rule enables or disables it");
                    checkUnloaded(c, rule, "unload");
                }
            }
        }
    } else {
        // a block with well-formed and malformed rules loads the former, reports the latter, and processes with the former
        fl::RuleBlock* b = new fl::RuleBlock("b");
        engine->addRuleBlock(b);
        b->setConjunction(new fl::Minimum);
        b->setDisjunction(new fl::Maximum);
        b->setImplication(new fl::Minimum);
        b->setActivation(new fl::General);
        model::Block mb;
        mb.conjunction = "Minimum";
        mb.disjunction = "Maximum";
        mb.implication = "Minimum";
        int n = s.range(1, 5), bads = 0;
        std::vector<bool> isBad;
        std::vector<std::string> texts;
        std::vector<model::Rule> specs;
        for (int i = 0; i < n; ++i) {
            model::Rule r = genRule(s, e, o);
            for (size_t q = 0; q + 1 < r.consequent.size(); ++q)
                r.consequent[q].hedges.clear();
            Tokens t = tokens(model::ruleText(r, &s));
            bool bad = s.chance(1, 3);
            if (bad && corrupt(s, t, e).empty())
                bad = false;
            std::string text = layout(t, s);
            c.note([&] { return (bad ? "malformed: " : "well formed: ") + text; });
            fl::Rule* x = new fl::Rule;
            x->setText(text);
            b->addRule(x);
            isBad.push_back(bad);
            bads += bad;
            r.text = text;
            specs.push_back(r);
            if (!bad)
                mb.rules.push_back(r);
        }
        int rounds = s.range(1, 2);
        for (int k = 0; k < rounds; ++k) {
            bool raised = false;
            for (int i = 0; i < n; ++i)
                if (s.chance(1, 4))
                    b->getRule(i)->setEnabled(false);  // loading enables
            if (k > 0 && s.chance(1, 3)) {
                b->unloadRules();
                for (int i = 0; i < n; ++i)
                    checkUnloaded(c, *b->getRule(i), "unload");
            }
            try {
                if (k == 0)
                    b->loadRules(engine.get());
                else
                    b->reloadRules(engine.get());
            } catch (fl::Exception& x) {
                raised = true;
                c.check(build::says(x), "message", "an exception without a message");
            }
            c.check(raised == (bads > 0), "block-report", "loading a block with " + std::to_string(bads) + " malformed rules " + (raised ? "raised" : "did not raise"));
            for (int i = 0; i < n; ++i) {
                if (isBad[i])
                    c.check(!b->getRule(i)->isLoaded(), "block-loaded", "malformed rule loaded: " + specs[i].text);
                else
                    checkLoaded(c, *b->getRule(i), specs[i], specs[i].text);
            }
        }
        model::Engine good = e;
        good.blocks.push_back(mb);
        model::Machine m(good);
        for (size_t i = 0; i < e.inputs.size(); ++i) {
            double x = model::genInput(s, e.inputs[i]);
            m.setInput(i, x);
            engine->getInputVariable(i)->setValue(x);
            c.note([&] { return "input " + str(x); });
        }
        model::fragile = false;
        m.process();
        try {
            engine->process();
        } catch (fl::Exception& x) {
            c.fail("process", std::string("processing with unloaded rules raised ") + x.what());
        }
        if (!model::fragile)
            for (size_t i = 0; i < e.outputs.size(); ++i) {
                double scale = std::max(1.0, e.outputs[i].max - e.outputs[i].min);
                c.checkf(close(engine->getOutputVariable(i)->getValue(), m.out[i].value, 1e-6, 1e-6 * scale), "contribution", [&] {
                    return "output " + e.outputs[i].name + " = " + str(engine->getOutputVariable(i)->getValue()) + " instead of " + str(m.out[i].value)
                           + ", that of the well-formed rules";
                });
            }
        nontrivial = bads > 0 && bads < n;
        c.label(bads ? "block with malformed rules" : "block");
    }
    c.nontrivial(nontrivial);
}

// antecedents and consequents on their own, loaded again and again
static void parts(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.maxBlocks = o.maxRules = 1;
    o.takagi = o.tsukamoto = o.hybrid = false;
    o.maxTerms = 3;
    model::Engine e = model::genEngine(s, o);
    e.blocks.clear();
    EngineP engine = build::engine(e);
    c.note([&] { return model::describe(e); });
    fl::Antecedent a;
    fl::Consequent q;
    bool failed = false, after = false;
    for (int k = s.range(2, 5); k > 0; --k) {
        model::Rule r = genRule(s, e, o);
        Tokens t = tokens(model::ruleText(r, &s));
        std::string what;
        if (s.coin()) {
            what = corrupt(s, t, e);
            bool inA = what.find("antecedent") != std::string::npos, inC = what.find("consequent") != std::string::npos;
            if (!inA && !inC)
                continue;  // where the error is would not be known
        }
        size_t then = 0, end = t.size();
        while (t[then] != "then")
            ++then;
        if (end > 2 && t[end - 2] == "with")
            end -= 2;
        bool first = what.empty() ? s.coin() : what.find("antecedent") != std::string::npos;
        std::string text = layout(first ? Tokens(t.begin() + 1, t.begin() + then) : Tokens(t.begin() + then + 1, t.begin() + end), s);
        c.note([&] { return std::string(first ? "antecedent " : "consequent ") + (what.empty() ? "well formed: " : "malformed: ") + text; });
        bool accepted = true, direct = s.coin();
        try {
            if (first) {
                a.setText(text);
                direct ? a.load(engine.get()) : a.load(text, engine.get());
            } else {
                q.setText(text);
                direct ? q.load(engine.get()) : q.load(text, engine.get());
            }
        } catch (fl::Exception& x) {
            accepted = false;
            c.check(build::says(x), "message", "an exception without a message");
        }
        c.checkf(accepted == what.empty(), what.empty() ? "rejected" : "accepted", [&] { return (accepted ? "accepted " : "rejected ") + text; });
        bool loaded = first ? a.isLoaded() : q.isLoaded();
        c.checkf(loaded == what.empty(), what.empty() ? "not-loaded" : "loaded-after-failure", [&] { return std::string(loaded ? "loaded" : "not loaded") + " after " + text; });
        c.check((first ? a.getText() : q.getText()) == text, "text", "the text is not the one loaded");
        if (what.empty()) {
            if (first)
                c.checkf(squeeze(a.toPostfix()) == postfix(r.antecedent), "antecedent", [&] { return "antecedent <" + a.toPostfix() + "> from " + text; });
            else
                c.checkf(squeeze(q.toString()) == thenText(r), "consequent", [&] { return "consequent <" + q.toString() + "> from " + text; });
            after = after || failed;
        } else
            failed = true;
        if (s.chance(1, 5)) {
            a.unload();
            q.unload();
            c.check(!a.isLoaded() && !q.isLoaded(), "unload", "loaded after unloading");
        }
    }
    c.nontrivial(failed && after);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P03", {
        {"rules", [](Case& c) { rules(c, false); }, 40000, 1500000, "a malformed rule close to a well-formed one, or a well-formed one with a connective or hedge"},
        {"parts", parts, 15000, 500000, "a part was loaded after one failed to load"},
        {"blocks", [](Case& c) { rules(c, true); }, 20000, 700000, "a block with malformed and well-formed rules"},
    });
}
