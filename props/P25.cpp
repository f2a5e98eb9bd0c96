// P25: copies of engines and components are equal, independent of the original, and outlive it.
#include "build.h"
#include <algorithm>
using namespace pbt;

struct Decimals {
    explicit Decimals(int d) { fl::fuzzylite::setDecimals(d); }
    ~Decimals() { fl::fuzzylite::setDecimals(3); }
};

static std::string fuzzyText(const fl::Aggregated* a, bool evaluate) {
    std::string t = a->getName() + "=" + a->parameters() + ";" + fl::FllExporter().toString(a->getAggregation()) + ";";
    for (auto& x : a->terms()) {
        t += x.toString() + "/" + str(x.getDegree()) + " ";
        if (evaluate && x.getImplication())
            for (double p : {-1.25, 0.1, 0.5, 2.0})
                t += str(x.membership(p)) + " ";
    }
    return t;
}
// everything that an observer sees of an engine. Activation degrees of rules are only part of it when asked for: copies
// start with rules that are not active.
static std::string snapshot(const fl::Engine& e, bool rules) {
    Decimals d(9);
    std::string t = e.toString() + "\n";
    for (size_t i = 0; i < e.numberOfInputVariables(); ++i)
        t += e.getInputVariable(i)->getName() + "=" + str(e.getInputVariable(i)->getValue()) + " " + e.getInputVariable(i)->fuzzyInputValue() + "\n";
    for (size_t i = 0; i < e.numberOfOutputVariables(); ++i) {
        const fl::OutputVariable* o = e.getOutputVariable(i);
        t += o->getName() + "=" + str(o->getValue()) + " previous " + str(o->getPreviousValue()) + " default " + str(o->getDefaultValue()) + " " + fuzzyText(o->fuzzyOutput(), true) + "\n";
        // the terms and the implications are those of this engine
        for (auto& x : o->fuzzyOutput()->terms()) {
            int term = -1, block = x.getImplication() ? -1 : -2;
            for (size_t k = 0; k < o->numberOfTerms(); ++k)
                if (o->getTerm(k) == x.getTerm())
                    term = (int)k;
            for (size_t k = 0; block == -1 && k < e.numberOfRuleBlocks(); ++k)
                if (e.getRuleBlock(k)->getImplication() == x.getImplication())
                    block = (int)k;
            t += " term " + std::to_string(term) + " of block " + std::to_string(block);
        }
        t += "\n";
    }
    for (size_t i = 0; i < e.numberOfRuleBlocks(); ++i) {
        const fl::RuleBlock* b = e.getRuleBlock(i);
        for (size_t r = 0; r < b->numberOfRules(); ++r) {
            const fl::Rule* x = b->getRule(r);
            t += "rule " + std::to_string(i) + "." + std::to_string(r) + (x->isEnabled() ? " on " : " off ") + str(x->getWeight()) + (x->isLoaded() ? " loaded" : " not loaded");
            if (rules)
                t += " " + str(x->getActivationDegree()) + (x->isTriggered() ? " triggered" : "");
            t += "\n";
        }
    }
    return t;
}
static std::string firstDifference(const std::string& a, const std::string& b) {
    std::istringstream x(a), y(b);
    std::string l, m;
    while (true) {
        bool p = !!std::getline(x, l), q = !!std::getline(y, m);
        if (!p && !q)
            return "";
        if (!p || !q || l != m)
            return "<" + (p ? l : "") + "> vs <" + (q ? m : "") + ">";
    }
}

// a change or use of an engine that may be repeated on another
struct Op {
    int kind = 0, i = 0, j = 0;
    double v = 0;
    std::string text;
    std::vector<double> row;
    std::string show() const {
        static const char* names[] = {"process", "rule enabled", "rule weight", "block enabled", "output enabled", "implication", "disjunction", "conjunction", "aggregation", "resolution", "input range",
            "output range", "default", "lock-previous", "term height", "restart", "add rule", "remove rule", "description", "activation", "input enabled", "term formula", "lock-range"};
        return std::string(names[kind]) + " " + std::to_string(i) + " " + std::to_string(j) + " " + pbt::str(v) + " " + text + (row.empty() ? "" : build::show(row));
    }
};
static const int Kinds = 23;

static Op genOp(Src& s, const model::Engine& e) {
    Op o;
    o.kind = s.coin() ? 0 : s.range(1, Kinds - 1);
    o.i = s.range(0, 3);
    o.j = s.range(0, 5);
    o.v = s.num(0, 2);
    static const std::vector<std::string> classes = {"General", "Proportional", "First", "Last", "Highest", "Lowest", "Threshold"};
    if (o.kind == 0)
        o.row = build::genInputs(s, e, 1, true)[0];
    else if (o.kind == 5 || o.kind == 7)
        o.text = s.oneOf(model::tnorms());
    else if (o.kind == 6 || o.kind == 8)
        o.text = s.oneOf(model::snorms());
    else if (o.kind == 18)
        o.text = s.oneOf(std::vector<std::string>{"changed", "", "x y z"});
    else if (o.kind == 19)
        o.text = s.oneOf(classes);
    return o;
}
static void forget(fl::Engine& e) {
    for (auto* o : e.outputVariables())
        o->fuzzyOutput()->clear();
}
// exceptions of processing are part of the result
static std::string apply(const Op& o, fl::Engine& e) {
    auto pick = [](int i, size_t n) { return n ? (int)(i % n) : -1; };
    int in = pick(o.i, e.numberOfInputVariables()), out = pick(o.i, e.numberOfOutputVariables()), b = pick(o.i, e.numberOfRuleBlocks());
    fl::RuleBlock* block = b >= 0 ? e.getRuleBlock(b) : nullptr;
    int r = block ? pick(o.j, block->numberOfRules()) : -1;
    fl::Rule* rule = r >= 0 ? block->getRule(r) : nullptr;
    fl::InputVariable* iv = in >= 0 ? e.getInputVariable(in) : nullptr;
    fl::OutputVariable* ov = out >= 0 ? e.getOutputVariable(out) : nullptr;
    switch (o.kind) {
        case 0:
            try {
                build::setInputs(e, o.row);
                e.process();
            } catch (fl::Exception& x) {
                // where an exception interrupts processing is not described: continue from a definite state
                e.restart();
                return "exception";
            }
            break;
        case 1:
            if (rule)
                rule->setEnabled(!rule->isEnabled());
            break;
        case 2:
            if (rule)
                rule->setWeight(o.v);
            break;
        case 3:
            if (block)
                block->setEnabled(!block->isEnabled());
            break;
        case 4:
            if (ov)
                ov->setEnabled(!ov->isEnabled());
            break;
        case 5:
            if (block) {
                forget(e);
                block->setImplication(build::tnorm(o.text));
            }
            break;
        case 6:
            if (block)
                block->setDisjunction(build::snorm(o.text));
            break;
        case 7:
            if (block)
                block->setConjunction(build::tnorm(o.text));
            break;
        case 8:
            if (ov)
                ov->setAggregation(build::snorm(o.text));
            break;
        case 9:
            if (ov)
                if (fl::IntegralDefuzzifier* d = dynamic_cast<fl::IntegralDefuzzifier*>(ov->getDefuzzifier()))
                    d->setResolution(5 + o.j * 7);
            break;
        case 10:
            if (iv)
                iv->setRange(-o.v, 1 + o.v);
            break;
        case 11:
            if (ov)
                ov->setRange(-o.v, 1 + o.v);
            break;
        case 12:
            if (ov)
                ov->setDefaultValue(o.v);
            break;
        case 13:
            if (ov)
                ov->setLockPreviousValue(!ov->isLockPreviousValue());
            break;
        case 14:
            if (iv && iv->numberOfTerms())
                iv->getTerm(o.j % iv->numberOfTerms())->setHeight(0.25 + o.v / 4);
            break;
        case 15: e.restart(); break;
        case 16:
            if (rule) {
                fl::Rule* copy = fl::Rule::parse(rule->getText(), &e);
                copy->setWeight(o.v);
                e.getRuleBlock(0)->addRule(copy);
            }
            break;
        case 17:
            if (rule)
                delete block->removeRule(r);
            break;
        case 18:
            e.setDescription(o.text);
            e.setName("e" + o.text);
            if (block)
                block->setDescription(o.text);
            if (iv)
                iv->setDescription(o.text);
            break;
        case 19:
            if (block) {
                model::Activation a;
                a.cls = o.text;
                a.n = 1 + o.j % 3;
                a.threshold = o.v / 3;
                block->setActivation(build::activation(a));
            }
            break;
        case 20:
            if (iv)
                iv->setEnabled(!iv->isEnabled());
            break;
        case 21:
            if (ov)
                for (fl::Term* t : ov->terms()) {
                    if (fl::Function* f = dynamic_cast<fl::Function*>(t))
                        f->load("0.25 * " + e.getInputVariable(0)->getName(), &e);
                    else if (fl::Linear* l = dynamic_cast<fl::Linear*>(t)) {
                        std::vector<double> k(l->coefficients());
                        for (double& x : k)
                            x += o.v;
                        l->setCoefficients(k);
                    } else if (fl::Constant* k = dynamic_cast<fl::Constant*>(t))
                        k->setValue(o.v);
                }
            break;
        case 22:
            if (iv)
                iv->setLockValueInRange(!iv->isLockValueInRange());
            break;
    }
    return "";
}

struct Live {
    EngineP engine;
    std::vector<Op> history;
    std::string snap;  // with rules
};

static void engines(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.tall = true;
    o.maxInputs = 2;
    o.maxRules = 4;
    o.maxTerms = 3;
    o.maxResolution = 20;
    o.descriptions = true;
    model::Engine e = model::genEngine(s, o);
    c.note([&] { return model::describe(e); });
    std::vector<Live> live(1);
    live[0].engine = build::engine(e);
    live[0].snap = snapshot(*live[0].engine, true);
    int steps = s.range(3, 14);
    bool copied = false, used = false;
    for (int step = 0; step < steps; ++step) {
        int k = (int)s.u((uint32_t)live.size());
        int what = (int)s.u(10);
        size_t touched = live.size();  // index of the engine whose snapshot may change
        if (what <= 5) {
            Op op = genOp(s, e);
            c.note([&] { return "engine " + std::to_string(k) + ": " + op.show(); });
            apply(op, *live[k].engine);
            live[k].history.push_back(op);
            live[k].snap = snapshot(*live[k].engine, true);
            touched = k;
            used = used || (copied && op.kind == 0);
        } else if (what <= 7 && live.size() < 4) {
            Live n;
            n.history = live[k].history;
            switch (s.u(4)) {
                case 0:
                    c.say("clone of " + std::to_string(k));
                    n.engine.reset(live[k].engine->clone());
                    break;
                case 1:
                    c.say("copy of " + std::to_string(k));
                    n.engine.reset(new fl::Engine(*live[k].engine));
                    break;
                case 2: {
                    c.say("engine moved from a copy of " + std::to_string(k));
                    fl::Engine copy(*live[k].engine);
                    n.engine.reset(new fl::Engine(std::move(copy)));
                    break;
                }
                default:
                    c.say("new engine assigned from " + std::to_string(k));
                    n.engine.reset(new fl::Engine);
                    *n.engine = *live[k].engine;
            }
            c.checkf(snapshot(*n.engine, false) == snapshot(*live[k].engine, false), "equal", [&] { return "the copy differs from its original: " + firstDifference(snapshot(*n.engine, false), snapshot(*live[k].engine, false)); });
            n.snap = snapshot(*n.engine, true);
            live.push_back(std::move(n));
            touched = live.size() - 1;
            copied = true;
        } else if (what == 8) {
            int j = (int)s.u((uint32_t)live.size());
            c.say("assign " + std::to_string(j) + " to " + std::to_string(k));
            if (s.chance(1, 3))
                *live[k].engine = fl::Engine(*live[j].engine);
            else if (j == k && s.coin())
                *live[k].engine = std::move(*live[j].engine);
            else
                *live[k].engine = *live[j].engine;
            live[k].history = live[j].history;
            c.checkf(snapshot(*live[k].engine, false) == snapshot(*live[j].engine, false), "equal",
                [&] { return "the assigned engine differs: " + firstDifference(snapshot(*live[k].engine, false), snapshot(*live[j].engine, false)); });
            live[k].snap = snapshot(*live[k].engine, true);
            touched = k;
            copied = copied || j != k;
        } else if (what == 9 && live.size() > 1) {
            c.say("destroy " + std::to_string(k));
            live.erase(live.begin() + k);
            continue;
        }
        for (size_t i = 0; i < live.size(); ++i)
            if (i != touched) {
                std::string now = snapshot(*live[i].engine, true);
                c.checkf(now == live[i].snap, "independent", [&] { return "engine " + std::to_string(i) + " changed: " + firstDifference(live[i].snap, now); });
            }
    }
    // all behave as an engine built anew and taken through the same history
    auto rows = build::genInputs(s, e, 2);
    for (size_t i = 0; i < live.size(); ++i) {
        EngineP fresh = build::engine(e);
        for (auto& op : live[i].history)
            apply(op, *fresh);
        for (auto& row : rows) {
            Op op;
            op.row = row;
            std::string a = apply(op, *fresh), b = apply(op, *live[i].engine);
            c.checkf(a == b, "behaves", [&] { return "engine " + std::to_string(i) + " and one built anew: <" + b + "> <" + a + ">"; });
            std::string x = snapshot(*live[i].engine, false), y = snapshot(*fresh, false);
            c.checkf(x == y, "behaves", [&] { return "engine " + std::to_string(i) + " differs from one built anew: " + firstDifference(x, y); });
        }
        if (copied && i + 1 < live.size() && s.coin())
            live[i].engine.reset(new fl::Engine);  // destroys the original before the others are used
    }
    c.label(std::to_string(live.size()) + " engines at the end");
    c.nontrivial(copied && used);
}

// ---------------------------------------------------------------- variables on their own
static std::string variableText(const fl::Variable* v) {
    Decimals d(9);
    std::string t = v->toString() + "\n" + str(v->getValue()) + " " + v->getDescription() + " " + str(v->getMinimum()) + " " + str(v->getMaximum()) + (v->isEnabled() ? " on" : " off") + (v->isLockValueInRange() ? " locked\n" : "\n");
    for (auto* x : v->terms())
        for (double p : {-1.25, 0.1, 0.5, 2.0})
            t += str(x->membership(p)) + " ";
    t += v->fuzzify(0.4) + "\n";
    if (auto* o = dynamic_cast<const fl::OutputVariable*>(v)) {
        t += str(o->getPreviousValue()) + " " + str(o->getDefaultValue()) + (o->isLockPreviousValue() ? " locked" : "") + "\n" + fuzzyText(o->fuzzyOutput(), true) + "\n";
        for (auto& a : o->fuzzyOutput()->terms()) {  // activated terms are the terms of this variable
            bool mine = false;
            for (auto* x : o->terms())
                mine = mine || x == a.getTerm();
            t += mine ? "own " : "other ";
        }
        for (auto* x : o->terms())
            t += str(o->fuzzyOutput()->activationDegree(x)) + " ";
        if (o->getDefuzzifier())
            try {
                t += str(o->getDefuzzifier()->defuzzify(o->fuzzyOutput(), o->getMinimum(), o->getMaximum()));
            } catch (fl::Exception&) {
                t += "exception";
            }
    }
    return t;
}
static void changeVariable(Src& s, fl::Variable* v, const std::string& fresh) {
    switch (s.u(7)) {
        case 0: v->setValue(s.num(-1, 2)); break;
        case 1: v->setRange(-3, 4.5); break;
        case 2: v->setName("renamed"); break;
        case 3:
            if (v->numberOfTerms()) {
                v->getTerm(0)->setHeight(0.125);
                v->getTerm(0)->setName("other");
            }
            break;
        case 4: v->addTerm(new fl::Triangle(fresh, 0, 1, 2)); break;
        case 5:
            v->setEnabled(!v->isEnabled());
            v->setLockValueInRange(!v->isLockValueInRange());
            v->setDescription("changed");
            break;
        case 6:
            if (auto* o = dynamic_cast<fl::OutputVariable*>(v)) {
                o->setDefaultValue(17);
                o->setLockPreviousValue(!o->isLockPreviousValue());
                o->setPreviousValue(3.5);
                if (o->numberOfTerms())
                    o->fuzzyOutput()->addTerm(o->getTerm(0), 0.875, nullptr);
                o->setAggregation(nullptr);
                o->setDefuzzifier(new fl::Centroid(3));
            } else if (v->numberOfTerms()) {
                delete v->removeTerm(0);
            }
            break;
    }
}
static void variables(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.tall = true;
    o.maxBlocks = 1;
    o.maxResolution = 20;
    o.functions = s.coin();
    o.linear = false;
    o.descriptions = true;
    model::Engine e = model::genEngine(s, o);
    c.note([&] { return model::describe(e); });
    std::unique_ptr<fl::TNorm> implication(build::tnorm(s.oneOf(model::tnorms())));
    auto make = [&](bool output) -> fl::Variable* {
        if (!output)
            return build::input(e.inputs[s.u((uint32_t)e.inputs.size())], nullptr);
        fl::OutputVariable* v = build::output(e.outputs[s.u((uint32_t)e.outputs.size())], nullptr);
        if (v->numberOfTerms())
            for (int i = s.range(0, 4); i > 0; --i)
                v->fuzzyOutput()->addTerm(v->getTerm(s.u((uint32_t)v->numberOfTerms())), s.unit(), implication.get());
        v->setPreviousValue(s.num(0, 1));
        if (s.chance(1, 5))
            v->setDefuzzifier(nullptr);
        if (s.chance(1, 5))
            v->setAggregation(nullptr);
        if (s.chance(1, 5))
            v->setEnabled(!v->isEnabled());
        return v;
    };
    bool output = s.chance(2, 3);
    std::unique_ptr<fl::Variable> a, b;
    try {
        a.reset(make(output));
    } catch (fl::Exception&) {
        c.discard();  // functions of other variables cannot be loaded without an engine
    }
    a->setValue(s.num(-1, 2));
    std::string before = variableText(a.get());
    auto cast = [](fl::Variable* v) { return dynamic_cast<fl::OutputVariable*>(v); };
    switch (s.u(3)) {
        case 0: b.reset(a->clone()); break;
        case 1:
            if (output)
                b.reset(new fl::OutputVariable(*cast(a.get())));
            else
                b.reset(new fl::InputVariable(*dynamic_cast<fl::InputVariable*>(a.get())));
            break;
        default:
            try {
                b.reset(make(output));
            } catch (fl::Exception&) {
                c.discard();
            }
            bool move = s.chance(1, 3);
            if (output && move)
                *cast(b.get()) = fl::OutputVariable(*cast(a.get()));
            else if (output)
                *cast(b.get()) = *cast(a.get());
            else if (move)
                *dynamic_cast<fl::InputVariable*>(b.get()) = fl::InputVariable(*dynamic_cast<fl::InputVariable*>(a.get()));
            else
                *dynamic_cast<fl::InputVariable*>(b.get()) = *dynamic_cast<fl::InputVariable*>(a.get());
    }
    c.checkf(variableText(b.get()) == before, "equal", [&] { return "the copy differs: " + firstDifference(before, variableText(b.get())); });
    c.check(a->type() == b->type(), "equal", "another type of variable");
    if (s.chance(1, 4)) {  // self assignment
        if (output) {
            fl::OutputVariable& x = *cast(b.get());
            fl::OutputVariable& y = x;
            s.coin() ? x = y : x = std::move(y);
        } else {
            fl::InputVariable& x = *dynamic_cast<fl::InputVariable*>(b.get());
            fl::InputVariable& y = x;
            s.coin() ? x = y : x = std::move(y);
        }
        c.check(variableText(b.get()) == before, "equal", "assignment to itself changed the variable");
    }
    bool first = s.coin();
    fl::Variable* changed = first ? a.get() : b.get();
    for (int i = s.range(0, 3); i > 0; --i)
        changeVariable(s, changed, "fresh" + std::to_string(i));
    fl::Variable* other = first ? b.get() : a.get();
    c.checkf(variableText(other) == before, "independent", [&] { return "changed with the other: " + firstDifference(before, variableText(other)); });
    (first ? a : b).reset();
    c.checkf(variableText(other) == before, "outlives", [&] { return "changed when the other was destroyed: " + firstDifference(before, variableText(other)); });
    bool fuzzy = output && !cast(other)->fuzzyOutput()->isEmpty();
    c.label(output ? (fuzzy ? "activated output" : "output") : "input");
    c.nontrivial(!output || fuzzy);
}

// ---------------------------------------------------------------- rule blocks and rules on their own
static void blocks(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.tall = true;
    o.maxInputs = 2;
    o.maxBlocks = 1;
    o.maxResolution = 20;
    o.descriptions = true;
    model::Engine e = model::genEngine(s, o);
    c.note([&] { return model::describe(e); });
    if (e.blocks.empty() || e.blocks[0].rules.empty())
        c.discard();
    EngineP a = build::engine(e), b = build::engine(e);
    fl::RuleBlock* block = a->getRuleBlock(0);
    std::vector<double> weights;
    for (size_t i = 0; i < block->numberOfRules(); ++i)
        if (s.coin()) {
            block->getRule(i)->setWeight(s.num(0, 1));
            b->getRuleBlock(0)->getRule(i)->setWeight(block->getRule(i)->getWeight());
        }
    // some operators may be missing
    int missing = s.chance(1, 3) ? 1 + (int)s.u(15) : 0;
    auto strip = [&](fl::RuleBlock* x) {
        if (missing & 1)
            x->setConjunction(nullptr);
        if (missing & 2)
            x->setDisjunction(nullptr);
        if (missing & 4)
            x->setImplication(nullptr);
        if (missing & 8)
            x->setActivation(nullptr);
    };
    strip(block);
    strip(b->getRuleBlock(0));
    auto target = [&] {  // a block that is to be replaced, with everything that a block can have
        fl::RuleBlock* x = build::block(e.blocks[0], b.get());
        x->setName("target");
        x->setDescription("target of an assignment");
        x->setEnabled(s.coin());
        x->setConjunction(build::tnorm(s.oneOf(model::tnorms())));
        x->setDisjunction(build::snorm(s.oneOf(model::snorms())));
        x->setImplication(build::tnorm(s.oneOf(model::tnorms())));
        x->setActivation(new fl::Threshold(">", 0.25));
        return x;
    };
    auto rows = build::genInputs(s, e, 3);
    if (s.coin())
        build::run(*a, rows);
    auto text = [](fl::RuleBlock* r) {
        Decimals d(9);
        std::string t = r->toString();
        for (auto* x : r->rules())
            t += "\n" + x->getText() + (x->isEnabled() ? " on " : " off ") + str(x->getWeight());
        return t;
    };
    std::string before = text(block);
    // the copied block, or a block of copied rules, replaces the block of another engine
    std::unique_ptr<fl::RuleBlock> copy;
    switch (s.u(5)) {
        case 0: copy.reset(block->clone()); break;
        case 1: copy.reset(new fl::RuleBlock(*block)); break;
        case 2:
            copy.reset(target());
            *copy = *block;
            break;
        case 3:
            copy.reset(target());
            *copy = fl::RuleBlock(*block);
            break;
        default:
            copy.reset(new fl::RuleBlock(block->getName(), std::vector<fl::Rule*>(), block->getActivation() ? block->getActivation()->clone() : nullptr,
                block->getConjunction() ? block->getConjunction()->clone() : nullptr, block->getDisjunction() ? block->getDisjunction()->clone() : nullptr,
                block->getImplication() ? block->getImplication()->clone() : nullptr));
            copy->setEnabled(block->isEnabled());
            copy->setDescription(block->getDescription());
            for (auto* r : block->rules()) {
                if (s.coin())
                    copy->addRule(r->clone());
                else {
                    fl::Rule* x = fl::Rule::parse(r->getText(), b.get());
                    *x = *r;
                    copy->addRule(x);
                }
            }
    }
    if (s.chance(1, 4)) {
        fl::RuleBlock& itself = *copy;
        s.coin() ? *copy = itself : *copy = std::move(itself);
    }
    c.checkf(text(copy.get()) == before, "equal", [&] { return "the copy differs: " + firstDifference(before, text(copy.get())); });
    for (size_t i = 0; i < block->numberOfRules(); ++i)
        c.check(block->getRule(i)->isLoaded(), "independent", "a rule of the original is no longer loaded");
    // the original goes away, or changes
    bool destroyed = s.coin();
    if (destroyed)
        a.reset();
    else {
        for (auto* r : block->rules()) {
            r->setEnabled(!r->isEnabled());
            r->setWeight(17);
            r->setText("if nothing");
        }
        block->setImplication(nullptr);
        block->setConjunction(nullptr);
        block->setActivation(nullptr);
        block->setName("changed");
        block->setDescription("changed");
        block->setEnabled(!block->isEnabled());
    }
    c.checkf(text(copy.get()) == before, "independent", [&] { return "changed with the original: " + firstDifference(before, text(copy.get())); });
    std::vector<std::pair<bool, double>> state;
    for (auto* r : copy->rules())
        state.push_back({r->isEnabled(), r->getWeight()});
    copy->loadRules(b.get());
    for (size_t i = 0; i < state.size(); ++i) {  // loading sets these from the text
        copy->getRule(i)->setEnabled(state[i].first);
        copy->getRule(i)->setWeight(state[i].second);
    }
    EngineP fresh = build::engine(e);
    strip(fresh->getRuleBlock(0));
    for (size_t i = 0; i < state.size(); ++i)
        fresh->getRuleBlock(0)->getRule(i)->setWeight(state[i].second);
    delete b->removeRuleBlock(0);
    b->addRuleBlock(copy.release());
    std::string d = build::diff(build::run(*fresh, rows), build::run(*b, rows), 0, 0);
    c.check(d.empty(), "behaves", "the engine with the copied block: " + d);
    c.label(destroyed ? "original destroyed" : "original changed");
    c.nontrivial();
}

// ---------------------------------------------------------------- smaller components
static void components(Case& c) {
    Src& s = c.src;
    model::GenOptions o;
    o.tall = true;
    o.maxResolution = 20;
    Decimals dec(9);
    int kind = (int)s.u(7);
    static const char* kinds[] = {"term", "formula", "norm", "defuzzifier", "activation", "hedge", "fuzzy output"};
    c.label(kinds[kind]);
    fl::Engine e;
    e.addInputVariable(new fl::InputVariable("a", 0, 1));
    e.addInputVariable(new fl::InputVariable("b", 0, 1));
    e.getInputVariable(0)->setValue(s.num(-1, 1));
    e.getInputVariable(1)->setValue(s.num(-1, 1));
    std::vector<double> at = {model::NaN, -1.25, 0, 0.1, 0.5, 0.75, 2, s.num(-2, 3)};
    auto text = [&](const fl::Term* t) {
        std::string r = t->toString() + " " + t->className() + " " + t->getName() + " " + str(t->getHeight());
        for (double x : at)
            try {
                r += " " + str(t->membership(x));
            } catch (fl::Exception&) {
                r += " exception";
            }
        if (t->isMonotonic())
            for (double y : {0.1, 0.5, 0.9})
                r += " " + str(t->tsukamoto(y));
        return r;
    };
    c.nontrivial();
    if (kind == 0) {
        static const std::vector<std::string> all = {"Bell", "Binary", "Concave", "Constant", "Cosine", "Discrete", "Function", "Gaussian", "GaussianProduct", "Linear", "PiShape", "Ramp", "Rectangle", "SShape",
            "Sigmoid", "SigmoidDifference", "SigmoidProduct", "Spike", "Trapezoid", "Triangle", "ZShape"};
        std::string cls = s.oneOf(all);
        auto make = [&](const std::string& name) {
            if (cls == "Function") {
                fl::Function* f = fl::Function::create(name, s.coin() ? "a * x + sin(b) ^ 2" : "max(a, x) - k", &e);
                return (fl::Term*)f;
            }
            if (cls == "Linear")
                return (fl::Term*)new fl::Linear(name, {s.num(-1, 1), s.num(-1, 1), s.num(-1, 1)}, &e);
            return build::term(model::genTerm(s, cls, name, 0, 1, o), &e);
        };
        std::unique_ptr<fl::Term> a, b;
        try {
            a.reset(make("t"));
        } catch (fl::Exception&) {
            // k is an own variable of the term
            fl::Function* f = new fl::Function("t");
            f->variables["k"] = s.num(0, 1);
            f->load("max(a, x) - k", &e);
            a.reset(f);
        }
        std::string before = text(a.get());
        c.note([&] { return before; });
        b.reset(a->clone());
        c.checkf(text(b.get()) == before, "equal", [&] { return "the copy is " + text(b.get()); });
        if (auto* f = dynamic_cast<fl::Function*>(b.get()))
            c.check(f->getEngine() == static_cast<fl::Function*>(a.get())->getEngine(), "equal", "the copy of a function has lost its engine");
        if (auto* l = dynamic_cast<fl::Linear*>(b.get()))
            c.check(l->getEngine() == static_cast<fl::Linear*>(a.get())->getEngine(), "equal", "the copy of a linear term has lost its engine");
        bool first = s.coin();
        std::unique_ptr<fl::Term>&gone = first ? a : b, &stays = first ? b : a;
        gone->setName("changed");
        gone->setHeight(0.375);
        if (fl::Function* f = dynamic_cast<fl::Function*>(gone.get())) {
            f->variables["k"] = 100;
            f->setFormula("x");
            if (s.coin())
                f->load();
        } else if (fl::Discrete* d = dynamic_cast<fl::Discrete*>(gone.get()))
            d->setXY({{0, 1}, {1, 0}});
        else if (fl::Linear* l = dynamic_cast<fl::Linear*>(gone.get()))
            l->setCoefficients({1, 2, 3});
        else
            try {
                gone->configure("0.125 0.25 0.375 0.5");
            } catch (fl::Exception&) {}
        c.checkf(text(stays.get()) == before, "independent", [&] { return before + " became " + text(stays.get()); });
        gone.reset();
        c.checkf(text(stays.get()) == before, "outlives", [&] { return before + " became " + text(stays.get()); });
    } else if (kind == 1) {
        fl::Function f("f");
        f.variables["k"] = s.num(0, 1);
        f.load(s.oneOf(std::vector<std::string>{"a + b * k", "sin(a) ^ 2 - k", "!gt(a, k) or ge(b, 0)", "max(k, a) % 2"}), &e);
        std::string before = text(&f) + f.root()->toPostfix() + f.root()->toInfix() + f.root()->toPrefix();
        fl::Function* g = s.coin() ? f.clone() : new fl::Function;
        std::unique_ptr<fl::Function> keep(g);
        if (!g->isLoaded())
            *g = f;
        std::unique_ptr<fl::Function::Node> node(f.root()->clone());
        std::string t = text(g) + g->root()->toPostfix() + g->root()->toInfix() + g->root()->toPrefix();
        c.check(t == before, "equal", before + " copied as " + t);
        c.check(g->getEngine() == &e, "equal", "the copy of a function has lost its engine");
        g->load();
        c.check(text(g) == text(&f), "equal", "loaded again: " + text(g) + " instead of " + text(&f));
        double v = f.evaluate();
        g->variables["k"] = 55;
        g->load("x");
        c.check(same(f.evaluate(), v), "independent", "the formula changed");
        std::map<std::string, double> vars = f.variables;
        std::string post = f.root()->toPostfix();
        f.unload();
        c.check(node->toPostfix() == post, "outlives", "the node became " + node->toPostfix());
        c.check(same(node->evaluate(&vars), v), "outlives", "the node yields " + str(node->evaluate(&vars)));
    } else if (kind == 2) {
        bool tn = s.coin();
        bool fn = s.chance(1, 3);
        std::string n = s.oneOf(tn ? model::tnorms() : model::snorms());
        std::unique_ptr<fl::Norm> a(fn ? (tn ? (fl::Norm*)new fl::TNormFunction("a * b - 0.125") : (fl::Norm*)new fl::SNormFunction("max(a, b) + 0.125")) : build::norm(n));
        double x = s.unit(), y = s.unit(), v = a->compute(x, y);
        std::string cls = a->className();
        std::unique_ptr<fl::Norm> b(a->clone());
        c.check(b->className() == cls && same(b->compute(x, y), v), "equal", cls + " copied as " + b->className() + " with " + str(b->compute(x, y)));
        if (fn && s.coin()) {
            if (auto* t = dynamic_cast<fl::TNormFunction*>(a.get()))
                t->function().load("a + b + 1");
            else if (auto* u = dynamic_cast<fl::SNormFunction*>(a.get()))
                u->function().load("a + b + 1");
            c.check(same(b->compute(x, y), v), "independent", "the copy changed");
        }
        a.reset();
        c.check(same(b->compute(x, y), v), "outlives", "the copy changed");
    } else if (kind == 3) {
        model::Variable v;
        v.defuzzifier = s.oneOf(std::vector<std::string>{"Bisector", "Centroid", "LargestOfMaximum", "MeanOfMaximum", "SmallestOfMaximum", "WeightedAverage", "WeightedSum"});
        v.resolution = s.range(1, 500);
        v.weightedType = s.oneOf(std::vector<std::string>{"Automatic", "TakagiSugeno", "Tsukamoto"});
        std::unique_ptr<fl::Defuzzifier> a(build::defuzzifier(v)), b(a->clone());
        std::string before = fl::FllExporter().toString(a.get());
        c.check(fl::FllExporter().toString(b.get()) == before, "equal", before + " copied as " + fl::FllExporter().toString(b.get()));
        bool first = s.coin();
        std::unique_ptr<fl::Defuzzifier>&gone = first ? a : b, &stays = first ? b : a;
        if (auto* i = dynamic_cast<fl::IntegralDefuzzifier*>(gone.get()))
            i->setResolution(777);
        else
            dynamic_cast<fl::WeightedDefuzzifier*>(gone.get())->setType(fl::WeightedDefuzzifier::TakagiSugeno);
        c.check(fl::FllExporter().toString(stays.get()) == before, "independent", "the other changed");
    } else if (kind == 4) {
        model::Activation m;
        m.cls = s.oneOf(std::vector<std::string>{"General", "Proportional", "First", "Last", "Highest", "Lowest", "Threshold"});
        m.n = s.range(1, 9);
        m.threshold = s.unit();
        m.comparison = s.oneOf(std::vector<std::string>{"<", "<=", "==", "!=", ">=", ">"});
        std::unique_ptr<fl::Activation> a(build::activation(m)), b(a->clone());
        std::string before = fl::FllExporter().toString(a.get());
        c.check(fl::FllExporter().toString(b.get()) == before, "equal", before + " copied as " + fl::FllExporter().toString(b.get()));
        bool first = s.coin();
        std::unique_ptr<fl::Activation>&gone = first ? a : b, &stays = first ? b : a;
        if (m.cls == "First" || m.cls == "Last")
            gone->configure("15 0.123");
        else if (m.cls == "Threshold")
            gone->configure("== 0.123");
        else if (m.cls == "Highest" || m.cls == "Lowest")
            gone->configure("15");
        c.check(fl::FllExporter().toString(stays.get()) == before, "independent", "the other changed");
    } else if (kind == 5) {
        std::string n = s.oneOf(model::hedges());
        std::unique_ptr<fl::Hedge> a(s.chance(1, 4) ? new fl::HedgeFunction("x ^ 3") : fl::FactoryManager::instance()->hedge()->constructObject(n)), b(a->clone());
        double x = s.unit(), v = a->hedge(x);
        std::string name = a->name();
        c.check(b->name() == name && same(b->hedge(x), v), "equal", name + " copied as " + b->name());
        if (auto* h = dynamic_cast<fl::HedgeFunction*>(a.get()))
            h->function().load("x + 1");
        c.check(same(b->hedge(x), v), "independent", "the copy changed");
        a.reset();
        c.check(same(b->hedge(x), v), "outlives", "the copy changed");
    } else {
        std::vector<std::unique_ptr<fl::Term>> terms;
        std::unique_ptr<fl::TNorm> imp(build::tnorm(s.oneOf(model::tnorms())));
        auto fill = [&](fl::Aggregated& a) {
            a.setAggregation(s.chance(1, 5) ? nullptr : build::snorm(s.oneOf(model::snorms())));
            for (int i = s.range(0, 4); i > 0; --i) {
                terms.emplace_back(build::term(model::genMamdaniTerm(s, "t" + std::to_string(terms.size()), 0, 1, o), nullptr));
                a.addTerm(terms.back().get(), s.unit(), imp.get());
            }
        };
        fl::Aggregated* a = new fl::Aggregated("f", 0, 1);
        std::unique_ptr<fl::Aggregated> keepA(a), keepB;
        fill(*a);
        std::string before = text(a) + fuzzyText(a, true) + str(a->getMinimum()) + str(a->getMaximum());
        c.note([&] { return before; });
        if (s.coin())
            keepB.reset(a->clone());
        else {
            keepB.reset(new fl::Aggregated("g", 2, 3));
            fill(*keepB);
            *keepB = *a;
        }
        auto all = [&](fl::Aggregated* x) { return text(x) + fuzzyText(x, true) + str(x->getMinimum()) + str(x->getMaximum()); };
        c.checkf(all(keepB.get()) == before, "equal", [&] { return before + " copied as " + all(keepB.get()); });
        bool first = s.coin();
        std::unique_ptr<fl::Aggregated>&gone = first ? keepA : keepB, &stays = first ? keepB : keepA;
        if (!gone->isEmpty()) {
            fl::Activated act(gone->getTerm(0));
            std::string t = act.toString();
            fl::Activated other(nullptr);
            other = act;
            act.setDegree(55);
            c.check(other.toString() == t, "independent", "the copy of an activated term changed");
            gone->terms()[0].setDegree(0.0625);
        }
        gone->setRange(-7, 8);
        gone->setAggregation(nullptr);
        gone->setName("changed");
        gone->clear();
        c.checkf(all(stays.get()) == before, "independent", [&] { return before + " became " + all(stays.get()); });
        gone.reset();
        c.checkf(all(stays.get()) == before, "outlives", [&] { return before + " became " + all(stays.get()); });
    }
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P25", {
        {"engines", engines, 6000, 250000, "an engine processed inputs after a copy was made"},
        {"variables", variables, 12000, 600000, "an input variable, or an output variable whose fuzzy output has activated terms"},
        {"blocks", blocks, 5000, 250000, "all"},
        {"components", components, 30000, 1000000, "all"},
    });
}
