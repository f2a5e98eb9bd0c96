// P44: configurations that mean the same give the same results, whatever their names, order, layout, units or redundant parts.
#include "build.h"
#include <algorithm>
using namespace pbt;
using model::CondP;

// ---------------------------------------------------------------- rewriting
static CondP mapCond(const CondP& c, const std::function<void(model::Proposition&)>& f) {
    CondP r = std::make_shared<model::Cond>(*c);
    if (c->op.empty())
        f(r->prop);
    else {
        r->left = mapCond(c->left, f);
        r->right = mapCond(c->right, f);
    }
    return r;
}
static void mapRules(model::Engine& e, const std::function<void(model::Rule&)>& f) {
    for (auto& b : e.blocks)
        for (auto& r : b.rules)
            f(r);
}
static model::ExprP mapExpr(const model::ExprP& x, const std::map<std::string, std::string>& names) {
    model::ExprP r = std::make_shared<model::Expr>(*x);
    if (r->kind == model::Expr::Variable && names.count(r->name))
        r->name = names.at(r->name);
    for (auto& a : r->args)
        a = mapExpr(a, names);
    return r;
}
template <class T>
static void shuffle(Src& s, std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i)
        std::swap(v[i - 1], v[s.u((uint32_t)i)]);
}

// other names for everything
static bool renamed(Src& s, model::Engine& e) {
    std::map<std::string, std::string> variables;
    std::map<std::string, std::map<std::string, std::string>> terms;
    int n = 0;
    // some names start with others, or are like words of the language
    static const std::vector<std::string> stems = {"v", "very", "iff", "not_", "any1", "and_", "A", "_", "is_", "sinx", "then1", "piece", "o", "withal", "xx"};
    std::string last;
    bool shared = s.coin();
    auto name = [&] {
        std::string other = last;  // names that differ only in case
        for (auto& c : other)
            c = std::islower((unsigned char)c) ? std::toupper((unsigned char)c) : std::tolower((unsigned char)c);
        bool swapped = other != last && s.chance(1, 5);
        last = swapped ? other : s.oneOf(stems) + std::to_string(++n);
        std::string r = last;
        if (swapped)
            last.clear();
        return r;
    };
    auto list = [&](std::vector<model::Variable>& vs) {
        for (auto& v : vs) {
            variables[v.name] = name();
            int k = 0;  // terms of different variables may share their names, also with a variable
            for (auto& t : v.terms)
                terms[v.name][t.name] = !shared ? name() : k++ ? "t" + std::to_string(k) : variables.begin()->second;
        }
    };
    list(e.inputs);
    list(e.outputs);
    auto rename = [&](model::Proposition& p) {
        if (!p.term.empty())
            p.term = terms[p.var][p.term];
        p.var = variables[p.var];
    };
    mapRules(e, [&](model::Rule& r) {
        r.antecedent = mapCond(r.antecedent, rename);
        for (auto& p : r.consequent)
            rename(p);
    });
    auto apply = [&](std::vector<model::Variable>& vs) {
        for (auto& v : vs) {
            for (auto& t : v.terms) {
                t.name = terms[v.name][t.name];
                if (t.cls == "Function") {
                    t.formula = mapExpr(t.formula, variables);
                    t.formulaText = model::infix(t.formula);
                }
            }
            v.name = variables[v.name];
            v.description = "";
        }
    };
    apply(e.inputs);
    apply(e.outputs);
    for (auto& b : e.blocks)
        b.name = name();
    e.name = name();
    return true;
}
// another order of inputs, of terms in their variables, and of outputs
static bool reordered(Src& s, model::Engine& e, std::vector<size_t>& inputs, std::vector<size_t>& outputs) {
    bool linear = false, read = false;
    for (auto& v : e.outputs)
        for (auto& t : v.terms)
            linear = linear || t.cls == "Linear";
    std::set<std::string> names;
    for (auto& v : e.outputs)
        names.insert(v.name);
    mapRules(e, [&](model::Rule& r) { mapCond(r.antecedent, [&](model::Proposition& p) { read = read || names.count(p.var); }); });
    auto by = [&](std::vector<model::Variable>& v, std::vector<size_t>& order) {
        shuffle(s, order);
        std::vector<model::Variable> r;
        for (size_t i : order)
            r.push_back(v[i]);
        v = r;
    };
    if (!linear)
        by(e.inputs, inputs);
    by(e.outputs, outputs);
    for (auto& v : e.inputs)
        shuffle(s, v.terms);
    for (auto& v : e.outputs)
        shuffle(s, v.terms);
    return true;
}
// things that take no part
static bool padded(Src& s, model::Engine& e, size_t& extraInputs, size_t& extraOutputs) {
    bool linear = false;
    for (auto& v : e.outputs)
        for (auto& t : v.terms)
            linear = linear || t.cls == "Linear";
    model::GenOptions o;
    for (int k = s.range(1, 4); k > 0; --k)
        switch (s.u(6)) {
            case 0:
                if (!linear) {
                    model::Variable v;
                    v.name = "unused" + std::to_string(e.inputs.size());
                    if (s.coin())
                        v.terms.push_back(model::genMamdaniTerm(s, "t", 0, 1, o));
                    e.inputs.push_back(v);
                    ++extraInputs;
                }
                break;
            case 1: {
                model::Variable v;
                v.name = "idle" + std::to_string(e.outputs.size());
                v.output = true;
                v.terms.push_back(model::genMamdaniTerm(s, "t", 0, 1, o));
                v.defuzzifier = "Centroid";
                v.aggregation = "Maximum";
                v.resolution = 10;
                e.outputs.push_back(v);
                ++extraOutputs;
                break;
            }
            case 2: {
                auto& vs = s.coin() ? e.inputs : e.outputs;
                model::Variable& v = vs[s.u((uint32_t)vs.size())];
                // at either end; of a kind that the type of the defuzzifier allows
                model::Term t = v.terms.empty() ? model::genMamdaniTerm(s, "t", 0, 1, o) : v.terms[s.u((uint32_t)v.terms.size())];
                t.name = "extra" + std::to_string(v.terms.size()) + "_" + std::to_string(k);
                v.terms.insert(s.coin() ? v.terms.begin() : v.terms.end(), t);
                break;
            }
            case 3: {
                model::Block b;
                b.name = "more";
                b.activation.cls = "General";
                if (s.coin() && !e.blocks[0].rules.empty()) {  // a copy that is disabled
                    b = e.blocks[s.u((uint32_t)e.blocks.size())];
                    b.enabled = false;
                }
                e.blocks.insert(s.coin() ? e.blocks.begin() : e.blocks.end(), b);
                break;
            }
            default: {
                model::Block& b = e.blocks[s.u((uint32_t)e.blocks.size())];
                if (b.activation.cls != "General" || b.rules.empty())
                    break;
                model::Rule r = b.rules[s.u((uint32_t)b.rules.size())];
                if (s.coin())
                    r.enabled = false;
                else
                    r.weight = 0;
                b.rules.insert(b.rules.begin() + s.u((uint32_t)b.rules.size() + 1), r);
            }
        }
    return true;
}
static CondP commuted(Src& s, const CondP& c) {
    if (c->op.empty())
        return c;
    CondP r = std::make_shared<model::Cond>(*c);
    r->left = commuted(s, c->left);
    r->right = commuted(s, c->right);
    if (s.coin())
        std::swap(r->left, r->right);
    return r;
}
static bool hasAny(const model::Proposition& p) { return std::find(p.hedges.begin(), p.hedges.end(), "any") != p.hedges.end(); }
// rules in other words
static bool reworded(Src& s, model::Engine& e) {
    mapRules(e, [&](model::Rule& r) {
        r.antecedent = commuted(s, r.antecedent);
        if (s.chance(1, 3))
            r.antecedent = mapCond(r.antecedent, [&](model::Proposition& p) {
                if (!hasAny(p) && s.chance(1, 3))
                    p.hedges.insert(p.hedges.begin(), 2, "not");
            });
    });
    // a rule with several conclusions is as many rules; blocks are chains of rules
    for (auto& b : e.blocks) {
        if (b.activation.cls != "General" && b.activation.cls != "Threshold")
            continue;
        std::vector<model::Rule> rules;
        for (auto& r : b.rules) {
            bool hedges = false, reads = false;  // the first conclusion may change what the rule reads
            for (auto& p : r.consequent)
                hedges = hedges || !p.hedges.empty();
            mapCond(r.antecedent, [&](model::Proposition& p) { reads = reads || e.find(p.var)->output; });
            if (r.consequent.size() > 1 && !hedges && !reads && s.coin())
                for (auto& p : r.consequent) {
                    model::Rule part = r;
                    part.consequent = {p};
                    rules.push_back(part);
                }
            else
                rules.push_back(r);
        }
        b.rules = rules;
    }
    std::vector<model::Block> blocks;
    for (auto& b : e.blocks) {
        if (b.activation.cls == "General" && b.rules.size() > 1 && s.coin()) {
            size_t at = 1 + s.u((uint32_t)b.rules.size() - 1);
            model::Block x = b, y = b;
            x.rules.resize(at);
            y.rules.erase(y.rules.begin(), y.rules.begin() + at);
            blocks.push_back(x);
            blocks.push_back(y);
        } else
            blocks.push_back(b);
    }
    e.blocks = blocks;
    return true;
}
// "if a or b then c" is "if a then c" and "if b then c"; rules said twice; any order of rules
static bool restructured(Src& s, model::Engine& e) {
    std::set<std::string> outputs;
    bool read = false;
    for (auto& v : e.outputs)
        outputs.insert(v.name);
    mapRules(e, [&](model::Rule& r) { mapCond(r.antecedent, [&](model::Proposition& p) { read = read || outputs.count(p.var); }); });
    for (auto& b : e.blocks) {
        if (b.activation.cls != "General")
            continue;
        auto maximum = [&](const model::Rule& r) {
            for (auto& p : r.consequent) {
                const model::Variable* v = e.find(p.var);
                if (v->aggregation != "Maximum" || v->defuzzifier.compare(0, 8, "Weighted") == 0)
                    return false;
            }
            return true;
        };
        std::vector<model::Rule> rules;
        for (auto& r : b.rules) {
            bool hedges = false;  // not all of them keep the order of degrees
            for (auto& p : r.consequent)
                hedges = hedges || !p.hedges.empty();
            if (r.antecedent->op == "or" && b.disjunction == "Maximum" && maximum(r) && !read && !hedges && b.implication == "Minimum" && r.weight >= 0 && s.chance(3, 4)) {
                model::Rule x = r, y = r;
                x.antecedent = r.antecedent->left;
                y.antecedent = r.antecedent->right;
                rules.push_back(x);
                rules.push_back(y);
            } else
                rules.push_back(r);
            if (maximum(r) && !read && s.chance(1, 4))
                rules.push_back(r);
        }
        if (!read && s.coin())
            shuffle(s, rules);
        b.rules = rules;
    }
    return true;
}
// values in another unit: scaled by a power of two
static void scaled(model::Variable& v, double k) {
    v.min *= k;
    v.max *= k;
    v.defaultValue *= k;
    for (auto& t : v.terms) {
        auto& p = t.p;
        const std::string& c = t.cls;
        if (c == "Discrete")
            for (auto& q : t.xy)
                q.first *= k;
        else if (c == "Bell") {
            p[0] *= k;
            p[1] *= k;
        } else if (c == "Sigmoid") {
            p[0] *= k;
            p[1] /= k;
        } else if (c == "SigmoidDifference" || c == "SigmoidProduct") {
            p[0] *= k;
            p[1] /= k;
            p[2] /= k;
            p[3] *= k;
        } else
            for (auto& q : p)
                q *= k;
    }
}

static bool skipped(const model::Engine& e, const std::vector<std::vector<double>>& rows) {
    model::Machine m(e);
    model::fragile = false;
    for (auto& row : rows) {
        for (size_t i = 0; i < row.size(); ++i)
            m.setInput(i, row[i]);
        m.process();
    }
    return model::fragile;
}

static void equivalent(Case& c, bool large) {
    Src& s = c.src;
    model::GenOptions o;
    o.hedgesAnywhere = true;
    o.randomText = s.coin();
    if (large) {
        o.maxInputs = 9;
        o.maxOutputs = 5;
        o.maxBlocks = 4;
        o.maxRules = 30;
        o.maxTerms = 9;
        o.maxResolution = 20;
    }
    int kind = s.u(6);
    if (kind == 5) {
        o.functions = o.linear = o.takagi = o.tsukamoto = o.hybrid = false;
        o.heights = true;
    }
    if (kind == 4)
        o.lockPrevious = false;
    model::Engine a = model::genEngine(s, o), b = a;
    auto rows = build::genInputs(s, a, s.range(1, 3), true);
    std::vector<size_t> in, out;
    std::vector<double> units(a.outputs.size(), 1);
    auto other = rows;
    size_t extraInputs = 0, extraOutputs = 0;
    for (size_t i = 0; i < a.inputs.size(); ++i)
        in.push_back(i);
    for (size_t i = 0; i < a.outputs.size(); ++i)
        out.push_back(i);
    double tolerance = 1e-9;
    static const char* kinds[] = {"renamed", "reordered", "padded", "reworded", "restructured", "scaled"};
    switch (kind) {
        case 0: renamed(s, b); break;
        case 1: reordered(s, b, in, out); break;
        case 2: padded(s, b, extraInputs, extraOutputs); break;
        case 3: reworded(s, b); break;
        case 4: restructured(s, b); break;
        default:
            for (size_t i = 0; i < b.inputs.size(); ++i) {
                double k = std::pow(2.0, s.range(-1, 6));
                scaled(b.inputs[i], k);
                for (auto& row : other)
                    row[i] *= k;
            }
            for (size_t i = 0; i < b.outputs.size(); ++i) {
                units[i] = std::pow(2.0, s.range(-1, 6));
                scaled(b.outputs[i], units[i]);
            }
    }
    mapRules(b, [&](model::Rule& r) { r.text = model::ruleText(r, s.coin() ? &s : nullptr); });
    c.label(kinds[kind]);
    c.note([&] { return std::string(kinds[kind]) + "\n" + model::describe(a) + "as\n" + model::describe(b); });
    if (kind >= 3 && (skipped(a, rows) || (kind != 4 && skipped(b, other))))
        c.discard();
    EngineP x, y;
    try {
        x = build::engine(a);
        y = build::engine(b);
    } catch (fl::Exception& q) {
        c.fail("rejected", std::string("a valid engine is rejected: ") + q.what());
    }
    int finite = 0;
    for (size_t r = 0; r < rows.size(); ++r) {
        std::vector<double> permuted;
        for (size_t i : in)
            permuted.push_back(other[r][i]);
        for (size_t i = 0; i < extraInputs; ++i)
            permuted.push_back(s.num(-1, 1));
        std::vector<double> want, got;
        try {
            build::setInputs(*x, rows[r]);
            build::setInputs(*y, permuted);
            x->process();
            y->process();
        } catch (fl::Exception& q) {
            c.fail("exception", std::string("process raised ") + q.what());
        }
        for (size_t i = 0; i < out.size(); ++i) {
            double p = x->getOutputVariable(out[i])->getValue() * units[out[i]], q = y->getOutputVariable(i)->getValue();
            double scale = std::max(1.0, b.outputs[i].max - b.outputs[i].min);
            bool exact = kind < 3;
            c.checkf(exact ? same(p, q) : close(p, q, tolerance, tolerance * scale), "results", [&] {
                return "for " + build::show(rows[r]) + " output " + b.outputs[i].name + " is " + str(q) + " instead of " + str(p) + " when " + kinds[kind];
            });
            finite += std::isfinite(p);
        }
        for (size_t i = 0; i < extraOutputs; ++i)
            c.check(std::isnan(y->getOutputVariable(out.size() + i)->getValue()), "idle", "an output without rules has a value");
    }
    c.nontrivial(finite > 0);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P44", {
        {"equivalent", [](Case& c) { equivalent(c, false); }, 30000, 900000, "an output is finite"},
        {"large", [](Case& c) { equivalent(c, true); }, 2500, 80000, "an output is finite"},
    });
}
