// P17: native-language texts are read by their documented meaning.
#include "build.h"
#include <set>
using namespace pbt;

struct Line {
    std::string key, value;
};
struct Component {
    std::string tag, name;
    std::vector<Line> props;  // any order, except that terms and rules keep theirs
};

static std::string spaces(Src& s) { return std::string(1 + (s.chance(1, 4) ? s.u(4) : 0), ' '); }

static std::vector<Component> components(Src& s, const model::Engine& e, bool variations) {
    std::vector<Component> r;
    auto text = [&](const std::vector<std::string>& w) {
        std::string t;
        for (size_t i = 0; i < w.size(); ++i)
            t += (i ? (variations ? spaces(s) : " ") : "") + w[i];
        return t;
    };
    auto num = [&](double v) { return variations ? model::spell(s, v) : model::num(v); };
    auto count = [&](int n) { return variations && s.chance(1, 3) ? model::spell(s, n) : std::to_string(n); };
    auto flag = [](bool b) { return std::string(b ? "true" : "false"); };
    auto term = [&](const model::Term& t) {
        if (t.cls == "Function")
            return t.name + " Function " + t.formulaText;
        std::vector<std::string> w = {t.name, t.cls};
        for (auto& p : t.xy) {
            w.push_back(num(p.first));
            w.push_back(num(p.second));
        }
        for (double p : t.p)
            w.push_back(num(p));
        if (t.cls != "Constant" && t.cls != "Linear" && (t.height != 1 || (variations && s.chance(1, 6))))
            w.push_back(num(t.height));
        return text(w);
    };
    auto opt = [&](Component& c, bool isDefault, const std::string& k, const std::string& v) {
        if (!(isDefault && variations && s.coin()))
            c.props.push_back({k, v});
    };
    auto var = [&](const model::Variable& v) {
        Component c{v.output ? "OutputVariable" : "InputVariable", v.name, {}};
        if (!v.description.empty())
            c.props.push_back({"description", v.description});
        opt(c, v.enabled, "enabled", flag(v.enabled));
        c.props.push_back({"range", text({num(v.min), num(v.max)})});
        opt(c, !v.lockRange, "lock-range", flag(v.lockRange));
        if (v.output) {
            opt(c, v.aggregation.empty(), variations && s.chance(1, 8) ? "accumulation" : "aggregation", v.aggregation.empty() ? "none" : v.aggregation);
            if (v.defuzzifier.empty())
                opt(c, true, "defuzzifier", "none");
            else if (v.defuzzifier.compare(0, 8, "Weighted") == 0) {
                if (v.weightedType == "Automatic" && variations && s.coin())
                    c.props.push_back({"defuzzifier", v.defuzzifier});
                else
                    c.props.push_back({"defuzzifier", text({v.defuzzifier, v.weightedType})});
            } else
                c.props.push_back({"defuzzifier", text({v.defuzzifier, count(v.resolution)})});
            opt(c, std::isnan(v.defaultValue), "default", num(v.defaultValue));
            opt(c, !v.lockPrevious, variations && s.chance(1, 8) ? "lock-valid" : "lock-previous", flag(v.lockPrevious));
        }
        for (auto& t : v.terms)
            c.props.push_back({"term", term(t)});
        return c;
    };
    for (auto& v : e.inputs)
        r.push_back(var(v));
    for (auto& v : e.outputs)
        r.push_back(var(v));
    for (auto& b : e.blocks) {
        Component c{"RuleBlock", b.name, {}};
        if (!b.description.empty())
            c.props.push_back({"description", b.description});
        opt(c, b.enabled, "enabled", flag(b.enabled));
        opt(c, b.conjunction.empty(), "conjunction", b.conjunction.empty() ? "none" : b.conjunction);
        opt(c, b.disjunction.empty(), "disjunction", b.disjunction.empty() ? "none" : b.disjunction);
        opt(c, b.implication.empty(), !b.implication.empty() && variations && s.chance(1, 8) ? "activation" : "implication", b.implication.empty() ? "none" : b.implication);
        const auto& a = b.activation;
        std::vector<std::string> w = {a.cls};
        if (a.cls == "First" || a.cls == "Last") {
            w.push_back(count(a.n));
            w.push_back(num(a.threshold));
        } else if (a.cls == "Highest" || a.cls == "Lowest")
            w.push_back(count(a.n));
        else if (a.cls == "Threshold") {
            w.push_back(a.comparison);
            w.push_back(num(a.threshold));
        }
        opt(c, a.cls == "General", "activation", text(w));
        for (auto& x : b.rules)
            c.props.push_back({"rule", x.text});
        r.push_back(c);
    }
    return r;
}
static void shuffle(Src& s, Component& c) {
    // a random order of properties that keeps the order of terms and of rules
    std::vector<Line> fixed, rest, out;
    for (auto& l : c.props)
        (l.key == "term" || l.key == "rule" ? fixed : rest).push_back(l);
    for (size_t i = 1; i < rest.size(); ++i)
        std::swap(rest[i], rest[s.u(i + 1)]);
    size_t i = 0, j = 0;
    while (i < fixed.size() || j < rest.size()) {
        if (j == rest.size() || (i < fixed.size() && s.coin()))
            out.push_back(fixed[i++]);
        else
            out.push_back(rest[j++]);
    }
    c.props = out;
}
static std::string render(Src& s, const model::Engine& e, const std::vector<Component>& cs, bool layout) {
    std::string r;
    static const std::vector<std::string> comments = {"# comment", "#", "# Engine: other", "#term: x Triangle 1 2 3", "# a: b # c", "## enabled: false"};
    auto line = [&](const std::string& key, const std::string& value) {
        if (!layout) {
            r += key + ": " + value + "\n";
            return;
        }
        if (s.chance(1, 8))
            r += s.oneOf(std::vector<std::string>{"\n", "   \n", "\t\n", "\n\n"});
        if (s.chance(1, 8))
            r += std::string(s.u(3), ' ') + s.oneOf(comments) + "\n";
        r += s.oneOf(std::vector<std::string>{"", "  ", "\t", "      ", " \t"}) + key;
        r += s.oneOf(std::vector<std::string>{": ", ":", " : ", " :  ", ":\t"}) + value;
        if (s.chance(1, 8))
            r += " " + s.oneOf(comments);
        r += s.oneOf(std::vector<std::string>{"\n", "\n", " \n", "\r\n"});
    };
    line("Engine", e.name);
    if (!e.description.empty())
        line("description", e.description);
    for (auto& c : cs) {
        line(c.tag, c.name);
        for (auto& l : c.props)
            line(l.key, l.value);
    }
    if (layout && s.coin() && !r.empty() && r.back() == '\n')
        r.pop_back();
    return r;
}
static model::Engine gen(Src& s) {
    model::GenOptions o;
    o.descriptions = true;
    o.wildDescriptions = true;
    o.randomText = true;
    o.hedgesAnywhere = true;
    o.emptyTermsAllowed = true;
    o.maxResolution = 60;
    model::Engine e = model::genEngine(s, o);
    for (auto& b : e.blocks)
        for (auto& r : b.rules)
            r.enabled = true;
    for (auto& v : e.outputs) {
        if (s.chance(1, 12)) v.defuzzifier = "";
        if (s.chance(1, 12)) v.aggregation = "";
        if (s.chance(1, 30)) v.defaultValue = s.coin() ? model::Inf : -model::Inf;
    }
    for (auto& b : e.blocks)
        if (s.chance(1, 16))
            b.activation.threshold = s.oneOf(std::vector<double>{-0.5, 1.5, 2});
    for (auto& b : e.blocks)
        if (s.chance(1, 12))
            b.conjunction = b.disjunction = b.implication = "";
    return e;
}

static void layouts(Case& c) {
    Src& s = c.src;
    bool fine = s.chance(1, 3);
    build::Precision precision(fine ? 9 : 3);
    model::Engine e = gen(s);
    if (fine)
        model::refine(s, e, true);
    if (s.chance(1, 10))
        model::heavy(s, e);
    auto in = build::genInputs(s, e, 2);
    std::set<std::string> bare;  // components with nothing but their first line
    bool linear = false;
    for (auto& v : e.outputs)
        for (auto& t : v.terms)
            linear = linear || t.cls == "Linear";
    if (s.chance(1, 6)) {
        if (!linear && s.coin()) {
            model::Variable v;
            v.name = "bare_input";
            v.min = -model::Inf;
            v.max = model::Inf;
            e.inputs.push_back(v);
            for (auto& row : in)
                row.push_back(s.num(-1, 1));
            bare.insert(v.name);
        }
        if (s.chance(1, 3)) {
            model::Variable v;
            v.name = "bare_output";
            v.output = true;
            v.min = -model::Inf;
            v.max = model::Inf;
            e.outputs.push_back(v);
            bare.insert(v.name);
        }
        if (bare.empty() || s.coin()) {
            model::Block b;
            b.name = "bare_block";
            e.blocks.insert(s.coin() ? e.blocks.end() : e.blocks.begin(), b);
            bare.insert(b.name);
        }
        if (s.chance(1, 10))
            e.blocks.clear();
    }
    auto cs = components(s, e, true);
    for (auto& x : cs)
        if (bare.count(x.name))
            x.props.clear();
    bool order = s.coin();
    if (order)
        for (auto& x : cs)
            shuffle(s, x);
    // outputs may be declared before inputs when no term needs them
    bool functions = false;
    for (auto& v : e.outputs)
        for (auto& t : v.terms)
            functions = functions || t.cls == "Function";
    if (!functions && s.coin()) {
        std::vector<Component> in, out, other, merged;
        for (auto& x : cs)
            (x.tag == "InputVariable" ? in : x.tag == "OutputVariable" ? out : other).push_back(x);
        size_t i = 0, j = 0;
        while (i < in.size() || j < out.size()) {
            if (j == out.size() || (i < in.size() && s.coin()))
                merged.push_back(in[i++]);
            else
                merged.push_back(out[j++]);
        }
        merged.insert(merged.end(), other.begin(), other.end());
        cs = merged;
    }
    std::string text = render(s, e, cs, true);
    c.note([&] { return text; });
    EngineP a(build::engine(e)), b;
    if (fine)
        fl::fuzzylite::setDecimals(s.u(4));  // no matter for what is read
    try {
        b.reset(fl::FllImporter().fromString(text));
    } catch (fl::Exception& x) {
        c.fail("rejected", std::string("text is rejected: ") + x.what());
    }
    fl::fuzzylite::setDecimals(fine ? 9 : 3);
    std::string ta = fl::FllExporter().toString(a.get()), tb = fl::FllExporter().toString(b.get());
    c.checkf(ta == tb, "meaning", [&] { return "the imported engine is\n" + tb + "\ninstead of\n" + ta; });
    auto ra = build::run(*a, in);
    std::string diff = build::diff(ra, build::run(*b, in), 1e-12, 1e-12);
    c.check(diff.empty(), "behaviour", "the imported engine behaves differently: " + diff);
    bool finite = false;
    for (auto& row : ra.rows)
        for (double y : row)
            finite = finite || std::isfinite(y);
    c.nontrivial(true);
    c.label(order ? "reordered" : "in order");
    c.label(bare.empty() ? "with properties" : "bare components");
    c.label(finite ? "finite outputs" : "no finite outputs");
}

static void corrupted(Case& c) {
    Src& s = c.src;
    model::Engine e = gen(s);
    auto cs = components(s, e, false);
    std::string kind, raw;
    auto pickLine = [&](const std::function<bool(const Component&, const Line&)>& f) -> Line* {
        std::vector<Line*> r;
        for (auto& x : cs)
            for (auto& l : x.props)
                if (f(x, l))
                    r.push_back(&l);
        return r.empty() ? nullptr : s.oneOf(r);
    };
    auto keyed = [&](const std::vector<std::string>& keys) {
        return pickLine([&](const Component&, const Line& l) {
            for (auto& k : keys)
                if (l.key == k)
                    return true;
            return false;
        });
    };
    Line* l = nullptr;
    switch (s.u(13)) {
        case 0:
            l = pickLine([](const Component&, const Line&) { return true; });
            if (l)
                l->key = s.oneOf(std::vector<std::string>{"unknown", "Range", "terms", "enable", "lock", "rules", "weight", "activations", "Term"});
            kind = "unknown property";
            break;
        case 1:
            cs[s.u(cs.size())].tag = s.oneOf(std::vector<std::string>{"Input", "Variable", "inputvariable", "OutputVariables", "Ruleblock", "Block"});
            kind = "unknown component";
            break;
        case 2:
            l = pickLine([](const Component&, const Line& x) { return x.key == "term"; });
            if (l) {
                auto sp = l->value.find(' ');
                auto sp2 = l->value.find(' ', sp + 1);
                l->value = l->value.substr(0, sp) + " " + s.oneOf(std::vector<std::string>{"Unknown", "triangle", "Trapezoidal", "Function2", "none"}) + (sp2 == std::string::npos ? "" : l->value.substr(sp2));
            }
            kind = "unknown term";
            break;
        case 3:
            l = keyed({"conjunction", "disjunction", "implication", "aggregation"});
            if (l)
                l->value = s.oneOf(l->key == "conjunction" || l->key == "implication" ? std::vector<std::string>{"Maximum", "minimum", "AND", "Unknown", "Minimum 1"}
                                                                                      : std::vector<std::string>{"Minimum", "maximum", "OR", "Unknown", "Maximum 1"});
            kind = "unknown norm";
            break;
        case 4:
            l = keyed({"defuzzifier"});
            if (l)
                l->value = s.oneOf(std::vector<std::string>{"centroid", "Unknown 100", "COG", "Mean 10", "WeightedMean", "WeightedSum Unknown", "WeightedAverage tsukamoto", "Centroid abc", "Bisector 1e", "MeanOfMaximum x1"});
            kind = "wrong defuzzifier";
            break;
        case 5:
            l = keyed({"activation"});
            if (l)
                l->value = s.oneOf(std::vector<std::string>{"general", "Unknown", "First one 0.5", "First 1 half", "First 1", "Threshold 0.5", "Threshold => 0.5", "Threshold >= half", "Highest many", "Lowest x", "Last 2", "Last a 1"});
            kind = "wrong activation";
            break;
        case 6:
            l = keyed({"enabled", "lock-range", "lock-previous"});
            if (l)
                l->value = s.oneOf(std::vector<std::string>{"", "True", "yes", "1", "truefalse", "FALSE", "tru"});
            kind = "not a boolean";
            break;
        case 7:
            l = keyed({"range"});
            if (l)
                l->value = s.oneOf(std::vector<std::string>{"", "0", "0 a", "low high", "0,1", "0 1 2", "0..1"});
            kind = "not a range";
            break;
        case 8:
            l = keyed({"default"});
            if (l)
                l->value = s.oneOf(std::vector<std::string>{"", "none", "zero", "0 1", "1.2.3"});
            kind = "not a number";
            break;
        case 9: {
            l = pickLine([](const Component&, const Line& x) { return x.key == "term" && x.value.find("Function") == std::string::npos; });
            if (l) {
                auto sp = l->value.find(' ');
                auto sp2 = l->value.find(' ', sp + 1);
                std::string head = l->value.substr(0, sp2);
                switch (s.u(3)) {
                    case 0: l->value = head.substr(0, sp); break;
                    case 1: l->value = ""; break;
                    default: l->value = head + " abc" + l->value.substr(sp2); break;
                }
            }
            kind = "wrong parameters of a term";
            break;
        }
        case 10:
            raw = s.oneOf(std::vector<std::string>{"enabled true", "some text", "term", "Engine", "RuleBlock"});
            kind = "line without colon";
            break;
        case 11:
            raw = s.oneOf(std::vector<std::string>{"enabled: true", "term: a Triangle 0 1 2", "rule: if a is b then c is d", "range: 0 1"});
            kind = "property before any component";
            break;
        default: {
            l = pickLine([](const Component&, const Line& x) { return x.key == "term" && x.value.find("Function") != std::string::npos; });
            if (l) {
                auto sp = l->value.find(' ', l->value.find(' ') + 1);
                l->value = l->value.substr(0, sp) + s.oneOf(std::vector<std::string>{" 1 +", " unknownvariable + 1", " sin(", " (1", " 1 2", " foo(3)"});
            }
            kind = "wrong formula of a function";
        }
    }
    if (!l && raw.empty() && kind != "unknown component")
        c.discard();
    std::string text = render(s, e, cs, false);
    if (!raw.empty()) {
        // on a line of its own
        std::vector<size_t> pos = {0};
        for (size_t i = 0; i < text.size(); ++i)
            if (text[i] == '\n')
                pos.push_back(i + 1);
        size_t at = kind[0] == 'p' ? pos[s.u(2)] : s.oneOf(pos);
        text.insert(at, raw + "\n");
    }
    c.note([&] { return kind + (l ? " <" + l->key + ": " + l->value + ">" : " " + raw) + "\n" + text; });
    bool raised = false;
    EngineP b;
    try {
        b.reset(fl::FllImporter().fromString(text));
    } catch (fl::Exception& x) {
        raised = true;
        c.check(build::says(x), "message", "an exception without a message");
    } catch (std::exception& x) {
        c.fail("foreign-exception", kind + " raised " + x.what());
    }
    c.check(raised, "accepted", kind + " is accepted: " + (l ? l->key + ": " + l->value : raw));
    c.nontrivial(true);
    c.label(kind);
}

int main(int argc, char** argv) {
    return pbt::main(argc, argv, "P17", {
        {"layouts", layouts, 12000, 400000, "every text has random layout, omitted defaults or reordered properties"},
        {"corrupted", corrupted, 24000, 400000, "every text has exactly one corruption"},
    });
}
