#include "build.h"

namespace build {
    using model::Inf;

    static struct Quiet {
        Quiet() { fl::fuzzylite::setLogging(false); }
    } quiet;

    fl::TNorm* tnorm(const std::string& n) {
        if (n.empty()) return nullptr;
        if (n == "Minimum") return new fl::Minimum;
        if (n == "AlgebraicProduct") return new fl::AlgebraicProduct;
        if (n == "BoundedDifference") return new fl::BoundedDifference;
        if (n == "DrasticProduct") return new fl::DrasticProduct;
        if (n == "EinsteinProduct") return new fl::EinsteinProduct;
        if (n == "HamacherProduct") return new fl::HamacherProduct;
        if (n == "NilpotentMinimum") return new fl::NilpotentMinimum;
        throw std::runtime_error("tnorm " + n);
    }
    fl::SNorm* snorm(const std::string& n) {
        if (n.empty()) return nullptr;
        if (n == "Maximum") return new fl::Maximum;
        if (n == "AlgebraicSum") return new fl::AlgebraicSum;
        if (n == "BoundedSum") return new fl::BoundedSum;
        if (n == "DrasticSum") return new fl::DrasticSum;
        if (n == "EinsteinSum") return new fl::EinsteinSum;
        if (n == "HamacherSum") return new fl::HamacherSum;
        if (n == "NilpotentMaximum") return new fl::NilpotentMaximum;
        if (n == "NormalizedSum") return new fl::NormalizedSum;
        if (n == "UnboundedSum") return new fl::UnboundedSum;
        throw std::runtime_error("snorm " + n);
    }
    fl::Norm* norm(const std::string& n) {
        for (auto& t : model::tnorms())
            if (t == n)
                return tnorm(n);
        return snorm(n);
    }
    fl::Defuzzifier* defuzzifier(const model::Variable& v) {
        const std::string& n = v.defuzzifier;
        if (n.empty()) return nullptr;
        if (n == "Centroid") return new fl::Centroid(v.resolution);
        if (n == "Bisector") return new fl::Bisector(v.resolution);
        if (n == "MeanOfMaximum") return new fl::MeanOfMaximum(v.resolution);
        if (n == "SmallestOfMaximum") return new fl::SmallestOfMaximum(v.resolution);
        if (n == "LargestOfMaximum") return new fl::LargestOfMaximum(v.resolution);
        fl::WeightedDefuzzifier* w = nullptr;
        if (n == "WeightedAverage") w = new fl::WeightedAverage;
        else if (n == "WeightedSum") w = new fl::WeightedSum;
        else throw std::runtime_error("defuzzifier " + n);
        w->setType(
            v.weightedType == "TakagiSugeno" ? fl::WeightedDefuzzifier::TakagiSugeno
            : v.weightedType == "Tsukamoto" ? fl::WeightedDefuzzifier::Tsukamoto
                                            : fl::WeightedDefuzzifier::Automatic
        );
        return w;
    }
    fl::Activation* activation(const model::Activation& a) {
        if (a.cls == "General") return new fl::General;
        if (a.cls == "First") return new fl::First(a.n, a.threshold);
        if (a.cls == "Last") return new fl::Last(a.n, a.threshold);
        if (a.cls == "Highest") return new fl::Highest(a.n);
        if (a.cls == "Lowest") return new fl::Lowest(a.n);
        if (a.cls == "Proportional") return new fl::Proportional;
        if (a.cls == "Threshold") {
            typedef fl::Threshold T;
            const std::string& c = a.comparison;
            return new T(
                c == "<" ? T::LessThan : c == "<=" ? T::LessThanOrEqualTo : c == "==" ? T::EqualTo : c == "!=" ? T::NotEqualTo
                : c == ">=" ? T::GreaterThanOrEqualTo : T::GreaterThan,
                a.threshold
            );
        }
        throw std::runtime_error("activation " + a.cls);
    }

    fl::Term* term(const model::Term& t, const fl::Engine* engine) {
        const std::string &c = t.cls, &n = t.name;
        const auto& p = t.p;
        double h = t.height;
        if (c == "Bell") return new fl::Bell(n, p[0], p[1], p[2], h);
        if (c == "Binary") return new fl::Binary(n, p[0], p[1], h);
        if (c == "Concave") return new fl::Concave(n, p[0], p[1], h);
        if (c == "Constant") return new fl::Constant(n, p[0]);
        if (c == "Cosine") return new fl::Cosine(n, p[0], p[1], h);
        if (c == "Discrete") return new fl::Discrete(n, t.xy, h);
        if (c == "Function") return fl::Function::create(n, t.formulaText, engine);
        if (c == "Gaussian") return new fl::Gaussian(n, p[0], p[1], h);
        if (c == "GaussianProduct") return new fl::GaussianProduct(n, p[0], p[1], p[2], p[3], h);
        if (c == "Linear") return new fl::Linear(n, p, engine);
        if (c == "PiShape") return new fl::PiShape(n, p[0], p[1], p[2], p[3], h);
        if (c == "Ramp") return new fl::Ramp(n, p[0], p[1], h);
        if (c == "Rectangle") return new fl::Rectangle(n, p[0], p[1], h);
        if (c == "SShape") return new fl::SShape(n, p[0], p[1], h);
        if (c == "Sigmoid") return new fl::Sigmoid(n, p[0], p[1], h);
        if (c == "SigmoidDifference") return new fl::SigmoidDifference(n, p[0], p[1], p[2], p[3], h);
        if (c == "SigmoidProduct") return new fl::SigmoidProduct(n, p[0], p[1], p[2], p[3], h);
        if (c == "Spike") return new fl::Spike(n, p[0], p[1], h);
        if (c == "Trapezoid") return new fl::Trapezoid(n, p[0], p[1], p[2], p[3], h);
        if (c == "Triangle") return new fl::Triangle(n, p[0], p[1], p[2], h);
        if (c == "ZShape") return new fl::ZShape(n, p[0], p[1], h);
        throw std::runtime_error("term " + c);
    }

    fl::InputVariable* input(const model::Variable& v, const fl::Engine* engine) {
        fl::InputVariable* i = new fl::InputVariable(v.name, v.min, v.max);
        i->setDescription(v.description);
        i->setEnabled(v.enabled);
        i->setLockValueInRange(v.lockRange);
        for (auto& t : v.terms)
            i->addTerm(term(t, engine));
        return i;
    }
    fl::OutputVariable* output(const model::Variable& v, const fl::Engine* engine) {
        fl::OutputVariable* o = new fl::OutputVariable(v.name, v.min, v.max);
        o->setDescription(v.description);
        o->setEnabled(v.enabled);
        o->setLockValueInRange(v.lockRange);
        o->setAggregation(snorm(v.aggregation));
        o->setDefuzzifier(defuzzifier(v));
        o->setDefaultValue(v.defaultValue);
        o->setLockPreviousValue(v.lockPrevious);
        for (auto& t : v.terms)
            o->addTerm(term(t, engine));
        return o;
    }
    fl::RuleBlock* block(const model::Block& b, const fl::Engine* engine) {
        fl::RuleBlock* r = new fl::RuleBlock(b.name);
        r->setDescription(b.description);
        r->setEnabled(b.enabled);
        r->setConjunction(tnorm(b.conjunction));
        r->setDisjunction(snorm(b.disjunction));
        r->setImplication(tnorm(b.implication));
        r->setActivation(activation(b.activation));
        for (auto& rule : b.rules) {
            fl::Rule* x = fl::Rule::parse(rule.text, engine);
            x->setEnabled(rule.enabled);
            r->addRule(x);
        }
        return r;
    }
    EngineP engine(const model::Engine& e) {
        EngineP r(new fl::Engine(e.name, e.description));
        for (auto& v : e.inputs)
            r->addInputVariable(input(v, r.get()));
        for (auto& v : e.outputs)
            r->addOutputVariable(output(v, r.get()));
        for (auto& b : e.blocks)
            r->addRuleBlock(block(b, r.get()));
        return r;
    }

    std::string fllTerm(const model::Term& t) { return "term: " + t.name + " " + t.cls + " " + model::termParameters(t); }

    std::string fll(const model::Engine& e) {
        std::ostringstream o;
        auto num = [](double v) { return model::num(v); };
        o << "Engine: " << e.name << "\n";
        if (!e.description.empty())
            o << "description: " << e.description << "\n";
        auto var = [&](const model::Variable& v) {
            o << (v.output ? "OutputVariable: " : "InputVariable: ") << v.name << "\n";
            if (!v.description.empty())
                o << "  description: " << v.description << "\n";
            o << "  enabled: " << (v.enabled ? "true" : "false") << "\n";
            o << "  range: " << num(v.min) << " " << num(v.max) << "\n";
            o << "  lock-range: " << (v.lockRange ? "true" : "false") << "\n";
            if (v.output) {
                o << "  aggregation: " << (v.aggregation.empty() ? "none" : v.aggregation) << "\n";
                if (v.defuzzifier.empty())
                    o << "  defuzzifier: none\n";
                else if (v.defuzzifier.compare(0, 8, "Weighted") == 0)
                    o << "  defuzzifier: " << v.defuzzifier << " " << v.weightedType << "\n";
                else
                    o << "  defuzzifier: " << v.defuzzifier << " " << v.resolution << "\n";
                o << "  default: " << num(v.defaultValue) << "\n";
                o << "  lock-previous: " << (v.lockPrevious ? "true" : "false") << "\n";
            }
            for (auto& t : v.terms)
                o << "  " << fllTerm(t) << "\n";
        };
        for (auto& v : e.inputs)
            var(v);
        for (auto& v : e.outputs)
            var(v);
        for (auto& b : e.blocks) {
            o << "RuleBlock: " << b.name << "\n";
            if (!b.description.empty())
                o << "  description: " << b.description << "\n";
            o << "  enabled: " << (b.enabled ? "true" : "false") << "\n";
            o << "  conjunction: " << (b.conjunction.empty() ? "none" : b.conjunction) << "\n";
            o << "  disjunction: " << (b.disjunction.empty() ? "none" : b.disjunction) << "\n";
            o << "  implication: " << (b.implication.empty() ? "none" : b.implication) << "\n";
            o << "  activation: " << b.activation.cls;
            if (b.activation.cls == "First" || b.activation.cls == "Last")
                o << " " << b.activation.n << " " << num(b.activation.threshold);
            else if (b.activation.cls == "Highest" || b.activation.cls == "Lowest")
                o << " " << b.activation.n;
            else if (b.activation.cls == "Threshold")
                o << " " << b.activation.comparison << " " << num(b.activation.threshold);
            o << "\n";
            for (auto& r : b.rules)
                o << "  rule: " << r.text << "\n";
        }
        return o.str();
    }

    std::vector<double> outputs(const fl::Engine& e) {
        std::vector<double> r;
        for (size_t i = 0; i < e.numberOfOutputVariables(); ++i)
            r.push_back(e.getOutputVariable(i)->getValue());
        return r;
    }
    void setInputs(fl::Engine& e, const std::vector<double>& x) {
        for (size_t i = 0; i < x.size(); ++i)
            e.getInputVariable(i)->setValue(x[i]);
    }
    std::vector<std::vector<double>> genInputs(pbt::Src& s, const model::Engine& e, int steps, bool nan) {
        std::vector<std::vector<double>> r;
        for (int i = 0; i < steps; ++i) {
            std::vector<double> row;
            for (auto& v : e.inputs)
                row.push_back(nan && s.chance(1, 15) ? model::NaN : model::genInput(s, v));
            r.push_back(row);
        }
        return r;
    }
    Run run(fl::Engine& e, const std::vector<std::vector<double>>& in) {
        Run r;
        for (auto& row : in) {
            try {
                setInputs(e, row);
                e.process();
                r.rows.push_back(outputs(e));
            } catch (fl::Exception& x) {
                r.error = x.what();
                break;
            }
        }
        return r;
    }
    std::string show(const std::vector<double>& v) {
        std::string r = "[";
        for (size_t i = 0; i < v.size(); ++i)
            r += (i ? ", " : "") + pbt::str(v[i]);
        return r + "]";
    }
    std::string diff(const Run& a, const Run& b, double rel, double abs) {
        if (a.error.empty() != b.error.empty())
            return "one run raised an exception: <" + a.error + "> <" + b.error + ">";
        if (a.rows.size() != b.rows.size())
            return "different number of rows";
        for (size_t i = 0; i < a.rows.size(); ++i)
            for (size_t j = 0; j < a.rows[i].size(); ++j)
                if (j >= b.rows[i].size() || !pbt::close(a.rows[i][j], b.rows[i][j], rel, abs))
                    return "row " + std::to_string(i) + ": " + show(a.rows[i]) + " vs " + show(b.rows[i]);
        return "";
    }
    bool says(const fl::Exception& x) {
        std::string text = x.what();
        text = text.substr(0, text.find("{at "));
        return text.find_first_not_of(" \t\r\n") != std::string::npos;
    }

    namespace {
        struct OwnTNorm : fl::TNorm {
            std::string className() const override { return "OwnTNorm"; }
            fl::scalar compute(fl::scalar a, fl::scalar b) const override { return a * b * (a + b) / 2; }
            fl::TNorm* clone() const override { return new OwnTNorm(*this); }
            static fl::TNorm* constructor() { return new OwnTNorm; }
        };
        struct OwnSNorm : fl::SNorm {
            std::string className() const override { return "OwnSNorm"; }
            fl::scalar compute(fl::scalar a, fl::scalar b) const override { return 1 - (1 - a) * (1 - b) * (2 - a - b) / 2; }
            fl::SNorm* clone() const override { return new OwnSNorm(*this); }
            static fl::SNorm* constructor() { return new OwnSNorm; }
        };
        struct OwnDefuzzifier : fl::Defuzzifier {
            std::string className() const override { return "OwnDefuzzifier"; }
            fl::scalar defuzzify(const fl::Term* t, fl::scalar a, fl::scalar b) const override { return (a + b) / 2 + t->membership((a + b) / 2); }
            fl::Defuzzifier* clone() const override { return new OwnDefuzzifier(*this); }
            static fl::Defuzzifier* constructor() { return new OwnDefuzzifier; }
        };
    }
    Own::Own() {
        auto* f = fl::FactoryManager::instance();
        f->tnorm()->registerConstructor("OwnTNorm", &OwnTNorm::constructor);
        f->snorm()->registerConstructor("OwnSNorm", &OwnSNorm::constructor);
        f->defuzzifier()->registerConstructor("OwnDefuzzifier", &OwnDefuzzifier::constructor);
    }
    Own::~Own() {
        auto* f = fl::FactoryManager::instance();
        f->tnorm()->deregisterConstructor("OwnTNorm");
        f->snorm()->deregisterConstructor("OwnSNorm");
        f->defuzzifier()->deregisterConstructor("OwnDefuzzifier");
    }
    void Own::replace(pbt::Src& s, fl::Engine& e) const {
        bool c = s.coin(), d = s.coin(), i = s.coin(), a = s.coin(), z = s.chance(1, 3);
        for (auto* b : e.ruleBlocks()) {
            if (c)
                b->setConjunction(new OwnTNorm);
            if (d)
                b->setDisjunction(new OwnSNorm);
            if (i)
                b->setImplication(new OwnTNorm);
        }
        for (auto* o : e.outputVariables()) {
            if (a)
                o->setAggregation(new OwnSNorm);
            if (z)
                o->setDefuzzifier(new OwnDefuzzifier);
        }
    }
}
